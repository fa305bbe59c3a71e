package mc

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

func verifDir() string {
	if d := os.Getenv("MC_VERIF"); d != "" {
		return d
	}
	d, _ := filepath.Abs("..")
	return d
}

var registry = map[string]*Check{}

func register(c *Check) {
	registry[c.ID] = c
	if more, ok := longSpaces[c.ID]; ok {
		spaces := c.Spaces
		c.Spaces = func(thorough bool) []*Space { return append(spaces(thorough), more(thorough)...) }
		c.Rule += "; besides, words of these elements are repeated until every 16-bit count has wrapped, and single windows and units are made that long"
	}
	if _, ok := fieldRun[c.ID]; ok {
		spaces := c.Spaces
		c.Spaces = func(thorough bool) []*Space { return append(spaces(thorough), fieldSpaces(c.ID, thorough)...) }
		c.Rule += "; and words of packets in which up to two fields (three in short words) of any packet deviate from the ordinary, whatever the field"
	}
	if more, ok := afRun[c.ID]; ok {
		spaces := c.Spaces
		c.Spaces = func(thorough bool) []*Space { return append(spaces(thorough), more(thorough)...) }
		c.Rule += "; and packets in which up to two or three fields of the header, the adaptation field and its extension deviate from five backgrounds"
	}
	if pesFieldRun[c.ID] != nil || psFieldRun[c.ID] != nil {
		spaces := c.Spaces
		c.Spaces = func(thorough bool) []*Space { return append(spaces(thorough), psFieldSpaces(c.ID, thorough)...) }
		c.Rule += "; and words of packets and packs in which up to two fields (three in short words) of any header deviate from the ordinary, whatever the field"
	}
	if more, ok := crossFields[c.ID]; ok {
		spaces := c.Spaces
		c.Spaces = func(thorough bool) []*Space { return append(spaces(thorough), more(thorough)...) }
		c.Rule += "; the same for words of transport packets, PES packets and packs in which any two fields of any header deviate from the ordinary"
	}
	if more, ok := ambient[c.ID]; ok {
		spaces := c.Spaces
		c.Spaces = func(thorough bool) []*Space { return append(spaces(thorough), more(thorough)...) }
		c.Rule += "; and all pairs of fifty features of a stream (header fields, matrices, coding tools, optional elements, kinds of macroblocks) are turned on in short streams of every coding order"
	}
}

// ---------------------------------------------------------------- known findings

type finding struct {
	Property string `json:"property"`
	ID       string `json:"id"`
	What     string `json:"what"`
}

type findingsFile struct {
	Known []finding `json:"known"`
	Fixed []string  `json:"fixed"`
}

// loadFindings returns the committed known findings of a property.
func loadFindings(id string) map[string]string {
	m := map[string]string{}
	b, err := os.ReadFile(filepath.Join(verifDir(), "known_findings.json"))
	if err != nil {
		return m
	}
	var f findingsFile
	if err := json.Unmarshal(b, &f); err != nil {
		panic("harness: known_findings.json: " + err.Error())
	}
	for _, k := range f.Known {
		if k.Property == id {
			m[k.ID] = k.What
		}
	}
	return m
}

// ---------------------------------------------------------------- heartbeat

const (
	beatSlots = 16
	beatSize  = 4096
)

// beats is a shared memory file that tells the supervising process which execution
// every worker is in, so that a crash or a hang can be attributed and replayed.
type beats struct {
	mem []byte
	seq [beatSlots]uint64
}

func openBeats(path string) (*beats, error) {
	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0o600)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	if err := f.Truncate(beatSlots * beatSize); err != nil {
		return nil, err
	}
	mem, err := syscall.Mmap(int(f.Fd()), 0, beatSlots*beatSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		return nil, err
	}
	return &beats{mem: mem}, nil
}

func (b *beats) slot(w int) []byte { return b.mem[w*beatSize : (w+1)*beatSize] }

func put64(p []byte, v uint64) {
	for i := 0; i < 8; i++ {
		p[i] = byte(v >> (8 * i))
	}
}

func get64(p []byte) (v uint64) {
	for i := 0; i < 8; i++ {
		v |= uint64(p[i]) << (8 * i)
	}
	return
}

func (b *beats) start(w int, space string, prefix []int) {
	if w >= beatSlots {
		return
	}
	s := b.slot(w)
	b.seq[w]++
	buf := s[16:16]
	buf = append(buf, space...)
	buf = append(buf, '\n')
	for _, c := range prefix {
		if len(buf) > beatSize-64 {
			break
		}
		buf = strconv.AppendInt(buf, int64(c), 10)
		buf = append(buf, ',')
	}
	s[8] = byte(len(buf))
	s[9] = byte(len(buf) >> 8)
	s[10] = 1
	put64(s, b.seq[w])
}

func (b *beats) touch(w int) {
	if w < beatSlots {
		b.seq[w]++
		put64(b.slot(w), b.seq[w])
	}
}

func (b *beats) end(w int) {
	if w < beatSlots {
		b.slot(w)[10] = 0
		b.touch(w)
	}
}

type inflight struct {
	Space   string `json:"space"`
	Choices []int  `json:"choices"`
}

func (b *beats) running() []inflight {
	var r []inflight
	for w := 0; w < beatSlots; w++ {
		s := b.slot(w)
		if s[10] != 1 {
			continue
		}
		n := int(s[8]) | int(s[9])<<8
		if n > beatSize-16 {
			continue
		}
		t := string(s[16 : 16+n])
		i := strings.IndexByte(t, '\n')
		if i < 0 {
			continue
		}
		f := inflight{Space: t[:i], Choices: []int{}}
		for _, c := range strings.Split(t[i+1:], ",") {
			if c == "" {
				continue
			}
			v, _ := strconv.Atoi(c)
			f.Choices = append(f.Choices, v)
		}
		r = append(r, f)
	}
	return r
}

func (b *beats) signature() (v uint64) {
	for w := 0; w < beatSlots; w++ {
		v = v*1000003 + get64(b.slot(w))
	}
	return
}

// Beat tells the watchdog that a long execution makes progress.
func (x *X) Beat() {
	if x.eng.beat != nil {
		x.eng.beat.touch(x.worker)
	}
}

// ---------------------------------------------------------------- child roles

type childResult struct {
	Violation *violation        `json:"violation"`
	Error     string            `json:"error"`
	Known     map[string]string `json:"known"`
	Coverage  map[string]any    `json:"coverage"`
	Assume    []string          `json:"assume"`
	Level     string            `json:"level"`
}

func writeJSON(path string, v any) {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		panic("harness: " + err.Error())
	}
	if err := os.WriteFile(path+".tmp", append(b, '\n'), 0o644); err != nil {
		panic("harness: " + err.Error())
	}
	os.Rename(path+".tmp", path)
}

func lookup(id string) *Check {
	c := registry[id]
	if c == nil {
		fmt.Fprintln(os.Stderr, "no check for property", id)
		os.Exit(2)
	}
	return c
}

// exploreMain is the exploring child: it writes its result file.
func exploreMain() {
	debug.SetMaxStack(256 << 20)
	c := lookup(os.Getenv("MC_ID"))
	tier := os.Getenv("MC_TIER")
	out := os.Getenv("MC_OUT")
	res := childResult{Level: c.Level, Assume: c.Assume}
	if c.SelfTest != nil {
		if err := c.SelfTest(); err != nil {
			res.Error = "self test: " + err.Error()
			writeJSON(out, res)
			return
		}
	}
	e := newEngine(c, tier)
	if p := os.Getenv("MC_BEAT"); p != "" {
		var err error
		if e.beat, err = openBeats(p); err != nil {
			res.Error = err.Error()
			writeJSON(out, res)
			return
		}
	}
	spaces := c.Spaces(tier == "thorough")
	want := os.Getenv("MC_SPACE")
	for _, s := range spaces {
		if want != "" && s.Name != want {
			continue
		}
		if e.viol.Load() != nil || e.capped {
			break
		}
		if s.Setup != nil {
			s.Setup()
		}
		e.runSpace(s)
		if os.Getenv("MC_VERBOSE") != "" {
			p := e.perSpace[len(e.perSpace)-1]
			fmt.Fprintf(os.Stderr, "%-30s ex %9d in %11d states %9d %8.2fs complete=%v\n", s.Name, p["executions"], p["inner_executions"], e.nstates(), p["seconds"], p["complete"])
		}
	}
	res.Violation = e.viol.Load()
	res.Known = e.known
	cov := map[string]any{
		"samples":               e.samples,
		"exhaustive":            !e.capped && res.Violation == nil && want == "" && len(e.unrepro) == 0,
		"spaces":                e.perSpace,
		"spaces_planned":        len(spaces),
		"executions":            e.execs,
		"max_choice_points":     e.maxDepth,
		"unreproduced":          e.unrepro,
		"harness_go":            runtime.Version(),
		"workers":               e.workers,
		"time_limit_reached":    e.capped,
		"deterministic_replays": e.replays,
	}
	if c.Level == "fault_enumeration" {
		cov["evaluations"] = e.execs + e.inner
		cov["distinct_nontrivial"] = e.nstates()
		cov["rule"] = c.Rule
	} else {
		cov["states"] = e.nstates()
		cov["transitions"] = e.trans
		cov["traces_validated_against_impl"] = e.execs + e.inner
		cov["explanation"] = c.Rule
	}
	res.Coverage = cov
	writeJSON(out, res)
}

func findSpace(c *Check, tier, name string) *Space {
	for _, s := range c.Spaces(tier == "thorough") {
		if s.Name == name {
			return s
		}
	}
	return nil
}

// replayMain re-executes one or more traces; it writes {"fail": msg, "notes": ...}.
func replayMain() {
	debug.SetMaxStack(256 << 20)
	c := lookup(os.Getenv("MC_ID"))
	tier := os.Getenv("MC_TIER")
	out := os.Getenv("MC_OUT")
	var traces []inflight
	if err := json.Unmarshal([]byte(os.Getenv("MC_TRACES")), &traces); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	e := newEngine(c, tier)
	type result struct {
		Fail  string     `json:"fail"`
		Notes [][]string `json:"notes"`
	}
	var mu sync.Mutex
	res := result{}
	do := func(t inflight) bool {
		s := findSpace(c, tier, t.Space)
		if s == nil {
			fmt.Fprintln(os.Stderr, "no such space:", t.Space)
			os.Exit(2)
		}
		if s.Setup != nil {
			mu.Lock()
			s.Setup()
			mu.Unlock()
		}
		x := e.runOne(s, t.Choices, 0, false, true)
		mu.Lock()
		defer mu.Unlock()
		if x.fail != nil {
			res.Fail = x.fail.msg
			res.Notes = nil
			for _, n := range x.notes {
				res.Notes = append(res.Notes, []string{n[0], n[1]})
			}
			return true
		}
		return false
	}
	serial := true // spaces that are not to be run beside others are not
	for _, t := range traces {
		s := findSpace(c, tier, t.Space)
		serial = serial && s != nil && s.Serial
	}
	if serial || len(traces) == 1 && os.Getenv("MC_PARALLEL") == "" {
		for _, t := range traces {
			if do(t) {
				break
			}
		}
	} else {
		end := time.Now().Add(30 * time.Second)
		var wg sync.WaitGroup
		for w := 0; w < 8; w++ {
			wg.Add(1)
			go func(w int) {
				defer wg.Done()
				for i := 0; i < 2000 && time.Now().Before(end); i++ {
					if do(traces[(w+i)%len(traces)]) {
						return
					}
				}
			}(w)
		}
		wg.Wait()
	}
	writeJSON(out, res)
}
