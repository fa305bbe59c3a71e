// Package mc is an explicit, exhaustive explorer for the mpeg library in /repo:
// every check enumerates a finite, stated space of inputs, histories or schedules, runs
// the real code on each element, and compares it with a reference model.
package mc

import (
	"encoding/hex"
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Check is the machinery that decides one property.
type Check struct {
	ID     string
	Level  string // model_checking or fault_enumeration
	Rule   string
	Spaces func(thorough bool) []*Space
	Assume []string
	// SelfTest validates the harness itself; a failure is an error of the check.
	SelfTest func() error
	// Race is a free-running body for the race detector, run from a -race build.
	Race func(thorough bool) error
}

// Space is one finite choice tree.
type Space struct {
	Name   string
	Bound  int // deviations allowed at Dev points
	Serial bool
	Body   func(x *X)
	Setup  func() // runs before the space is explored or a trace of it replayed
}

type failure struct {
	msg   string
	notes [][2]string
}

type knownHit struct{ id, msg string }

// X is one execution of a space.
type X struct {
	prefix  []int
	choices []int
	arity   []int
	devAt   []bool
	cost    int
	bound   int
	fail    *failure
	known   []knownHit
	eng     *engine
	space   *Space
	worker  int
	replay  bool
	sample  bool
	notes   [][2]string
	visited []uint64
	trans   int64
	inner   int64
	nontriv bool
}

type diverged struct{ msg string }
type abort struct{}

// Choose enumerates n alternatives.
func (x *X) Choose(n int) int { return x.choose(n, false) }

// Dev enumerates n alternatives of which all but the first cost one deviation.
func (x *X) Dev(n int) int {
	if x.cost >= x.bound {
		return 0
	}
	return x.choose(n, true)
}

func (x *X) choose(n int, dev bool) int {
	if n <= 0 {
		panic("harness: Choose(0)")
	}
	if n == 1 {
		return 0
	}
	i := len(x.choices)
	c := 0
	if i < len(x.prefix) {
		c = x.prefix[i]
		if c >= n {
			panic(diverged{fmt.Sprintf("choice %d at point %d has only %d alternatives", c, i, n)})
		}
	}
	x.choices = append(x.choices, c)
	x.arity = append(x.arity, n)
	x.devAt = append(x.devAt, dev)
	if dev && c != 0 {
		x.cost++
	}
	return c
}

// Pick enumerates the elements of a slice.
func Pick[T any](x *X, s []T) T { return s[x.Choose(len(s))] }

// Bool enumerates false, true.
func (x *X) Bool() bool { return x.Choose(2) == 1 }

// Note records what the execution did, for samples and replay files.
func (x *X) Note(k string, format string, a ...any) {
	if x.sample || x.replay {
		x.notes = append(x.notes, [2]string{k, fmt.Sprintf(format, a...)})
	}
}

// Noting says whether notes are kept (to avoid computing them).
func (x *X) Noting() bool { return x.sample || x.replay }

// Visit records one transition of the reference model into the given state.
func (x *X) Visit(h uint64) {
	x.trans++
	x.visited = append(x.visited, h)
}

// Inner counts n further executions of the real code inside of this one.
func (x *X) Inner(n int64) { x.inner += n }

// Fail reports a violation of the property and ends the execution.
func (x *X) Fail(format string, a ...any) {
	x.fail = &failure{msg: fmt.Sprintf(format, a...)}
	panic(abort{})
}

// Known reports a violation that is listed as a known finding under the given id.
func (x *X) Known(id string, format string, a ...any) {
	if x.eng.findings[id] != "" {
		x.known = append(x.known, knownHit{id, fmt.Sprintf(format, a...)})
		return
	}
	x.Fail(format, a...)
}

// Hash folds values into a state hash.
func Hash(vs ...any) uint64 {
	h := fnv.New64a()
	for _, v := range vs {
		fmt.Fprintf(h, "%v|", v)
	}
	return h.Sum64()
}

func mix(h uint64, v uint64) uint64 {
	h ^= v + 0x9e3779b97f4a7c15 + (h << 6) + (h >> 2)
	h *= 0xff51afd7ed558ccd
	h ^= h >> 33
	return h
}

// HashInts folds integers into a state hash cheaply.
func HashInts(vs ...uint64) uint64 {
	var h uint64 = 0xcbf29ce484222325
	for _, v := range vs {
		h = mix(h, v)
	}
	return h
}

// HashBytes folds bytes into a state hash.
func HashBytes(h uint64, b []byte) uint64 {
	f := fnv.New64a()
	f.Write(b)
	return mix(h, f.Sum64()+uint64(len(b)))
}

func hexs(b []byte) string {
	if len(b) > 6000 {
		return hex.EncodeToString(b[:6000]) + fmt.Sprintf("...(%d bytes)", len(b))
	}
	return hex.EncodeToString(b)
}

type violation struct {
	Property string     `json:"property"`
	Space    string     `json:"space"`
	Tier     string     `json:"tier"`
	Choices  []int      `json:"choices"`
	Message  string     `json:"message"`
	Notes    [][]string `json:"notes"`
	Repro    string     `json:"reproduced"`
}

type item struct {
	prefix []int
	pos    int
	next   int
	n      int
}

const shards = 64

type engine struct {
	check    *Check
	tier     string
	findings map[string]string
	deadline time.Time

	mu      sync.Mutex
	cond    *sync.Cond
	stack   []item
	active  int
	stopped bool

	viol    atomic.Pointer[violation]
	unrepro []string
	capped  bool

	execs   int64
	inner   int64
	trans   int64
	points  int64
	nontriv int64
	states  [shards]struct {
		sync.Mutex
		m map[uint64]struct{}
	}
	samples  []any
	known    map[string]string
	perSpace []map[string]any
	maxDepth int
	beat     *beats
	workers  int
	replays  int64
}

func (e *engine) addStates(hs []uint64) {
	for _, h := range hs {
		s := &e.states[h%shards]
		s.Lock()
		if s.m == nil {
			s.m = map[uint64]struct{}{}
		}
		s.m[h] = struct{}{}
		s.Unlock()
	}
}

func (e *engine) nstates() int64 {
	var n int64
	for i := range e.states {
		n += int64(len(e.states[i].m))
	}
	return n
}

// runOne runs a single execution on the given prefix.
func (e *engine) runOne(s *Space, prefix []int, worker int, sample, replay bool) (x *X) {
	x = &X{prefix: prefix, eng: e, space: s, bound: s.Bound, worker: worker, sample: sample, replay: replay}
	if e.beat != nil {
		e.beat.start(worker, s.Name, prefix)
	}
	defer func() {
		if r := recover(); r != nil {
			switch r := r.(type) {
			case abort:
			case diverged:
				x.fail = &failure{msg: "the execution diverged while its schedule was replayed: " + r.msg}
			default:
				msg := fmt.Sprint(r)
				if strings.HasPrefix(msg, "harness:") {
					panic(r)
				}
				x.fail = &failure{msg: "panic: " + msg + "\n" + string(debug.Stack())}
			}
		}
		if x.fail != nil {
			x.fail.notes = x.notes
		}
		if e.beat != nil {
			e.beat.end(worker)
		}
	}()
	s.Body(x)
	return x
}

func (e *engine) runSpace(s *Space) {
	e.mu.Lock()
	e.stack = []item{{prefix: nil, pos: -1}}
	e.active = 0
	e.stopped = false
	e.mu.Unlock()
	startEx, startIn := e.execs, e.inner
	t0 := time.Now()
	n := e.workers
	if s.Serial {
		n = 1
	}
	var wg sync.WaitGroup
	for w := 0; w < n; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			e.work(s, w)
		}(w)
	}
	wg.Wait()
	e.perSpace = append(e.perSpace, map[string]any{
		"space": s.Name, "deviation_bound": s.Bound,
		"executions": e.execs - startEx, "inner_executions": e.inner - startIn,
		"seconds": float64(int(time.Since(t0).Seconds()*100)) / 100, "complete": !e.capped && e.viol.Load() == nil,
	})
}

func (e *engine) work(s *Space, w int) {
	var local []uint64
	for {
		e.mu.Lock()
		for len(e.stack) == 0 && e.active > 0 && !e.stopped {
			e.cond.Wait()
		}
		if e.stopped || (len(e.stack) == 0 && e.active == 0) {
			e.cond.Broadcast()
			e.mu.Unlock()
			e.addStates(local)
			return
		}
		it := &e.stack[len(e.stack)-1]
		var prefix []int
		if it.pos < 0 {
			e.stack = e.stack[:len(e.stack)-1]
		} else {
			prefix = make([]int, it.pos+1)
			copy(prefix, it.prefix[:it.pos])
			prefix[it.pos] = it.next
			it.next++
			if it.next >= it.n {
				e.stack = e.stack[:len(e.stack)-1]
			}
		}
		e.active++
		e.execs++
		num := e.execs
		if time.Now().After(e.deadline) {
			e.capped = true
			e.stopped = true
			e.active--
			e.execs--
			e.cond.Broadcast()
			e.mu.Unlock()
			e.addStates(local)
			return
		}
		e.mu.Unlock()

		sample := num == 1 || num == 7 || num == 100 || num == 3000 || num == 100000
		x := e.runOne(s, prefix, w, sample, false)
		if x.fail != nil {
			e.confirm(s, x)
		} else if sample {
			// own every source of nondeterminism: a replay must take the same path
			y := e.runOne(s, x.choices, w, false, false)
			if y.fail == nil && HashChoices(y) != HashChoices(x) {
				panic(fmt.Sprintf("harness: space %s is not deterministic: %v", s.Name, x.choices))
			}
			e.mu.Lock()
			e.replays++
			e.mu.Unlock()
		}
		local = append(local, x.visited...)
		if len(local) > 4096 {
			e.addStates(local)
			local = local[:0]
		}

		e.mu.Lock()
		e.active--
		e.inner += x.inner
		e.trans += x.trans
		e.points += int64(len(x.choices))
		if x.nontriv {
			e.nontriv++
		}
		if len(x.choices) > e.maxDepth {
			e.maxDepth = len(x.choices)
		}
		for _, k := range x.known {
			if _, ok := e.known[k.id]; !ok {
				e.known[k.id] = k.msg
			}
		}
		if sample && len(e.samples) < 12 {
			m := map[string]any{"space": s.Name, "choices": x.choices}
			for _, n := range x.notes {
				m[n[0]] = n[1]
			}
			e.samples = append(e.samples, m)
		}
		if e.viol.Load() != nil {
			e.stopped = true
		}
		if !e.stopped {
			for i := len(prefix); i < len(x.choices); i++ {
				if x.arity[i] > 1 {
					e.stack = append(e.stack, item{prefix: x.choices, pos: i, next: 1, n: x.arity[i]})
				}
			}
		}
		e.cond.Broadcast()
		e.mu.Unlock()
	}
}

// confirm re-runs a failing execution: five times alone, or, if it only fails under
// load, in parallel with copies of itself.
func (e *engine) confirm(s *Space, x *X) {
	if e.viol.Load() != nil {
		return
	}
	repro := 0
	var last *X
	for i := 0; i < 5; i++ {
		y := e.runOne(s, x.choices, x.worker, false, true)
		if y.fail != nil {
			repro++
			last = y
		}
	}
	how := fmt.Sprintf("%d of 5 runs", repro)
	if repro < 5 && !s.Serial {
		// independent instances may influence each other
		var wg sync.WaitGroup
		var hits int64
		var mu sync.Mutex
		for w := 0; w < 8; w++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < 200; i++ {
					y := e.runOneQuiet(s, x.choices)
					if y.fail != nil {
						atomic.AddInt64(&hits, 1)
						mu.Lock()
						last = y
						mu.Unlock()
					}
				}
			}()
		}
		wg.Wait()
		how += fmt.Sprintf(", %d of 1600 concurrent runs", hits)
		if hits >= 3 {
			repro = 5
		}
	}
	if repro < 5 {
		e.mu.Lock()
		e.unrepro = append(e.unrepro, fmt.Sprintf("%s %v: %s (%s)", s.Name, x.choices, firstLine(x.fail.msg), how))
		e.mu.Unlock()
		return
	}
	v := &violation{Property: e.check.ID, Space: s.Name, Tier: e.tier, Choices: x.choices, Message: last.fail.msg, Repro: how}
	for _, n := range last.fail.notes {
		v.Notes = append(v.Notes, []string{n[0], n[1]})
	}
	e.viol.CompareAndSwap(nil, v)
}

func (e *engine) runOneQuiet(s *Space, choices []int) *X {
	return e.runOne(s, choices, beatSlots, false, true)
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

func newEngine(c *Check, tier string) *engine {
	e := &engine{check: c, tier: tier, known: map[string]string{}, findings: loadFindings(c.ID)}
	e.cond = sync.NewCond(&e.mu)
	e.workers = runtime.GOMAXPROCS(0)
	if e.workers > 8 {
		e.workers = 8
	}
	limit := 240 * time.Second
	if tier == "thorough" {
		limit = 800 * time.Second
	}
	if s := os.Getenv("MC_SECONDS"); s != "" {
		if d, err := time.ParseDuration(s + "s"); err == nil {
			limit = d
		}
	}
	e.deadline = time.Now().Add(limit)
	return e
}

func sortedKeys(m map[string]string) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// HashChoices identifies the path of an execution and the model states it visited.
func HashChoices(x *X) uint64 {
	var h uint64 = 1
	for i, c := range x.choices {
		h = mix(h, uint64(c)<<32|uint64(x.arity[i]))
	}
	for _, v := range x.visited {
		h = mix(h, v)
	}
	return h
}
