package mc

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"syscall"
	"time"
)

// The supervising process: it runs the explorer in a child, attributes crashes and
// hangs to executions, replays them, writes evidence and decides the exit code.

const hangLimit = 60 * time.Second

type child struct {
	crashed bool
	hung    bool
	stderr  string
	traces  []inflight
	out     []byte
}

func spawn(dir string, id, tier, role string, extra []string, limit time.Duration) child {
	out := filepath.Join(dir, role+"-"+strconv.FormatInt(time.Now().UnixNano(), 36))
	beat := out + ".beat"
	self, _ := os.Executable()
	cmd := exec.Command(self, "-test.run=^TestMC$", "-test.timeout=0")
	cmd.Env = append(os.Environ(), "MC_ROLE="+role, "MC_ID="+id, "MC_TIER="+tier, "MC_OUT="+out, "MC_BEAT="+beat, "GOTRACEBACK=single")
	cmd.Env = append(cmd.Env, extra...)
	var errb tail
	cmd.Stderr = &errb
	cmd.Stdout = &errb
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	b, err := openBeats(beat)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	defer os.Remove(beat)
	defer os.Remove(out)
	if err := cmd.Start(); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	tick := time.NewTicker(500 * time.Millisecond)
	defer tick.Stop()
	last, lastChange := b.signature(), time.Now()
	begin := time.Now()
	var c child
	for {
		select {
		case err := <-done:
			c.stderr = errb.String()
			if os.Getenv("MC_VERBOSE") != "" {
				fmt.Fprint(os.Stderr, c.stderr)
			}
			o, rerr := os.ReadFile(out)
			if rerr == nil && (err == nil || json.Valid(o)) {
				c.out = o
				return c
			}
			c.crashed = true
			c.traces = b.running()
			return c
		case <-tick.C:
			if s := b.signature(); s != last {
				last, lastChange = s, time.Now()
			}
			stuck := time.Since(lastChange) > hangLimit && len(b.running()) > 0
			if limit > 0 && time.Since(begin) > limit {
				stuck = true
			}
			if stuck {
				c.hung = true
				c.traces = b.running()
				syscall.Kill(-cmd.Process.Pid, syscall.SIGQUIT)
				select {
				case <-done:
				case <-time.After(3 * time.Second):
				}
				syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
				c.stderr = errb.String()
				return c
			}
		}
	}
}

// tail keeps the beginning and the end of a stream.
type tail struct {
	head, end []byte
}

func (t *tail) Write(p []byte) (int, error) {
	n := len(p)
	if room := 6000 - len(t.head); room > 0 {
		k := min(room, len(p))
		t.head = append(t.head, p[:k]...)
		p = p[k:]
	}
	t.end = append(t.end, p...)
	if len(t.end) > 6000 {
		t.end = append([]byte{}, t.end[len(t.end)-6000:]...)
	}
	return n, nil
}

func (t *tail) String() string { return string(t.head) + string(t.end) }

type replayFile struct {
	Property string     `json:"property"`
	Tier     string     `json:"tier"`
	Mode     string     `json:"mode"` // single, parallel or whole
	Traces   []inflight `json:"traces"`
	Message  string     `json:"message"`
	Notes    [][]string `json:"notes"`
	How      string     `json:"how"`
}

func saveReplay(r replayFile) string {
	dir := filepath.Join(verifDir(), "replays")
	os.MkdirAll(dir, 0o755)
	p := filepath.Join(dir, r.Property+"-"+r.Tier+".json")
	r.How = "bash run.sh " + r.Property + " replay replays/" + filepath.Base(p)
	writeJSON(p, r)
	return p
}

func replayOnce(dir, id, tier string, traces []inflight, parallel bool) (failed bool, msg string, notes [][]string) {
	t, _ := json.Marshal(traces)
	extra := []string{"MC_TRACES=" + string(t)}
	limit := hangLimit
	if parallel {
		extra = append(extra, "MC_PARALLEL=1")
		limit = 120 * time.Second
	}
	c := spawn(dir, id, tier, "replay", extra, limit)
	if c.hung {
		return true, "the execution does not terminate\n" + c.stderr, nil
	}
	if c.crashed {
		return true, "the process crashes: " + crashLine(c.stderr) + "\n" + c.stderr, nil
	}
	var r struct {
		Fail  string     `json:"fail"`
		Notes [][]string `json:"notes"`
	}
	json.Unmarshal(c.out, &r)
	return r.Fail != "", r.Fail, r.Notes
}

func crashLine(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "fatal error:") || strings.Contains(l, "DATA RACE") {
			return l
		}
	}
	return firstLine(s)
}

func parentMain() int {
	id, tier := os.Getenv("MC_ID"), os.Getenv("MC_TIER")
	c := lookup(id)
	begin := time.Now()
	dir, err := os.MkdirTemp("", "mc-"+id)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(dir)

	if f := os.Getenv("MC_REPLAY"); f != "" {
		b, err := os.ReadFile(f)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		var r replayFile
		if err := json.Unmarshal(b, &r); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		if r.Mode != "whole" {
			failed, msg, notes := replayOnce(dir, id, r.Tier, r.Traces, r.Mode == "parallel")
			for _, n := range notes {
				fmt.Printf("%s: %s\n", n[0], n[1])
			}
			if failed {
				fmt.Println(msg)
				fmt.Printf("VIOLATION property=%s replay=%s\n", id, f)
				return 1
			}
			fmt.Println("no violation")
			return 0
		}
		tier = r.Tier
	}

	var crashes []string
	for attempt := 0; attempt < 2; attempt++ {
		ch := spawn(dir, id, tier, "explore", nil, 0)
		if !ch.crashed && !ch.hung {
			var res childResult
			if err := json.Unmarshal(ch.out, &res); err != nil {
				fmt.Fprintln(os.Stderr, err)
				return 2
			}
			if res.Error != "" {
				fmt.Fprintln(os.Stderr, "error of the check:", res.Error)
				return 2
			}
			if len(crashes) > 0 {
				res.Coverage["unreproduced_crashes"] = crashes
			}
			if v := res.Violation; v != nil {
				writeEvidence(c, tier, begin, res, 1)
				p := saveReplay(replayFile{Property: id, Tier: tier, Mode: map[bool]string{true: "single", false: "parallel"}[strings.HasPrefix(v.Repro, "5 of 5")],
					Traces: []inflight{{v.Space, v.Choices}}, Message: v.Message, Notes: v.Notes})
				fmt.Printf("space %s, choices %v (%s)\n%s\n", v.Space, v.Choices, v.Repro, v.Message)
				for _, n := range v.Notes {
					fmt.Printf("  %s: %s\n", n[0], cut(n[1], 400))
				}
				fmt.Printf("VIOLATION property=%s replay=%s\n", id, p)
				return 1
			}
			known := loadFindings(id)
			for _, k := range sortedKeys(res.Known) {
				fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", id, k, known[k])
			}
			if r := raceRun(c, tier); r != "" {
				p := saveReplay(replayFile{Property: id, Tier: tier, Mode: "whole", Message: r})
				fmt.Println(firstLine(r))
				writeEvidence(c, tier, begin, res, 1)
				fmt.Printf("VIOLATION property=%s replay=%s\n", id, p)
				return 1
			}
			writeEvidence(c, tier, begin, res, 0)
			cov := res.Coverage
			fmt.Printf("property %s held: %v executions, exhaustive=%v, %.1fs\n", id, num(cov["executions"]), cov["exhaustive"], time.Since(begin).Seconds())
			return 0
		}
		if strings.Contains(ch.stderr, "panic: harness:") {
			fmt.Fprintln(os.Stderr, ch.stderr)
			return 2
		}
		what := "crash"
		if ch.hung {
			what = "hang"
		}
		for _, t := range ch.traces {
			failed, msg, notes := replayOnce(dir, id, tier, []inflight{t}, false)
			if failed && strings.Contains(msg, "panic: harness:") {
				fmt.Fprintln(os.Stderr, msg)
				return 2
			}
			if !failed {
				continue
			}
			if !ch.hung {
				if again, _, _ := replayOnce(dir, id, tier, []inflight{t}, false); !again {
					continue
				}
			}
			p := saveReplay(replayFile{Property: id, Tier: tier, Mode: "single", Traces: []inflight{t}, Message: msg, Notes: notes})
			fmt.Printf("%s in space %s, choices %v\n%s\n", what, t.Space, t.Choices, cut(msg, 3000))
			writeEvidence(c, tier, begin, childResult{Level: c.Level, Assume: c.Assume, Coverage: emptyCoverage(c, what)}, 1)
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, p)
			return 1
		}
		if len(ch.traces) > 0 {
			if failed, msg, _ := replayOnce(dir, id, tier, ch.traces, true); failed {
				p := saveReplay(replayFile{Property: id, Tier: tier, Mode: "parallel", Traces: ch.traces, Message: msg})
				fmt.Printf("%s while independent executions ran in parallel\n%s\n", what, cut(msg, 3000))
				writeEvidence(c, tier, begin, childResult{Level: c.Level, Assume: c.Assume, Coverage: emptyCoverage(c, what)}, 1)
				fmt.Printf("VIOLATION property=%s replay=%s\n", id, p)
				return 1
			}
		}
		crashes = append(crashes, what+": "+cut(ch.stderr, 2000))
	}
	// crashed twice, but in no single execution
	p := saveReplay(replayFile{Property: id, Tier: tier, Mode: "whole", Message: strings.Join(crashes, "\n----\n")})
	fmt.Println(cut(strings.Join(crashes, "\n----\n"), 4000))
	writeEvidence(c, tier, begin, childResult{Level: c.Level, Assume: c.Assume, Coverage: emptyCoverage(c, "repeated crash of the exploring process")}, 1)
	fmt.Printf("VIOLATION property=%s replay=%s\n", id, p)
	return 1
}

func num(v any) any {
	if f, ok := v.(float64); ok {
		return int64(f)
	}
	return v
}

func cut(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func emptyCoverage(c *Check, why string) map[string]any {
	m := map[string]any{"exhaustive": false, "ended_by": why, "samples": []any{why}}
	if c.Level == "fault_enumeration" {
		m["evaluations"], m["distinct_nontrivial"], m["rule"] = 0, 0, c.Rule
	} else {
		m["states"], m["transitions"], m["traces_validated_against_impl"] = 0, 0, 0
	}
	return m
}

func writeEvidence(c *Check, tier string, begin time.Time, res childResult, violations int) {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	dir := filepath.Join(verifDir(), "evidence")
	os.MkdirAll(dir, 0o755)
	writeJSON(filepath.Join(dir, c.ID+".json"), map[string]any{
		"property": c.ID, "tier": tier, "seed": seed, "level": c.Level,
		"coverage": res.Coverage, "assumptions": res.Assume,
		"wall_s": float64(int(time.Since(begin).Seconds()*10)) / 10, "violations": violations,
	})
}

// raceRun executes the free-running race detector pass of a check, if there is a race
// binary, and returns the report.
func raceRun(c *Check, tier string) string {
	bin := os.Getenv("MC_RACEBIN")
	if bin == "" || c.Race == nil {
		return ""
	}
	for i := 0; i < 2; i++ {
		ctx, cancel := context.WithTimeout(context.Background(), 200*time.Second*time.Duration(1+b2i(tier == "thorough")))
		cmd := exec.CommandContext(ctx, bin, "-test.run=^TestMC$", "-test.timeout=0")
		cmd.Env = append(os.Environ(), "MC_ROLE=race", "MC_ID="+c.ID, "MC_TIER="+tier, "GORACE=halt_on_error=1 exitcode=66")
		var b bytes.Buffer
		cmd.Stdout, cmd.Stderr = &b, &b
		err := cmd.Run()
		late := ctx.Err() != nil
		cancel()
		if err == nil {
			return ""
		}
		s := b.String()
		if strings.Contains(s, "panic: harness:") {
			fmt.Fprintln(os.Stderr, "error of the race pass:", err, cut(s, 3000))
			os.Exit(2)
		}
		what := "the free-running pass fails"
		switch {
		case late:
			what = "the free-running pass does not end"
		case strings.Contains(s, "DATA RACE"):
			what = "data race in the free-running pass"
		}
		if i == 1 {
			return what + "\n" + cut(s, 6000)
		}
	}
	return ""
}
