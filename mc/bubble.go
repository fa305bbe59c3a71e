package mc

import (
	"fmt"
	"io"
	"sort"
	"sync"
	"testing"
	"testing/synctest"
	"time"
)

var theT *testing.T

// bubble runs the real goroutines of the library under a controller: every controlled
// actor stops at a gate before each of its steps; when all goroutines are blocked the
// controller opens exactly one gate.
type bubble struct {
	x     *X
	mu    sync.Mutex
	gates []*gate
	err   string
	trace []string
}

type gate struct {
	name string
	ch   chan struct{}
}

// wait stops the calling goroutine until the controller lets it go on.
func (b *bubble) wait(name string) {
	g := &gate{name, make(chan struct{})}
	b.mu.Lock()
	b.gates = append(b.gates, g)
	b.mu.Unlock()
	<-g.ch
}

// failf records a violation seen by an actor.
func (b *bubble) failf(format string, a ...any) {
	b.mu.Lock()
	if b.err == "" {
		b.err = fmt.Sprintf(format, a...)
	}
	b.mu.Unlock()
}

// inBubble runs f in a bubble of its own. f must leave no goroutine blocked.
func inBubble(x *X, f func(b *bubble)) {
	var inner any
	b := &bubble{x: x}
	func() {
		defer func() {
			if r := recover(); r != nil && inner == nil {
				if b.err != "" {
					x.fail = &failure{msg: b.err}
				} else {
					x.fail = &failure{msg: fmt.Sprint(r)}
				}
				inner = abort{}
			}
		}()
		synctest.Test(theT, func(*testing.T) {
			defer func() { inner = recover() }()
			f(b)
		})
	}()
	if inner != nil {
		panic(inner)
	}
}

// run opens gates one by one until none is left. With dev, choosing anything but the
// first gate, or going on with the actor that just ran, costs a deviation.
func (b *bubble) run(dev bool, after func()) {
	b.loop(after, func(names []string) int {
		if dev {
			return b.x.Dev(len(names))
		}
		return b.x.Choose(len(names))
	})
}

// runWith lets pick choose among the gates.
func (b *bubble) runWith(pick func(names []string) int) { b.loop(nil, pick) }

func (b *bubble) loop(after func(), pick func(names []string) int) {
	for step := 0; ; step++ {
		// time passes between two steps: whatever waits for it goes first
		time.Sleep(10 * time.Second)
		synctest.Wait()
		b.mu.Lock()
		err := b.err
		gs := append([]*gate{}, b.gates...)
		b.mu.Unlock()
		if err != "" {
			b.x.Note("schedule", "%v", b.trace)
			b.x.Fail("%s", err)
		}
		if after != nil {
			after()
		}
		if len(gs) == 0 {
			break
		}
		if step > 100000 {
			b.x.Fail("the schedule does not end")
		}
		sort.SliceStable(gs, func(i, j int) bool { return gs[i].name < gs[j].name })
		// gates named "!..." open at once, gates named "~..." when there is no other
		if gs[0].name[0] == '!' {
			gs = gs[:1]
		} else {
			for len(gs) > 1 && gs[len(gs)-1].name[0] == '~' {
				gs = gs[:len(gs)-1]
			}
		}
		names := make([]string, len(gs))
		for i, g := range gs {
			names[i] = g.name
		}
		g := gs[pick(names)]
		b.trace = append(b.trace, g.name)
		b.mu.Lock()
		for i := range b.gates {
			if b.gates[i] == g {
				b.gates = append(b.gates[:i], b.gates[i+1:]...)
				break
			}
		}
		b.mu.Unlock()
		close(g.ch)
	}
	if b.x.Noting() {
		b.x.Note("schedule", "%v", b.trace)
	}
}

// gated is a source whose reads are steps of the schedule.
type gated struct {
	b    *bubble
	name string
	src  *source
}

func (g *gated) Read(p []byte) (int, error) {
	g.b.wait(g.name)
	return g.src.Read(p)
}

var _ io.Reader = (*gated)(nil)
