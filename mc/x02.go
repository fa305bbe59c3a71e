package mc

import (
	"fmt"
	"io"
	"iter"
	"strings"
	"sync"
)

func init() {
	register(&Check{
		ID: "X02", Level: "model_checking",
		Rule: "two or three instances of the entry points, of the same and of different kinds, are run as coroutines that can be switched at every read of their sources: every single switch, every pair of switches (three for short runs) and, for runs of a few reads, every interleaving; every instance's outputs and error are compared with those it gives alone, and the frames it returned are looked at again at the end; states are (instances, reads done by each)",
		Assume: []string{
			"instances are switched at source reads, of one byte or more; steps between two reads run without a switch",
			"memory accesses between scheduling points are covered by a separate free-running pass under the race detector",
		},
		Spaces: x02spaces,
		Race:   raceInstances,
	})
}

// stepper runs an entry up to its next source read.
type stepper struct {
	e     *entry
	next  func() (int, bool)
	stop  func()
	o     outcome
	steps int
	done  bool
}

type coSource struct {
	src   *source
	yield func(int) bool
}

func (c *coSource) Read(p []byte) (int, error) {
	c.yield(0)
	return c.src.Read(p)
}

func newStepper(e *entry, stream []byte, chunk int) *stepper {
	s := &stepper{e: e}
	s.next, s.stop = iter.Pull(func(yield func(int) bool) {
		s.o = e.guarded(&coSource{&source{data: stream, chunk: chunk}, yield})
	})
	return s
}

// step goes on by n reads, or to the end for a negative n.
func (s *stepper) step(n int) {
	for ; n != 0 && !s.done; n-- {
		if _, ok := s.next(); !ok {
			s.done = true
			return
		}
		s.steps++
	}
}

// kind is an entry on one of its streams.
type kind struct {
	e      *entry
	stream []byte
	name   string
	alone  map[int]*outcome // by chunk
	steps  map[int]int
}

func (k *kind) solo(chunk int) {
	if k.alone[chunk] == nil {
		s := newStepper(k.e, k.stream, chunk)
		s.step(-1)
		k.alone[chunk], k.steps[chunk] = &s.o, s.steps
	}
}

func (k *kind) check(x *X, s *outcome, chunk int, what func() string) {
	w := k.alone[chunk]
	d := s.same(w)
	if d == "" && s.err != w.err {
		d = fmt.Sprintf("the error is %s, expected %s", errName(s.err), errName(w.err))
	}
	if d == "" {
		d = s.changed()
	}
	if d != "" {
		x.Note("stream", "%s", hexs(k.stream))
		x.Fail("%s: %s: %s", what(), k.name, d)
	}
}

var concurrentKinds = []string{"ts.Demuxer", "ts.Demuxer and PayloadUnit", "ps.NewDecoder"}

func x02kinds(concurrent bool) (out []*kind) {
	ents := entries()
	for i := range ents {
		e := &ents[i]
		conc := false
		for _, n := range concurrentKinds {
			conc = conc || e.name == n
		}
		if conc != concurrent || strings.HasSuffix(e.name, " of 1") || strings.HasSuffix(e.name, " of 1000") {
			continue
		}
		for k, s := range e.streams {
			if k < 2 {
				out = append(out, &kind{e, s, fmt.Sprintf("%s, stream %d", e.name, k), map[int]*outcome{}, map[int]int{}})
			}
		}
	}
	if !concurrent {
		for i := range ents {
			if ents[i].name == "video.Next" {
				for k, s := range x02video() {
					out = append(out, &kind{&ents[i], s, fmt.Sprintf("video.Next, set %d", k), map[int]*outcome{}, map[int]int{}})
				}
			}
		}
	}
	return
}

// x02video are streams that use tables, matrices, scans and sizes of their own.
func x02video() (out [][]byte) {
	for k, q := range []vParams{{3, 1, 1, 1, 1}, {0, 0, 1, 0, 0}, {1, 1, 0, 1, 1}} {
		s := mbSize(3, 1+k%2)
		if q.field == 1 {
			s.progressive = 0
			s.h = 32
		}
		h := (s.h + 15) / 16
		if k == 1 {
			s.intraQ, s.nonIntraQ = vMatrix(5), vMatrix(9)
		}
		e := newVid(s)
		e.pic(textured(q.pic(1, 0), 3, h, 5+k, k))
		p := q.pic(2, 1)
		p.rows(3, h, 3, func(c, r int) vMB {
			b := mbOf(p, mbType{fwd: true, pattern: true, quant: c == 1}, c, 3, r+k)
			b.mv = [2][2]int{{[]int{1, -1, 0}[c], 0}}
			return b
		})
		e.pic(p)
		if k == 1 {
			e.end()
		}
		b, _ := e.finish()
		out = append(out, b)
	}
	return
}

func x02spaces(thorough bool) []*Space {
	kinds := x02kinds(false)
	chunks := []int{0, 1, 3, 100}
	for _, k := range kinds {
		for _, c := range chunks {
			k.solo(c)
		}
	}
	together := func(x *X, ks []*kind, chunk int, what func() string, schedule func(s []*stepper)) {
		s := make([]*stepper, len(ks))
		for i, k := range ks {
			s[i] = newStepper(k.e, k.stream, chunk)
		}
		defer func() {
			for _, s := range s {
				s.stop()
			}
		}()
		schedule(s)
		for _, s := range s {
			s.step(-1)
		}
		for i, k := range ks {
			k.check(x, &s[i].o, chunk, what)
		}
		x.Inner(int64(len(ks)))
	}
	names := func(ks ...*kind) string {
		var s []string
		for _, k := range ks {
			s = append(s, k.name)
		}
		return strings.Join(s, " with ")
	}
	isVideo := func(k *kind) bool { return strings.Contains(k.name, "video") || strings.Contains(k.name, "frames") }

	var out []*Space
	out = append(out, &Space{Name: "two instances, one switch", Body: func(x *X) {
		a, b := Pick(x, kinds), Pick(x, kinds)
		chunk := 0
		if isVideo(a) && isVideo(b) {
			chunk = Pick(x, []int{0, 1})
		}
		n := a.steps[chunk]
		for k := 0; k <= n; k++ {
			together(x, []*kind{a, b}, chunk, func() string {
				return fmt.Sprintf("%s, first runs for %d of %d reads, then second, then first", names(a, b), k, n)
			}, func(s []*stepper) {
				s[0].step(k)
				s[1].step(-1)
			})
			x.Visit(HashInts(1, HashStr(a.name+"|"+b.name), uint64(chunk), uint64(k)))
		}
	}})
	short := func(k *kind, c int) bool { return k.steps[c] <= 140 }
	out = append(out, &Space{Name: "two instances, two switches", Body: func(x *X) {
		a, b := Pick(x, kinds), Pick(x, kinds)
		same := a.e == b.e || isVideo(a) && isVideo(b)
		n, m := a.steps[0], b.steps[0]
		k := x.Choose(n + 1)
		gap := 1
		if !same && !thorough {
			gap = 5
		}
		if !short(a, 0) || !short(b, 0) {
			gap *= 3
			if thorough {
				gap = 2
			}
		}
		for j := 1 + k%gap; j <= m; j += gap {
			together(x, []*kind{a, b}, 0, func() string {
				return fmt.Sprintf("%s, first runs for %d of %d reads, second for %d of %d, first to its end, second", names(a, b), k, n, j, m)
			}, func(s []*stepper) {
				s[0].step(k)
				s[1].step(j)
				s[0].step(-1)
			})
		}
		x.Visit(HashInts(2, HashStr(a.name+"|"+b.name), uint64(k)))
	}})
	// turns of equal lengths
	out = append(out, &Space{Name: "in turns", Body: func(x *X) {
		a, b := Pick(x, kinds), Pick(x, kinds)
		chunk := Pick(x, chunks)
		for _, i := range []int{1, 2, 3, 5, 8, 13} {
			for _, j := range []int{1, 2, 3, 4, 7} {
				together(x, []*kind{a, b}, chunk, func() string {
					return fmt.Sprintf("%s, in turns of %d and %d reads", names(a, b), i, j)
				}, func(s []*stepper) {
					for !s[0].done || !s[1].done {
						s[0].step(i)
						s[1].step(j)
					}
				})
				x.Visit(HashInts(3, HashStr(a.name+"|"+b.name), uint64(chunk), uint64(i), uint64(j)))
			}
		}
	}})
	// streams in few reads, every interleaving: what reads 100 bytes at a time does not
	// exist here, the bit reader takes 8, so the streams are short
	tiny := x02tiny()
	for _, k := range tiny {
		k.solo(0)
	}
	out = append(out, &Space{Name: "every interleaving of short runs", Body: func(x *X) {
		a, b := Pick(x, tiny), Pick(x, tiny)
		limit := 8
		if thorough {
			limit = 11
		}
		na, nb := min(a.steps[0], limit), min(b.steps[0], limit)
		var order []byte
		together(x, []*kind{a, b}, 0, func() string { return fmt.Sprintf("%s, order %s", names(a, b), order) }, func(s []*stepper) {
			for i, j := 0, 0; i < na && j < nb; {
				if x.Bool() {
					s[1].step(1)
					order = append(order, 'b')
					j++
				} else {
					s[0].step(1)
					order = append(order, 'a')
					i++
				}
				x.Visit(HashInts(4, HashStr(a.name+"|"+b.name), uint64(i), uint64(j)))
			}
		})
	}})
	var some []*kind
	for _, k := range kinds {
		if strings.HasSuffix(k.name, "stream 0") {
			some = append(some, k)
		}
	}
	out = append(out, &Space{Name: "three instances", Body: func(x *X) {
		a, b, c := Pick(x, some), Pick(x, some), Pick(x, some)
		gap := 25
		if thorough {
			gap = 7
		}
		for k := 0; k <= a.steps[0]; k += gap {
			for j := k % 2; j <= b.steps[0]; j += gap {
				for _, l := range []int{c.steps[0] / 2, -1} {
					together(x, []*kind{a, b, c}, 0, func() string {
						return fmt.Sprintf("%s, %d reads of the first, %d of the second, %d of the third, second, third, first", names(a, b, c), k, j, l)
					}, func(s []*stepper) {
						s[0].step(k)
						s[1].step(j)
						s[2].step(l)
						s[1].step(-1)
						s[2].step(-1)
					})
				}
			}
			x.Visit(HashInts(5, HashStr(a.name+b.name+c.name), uint64(k)))
		}
	}})
	out = append(out, &Space{Name: "many instances in turns", Body: func(x *X) {
		n := Pick(x, []int{4, 5, 8, 9, 16, 17, 32, 33, 64, 65, 100})
		from := x.Choose(len(kinds))
		same := x.Bool()
		turn := Pick(x, []int{1, 7, 40})
		var ks []*kind
		for i := 0; i < n; i++ {
			k := from
			if !same {
				k = (from + i) % len(kinds)
			}
			ks = append(ks, kinds[k])
		}
		together(x, ks, 0, func() string {
			return fmt.Sprintf("%d instances from %s on (all the same %v), in turns of %d reads", n, kinds[from].name, same, turn)
		}, func(s []*stepper) {
			for left := n; left > 0; {
				left = 0
				for i := range s {
					if s[i].step(turn + i%3); !s[i].done {
						left++
					}
				}
			}
		})
		x.Visit(HashInts(6, uint64(from), uint64(n), b2u(same), uint64(turn)))
	}})
	conc := x02kinds(true)
	conc = append(conc, some...)
	for _, k := range conc {
		k.solo2()
	}
	out = append(out, &Space{Name: "with demultiplexers and decoders", Body: func(x *X) {
		a, b := Pick(x, conc), Pick(x, conc)
		first := false
		for _, n := range concurrentKinds {
			first = first || a.e.name == n
		}
		if !first {
			return
		}
		turn := Pick(x, []int{1, 2, 3, 7, 20, 50})
		other := Pick(x, []int{1, 4, 1000000})
		ks := []*kind{a, b}
		inBubble(x, func(bb *bubble) {
			outs := make([]outcome, 2)
			var wg sync.WaitGroup
			for i, k := range ks {
				wg.Add(1)
				go func() {
					defer wg.Done()
					outs[i] = k.e.guarded(&gated{bb, fmt.Sprint(i), &source{data: k.stream}})
				}()
			}
			runTurns(bb, []int{turn, other})
			wg.Wait()
			for i, k := range ks {
				k.check(x, &outs[i], 0, func() string {
					return fmt.Sprintf("%s, in turns of %d and %d reads", names(a, b), turn, other)
				})
			}
		})
		x.Inner(2)
		x.Visit(HashInts(6, HashStr(a.name+"|"+b.name), uint64(turn), uint64(other)))
	}})
	out = append(out, &Space{Name: "demultiplexers and decoders, bounded switches", Bound: 1 + b2i(thorough), Body: func(x *X) {
		a, b := Pick(x, conc[:6]), Pick(x, conc[:6])
		ks := []*kind{a, b}
		inBubble(x, func(bb *bubble) {
			outs := make([]outcome, 2)
			var wg sync.WaitGroup
			for i, k := range ks {
				wg.Add(1)
				go func() {
					defer wg.Done()
					outs[i] = k.e.guarded(&gated{bb, fmt.Sprint(i), &source{data: k.stream}})
				}()
			}
			runSwitches(bb)
			wg.Wait()
			for i, k := range ks {
				k.check(x, &outs[i], 0, func() string { return fmt.Sprintf("%s, schedule %v", names(a, b), bb.trace) })
			}
		})
		x.Inner(2)
		x.Visit(HashInts(7, HashStr(a.name+"|"+b.name)))
	}})
	return out
}

// solo2 is solo without coroutines, for kinds with goroutines of their own.
func (k *kind) solo2() {
	if k.alone[0] == nil {
		o := k.e.guarded(&source{data: k.stream})
		k.alone[0] = &o
	}
}

// x02tiny are kinds whose runs take a few reads.
func x02tiny() (out []*kind) {
	add := func(name string, from string, stream []byte) {
		for _, e := range entries() {
			if e.name == from {
				out = append(out, &kind{&e, stream, name, map[int]*outcome{}, map[int]int{}})
				return
			}
		}
		panic("harness: no entry " + from)
	}
	add("tiny PES packets", "pes.Packet", append(pesSpec{id: 0xe0, flags2: 0xc0, pts: 1<<32 - 5, dts: 77, payload: pattern(3, 9)}.bytes(), pesSpec{id: 0xbf, payload: pattern(5, 11)}.bytes()...))
	add("tiny PES payload", "pes.NewPayloadReader, buffers of 0", append(pesSpec{id: 0xe0, flags2: 0x80, pts: 5, payload: pattern(3, 20)}.bytes(), pesSpec{id: 0xbe, payload: []byte{0xff, 0xff}}.bytes()...))
	add("tiny pack", "ps.NewPackReader, buffers of 0", inPS([][]byte{pesSpec{id: 0xc0, payload: pattern(9, 14)}.bytes()}, 1))
	add("tiny pack header", "ps.NewPackHeader", packSpec{scr: 12345678, rate: 4000, stuffing: []byte{0xff, 0xff}}.bytes())
	e := &vEnc{}
	e.seq(mbSize(1, 1))
	e.group(vGOP{})
	e.pic(tiny(vPlan{kind: 1}, 3))
	e.end()
	add("tiny picture", "video.Next", e.b)
	add("tiny search", "video.AlignTo", append([]byte{1, 2, 0, 0, 0, 1, 0xb7, 0, 0, 0}, e.b[:30]...))
	return
}

// runTurns lets the instances go on by turns of that many reads.
func runTurns(b *bubble, turns []int) {
	at, left := 0, turns[0]
	b.runWith(func(names []string) int {
		for {
			for i, n := range names {
				if n == fmt.Sprint(at) && left > 0 {
					left--
					return i
				}
			}
			at = (at + 1) % len(turns)
			left = turns[at]
		}
	})
}

// runSwitches goes on with the instance that ran last; to switch costs a deviation.
func runSwitches(b *bubble) {
	last := ""
	b.runWith(func(names []string) int {
		k := 0
		for i, n := range names {
			if n == last {
				k = i
			}
		}
		if d := b.x.Dev(len(names)); d > 0 {
			k = (k + d) % len(names)
		}
		last = names[k]
		return k
	})
}

// raceInstances runs instances of all kinds at the same time. The first of them are the first use
// of the library in the process, so that tables made at first use are made under concurrency.
func raceInstances(thorough bool) error {
	kinds := append(x02kinds(false), x02kinds(true)...)
	ents := entries()
	for i := range ents {
		e := &ents[i]
		for k, s := range e.streams {
			if k >= 2 || strings.HasSuffix(e.name, " of 1") || strings.HasSuffix(e.name, " of 1000") {
				kinds = append(kinds, &kind{e, s, fmt.Sprintf("%s, stream %d", e.name, k), map[int]*outcome{}, map[int]int{}})
			}
		}
	}
	rounds, copies := 6, 3
	if thorough {
		rounds, copies = 40, 6
	}
	run := func(k *kind, r int) outcome {
		return k.e.guarded(&source{data: k.stream, chunk: []int{0, 5, 1, 64}[r%4]})
	}
	all := make([][]outcome, len(kinds))
	start := make(chan bool)
	var wg sync.WaitGroup
	for i := range kinds {
		all[i] = make([]outcome, copies+rounds)
		for c := 0; c < copies; c++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				all[i][c] = run(kinds[i], 0)
			}()
		}
	}
	close(start)
	wg.Wait()
	for r := 0; r < rounds; r++ {
		for j := range kinds {
			i := (j + 5*r) % len(kinds)
			wg.Add(1)
			go func() {
				defer wg.Done()
				all[i][copies+r] = run(kinds[i], r)
			}()
		}
		wg.Wait()
	}
	for i, k := range kinds {
		k.solo2()
		w := k.alone[0]
		for _, o := range all[i] {
			d := o.same(w)
			if d == "" && o.err != w.err {
				d = fmt.Sprintf("the error is %s, expected %s", errName(o.err), errName(w.err))
			}
			if d != "" {
				return fmt.Errorf("%s, run together with others: %s", k.name, d)
			}
		}
	}
	return nil
}

var _ io.Reader = (*coSource)(nil)
