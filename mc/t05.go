package mc

import (
	"bytes"
	"fmt"
	"io"

	"github.com/32bitkid/mpeg/ts"
)

// readEvent is one outcome of a Read.
type readResult struct {
	data []byte
	err  error // first error
}

// readAllSized reads until the first error with the sizes that next gives, and then a
// few more times.
func readAllSized(x *X, r io.Reader, limit int, next func(i int) int) readResult {
	var out []byte
	idle := 0
	var mine callerBuf
	for i := 0; ; i++ {
		n := next(i)
		p := mine.get(n)
		k, err := r.Read(p)
		if k < 0 || k > n {
			x.Fail("Read of %d bytes returns n=%d", n, k)
		}
		if err != nil && k > 0 {
			x.Fail("Read returns %d bytes together with the error %v", k, err)
		}
		out = append(out, p[:k]...)
		if !mine.done(n) {
			x.Fail("Read writes outside of the %d bytes it is given", n)
		}
		if err != nil {
			for j := 0; j < 3; j++ {
				k2, err2 := r.Read(make([]byte, 10))
				if k2 != 0 || err2 == nil {
					x.Fail("after the error %v a later Read returns n=%d, err=%v", err, k2, err2)
				}
			}
			return readResult{out, err}
		}
		if k == 0 && n > 0 {
			idle++
			if idle > 100 {
				x.Fail("Read returns 0 bytes and no error %d times in a row", idle)
			}
		} else if k > 0 {
			idle = 0
		}
		if len(out) > limit+1000 {
			x.Fail("more than %d bytes are read from a stream that has %d", len(out), limit)
		}
	}
}

func constSize(n int) func(int) int { return func(int) int { return n } }

func diffBytes(got, want []byte) string {
	if bytes.Equal(got, want) {
		return ""
	}
	n := min(len(got), len(want))
	i := 0
	for i < n && got[i] == want[i] {
		i++
	}
	return fmt.Sprintf("%d bytes, expected %d; first difference at byte %d: %.16x, expected %.16x", len(got), len(want), i, got[i:min(i+8, len(got))], want[i:min(i+8, len(want))])
}

// shapes of packets for the payload readers; pid 0x50 is selected. The bits no reader may
// care about (counter, error indicator, priority, scrambling) vary with the position,
// counters also repeat.
type readShape struct {
	name  string
	match bool
	start bool
	build func(seed int) ([]byte, []byte) // packet, payload
}

func payloadShape(name string, pid int, match, start bool, afc, n int) readShape {
	return readShape{name, match, start, func(seed int) ([]byte, []byte) {
		pl := pattern(seed, n)
		if afc == 1 {
			return tsPacket{pid: pid, start: start, cc: seed / 2, marks: seed * 5, afc: 1, payload: pl}.bytes(), pl
		}
		return tsPacket{pid: pid, start: start, cc: seed / 2, marks: seed * 5, afc: afc, afLen: -1, payload: pl, fill: 0x47}.bytes(), pl
	}}
}

var t05shapes = []readShape{
	payloadShape("full", 0x50, true, false, 1, 184),
	payloadShape("adaptation+100", 0x50, true, true, 3, 100),
	payloadShape("foreign", 0x51, false, true, 1, 184),
	payloadShape("no payload", 0x50, true, false, 2, 0),
	payloadShape("adaptation+1", 0x50, true, false, 3, 1),
	payloadShape("adaptation+0", 0x50, true, true, 3, 0),
	payloadShape("control 0", 0x50, true, false, 0, 0),
	payloadShape("foreign short", 0x1050, false, false, 3, 5),
}

// cutTails are truncated packets appended to a stream: nil for none.
func cutTails() [][]byte {
	f, _ := t05shapes[0].build(77)
	a, _ := t05shapes[1].build(78)
	g, _ := t05shapes[2].build(79)
	e, _ := t05shapes[3].build(80)
	return [][]byte{nil, f[:1], f[:5], f[:187], a[:4], a[:90], g[:100], e[:3], e[:150]}
}

func init() {
	register(&Check{
		ID: "T05", Level: "model_checking",
		Rule:   "every sequence of packet shapes up to the depth x every end of the stream (clean or cut inside a packet) x read sizes and source chunk sizes (uniform, and with bounded deviations per call) is read through the real reader and compared with the concatenation of the selected payloads; states are (shape history, bytes delivered) of the model",
		Spaces: t05spaces,
	})
	register(&Check{
		ID: "T06", Level: "model_checking",
		Rule:   "every label sequence up to the depth x every skip condition x every take condition x every stream tester (subsets of the labels) is run through the payload reader (several read sizes) and through the demultiplexer and compared with the window model; states are (label, window state) histories of the model",
		Assume: []string{"whether the very first packet is put to the take condition when no skip condition was set is not asserted (the payload reader does, the demultiplexer does not)"},
		Spaces: t06spaces,
	})
	register(&Check{
		ID: "T07", Level: "model_checking",
		Rule:   "every sequence of start/continuation/foreign/empty packets up to the depth x every end of the stream x read sizes and source chunk sizes is read through the payload unit reader; the sequence of (unit bytes, end mark) and the final error are compared with the unit model; states are the model's unit histories",
		Assume: []string{"a unit that the end of the stream or a damaged packet cuts short is delivered with its end mark before the error"},
		Spaces: t07spaces,
	})
	register(&Check{
		ID: "T11", Level: "model_checking",
		Rule:   "every tester expression over the atoms up to the depth is built with the real combinators and evaluated on every packet of the alphabet against boolean evaluation; every operand is evaluated again after it was combined; states are (expression, truth vector)",
		Spaces: t11spaces,
		Race:   raceTesters,
	})
}

var (
	readSizes  = []int{1, 3, 183, 184, 185, 1000}
	chunkSizes = []int{0, 1, 7, 187, 188, 189}
)

func t05spaces(thorough bool) []*Space {
	depth, ddepth, bound := 5, 3, 2
	if thorough {
		depth, ddepth, bound = 6, 3, 3
	}
	tails := cutTails()
	build := func(x *X, depth int) ([]byte, []byte, []int) {
		var stream, want []byte
		var seq []int
		n := x.Choose(depth + 1)
		h := uint64(1)
		for i := 0; i < n; i++ {
			k := x.Choose(len(t05shapes))
			seq = append(seq, k)
			b, pl := t05shapes[k].build(i)
			stream = append(stream, b...)
			if t05shapes[k].match {
				want = append(want, pl...)
			}
			h = HashInts(h, uint64(k))
			x.Visit(mix(h, uint64(len(want))))
		}
		return stream, want, seq
	}
	check := func(x *X, what string, stream, want []byte, cut bool, chunk int, next func(int) int, skipAll bool) {
		src := &source{data: stream, chunk: chunk}
		r := ts.NewPayloadReader(src, ts.IsPID(0x50))
		if skipAll {
			r.SkipUntil(func(*ts.Packet) bool { return true })
		}
		res := readAllSized(x, r, len(want), next)
		if d := diffBytes(res.data, want); d != "" {
			x.Fail("%s: %s", what, d)
		}
		exp := io.EOF
		if cut {
			exp = io.ErrUnexpectedEOF
		}
		if res.err != exp {
			x.Fail("%s: ends with %v, expected %v", what, res.err, exp)
		}
	}
	return []*Space{
		{Name: "uniform sizes", Body: func(x *X) {
			stream, want, seq := build(x, depth)
			ti := 0
			if len(seq) <= depth-2 {
				ti = x.Choose(len(tails))
			}
			stream = append(stream, tails[ti]...)
			n := 0
			for _, rs := range readSizes {
				for _, cs := range chunkSizes {
					if len(seq) > 3 && cs != 0 && cs != 188 && (rs+cs)%3 != 0 {
						continue
					}
					if len(seq) > 4 && (cs == 1 || cs == 7) {
						continue
					}
					check(x, fmt.Sprintf("packets %v, tail %d, reads of %d, source chunks of %d", seq, ti, rs, cs), stream, want, ti != 0, cs, constSize(rs), false)
					n++
				}
			}
			check(x, fmt.Sprintf("packets %v, tail %d, skip condition always true", seq, ti), stream, want, ti != 0, 0, constSize(100), true)
			x.Inner(int64(n))
			x.Note("packets", "%v tail %d", seq, ti)
		}},
		{Name: "deviating read sizes", Bound: bound, Body: func(x *X) {
			stream, want, seq := build(x, ddepth)
			ti := x.Choose(2) * 5
			stream = append(stream, tails[ti]...)
			base := Pick(x, []int{60, 184, 400})
			var sizes []int
			next := func(i int) int {
				n := base
				if i < 8 {
					n = []int{base, 0, 1, 183, 184, 185, 369}[x.Dev(7)]
				}
				sizes = append(sizes, n)
				return n
			}
			check(x, fmt.Sprintf("packets %v, tail %d, base read size %d", seq, ti, base), stream, want, ti != 0, 0, next, false)
			x.Note("reads", "packets %v sizes %v", seq, sizes)
		}},
		{Name: "unusual testers", Body: func(x *X) {
			stream, _, seq := build(x, 4)
			which := x.Choose(4)
			tester := []ts.PacketTester{
				func(*ts.Packet) bool { return false },
				func(*ts.Packet) bool { return true },
				ts.IsPayloadUnitStart,
				ts.IsPID(0x50).Not(),
			}[which]
			var want []byte
			for i, k := range seq {
				_, pl := t05shapes[k].build(i)
				if []bool{false, true, t05shapes[k].start, !t05shapes[k].match}[which] {
					want = append(want, pl...)
				}
			}
			for _, rs := range readSizes {
				res := readAllSized(x, ts.NewPayloadReader(&source{data: stream}, tester), len(want), constSize(rs))
				if d := diffBytes(res.data, want); d != "" {
					x.Fail("packets %v tester %d reads of %d: %s", seq, which, rs, d)
				}
				if res.err != io.EOF {
					x.Fail("packets %v tester %d reads of %d: ends with %v", seq, which, rs, res.err)
				}
			}
			x.Inner(5)
		}},
	}
}

func t06spaces(thorough bool) []*Space {
	depth := 5
	if thorough {
		depth = 6
	}
	pids := []int{0x20, 0x21, 0x22}
	inSet := func(set int) ts.PacketTester {
		return func(p *ts.Packet) bool { return set>>uint(p.PID-0x20)&1 == 1 }
	}
	type pk struct{ raw, pl []byte }
	cache := map[[2]int]pk{}
	for i := 0; i < 8; i++ {
		for l := 0; l < 3; l++ {
			n := []int{184, 100, 7}[(i+l)%3]
			pl := pattern(i*3+l, n)
			cache[[2]int{i, l}] = pk{carry(pids[l], i%2 == 0, i, pl), pl}
		}
	}
	return []*Space{{Name: "windows", Body: func(x *X) {
		n := x.Choose(depth + 1)
		var labels []int
		for i := 0; i < n; i++ {
			labels = append(labels, x.Choose(3))
		}
		where := 1 + x.Choose(7)
		cutTail := x.Bool()
		var stream []byte
		for i, l := range labels {
			stream = append(stream, cache[[2]int{i, l}].raw...)
		}
		wantErr := io.EOF
		if cutTail {
			stream = append(stream, cache[[2]int{7, 0}].raw[:50]...)
			wantErr = io.ErrUnexpectedEOF
		}
		runs := int64(0)
		for skip := 0; skip < 9; skip++ { // 8: no skip condition
			for take := 0; take < 9; take++ { // 8: no take condition
				var want []byte
				var wantPkts []int
				expErr, demuxErr := wantErr, wantErr
				skipping := true
				undefined := false
				h := HashInts(uint64(skip), uint64(take), uint64(where))
				for i, l := range labels {
					if skipping {
						if skip != 8 && skip>>uint(l)&1 == 0 {
							continue
						}
						skipping = false
						if skip == 8 && take != 8 && take>>uint(l)&1 == 0 {
							undefined = true
						}
					} else if take != 8 && take>>uint(l)&1 == 0 {
						expErr, demuxErr = io.EOF, nil
						break
					}
					if where>>uint(l)&1 == 1 {
						want = append(want, cache[[2]int{i, l}].pl...)
						wantPkts = append(wantPkts, i)
					}
					h = HashInts(h, uint64(l))
					x.Visit(h)
				}
				setup := func(c ts.TransportStreamControl) {
					if skip != 8 {
						c.SkipUntil(inSet(skip))
					}
					if take != 8 {
						c.TakeWhile(inSet(take))
					}
				}
				desc := func() string {
					return fmt.Sprintf("labels %v, tester %03b, skip %03b, take %03b (1000: none), cut %v", labels, where, skip, take, cutTail)
				}
				if !undefined {
					for _, rs := range []int{1000, 7, 184} {
						if rs == 7 && n > 4 {
							continue
						}
						r := ts.NewPayloadReader(&source{data: stream}, inSet(where))
						setup(r)
						res := readAllSized(x, r, len(want), constSize(rs))
						if d := diffBytes(res.data, want); d != "" {
							x.Fail("payload reader, %s, reads of %d: %s", desc(), rs, d)
						}
						if res.err != expErr {
							x.Fail("payload reader, %s, reads of %d: ends with %v, expected %v", desc(), rs, res.err, expErr)
						}
						runs++
					}
				}
				d := ts.NewDemuxer(&source{data: stream})
				ch := d.Where(inSet(where))
				setup(d)
				done := d.Go()
				k := 0
				for p := range ch {
					if k >= len(wantPkts) {
						x.Fail("demultiplexer, %s: delivers packet number %d, expected only %v", desc(), k, wantPkts)
					}
					i := wantPkts[k]
					r, _ := refTS(cache[[2]int{i, labels[i]}].raw)
					if df := diffTS(p, &r); df != "" {
						x.Fail("demultiplexer, %s: delivery %d: %s", desc(), k, df)
					}
					k++
				}
				if k != len(wantPkts) {
					x.Fail("demultiplexer, %s: delivers %d packets, expected %v", desc(), k, wantPkts)
				}
				<-done
				if !undefined && d.Err() != demuxErr {
					x.Fail("demultiplexer, %s: error %v, expected %v", desc(), d.Err(), demuxErr)
				}
				runs++
			}
		}
		x.Inner(runs)
		x.Note("labels", "%v tester %03b cut %v: 81 window conditions", labels, where, cutTail)
	}}}
}

var t07shapes = []readShape{
	payloadShape("start full", 0x50, true, true, 1, 184),
	payloadShape("start short", 0x50, true, true, 3, 9),
	payloadShape("start empty", 0x50, true, true, 2, 0),
	payloadShape("cont full", 0x50, true, false, 1, 184),
	payloadShape("cont short", 0x50, true, false, 3, 100),
	payloadShape("cont empty", 0x50, true, false, 2, 0),
	payloadShape("foreign start", 0x51, false, true, 1, 184),
	payloadShape("foreign cont", 0x51, false, false, 3, 3),
}

func t07spaces(thorough bool) []*Space {
	depth := 5
	if thorough {
		depth = 6
	}
	tails := cutTails()
	units := func(x *X, seq []int) ([]byte, [][]byte) {
		var stream []byte
		var us [][]byte
		h := uint64(7)
		for i, k := range seq {
			s := t07shapes[k]
			b, pl := s.build(i)
			stream = append(stream, b...)
			if s.match && s.start {
				us = append(us, []byte{})
			}
			if s.match && len(us) > 0 {
				us[len(us)-1] = append(us[len(us)-1], pl...)
			}
			h = HashInts(h, uint64(k))
			x.Visit(h)
		}
		return stream, us
	}
	check := func(x *X, what string, stream []byte, us [][]byte, expErr error, chunk int, next func(int) int) {
		r := ts.NewPayloadUnitReader(&source{data: stream, chunk: chunk}, ts.IsPID(0x50))
		var cur []byte
		got := 0
		idle := 0
		var mine callerBuf
		for i := 0; ; i++ {
			n := next(i)
			p := mine.get(n)
			k, err := r.Read(p)
			if k < 0 || k > n {
				x.Fail("%s: Read of %d bytes returns n=%d", what, n, k)
			}
			if k > 0 && err != nil {
				x.Fail("%s: Read returns %d bytes together with %v", what, k, err)
			}
			cur = append(cur, p[:k]...)
			if !mine.done(n) {
				x.Fail("%s: Read writes outside of the %d bytes it is given", what, n)
			}
			if len(cur) > len(stream) {
				x.Fail("%s: a unit is longer than the stream", what)
			}
			if k == 0 && err == nil && n > 0 {
				if idle++; idle > 100 {
					x.Fail("%s: Read makes no progress", what)
				}
				continue
			}
			idle = 0
			if err == nil {
				continue
			}
			if err == ts.EOP {
				if got >= len(us) {
					x.Fail("%s: end mark %d, but there are only %d units", what, got+1, len(us))
				}
				if d := diffBytes(cur, us[got]); d != "" {
					x.Fail("%s: unit %d: %s", what, got, d)
				}
				got++
				cur = nil
				continue
			}
			if len(cur) > 0 {
				x.Fail("%s: %d bytes of unit %d are followed by %v instead of its end mark", what, len(cur), got, err)
			}
			if got != len(us) {
				x.Fail("%s: only %d of %d units are delivered before %v", what, got, len(us), err)
			}
			if err != expErr {
				x.Fail("%s: ends with %v, expected %v", what, err, expErr)
			}
			for j := 0; j < 3; j++ {
				if k, err := r.Read(make([]byte, 5)); k != 0 || err == nil {
					x.Fail("%s: a Read after the end returns n=%d, err=%v", what, k, err)
				}
			}
			return
		}
	}
	return []*Space{
		{Name: "uniform sizes", Body: func(x *X) {
			n := x.Choose(depth + 1)
			var seq []int
			for i := 0; i < n; i++ {
				seq = append(seq, x.Choose(len(t07shapes)))
			}
			ti := 0
			if n <= depth-2 {
				ti = x.Choose(len(tails))
			}
			stream, us := units(x, seq)
			stream = append(stream, tails[ti]...)
			exp := io.EOF
			if ti != 0 {
				exp = io.ErrUnexpectedEOF
			}
			runs := 0
			for _, rs := range []int{1000, 1, 9, 92, 184} {
				for _, cs := range []int{0, 1, 187, 188} {
					if n > 3 && (rs == 1 || cs == 1 || rs == 9 && cs != 0) {
						continue
					}
					check(x, fmt.Sprintf("packets %v, tail %d, reads of %d, source chunks of %d", seq, ti, rs, cs), stream, us, exp, cs, constSize(rs))
					runs++
				}
			}
			x.Inner(int64(runs))
			x.Note("packets", "%v tail %d: %d units", seq, ti, len(us))
		}},
		{Name: "deviating read sizes", Bound: 2 + b2i(thorough), Body: func(x *X) {
			n := x.Choose(4)
			var seq []int
			for i := 0; i < n; i++ {
				seq = append(seq, x.Choose(len(t07shapes)))
			}
			stream, us := units(x, seq)
			base := Pick(x, []int{60, 184, 400})
			check(x, fmt.Sprintf("packets %v, base read size %d", seq, base), stream, us, io.EOF, 0, func(i int) int {
				if i >= 10 {
					return base
				}
				return []int{base, 0, 1, 9, 183, 184, 185, 368}[x.Dev(8)]
			})
		}},
	}
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func t11spaces(thorough bool) []*Space {
	pids := []uint32{0, 5, 0x1fff}
	var pkts []*ts.Packet
	for _, p := range append(pids, 6) {
		for s := 0; s < 2; s++ {
			raw := tsPacket{pid: int(p), start: s == 1, afc: 1, payload: make([]byte, 184)}.bytes()
			pk, err := ts.NewPacket(newBR(raw))
			if err != nil {
				panic("harness: " + err.Error())
			}
			pkts = append(pkts, pk)
		}
	}
	type expr struct {
		t     ts.PacketTester
		truth uint32
		name  string
	}
	all := uint32(1)<<uint(len(pkts)) - 1
	var atoms []expr
	for _, p := range pids {
		var m uint32
		for i, k := range pkts {
			if k.PID == p {
				m |= 1 << uint(i)
			}
		}
		atoms = append(atoms, expr{ts.IsPID(p), m, fmt.Sprintf("pid%x", p)})
	}
	var m uint32
	for i := range pkts {
		if i%2 == 1 {
			m |= 1 << uint(i)
		}
	}
	atoms = append(atoms, expr{ts.IsPayloadUnitStart, m, "start"})
	eval := func(t ts.PacketTester) (m uint32) {
		for i, p := range pkts {
			if t(p) {
				m |= 1 << uint(i)
			}
		}
		return
	}
	verify := func(x *X, e expr) {
		if g := eval(e.t); g != e.truth {
			x.Fail("%s is true for packets %08b, expected %08b", e.name, g, e.truth)
		}
		x.Visit(HashInts(uint64(len(e.name)), uint64(e.truth)))
	}
	combine := func(op int, a, b expr) expr {
		switch op {
		case 0:
			return expr{a.t.Not(), ^a.truth & all, "!(" + a.name + ")"}
		case 1:
			return expr{a.t.And(b.t), a.truth & b.truth, "(" + a.name + "&" + b.name + ")"}
		default:
			return expr{a.t.Or(b.t), a.truth | b.truth, "(" + a.name + "|" + b.name + ")"}
		}
	}
	level := func(es []expr) []expr {
		out := append([]expr{}, es...)
		for _, a := range es {
			out = append(out, combine(0, a, a))
			for _, b := range es {
				out = append(out, combine(1, a, b), combine(2, a, b))
			}
		}
		return out
	}
	l1 := level(atoms)
	l2 := level(l1)
	return []*Space{
		{Name: "depth 2 expressions, operands checked after combination", Body: func(x *X) {
			a := l1[x.Choose(len(l1))]
			op := x.Choose(3)
			b := a
			if op != 0 {
				b = l1[x.Choose(len(l1))]
			}
			c := combine(op, a, b)
			verify(x, c)
			verify(x, a)
			verify(x, b)
			verify(x, c)
			for _, at := range atoms {
				verify(x, at)
			}
			x.Note("expression", "%s truth %08b", c.name, c.truth)
		}},
		{Name: "depth 3 expressions", Body: func(x *X) {
			a := l2[x.Choose(len(l2))]
			verify(x, combine(0, a, a))
			if op := x.Choose(3); op > 0 {
				step := 1
				if !thorough {
					step = 17
				}
				for i := x.Choose(step); i < len(l2); i += step {
					b := l2[i]
					var c expr
					if op == 1 {
						c = expr{a.t.And(b.t), a.truth & b.truth, ""}
					} else {
						c = expr{a.t.Or(b.t), a.truth | b.truth, ""}
					}
					if g := eval(c.t); g != c.truth {
						x.Fail("%s op %d %s is true for packets %08b, expected %08b", a.name, op, b.name, g, c.truth)
					}
					x.Inner(1)
				}
			}
			verify(x, a)
		}},
		{Name: "every PID", Body: func(x *X) {
			hi := x.Choose(64)
			for lo := 0; lo < 128; lo++ {
				pid := uint32(hi*128 + lo)
				t := ts.IsPID(pid)
				n := t.Not()
				p := &ts.Packet{}
				for q := uint32(0); q < 8192; q++ {
					p.PID = q
					if t(p) != (q == pid) || n(p) == (q == pid) {
						x.Fail("IsPID(%d) is wrong for PID %d", pid, q)
					}
				}
				raw := tsPacket{pid: int(pid), start: pid%2 == 0, afc: 1, payload: make([]byte, 184)}.bytes()
				pk, err := ts.NewPacket(newBR(raw))
				if err != nil {
					x.Fail("%v", err)
				}
				if !t(pk) || ts.IsPayloadUnitStart(pk) != (pid%2 == 0) {
					x.Fail("a parsed packet with PID %d is not recognised", pid)
				}
				x.Visit(HashInts(2, uint64(pid)))
			}
			x.Inner(128 * 8192)
		}},
	}
}
