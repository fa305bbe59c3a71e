package mc

import (
	"fmt"
	"io"

	"github.com/32bitkid/bitreader"
	"github.com/32bitkid/mpeg/pes"
	"github.com/32bitkid/mpeg/ps"
	"github.com/32bitkid/mpeg/ts"
)

// Long streams: words of packets repeated until every 16-bit count has wrapped. The
// spaces below belong to the properties of the readers; depth in time takes the place of
// depth in variety.

var longSpaces = map[string]func(thorough bool) []*Space{
	"T02": func(th bool) []*Space { return []*Space{t02long(th)} },
	"T05": func(th bool) []*Space { return []*Space{t05long(th)} },
	"T06": func(th bool) []*Space { return []*Space{t06long(th)} },
	"T07": t07long,
	"T08": func(th bool) []*Space { return []*Space{t08long(th, false), manyChannels(false)} },
	"T09": func(th bool) []*Space { return []*Space{t08long(th, true), manyChannels(true)} },
	"T10": t10long,
	"T11": func(th bool) []*Space { return []*Space{t11long(th)} },
	"P02": func(th bool) []*Space { return []*Space{p02long(th)} },
	"P04": func(th bool) []*Space { return []*Space{p04long(th)} },
	"S02": func(th bool) []*Space { return []*Space{s02long(th)} },
	"V01": func(th bool) []*Space { return []*Space{largePictures("I"), extremePictures("I", th)} },
	"V03": func(th bool) []*Space { return []*Space{largePictures("IP"), extremePictures("P", th)} },
	"V04": func(th bool) []*Space { return []*Space{largePictures("IPB"), extremePictures("B", th)} },
	"S03": func(th bool) []*Space { return []*Space{s03long(th)} },
}

// ambient are the checks that go through the interactions of features.
var ambient = map[string]func(thorough bool) []*Space{
	"V01": func(th bool) []*Space { return interactions("I", th, 3, checkParts) },
	"V03": func(th bool) []*Space { return interactions("IP", th, 4, checkParts) },
	"V04": func(th bool) []*Space { return interactions("IPB", th, 4, checkParts) },
	"V05": func(th bool) []*Space { return interactions("IPB", th, 3, checkParts) },
	"V06": func(th bool) []*Space { return interactions("IPB", th, 4, checkParts) },
	"V07": func(th bool) []*Space { return interactions("IPB", th, 4, checkParts) },
	"V09": func(th bool) []*Space { return interactions("IPB", th, 3, checkParts) },
	"V11": func(th bool) []*Space { return interactions("IPB", th, 3, checkParts) },
	"V12": func(th bool) []*Space { return interactions("IPB", th, 4, checkHeld) },
}

// largePictures have more macroblocks, samples and lines than 16 bits count.
func largePictures(kinds string) *Space {
	return &Space{Name: "large pictures", Body: func(x *X) {
		size := Pick(x, [][2]int{{1920, 1088}, {4096, 4096}, {4096, 4112}, {2064, 8200}, {8192, 2080}})
		e := newVid(vSeqHdr{w: size[0], h: size[1], progressive: 1})
		mw := e.w / 16
		n := 1 + x.Choose(len(kinds))
		for i, k := range kinds[:n] {
			if k == 'I' {
				e.pic(textured(vParams{}.pic(1, 0), mw, e.h/16, 4, 3))
				continue
			}
			tref := i
			if n > 2 {
				tref = map[rune]int{'P': 2, 'B': 1}[k]
			}
			q := vParams{}.pic(2, tref)
			if k == 'B' {
				q = vParams{}.pic(3, tref)
			}
			for r := 0; r < e.h/16; r++ {
				sl := vSlice{row: r, q: 4, mbs: []vMB{{fwd: true, bwd: k == 'B' && r%3 > 0}}}
				if r%16 == 15 {
					sl.mbs[0].mv = [2][2]int{{5, -7}, {2, -1}}
				}
				up := -9
				if r == 0 {
					up = 3
				}
				if k == 'B' {
					// skipped macroblocks repeat the vectors, the last one is coded
					sl.mbs = append(sl.mbs, vMB{skip: mw - 3, bwd: true, mv: [2][2]int{{}, {-3, up}}}, vMB{intra: true})
				} else {
					sl.mbs = append(sl.mbs, vMB{skip: mw - 3, fwd: true, mv: [2][2]int{{-3, up}}}, vMB{intra: true})
				}
				q.slices = append(q.slices, sl)
			}
			e.pic(q)
		}
		x.Inner(int64(e.w * e.h / 256))
		e.check(x)
		x.Visit(HashInts(15, uint64(size[0]), uint64(size[1]), uint64(n)))
	}}
}

// extremePictures are very wide or very tall: offsets of lines, blocks and vectors are large. All
// macroblocks are coded, of all kinds, the vectors reach as far as picture and f_code permit.
func extremePictures(kind string, thorough bool) *Space {
	sizes := [][2]int{{16368, 32}, {32, 16368}, {8208, 48}, {48, 8208}, {4688, 80}, {5008, 16}, {16, 5008}, {16368, 96}, {96, 16368}, {2064, 2064}, {3280, 64}, {64, 3280}}
	step := 29
	if thorough {
		step = 1
	}
	for n := 1; n <= 1023; n += step {
		sizes = append(sizes, [2]int{16 * n, 32}, [2]int{32, 16 * n})
	}
	return &Space{Name: "extreme pictures", Body: func(x *X) {
		size := Pick(x, sizes)
		q := vParams{field: x.Choose(2)}
		phase := x.Choose(3)
		seq := vSeqHdr{w: size[0], h: size[1], progressive: 1 - q.field}
		e := newVid(seq)
		w, h := e.w/16, e.h/16
		if h > 175 && size[1] <= 2800 {
			return // no slice start code for the last row
		}
		intra := func(tref, seed int) {
			p := q.pic(1, tref)
			p.rows(w, h, 4, func(c, r int) vMB {
				m := texture(p, seed, c, r)
				m.field = q.field == 1 && (c+r+phase)%3 == 0
				return m
			})
			e.pic(p)
		}
		// component chooses a vector component between the borders
		component := func(i, n, unit, k int) int {
			lo, hi := max(-unit*i, -4096), min(unit*(n-1-i), 4095)
			return []int{0, hi, lo, lo / 2, hi - min(hi, 1), hi/2 | min(hi, 1), lo + min(-lo, 1), lo + (hi-lo)/3}[k%8]
		}
		intra(0, phase)
		if kind == "B" {
			intra(2, 50+phase)
		}
		if kind != "I" {
			p := q.pic(map[string]int{"P": 2, "B": 3}[kind], 1)
			for s := 0; s < p.kind-1; s++ {
				p.fcode[s] = [2]int{9, 9}
			}
			p.rows(w, h, 5, func(c, r int) vMB {
				k := c*5 + r*3 + phase
				if k%17 == 16 {
					return texture(p, c, r)
				}
				m := vMB{fwd: kind == "P" || k%3 != 1, bwd: kind == "B" && k%3 != 0}
				m.fmv = q.field == 1 && k%4 < 2
				m.field = q.field == 1 && k%5 < 2
				unit := 32
				if m.fmv {
					unit = 16
				}
				for s := 0; s < p.kind-1; s++ {
					m.mv[s] = [2]int{component(c, w, 32, k+s), component(r, h, unit, k/8+3*s)}
					m.mv2[s] = [2]int{component(c, w, 32, k/3+s), component(r, h, unit, k/5+s)}
					m.sel[0][s], m.sel[1][s] = (k+s)&1, k>>1&1
				}
				if k%7 < 3 {
					m.cbp = 1 + k%63
					for i := range m.blk {
						m.blk[i].co = []vCoef{{run: i, level: 2 - k%5*2 + 1}}
					}
				}
				return m
			})
			e.pic(p)
		}
		x.Inner(int64(w * h))
		e.check(x)
		x.Visit(HashInts(16, uint64(size[0]), uint64(size[1]), uint64(q.field), uint64(phase)))
	}}
}

const longRun = 1<<16 + 300

// longLimit is where single large things (units, windows) are tried.
var longMarks = []int{1, 2, 63, 64, 127, 128, 129, 255, 256, 257, 511, 512, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 10000, 32767, 32768, 65535, 65536, 65537}

func wordOf(x *X, lo, hi, kinds int) []int {
	n := lo + x.Choose(hi-lo+1)
	var w []int
	for i := 0; i < n; i++ {
		w = append(w, x.Choose(kinds))
	}
	return w
}

func longShapes(shapes []readShape) (raw, pl [][]byte) {
	for i, s := range shapes {
		b, p := s.build(i)
		raw, pl = append(raw, b), append(pl, p)
	}
	return
}

func t02long(thorough bool) *Space {
	shapes := tsShapes()
	return &Space{Name: "long streams", Body: func(x *X) {
		w := wordOf(x, 1, 2+b2i(thorough), len(shapes))
		var period []byte
		var refs []refPacket
		for _, k := range w {
			period = append(period, shapes[k]...)
			r, _ := refTS(shapes[k])
			refs = append(refs, r)
		}
		n := longRun / len(w)
		br := bitreader.NewReader(&repeated{period: period, n: n})
		p := new(ts.Packet)
		for i := 0; i < n*len(w); i++ {
			if err := p.Next(br); err != nil {
				x.Fail("packet %d of the repeated shapes %v: %v", i, w, err)
			}
			if d := diffTS(p, &refs[i%len(w)]); d != "" {
				x.Fail("packet %d of the repeated shapes %v: %s", i, w, d)
			}
		}
		if err := p.Next(br); err != io.EOF {
			x.Fail("after %d packets of shapes %v: %v", n*len(w), w, err)
		}
		x.Visit(HashInts(50, packWord(w)))
	}}
}

// repeated delivers a period n times, then a tail.
type repeated struct {
	head, period, tail []byte
	n                  int
	chunk              int
	pos                int
	ends               int
}

func (r *repeated) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if r.chunk > 0 && len(p) > r.chunk {
		p = p[:r.chunk]
	}
	body := len(r.head) + r.n*len(r.period)
	k := 0
	switch {
	case r.pos < len(r.head):
		k = copy(p, r.head[r.pos:])
	case r.pos < body:
		k = copy(p, r.period[(r.pos-len(r.head))%len(r.period):])
	case r.pos-body < len(r.tail):
		k = copy(p, r.tail[r.pos-body:])
	default:
		if r.ends++; r.ends > maxEnds {
			panic("livelock: the source was read again and again after its end")
		}
		return 0, io.EOF
	}
	r.pos += k
	return k, nil
}

func packWord(w []int) uint64 {
	h := uint64(17)
	for _, k := range w {
		h = HashInts(h, uint64(k))
	}
	return h
}

// matcher compares what is read with a head, repeated parts and a tail, without keeping it.
type matcher struct {
	head, period, tail []byte
	n                  int
	pos                int
	bad                int
}

func (m *matcher) total() int { return len(m.head) + m.n*len(m.period) + len(m.tail) }

func (m *matcher) add(b []byte) {
	for len(b) > 0 && m.bad == 0 {
		body := len(m.head) + m.n*len(m.period)
		var want []byte
		switch {
		case m.pos < len(m.head):
			want = m.head[m.pos:]
		case m.pos < body:
			want = m.period[(m.pos-len(m.head))%len(m.period):]
		case m.pos-body < len(m.tail):
			want = m.tail[m.pos-body:]
		}
		k := min(len(want), len(b))
		if k == 0 || string(want[:k]) != string(b[:k]) {
			m.bad = m.pos + 1
			return
		}
		m.pos, b = m.pos+k, b[k:]
	}
}

// longRead reads to the first error (end marks of units are passed) and compares.
func longRead(x *X, what string, r io.Reader, m *matcher, size int, exp error) {
	var mine callerBuf
	idle := 0
	for {
		p := mine.get(size)
		k, err := r.Read(p)
		if k < 0 || k > size {
			x.Fail("%s: Read of %d bytes returns n=%d", what, size, k)
		}
		m.add(p[:k])
		if !mine.done(size) {
			x.Fail("%s: Read writes outside of the %d bytes it is given", what, size)
		}
		if m.bad > 0 {
			x.Fail("%s: other data than the payloads at byte %d of %d", what, m.bad-1, m.total())
		}
		if err != nil && k > 0 {
			x.Fail("%s: Read returns %d bytes together with %v", what, k, err)
		}
		if err != nil {
			if m.pos != m.total() {
				x.Fail("%s: ends with %v after %d of %d bytes", what, err, m.pos, m.total())
			}
			if err != exp {
				x.Fail("%s: ends with %v, expected %v", what, err, exp)
			}
			return
		}
		if k > 0 {
			idle = 0
		} else if idle++; idle > longRun+100 {
			x.Fail("%s: Read makes no progress", what)
		}
	}
}

func t05long(thorough bool) *Space {
	raw, pl := longShapes(t05shapes)
	return &Space{Name: "long streams", Body: func(x *X) {
		w := wordOf(x, 1, 2, len(t05shapes))
		var period, want []byte
		for _, k := range w {
			period = append(period, raw[k]...)
			if t05shapes[k].match {
				want = append(want, pl[k]...)
			}
		}
		n := longRun / len(w)
		for _, size := range []int{1 << 17, 150} {
			longRead(x, fmt.Sprintf("the packets %v %d times, reads of %d", w, n, size),
				ts.NewPayloadReader(&repeated{period: period, n: n}, ts.IsPID(0x50)), &matcher{period: want, n: n}, size, io.EOF)
		}
		x.Inner(1)
		x.Visit(HashInts(51, packWord(w)))
	}}
}

// t06long places the start and the end of the window far behind.
func t06long(thorough bool) *Space {
	pids := []int{0x20, 0x21, 0x22}
	var raw, pl [][]byte
	for i, pid := range pids {
		p := pattern(i+900, 40)
		pl = append(pl, p)
		raw = append(raw, carry(pid, i == 1, i, p))
	}
	return &Space{Name: "far windows", Body: func(x *X) {
		// packets before the window, in it, and after it
		before, inside := Pick(x, append([]int{0}, longMarks...)), Pick(x, longMarks)
		two := x.Bool() // a tester that leaves packets of the window out
		var stream, want []byte
		wantN := 0
		for i := 0; i < before; i++ {
			stream = append(stream, raw[1+i%2]...)
		}
		for i := 0; i < inside; i++ {
			k := 0
			if two {
				k = i % 2
			}
			stream = append(stream, raw[k]...)
			if k == 0 {
				want = append(want, pl[0]...)
				wantN++
			}
		}
		for i := 0; i < 3; i++ {
			stream = append(stream, raw[2]...)
			stream = append(stream, raw[0]...)
		}
		setup := func(c ts.TransportStreamControl) {
			c.SkipUntil(ts.IsPID(0x20))
			c.TakeWhile(ts.IsPID(0x22).Not())
		}
		what := fmt.Sprintf("%d packets, a window of %d, and more (every second one left out: %v)", before, inside, two)
		r := ts.NewPayloadReader(&source{data: stream}, ts.IsPID(0x20))
		setup(r)
		longRead(x, "payload reader, "+what, r, &matcher{tail: want}, 1000, io.EOF)
		d := ts.NewDemuxer(&source{data: stream})
		ch := d.Where(ts.IsPID(0x20))
		setup(d)
		done := d.Go()
		k := 0
		for p := range ch {
			if p.PID != 0x20 || string(p.Payload) != string(pl[0]) {
				x.Fail("demultiplexer, %s: delivery %d is not the packet of the window", what, k)
			}
			k++
		}
		<-done
		if k != wantN || d.Err() != nil {
			x.Fail("demultiplexer, %s: delivers %d packets and error %v, expected %d and none", what, k, d.Err(), wantN)
		}
		x.Inner(1)
		x.Visit(HashInts(52, uint64(before), uint64(inside), b2u(two)))
	}}
}

func t07long(thorough bool) []*Space {
	raw, pl := longShapes(t07shapes)
	// run reads m units, each a start packet and the same further ones
	return []*Space{{Name: "long streams", Body: func(x *X) {
		w := append([]int{x.Choose(3)}, wordOf(x, 0, 2, len(t07shapes))...)
		var period []byte
		var us [][]byte
		for _, k := range w {
			period = append(period, raw[k]...)
			if s := t07shapes[k]; s.match {
				if s.start {
					us = append(us, nil)
				}
				us[len(us)-1] = append(us[len(us)-1], pl[k]...)
			}
		}
		n := longRun / len(w)
		unitsRead(x, fmt.Sprintf("the packets %v %d times", w, n), ts.NewPayloadUnitReader(&repeated{period: period, n: n}, ts.IsPID(0x50)), n*len(us), func(i int) *matcher {
			return &matcher{head: us[i%len(us)]}
		})
		x.Visit(HashInts(53, packWord(w)))
	}}, {Name: "long units", Body: func(x *X) {
		// units of many packets, of different lengths
		n := Pick(x, longMarks)
		rest := []int{3, 4, 5, 6, 7} // continuations and foreign packets
		k, j := Pick(x, rest), Pick(x, rest)
		var pay []byte
		for _, i := range []int{k, j} {
			if t07shapes[i].match {
				pay = append(pay, pl[i]...)
			}
		}
		src := io.MultiReader(
			&repeated{head: raw[0], period: append(append([]byte{}, raw[k]...), raw[j]...), n: n},
			&repeated{head: raw[1], period: raw[4], n: 2})
		unitsRead(x, fmt.Sprintf("a unit with %d times the packets %v, and a short one", n, []int{k, j}), ts.NewPayloadUnitReader(src, ts.IsPID(0x50)), 2, func(i int) *matcher {
			if i == 0 {
				return &matcher{head: pl[0], period: pay, n: n}
			}
			return &matcher{head: pl[1], period: pl[4], n: 2}
		})
		x.Visit(HashInts(54, uint64(n), uint64(k), uint64(j)))
	}}}
}

// unitsRead reads units to the end.
func unitsRead(x *X, what string, r io.Reader, n int, unit func(i int) *matcher) {
	var mine callerBuf
	idle := 0
	for got, m := 0, unit(0); ; {
		p := mine.get(700)
		k, err := r.Read(p)
		if k < 0 || k > 700 {
			x.Fail("%s: Read of 700 bytes returns n=%d", what, k)
		}
		m.add(p[:k])
		if !mine.done(700) {
			x.Fail("%s: Read writes outside of the bytes it is given", what)
		}
		if m.bad > 0 {
			x.Fail("%s: unit %d: other data than the payloads at byte %d of %d", what, got, m.bad-1, m.total())
		}
		switch {
		case err == ts.EOP && got == n:
			x.Fail("%s: more than %d units", what, n)
		case err == ts.EOP:
			if m.pos != m.total() || k > 0 {
				x.Fail("%s: unit %d: end mark after %d of %d bytes, with n=%d", what, got, m.pos, m.total(), k)
			}
			got++
			m = unit(got)
			if got == n {
				m = &matcher{}
			}
		case err != nil:
			if err != io.EOF || got != n || k > 0 {
				x.Fail("%s: ends with %v (n=%d) after %d of %d units", what, err, k, got, n)
			}
			return
		case k > 0:
			idle = 0
			continue
		}
		if idle++; idle > n+100 {
			x.Fail("%s: Read makes no progress", what)
		}
	}
}

// longDemux runs a demultiplexer over a long stream; every packet received is kept to the end.
func longDemux(x *X, w []int, sets []int, n int, hold bool) {
	var period []byte
	var refs []refPacket
	for i, l := range w {
		b := demuxPacket(i*5+l, l)
		r, _ := refTS(b)
		period, refs = append(period, b...), append(refs, r)
	}
	d := ts.NewDemuxer(&repeated{period: period, n: n})
	type result struct {
		bad string
		got []*ts.Packet
	}
	res := make([]chan result, len(sets))
	var want [][]int
	for k, s := range sets {
		ch := d.Where(labelSet(s))
		var idx []int
		for i, l := range w {
			if s>>uint(l)&1 == 1 {
				idx = append(idx, i)
			}
		}
		want = append(want, idx)
		res[k] = make(chan result, 1)
		go func() {
			var r result
			i := 0
			for p := range ch {
				if len(idx) == 0 {
					r.bad = "a packet it should not get"
				} else if df := diffTS(p, &refs[idx[i%len(idx)]]); df != "" && r.bad == "" {
					r.bad = fmt.Sprintf("delivery %d: %s", i, df)
				}
				if hold {
					r.got = append(r.got, p)
				}
				i++
			}
			if i != n*len(idx) && r.bad == "" {
				r.bad = fmt.Sprintf("%d packets, expected %d", i, n*len(idx))
			}
			res[k] <- r
		}()
	}
	done := d.Go()
	for k := range sets {
		r := <-res[k]
		if r.bad != "" {
			x.Fail("labels %v %d times, channels %v: channel %d: %s", w, n, sets, k, r.bad)
		}
		for i, p := range r.got {
			if df := diffTS(p, &refs[want[k][i%len(want[k])]]); df != "" {
				x.Fail("labels %v %d times, channels %v: packet %d of channel %d has changed: %s", w, n, sets, i, k, df)
			}
		}
	}
	if _, ok := <-done; !ok || d.Err() != io.EOF {
		x.Fail("labels %v %d times, channels %v: ends with %v", w, n, sets, d.Err())
	}
	x.Visit(HashInts(55, packWord(w), packWord(sets), b2u(hold)))
}

func t08long(thorough, hold bool) *Space {
	return &Space{Name: "long streams", Body: func(x *X) {
		w := wordOf(x, 1, 2+b2i(thorough), 2)
		sets := Pick(x, [][]int{{1}, {3}, {1, 2}, {3, 1}})
		longDemux(x, w, sets, longRun/len(w), hold)
	}}
}

// manyChannels registers more channels than a word has bits.
func manyChannels(hold bool) *Space {
	return &Space{Name: "many channels", Body: func(x *X) {
		w := [][]int{{0}, {0, 1}, {0, 1, 2}, {2, 1, 0, 0}}[x.Choose(4)]
		n := Pick(x, []int{4, 5, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 255, 256, 257})
		mul := 1 + x.Choose(6)
		var sets []int
		for i := 0; i < n; i++ {
			sets = append(sets, i*mul%8)
		}
		longDemux(x, w, sets, 6, hold)
	}}
}

func t10long(thorough bool) []*Space {
	run := func(x *X, what string, n int, packet func(i int) *ts.Packet, kind int, out func(i int) []byte, units int) {
		var res <-chan []byte
		if kind < 2 {
			in := make(chan *ts.Packet)
			go func() {
				for i := 0; i < n; i++ {
					in <- packet(i)
				}
				close(in)
			}()
			if kind == 0 {
				res = ts.PacketChannel(in).PayloadUnit()
			} else {
				res = ts.PacketChannel(in).PayloadOnly()
			}
		} else {
			in := make(chan *pes.Packet)
			go func() {
				for i := 0; i < n; i++ {
					in <- &pes.Packet{StreamID: 0xe0, Payload: packet(i).Payload}
				}
				close(in)
			}()
			res = pes.PacketChannel(in).PayloadOnly()
		}
		var all [][]byte
		for u := range res {
			if len(all) >= units {
				x.Fail("%s: more than %d items", what, units)
			}
			if d := diffBytes(u, out(len(all))); d != "" {
				x.Fail("%s: item %d: %s", what, len(all), d)
			}
			all = append(all, u)
		}
		if len(all) != units {
			x.Fail("%s: %d items, expected %d", what, len(all), units)
		}
		for i, u := range all {
			if d := diffBytes(u, out(i)); d != "" {
				x.Fail("%s: item %d has changed: %s", what, i, d)
			}
		}
	}
	return []*Space{{Name: "long streams", Body: func(x *X) {
		w := wordOf(x, 1, 3, 3)
		kind := x.Choose(3)
		n := longRun / len(w) * len(w)
		packet := func(i int) *ts.Packet {
			k := w[i%len(w)]
			return &ts.Packet{PayloadUnitStartIndicator: k != 2, Payload: []byte{byte(i), byte(i >> 8), byte(i >> 16), byte(k)}[:4-2*(k&1)]}
		}
		var want [][]byte
		for i := 0; i < n; i++ {
			p := packet(i)
			if kind > 0 || p.PayloadUnitStartIndicator {
				want = append(want, []byte{})
			}
			if len(want) > 0 {
				want[len(want)-1] = append(want[len(want)-1], p.Payload...)
			}
		}
		run(x, fmt.Sprintf("payloads %v repeated %d times, transform %d", w, n/len(w), kind), n, packet, kind, func(i int) []byte { return want[i] }, len(want))
		x.Visit(HashInts(56, packWord(w), uint64(kind)))
	}}, {Name: "long units", Body: func(x *X) {
		// three units of growing or shrinking size
		n, size := Pick(x, longMarks), Pick(x, []int{1, 184})
		order := Pick(x, [][]int{{n, 2, 3}, {2, n, 1}, {1, 2, n}, {n, n + 1, n}})
		var ps []*ts.Packet
		var want [][]byte
		for _, k := range order {
			var u []byte
			for i := 0; i < k; i++ {
				pl := pattern(i, size)
				ps = append(ps, &ts.Packet{PayloadUnitStartIndicator: i == 0, Payload: pl})
				u = append(u, pl...)
			}
			want = append(want, u)
		}
		run(x, fmt.Sprintf("units of %v payloads of %d bytes", order, size), len(ps), func(i int) *ts.Packet { return ps[i] }, 0, func(i int) []byte { return want[i] }, 3)
		x.Visit(HashInts(57, uint64(n), uint64(size), packWord(order)))
	}}}
}

func longPES() (raw [][]byte, refs []refPES) {
	for _, k := range pesKinds() {
		if k.unbound {
			continue
		}
		raw = append(raw, k.spec.bytes())
	}
	raw = append(raw, pesSpec{id: 0xe4, flags2: 0x80, pts: 8, payload: pattern(66, 65000)}.bytes())
	for _, b := range raw {
		r, class := readPES(b)
		if class != pesGood {
			panic("harness: bad corpus")
		}
		refs = append(refs, r)
	}
	return
}

func p02long(thorough bool) *Space {
	raw, refs := longPES()
	return &Space{Name: "long streams", Body: func(x *X) {
		w := wordOf(x, 1, 2, len(raw))
		var period []byte
		for _, k := range w {
			period = append(period, raw[k]...)
		}
		n := longRun / len(w)
		if len(period) > 20000 {
			n = 600 // tens of megabytes all the same
		}
		br := bitreader.NewReader(&repeated{period: period, n: n})
		p := new(pes.Packet)
		for i := 0; i < n*len(w); i++ {
			if err := p.Next(br); err != nil {
				x.Fail("packet %d of the repeated kinds %v: %v", i, w, err)
			}
			if d, _ := diffPES(p, &refs[w[i%len(w)]]); d != "" {
				x.Fail("packet %d of the repeated kinds %v: %s", i, w, d)
			}
		}
		if err := p.Next(br); err != io.EOF {
			x.Fail("after %d packets of kinds %v: %v", n*len(w), w, err)
		}
		x.Visit(HashInts(58, packWord(w)))
	}}
}

func p04long(thorough bool) *Space {
	raw, refs := longPES()
	return &Space{Name: "long streams", Body: func(x *X) {
		w := wordOf(x, 1, 2, len(raw))
		var period, want []byte
		for _, k := range w {
			period = append(period, raw[k]...)
			want = append(want, refs[k].payload...)
		}
		n := longRun / len(w)
		if len(period) > 20000 {
			n = 300
		}
		for _, size := range []int{1 << 17, 37} {
			longRead(x, fmt.Sprintf("the packets %v %d times, reads of %d", w, n, size), pes.NewPayloadReader(&repeated{period: period, n: n}), &matcher{period: want, n: n}, size, io.EOF)
		}
		x.Inner(1)
		x.Visit(HashInts(59, packWord(w)))
	}}
}

// psLong is a long program stream: many packs, or many packets in a pack.
func psLong(x *X) (head, period []byte, packs bool, per int, n int) {
	raw, _ := longPES()
	w := wordOf(x, 1, 2, len(raw))
	packs = x.Bool()
	h := packSpec{scr: 1000, ext: 3, rate: 500, stuffing: []byte{0xff}, sys: &sysHeader{rate: 77, audio: 1, video: 1, streams: []psStream{{0xe0, 1, 100}}}}
	if packs {
		period = h.bytes()
	} else {
		head = h.bytes()
	}
	for _, k := range w {
		period = append(period, raw[k]...)
	}
	n = longRun / len(w)
	if packs {
		n = longRun
	}
	if len(period) > 20000 {
		n = 300
	}
	return head, period, packs, len(w), n
}

func s02long(thorough bool) *Space {
	return &Space{Name: "long streams", Body: func(x *X) {
		head, period, packs, per, n := psLong(x)
		what := fmt.Sprintf("a pack header of %d bytes, then %d times %d bytes of %d packets (packs %v)", len(head), n, len(period), per, packs)
		var want []refPES
		b := append(append([]byte{}, head...), period...)
		for off := len(packSpec{scr: 1000, ext: 3, rate: 500, stuffing: []byte{0xff}, sys: &sysHeader{rate: 77, audio: 1, video: 1, streams: []psStream{{0xe0, 1, 100}}}}.bytes()); off < len(b); {
			r, class := readPES(b[off:])
			if class != pesGood {
				panic("harness: bad corpus")
			}
			want = append(want, r)
			off += r.consumed
		}
		d := ps.NewDecoder(bitreader.NewReader(&repeated{head: head, period: period, tail: []byte{0, 0, 1, 0xb9}, n: n}))
		done := d.Go()
		ok := make(chan bool, 1)
		go func() { ok <- <-done }()
		np, nq := 0, 0
		for k := range d.Packs() {
			if k.SystemClockReferenceBase != 1000 {
				x.Fail("%s: pack %d has clock reference %d", what, np, k.SystemClockReferenceBase)
			}
			np++
			for q := range k.Packets() {
				if df, _ := diffPES(q, &want[nq%per]); df != "" {
					x.Fail("%s: packet %d: %s", what, nq, df)
				}
				nq++
			}
		}
		wp := 1
		if packs {
			wp = n
		}
		good := <-ok
		if np != wp || nq != n*per || !good || d.Err() != nil {
			x.Fail("%s: %d packs and %d packets, completion %v, error %v; expected %d and %d", what, np, nq, good, d.Err(), wp, n*per)
		}
		x.Visit(HashInts(60, HashBytes(1, period), b2u(packs)))
	}}
}

func s03long(thorough bool) *Space {
	return &Space{Name: "long streams", Body: func(x *X) {
		head, period, packs, per, n := psLong(x)
		what := fmt.Sprintf("a pack header of %d bytes, then %d times %d bytes of %d packets (packs %v)", len(head), n, len(period), per, packs)
		one, class := readPS(append(append(append([]byte{}, head...), period...), 0, 0, 1, 0xb9))
		if class != pesGood {
			panic("harness: bad stream")
		}
		for _, size := range []int{1 << 17, 37} {
			longRead(x, fmt.Sprintf("%s, reads of %d", what, size), ps.NewPackReader(&repeated{head: head, period: period, tail: []byte{0, 0, 1, 0xb9}, n: n}), &matcher{period: one, n: n}, size, io.EOF)
		}
		x.Inner(1)
		x.Visit(HashInts(61, HashBytes(1, period), b2u(packs)))
	}}
}

// t11long builds chains of many operands, with branches at every place, and evaluates them
// on one packet object whose contents change.
func t11long(thorough bool) *Space {
	max := 40
	if thorough {
		max = 150
	}
	return &Space{Name: "long chains", Body: func(x *X) {
		op := x.Choose(4) // or, and of negations, alternating, nested to the right
		n := 2 + x.Choose(max-1)
		type expr struct {
			t    ts.PacketTester
			want func(pid int, start bool) bool
		}
		atom := func(i int) expr {
			return expr{ts.IsPID(uint32(i)), func(pid int, _ bool) bool { return pid == i }}
		}
		not := func(e expr) expr {
			return expr{e.t.Not(), func(p int, s bool) bool { return !e.want(p, s) }}
		}
		or := func(a, b expr) expr {
			return expr{a.t.Or(b.t), func(p int, s bool) bool { return a.want(p, s) || b.want(p, s) }}
		}
		and := func(a, b expr) expr {
			return expr{a.t.And(b.t), func(p int, s bool) bool { return a.want(p, s) && b.want(p, s) }}
		}
		start := expr{ts.IsPayloadUnitStart, func(_ int, s bool) bool { return s }}
		add := func(e expr, i int) expr {
			switch {
			case op == 0:
				return or(e, atom(i))
			case op == 1:
				return and(e, not(atom(i)))
			case op == 2 && i%2 == 0:
				return or(e, and(atom(i), start))
			case op == 2:
				return and(e, not(and(atom(i-3), start)))
			case i%2 == 0:
				return or(atom(i), e)
			default:
				return and(not(atom(i)), e)
			}
		}
		e := atom(1)
		if op == 1 {
			e = not(e)
		}
		var all []expr
		for i := 2; i < 2+n; i++ {
			all = append(all, e)
			branch := add(e, i+200) // from every prefix, a second continuation
			e = add(e, i)
			all = append(all, branch)
		}
		all = append(all, e)
		p := new(ts.Packet)
		for k, e := range all {
			for pid := 0; pid < n+210; pid += 1 + b2i(pid > n+4 && pid < 199)*5 {
				for s := 0; s < 2; s++ {
					p.PID, p.PayloadUnitStartIndicator = uint32(pid), s == 1
					if g := e.t(p); g != e.want(pid, s == 1) {
						x.Fail("chain %d of %d operands, expression %d: %v for PID %d, start %v", op, n, k, g, pid, s == 1)
					}
				}
			}
		}
		x.Inner(int64(len(all)))
		x.Visit(HashInts(62, uint64(op), uint64(n)))
	}}
}

// raceTesters evaluates testers on several goroutines at once.
func raceTesters(thorough bool) error {
	rounds := 300
	if thorough {
		rounds = 3000
	}
	t := ts.IsPID(1).And(ts.IsPayloadUnitStart).Or(ts.IsPID(2).Not().And(ts.IsPID(3))).Or(ts.IsPID(4))
	errs := make(chan error)
	for g := 0; g < 8; g++ {
		go func() {
			var bad error
			p := new(ts.Packet)
			for i := 0; i < rounds; i++ {
				p.PID, p.PayloadUnitStartIndicator = uint32((i+g)%7), (i/7+g)%2 == 0
				if want := p.PID == 1 && p.PayloadUnitStartIndicator || p.PID == 3 || p.PID == 4; t(p) != want {
					bad = fmt.Errorf("a tester used on several goroutines: %v for PID %d, start %v", !want, p.PID, p.PayloadUnitStartIndicator)
				}
			}
			errs <- bad
		}()
	}
	var bad error
	for g := 0; g < 8; g++ {
		if e := <-errs; e != nil {
			bad = e
		}
	}
	return bad
}
