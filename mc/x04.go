package mc

import (
	"bytes"
	"fmt"
	"io"
	"sort"
	"sync"

	"github.com/32bitkid/bitreader"
	"github.com/32bitkid/mpeg/pes"
	"github.com/32bitkid/mpeg/ps"
	"github.com/32bitkid/mpeg/ts"
	"github.com/32bitkid/mpeg/video"
)

func init() {
	register(&Check{
		ID: "X04", Level: "model_checking",
		Rule: "for every stream of the bounded spaces (words of transport packets, PES packets, packs, coding orders of pictures, and their multiplexes) a model says with which byte of the source each output is complete; every entry point is run with the source standing still at every offset, for several read sizes, and at each of those points every output that is complete has been delivered; states are (entry, stream)",
		Assume: []string{
			"a reader asked for n bytes may wait for n bytes; each reader of a chain may look ahead by the seven bytes that the bit reader dependency fetches at most beyond those it needs",
			"consumers are always ready to receive",
		},
		Spaces: x04spaces,
	})
}

// live is a use of the library on a stream that arrives bit by bit.
type live struct {
	name   string
	stream []byte
	// need tells for each output the number of bytes of the stream that it needs
	need  []int
	slack int
	run   func(src io.Reader, emit func(n int))
	conc  bool // the library runs goroutines
}

type liveSource struct {
	source
	ask func(pos int)
}

func (l *liveSource) Read(p []byte) (int, error) {
	if len(p) > 0 {
		l.ask(l.pos)
	}
	return l.source.Read(p)
}

// due is the number of outputs that are complete with n bytes.
func (l *live) due(n int) int {
	return sort.Search(len(l.need), func(i int) bool { return l.need[i] > n })
}

func (l *live) late(pos, got int) string {
	return fmt.Sprintf("%s: the source is asked for byte %d after %d outputs, %d were complete before (number %d with byte %d)", l.name, pos, got, l.due(pos), got, l.need[got+l.slack])
}

// once runs the entry with a source that reads in the given sizes.
func (l *live) once(chunk, first int) (bad string) {
	got := 0
	src := &liveSource{source: source{data: l.stream, chunk: chunk, first: first}}
	src.ask = func(pos int) {
		if bad == "" && got+l.slack < l.due(pos) {
			bad = l.late(pos, got)
		}
	}
	l.run(src, func(n int) { got += n })
	if bad == "" && got < len(l.need) {
		bad = fmt.Sprintf("%s: %d outputs, expected %d", l.name, got, len(l.need))
	}
	return
}

// calm is once with all goroutines coming to rest before the source is asked.
func (l *live) calm(x *X, chunk, first int) (bad string) {
	inBubble(x, func(b *bubble) {
		var mu sync.Mutex
		got, pos := 0, 0
		src := &liveSource{source: source{data: l.stream, chunk: chunk, first: first}}
		src.ask = func(p int) {
			mu.Lock()
			pos = p
			mu.Unlock()
			b.wait("source")
		}
		ended := false
		go func() {
			l.run(src, func(n int) {
				mu.Lock()
				got += n
				mu.Unlock()
			})
			mu.Lock()
			ended = true
			mu.Unlock()
		}()
		b.run(false, func() {
			mu.Lock()
			defer mu.Unlock()
			if bad == "" && !ended && got+l.slack < l.due(pos) {
				bad = l.late(pos, got)
			}
		})
		if !ended {
			b.x.Fail("%s does not come to an end", l.name)
		}
		if bad == "" && got < len(l.need) {
			bad = fmt.Sprintf("%s: %d outputs, expected %d", l.name, got, len(l.need))
		}
	})
	return
}

// check stops the source at every offset, for the read sizes given.
func (l *live) check(x *X, sizes ...int) {
	for _, m := range sizes {
		for f := 1; f <= m && f <= len(l.stream); f++ {
			x.Inner(1)
			if !l.conc && l.once(m, f) == "" {
				continue
			}
			// a library that fetches in a goroutine of its own is to be judged at rest
			if bad := l.calm(x, m, f); bad != "" {
				x.Note("stream", "%s", hexs(l.stream))
				x.Fail("reads of %d, then %d bytes: %s", f, m, bad)
			}
		}
	}
}

// bytesOut reads with buffers of n bytes to the end.
func bytesOut(r io.Reader, n int, emit func(int)) {
	for i := 0; i < sillyReads; i++ {
		k, err := r.Read(make([]byte, n))
		emit(k)
		if err == ts.EOP {
			emit(1)
		} else if err != nil {
			if err == io.EOF {
				emit(1)
			}
			return
		}
	}
	panic("livelock: reads do not come to an end")
}

func framesOut(v *video.VideoSequence, emit func(int)) {
	for i := 0; i < sillyReads; i++ {
		if _, err := v.Next(); err != nil && err != video.EOS {
			return
		}
		emit(1)
	}
	panic("livelock: frames do not come to an end")
}

// x04ts is a word of transport packets, with the offsets at which they end.
type x04ts struct {
	b     []byte
	kinds []int // 0 mine and start, 1 mine, 2 other, 3 mine without payload, 4 neither
	ends  []int
	sizes []int
}

func x04word(x *X, n int) (w x04ts) {
	for i := 0; i < n; i++ {
		k := x.Choose(6)
		if k >= 4 {
			w.b = append(w.b, []byte{0, 0xff, 1, 0x46, 0x48, 0, 0, 1}[:[]int{1, 7}[k-4]]...)
			continue
		}
		size := []int{184, 1, 100, 7, 183, 30}[(i*5+k)%6]
		switch k {
		case 0, 1:
			w.b = append(w.b, carry(0x21, k == 0, i, pattern(i, size))...)
		case 2:
			w.b = append(w.b, carry(0x22, i%2 == 0, i, pattern(i, size))...)
		case 3:
			w.b = append(w.b, tsPacket{pid: 0x21, afc: 2, cc: i, afLen: 183}.bytes()...)
			size = 0
		}
		w.kinds, w.ends, w.sizes = append(w.kinds, k), append(w.ends, len(w.b)), append(w.sizes, size)
	}
	return
}

func rep(n, v int) []int {
	out := make([]int, n)
	for i := range out {
		out[i] = v
	}
	return out
}

// units gives for each unit the number of its bytes and the end of the packet that ends it.
func (w *x04ts) units() (out [][2]int) {
	open, n := false, 0
	for i, k := range w.kinds {
		if k == 0 {
			if open {
				out = append(out, [2]int{n, w.ends[i]})
			}
			open, n = true, 0
		}
		if open && k < 2 {
			n += w.sizes[i]
		}
	}
	return
}

func x04tsCases(w *x04ts) (out []*live) {
	mine := ts.IsPID(0x21)
	add := func(name string, need []int, slack int, run func(io.Reader, func(int))) {
		out = append(out, &live{name: name, stream: w.b, need: need, slack: slack, run: run})
	}
	add("ts.Packet", w.ends, 0, func(src io.Reader, emit func(int)) {
		br := bitreader.NewReader(src)
		p := &ts.Packet{}
		for p.Next(br) == nil {
			emit(1)
		}
	})
	add("ts.NewPacket", w.ends, 0, func(src io.Reader, emit func(int)) {
		br := bitreader.NewReader(src)
		for {
			if _, err := ts.NewPacket(br); err != nil {
				return
			}
			emit(1)
		}
	})
	var payload, ranged, units []int
	on, closed := false, false
	for i, k := range w.kinds {
		first := !on && k == 0
		on = on || first
		if on && !closed && !first && k == 2 {
			closed = true
			ranged = append(ranged, w.ends[i]) // the end of file
		}
		if k < 2 {
			payload = append(payload, rep(w.sizes[i], w.ends[i])...)
			if on && !closed {
				ranged = append(ranged, rep(w.sizes[i], w.ends[i])...)
			}
		}
	}
	for _, u := range w.units() {
		units = append(units, rep(u[0]+1, u[1])...)
	}
	for _, n := range []int{1, 3, 188, 400} {
		add(fmt.Sprintf("ts.NewPayloadReader, buffers of %d", n), payload, n-1, func(src io.Reader, emit func(int)) {
			bytesOut(ts.NewPayloadReader(src, mine), n, emit)
		})
		add(fmt.Sprintf("ts.NewPayloadReader with conditions, buffers of %d", n), ranged, n-1, func(src io.Reader, emit func(int)) {
			r := ts.NewPayloadReader(src, mine)
			r.SkipUntil(mine.And(ts.IsPayloadUnitStart))
			r.TakeWhile(ts.IsPID(0x22).Not())
			bytesOut(r, n, emit)
		})
		add(fmt.Sprintf("ts.NewPayloadUnitReader, buffers of %d", n), units, 0, func(src io.Reader, emit func(int)) {
			bytesOut(ts.NewPayloadUnitReader(src, mine), n, emit)
		})
	}
	return
}

func x04demuxCases(w *x04ts) (out []*live) {
	mine, other := ts.IsPID(0x21), ts.IsPID(0x22)
	mk := func(name string, need []int, set func(d *ts.Demuxer, emit func(int)) []func(), done int) {
		sort.Ints(need)
		if done > 0 {
			need = append(need, done)
		}
		out = append(out, &live{name: name, stream: w.b, need: need, conc: true, run: func(src io.Reader, emit func(int)) {
			d := ts.NewDemuxer(src)
			var wg sync.WaitGroup
			for _, f := range set(d, emit) {
				wg.Add(1)
				go func() { defer wg.Done(); f() }()
			}
			<-d.Go()
			wg.Wait()
			if done > 0 {
				emit(1)
			}
		}})
	}
	packets := func(c ts.PacketChannel, emit func(int)) func() {
		return func() {
			for range c {
				emit(1)
			}
		}
	}
	payloads := func(c <-chan []byte, emit func(int)) func() {
		return func() {
			for range c {
				emit(1)
			}
		}
	}
	var two, only, ranged, units []int
	on, done := false, 0
	for i, k := range w.kinds {
		if k != 4 {
			two = append(two, w.ends[i])
		}
		if k != 2 && k != 4 {
			only = append(only, w.ends[i])
		}
		first := !on && k == 0
		on = on || first
		if on && done == 0 {
			if !first && k == 2 {
				done = w.ends[i]
			} else if k != 2 && k != 4 {
				ranged = append(ranged, w.ends[i])
			}
		}
	}
	for _, u := range w.units() {
		units = append(units, u[1])
	}
	mk("ts.Demuxer, two channels", two, func(d *ts.Demuxer, emit func(int)) []func() {
		return []func(){packets(d.Where(mine), emit), packets(d.Where(other), emit)}
	}, 0)
	mk("ts.Demuxer with conditions", ranged, func(d *ts.Demuxer, emit func(int)) []func() {
		d.SkipUntil(mine.And(ts.IsPayloadUnitStart))
		d.TakeWhile(ts.IsPID(0x22).Not())
		return []func(){packets(d.Where(mine), emit)}
	}, done)
	mk("ts.Demuxer and PayloadOnly", only, func(d *ts.Demuxer, emit func(int)) []func() {
		return []func(){payloads(d.Where(mine).PayloadOnly(), emit)}
	}, 0)
	mk("ts.Demuxer and PayloadUnit", units, func(d *ts.Demuxer, emit func(int)) []func() {
		return []func(){payloads(d.Where(mine).PayloadUnit(), emit)}
	}, 0)
	return
}

// x04pes is a packet of one of five kinds, and the size of its payload.
func x04pes(k, i int) ([]byte, int) {
	switch k {
	case 0:
		n := 5 + i*3
		return pesSpec{id: 0xe0, payload: pattern(i, n)}.bytes(), n
	case 1:
		return pesSpec{id: 0xc0, flags2: 0xff, pts: 5, dts: 4, payload: pattern(i, 1)}.bytes(), 1
	case 2:
		return pesSpec{id: 0xbe, payload: bytes.Repeat([]byte{0xff}, 3+i)}.bytes(), 0
	case 3:
		return pesSpec{id: 0xbf, payload: pattern(i, 4)}.bytes(), 4
	}
	return pesSpec{id: 0xe1, flags2: 0x80, pts: 9}.bytes(), 0
}

func x04spaces(thorough bool) []*Space {
	deep := b2i(thorough)
	sizes := []int{1, 3, 8, 189}
	if thorough {
		sizes = []int{1, 2, 3, 5, 7, 8, 9, 16, 100, 187, 188, 189, 400}
	}
	var out []*Space
	out = append(out, &Space{Name: "transport packets", Body: func(x *X) {
		w := x04word(x, 1+x.Choose(4+deep))
		for _, l := range x04tsCases(&w) {
			l.check(x, sizes...)
		}
		x.Visit(HashBytes(1, w.b))
	}})
	out = append(out, &Space{Name: "demultiplexer", Body: func(x *X) {
		w := x04word(x, 1+x.Choose(4))
		for _, l := range x04demuxCases(&w) {
			l.check(x, 8)
			if thorough {
				l.check(x, 1, 3)
			}
		}
		x.Visit(HashBytes(2, w.b))
	}})
	out = append(out, &Space{Name: "PES packets", Body: func(x *X) {
		var b []byte
		var ends, payload []int
		n := 1 + x.Choose(4+deep)
		for i := 0; i < n; i++ {
			p, k := x04pes(x.Choose(5), i)
			b = append(b, p...)
			ends = append(ends, len(b))
			payload = append(payload, rep(k, len(b))...)
		}
		cases := []*live{
			{name: "pes.Packet", stream: b, need: ends, run: func(src io.Reader, emit func(int)) {
				br := bitreader.NewReader(src)
				p := &pes.Packet{}
				for p.Next(br) == nil {
					emit(1)
				}
			}},
		}
		for _, n := range []int{1, 2, 5, 64} {
			cases = append(cases, &live{name: fmt.Sprintf("pes.NewPayloadReader, buffers of %d", n), stream: b, need: payload, slack: n - 1, run: func(src io.Reader, emit func(int)) {
				bytesOut(pes.NewPayloadReader(src), n, emit)
			}})
		}
		for _, l := range cases {
			l.check(x, 1, 2, 3, 7, 8, 64)
		}
		x.Visit(HashBytes(3, b))
	}})
	out = append(out, &Space{Name: "program streams", Body: func(x *X) {
		var b []byte
		var payload, decoded []int
		n := 1 + x.Choose(4+deep)
		packs := 0
		for i := 0; i < n; i++ {
			k := 5
			if i > 0 {
				k = x.Choose(7)
			} else if x.Bool() {
				k = 6
			}
			if k >= 5 {
				s := packSpec{scr: uint64(i) * 3000, rate: 900, stuffing: bytes.Repeat([]byte{0xff}, i*3%8)}
				if k == 6 {
					s.sys = &sysHeader{rate: 900, video: 1, streams: []psStream{{0xe0, 1, 100}}}
				}
				b = append(b, s.bytes()...)
				decoded = append(decoded, len(b)+4)
				packs++
				continue
			}
			p, m := x04pes(k, i)
			b = append(b, p...)
			payload = append(payload, rep(m, len(b))...)
			decoded = append(decoded, len(b))
		}
		b = append(b, 0, 0, 1, 0xb9)
		end := len(b)
		if x.Bool() {
			b = append(b, 0, 0, 1, 0xba, 0x44, 0, 4, 0, 4) // what follows is not asked for
		}
		header := decoded[0]
		sort.Ints(decoded)
		payload, decoded = append(payload, end), append(decoded, end)
		cases := []*live{
			{name: "ps.NewPackHeader", stream: b, need: []int{header}, run: func(src io.Reader, emit func(int)) {
				if _, err := ps.NewPackHeader(bitreader.NewReader(src)); err == nil {
					emit(1)
				}
			}},
			{name: "ps.NewDecoder", stream: b, need: decoded, conc: true, run: func(src io.Reader, emit func(int)) {
				d := ps.NewDecoder(bitreader.NewReader(src))
				done := d.Go()
				fin := make(chan bool)
				go func() {
					if <-done {
						emit(1)
					}
					close(fin)
				}()
				for k := range d.Packs() {
					emit(1)
					for range k.Packets() {
						emit(1)
					}
				}
				<-fin
			}},
		}
		for _, n := range []int{1, 2, 5, 64} {
			cases = append(cases, &live{name: fmt.Sprintf("ps.NewPackReader, buffers of %d", n), stream: b, need: payload, slack: n - 1, run: func(src io.Reader, emit func(int)) {
				bytesOut(ps.NewPackReader(src), n, emit)
			}})
		}
		for _, l := range cases {
			if l.conc {
				l.check(x, 1, 8)
			} else {
				l.check(x, 1, 2, 3, 7, 8, 64)
			}
		}
		x.Visit(HashBytes(4, b))
	}})
	out = append(out, &Space{Name: "coding orders", Body: func(x *X) {
		b, need := x04video(x, 1+x.Choose(5+deep))
		l := &live{name: "video.Next", stream: b, need: need, run: func(src io.Reader, emit func(int)) {
			framesOut(video.NewVideoSequence(src), emit)
		}}
		l.check(x, 1, 3, 8, 50)
		x.Visit(HashBytes(5, b))
	}})
	out = append(out, &Space{Name: "scanning for headers", Body: func(x *X) {
		junk := x.Choose(12)
		e := &vEnc{}
		e.Bytes(bytes.Repeat([]byte{0, 1, 0x55}, 4)[:junk]...)
		e.seq(vSeqHdr{w: 16, h: 16, progressive: 1, intraQ: []*[64]int{nil, vMatrix(3)}[x.Choose(2)]})
		e.group(vGOP{closed: 1})
		e.pic(tiny(vPlan{kind: 1}, 3))
		e.group(vGOP{time: 99})
		e.pic(tiny(vPlan{kind: 1}, 4))
		e.end()
		// the marks are the start codes of: sequence, extension, group, picture, ...
		var groups []int
		for _, m := range e.marks {
			if e.b[m+3] == 0xb8 {
				groups = append(groups, m)
			}
		}
		l := &live{name: "video.AlignTo", stream: e.b, need: []int{e.marks[0] + 4, e.marks[1] + 4, groups[0] + 4, groups[0] + 8 + 4, groups[1] + 4, groups[1] + 8 + 4}, run: func(src io.Reader, emit func(int)) {
			v := video.NewVideoSequence(src)
			if v.AlignTo(video.SequenceHeaderStartCode) != nil {
				return
			}
			emit(1)
			if _, err := video.ReadSequenceHeader(v); err != nil {
				return
			}
			emit(1)
			for i := 0; i < 2; i++ {
				if v.AlignTo(video.GroupStartCode) != nil {
					return
				}
				emit(1)
				if _, err := video.ReadGOPHeader(v); err != nil {
					return
				}
				emit(1)
			}
		}}
		l.check(x, 1, 2, 3, 5, 8, 64)
		x.Visit(HashBytes(6, e.b))
	}})
	out = append(out, &Space{Name: "multiplexed", Body: func(x *X) {
		es, need := x04video(x, 2+x.Choose(2+deep))
		l := &layout{es: es}
		n := Pick(x, []int{20, 33, 70, 1000})
		for at := n; at < len(es); at += n {
			l.cuts = append(l.cuts, at)
		}
		part := Pick(x, []int{184, 30, 7})
		l.chunk = func(pkt, at, rest int) int { return part }
		noise := x.Choose(2)
		l.noise = func(n, cc int) [][]byte {
			if noise == 1 && n%3 == 1 {
				return [][]byte{carry(0x22, true, n, pattern(n, 50))}
			}
			return nil
		}
		const never = 1 << 30
		pk := l.packets()
		b := l.ts(0x21)
		// where each byte of the payload, and each unit, arrives
		var arrives, starts []int
		for at := 0; at < len(b); at += 188 {
			r, _ := refTS(b[at : at+188])
			if r.pid == 0x21 {
				if r.pusi {
					starts = append(starts, at+188)
				}
				arrives = append(arrives, rep(len(r.payload), at+188)...)
			}
		}
		starts = append(starts, never)
		at := func(l []int, i int) int {
			if i >= len(l) {
				return never
			}
			return l[i]
		}
		lens := []int{}
		from := 0
		for _, c := range append(l.cuts[:len(l.cuts):len(l.cuts)], len(es)) {
			lens = append(lens, c-from)
			from = c
		}
		chain := func(name string, stream []byte, complete func(packet, end int) int, run func(src io.Reader) io.Reader) *live {
			var byByte []int
			end := 0
			for i, p := range pk {
				end += len(p)
				byByte = append(byByte, rep(lens[i], complete(i, end))...)
			}
			c := &live{name: name, stream: stream, run: func(src io.Reader, emit func(int)) {
				framesOut(video.NewVideoSequence(run(src)), emit)
			}}
			for _, k := range need {
				if v := at(byByte, k-1+7); v < never {
					c.need = append(c.need, v)
				}
			}
			return c
		}
		psb := l.ps()
		psHead := len(psb) - 4
		for _, p := range pk {
			psHead -= len(p)
		}
		cases := []*live{
			chain("units, packets, frames", b, func(i, _ int) int { return starts[i+1] }, func(src io.Reader) io.Reader {
				return pes.NewPayloadReader(ts.NewPayloadUnitReader(src, ts.IsPID(0x21)))
			}),
			chain("payload, packets, frames", b, func(_, end int) int { return at(arrives, end-1+7) }, func(src io.Reader) io.Reader {
				return pes.NewPayloadReader(ts.NewPayloadReader(src, ts.IsPID(0x21)))
			}),
			chain("packs, frames", psb, func(_, end int) int { return psHead + end }, func(src io.Reader) io.Reader {
				return ps.NewPackReader(src)
			}),
		}
		for _, c := range cases {
			c.check(x, 1, 8)
			if thorough {
				c.check(x, 3, 50)
			}
		}
		x.Visit(HashBytes(HashInts(7, uint64(n), uint64(part), uint64(noise)), es))
	}})
	return out
}

// x04video writes sequences of a coding order and tells which byte completes each output.
func x04video(x *X, n int) ([]byte, []int) {
	toks := structure(x, n)
	two := n <= 3 && x.Bool()
	opt := x.Choose(3)
	e := &vEnc{}
	var need []int
	for s := 0; s <= b2i(two); s++ {
		pl := plan(toks)
		from := len(e.marks)
		q := mbSize(1, 1)
		if opt == 1 {
			q.ext = [][]byte{userData('x', 0, 'y')}
		}
		e.seq(q)
		for i, k := range pl {
			if k.group {
				e.group(vGOP{closed: 1, stuff: opt})
			}
			p := tiny(k, i+s*10)
			if opt == 2 {
				p.stuff = 2
			}
			e.pic(p)
		}
		e.end()
		// coded pictures are complete with the start code after their last slice
		var complete []int
		open := false
		for _, m := range e.marks[from:] {
			c := e.b[m+3]
			if open && (c == 0 || c >= 0xb0) {
				complete = append(complete, m+4)
				open = false
			}
			if c >= 1 && c < 0xb0 {
				open = true
			}
		}
		if len(complete) != len(pl) {
			panic("harness: the pictures are not found again")
		}
		// display order
		group := 0
		key := make([]int, len(pl))
		order := make([]int, len(pl))
		for i, k := range pl {
			if k.group {
				group++
			}
			key[i], order[i] = group<<16|k.tref, i
		}
		sort.Slice(order, func(a, b int) bool { return key[order[a]] < key[order[b]] })
		last := 0
		for _, i := range order {
			last = max(last, complete[i])
			need = append(need, last)
		}
		need = append(need, len(e.b)) // the end of the sequence
	}
	return e.b, need
}
