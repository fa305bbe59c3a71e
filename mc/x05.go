package mc

import (
	"bytes"
	"fmt"
	"io"
	"runtime"
	"time"

	"github.com/32bitkid/bitreader"
	"github.com/32bitkid/mpeg/pes"
	"github.com/32bitkid/mpeg/ps"
	"github.com/32bitkid/mpeg/ts"
	"github.com/32bitkid/mpeg/video"
)

func init() {
	register(&Check{
		ID: "X05", Level: "model_checking",
		Rule: "every periodic stream whose period is a word of packets, packs, headers and pictures up to the bound is run through every entry point for thousands of periods; the memory in use (after collection), the number of goroutines and the memory allocated per period are taken at three points of the run and do not grow from one to the next; after the end no goroutine is left; states are (entry, period)",
		Assume: []string{
			"growth of less than four bytes in a period is not seen",
			"memory is that of the Go heap after a full collection; streams are well-formed or have garbage between packets",
		},
		Spaces: x05spaces,
	})
}

// periodic is an endless stream of a head and a repeated period, observed at three points.
type periodic struct {
	head, period, tail []byte
	n                  int // periods in a third
	pos, total         int
	marks              [3]int
	heap, alloc        [3]uint64
	routines           [3]int
	seen               int
	stop               bool
}

func newPeriodic(head, period, tail []byte, n int) *periodic {
	p := &periodic{head: head, period: period, tail: tail, n: n}
	p.total = len(head) + len(period)*(3*n+8)
	for i := range p.marks {
		p.marks[i] = len(head) + len(period)*(n*(i+1)+4)
	}
	return p
}

func (p *periodic) Read(b []byte) (int, error) {
	if len(b) == 0 {
		return 0, nil
	}
	if p.seen < 3 && p.pos >= p.marks[p.seen] {
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		p.alloc[p.seen] = m.TotalAlloc
		runtime.GC()
		runtime.GC()
		runtime.ReadMemStats(&m)
		p.heap[p.seen], p.routines[p.seen] = m.HeapAlloc, runtime.NumGoroutine()
		p.seen++
	}
	n := 0
	switch at := p.pos - p.total; {
	case p.pos < len(p.head):
		n = copy(b, p.head[p.pos:])
	case at < 0:
		n = copy(b[:min(len(b), -at)], p.period[(p.pos-len(p.head))%len(p.period):])
	case at < len(p.tail):
		n = copy(b, p.tail[at:])
	default:
		return 0, io.EOF
	}
	p.pos += n
	return n, nil
}

func (p *periodic) verdict(before int) string {
	if p.seen < 3 {
		return fmt.Sprintf("the stream is not read to its end (%d of %d bytes)", p.pos, p.total)
	}
	for i := 1; i < 3; i++ {
		if p.routines[i] > p.routines[i-1]+p.n/8 {
			return fmt.Sprintf("%d goroutines after %d periods, %d after %d", p.routines[i-1], p.n*i, p.routines[i], p.n*(i+1))
		}
	}
	// two thirds lie between the first and the last look; the noise is below 6 kB
	if p.heap[2] > p.heap[0]+max(uint64(p.n)*8, 6<<10) {
		return fmt.Sprintf("memory in use grows: %d, %d and %d bytes after %d, %d and %d periods", p.heap[0], p.heap[1], p.heap[2], p.n, 2*p.n, 3*p.n)
	}
	if a, b := p.alloc[1]-p.alloc[0], p.alloc[2]-p.alloc[1]; b > a+a/4+64<<10 {
		return fmt.Sprintf("memory allocated in %d periods grows: %d, then %d bytes", p.n, a, b)
	}
	for i := 0; runtime.NumGoroutine() > before; i++ {
		if i > 200 {
			return fmt.Sprintf("%d goroutines are left behind", runtime.NumGoroutine()-before)
		}
		time.Sleep(time.Millisecond)
	}
	return ""
}

type endless struct {
	name string
	run  func(src io.Reader)
}

// x05base is the memory in use after the first case.
var x05base uint64

func heapNow() uint64 {
	var m runtime.MemStats
	runtime.GC()
	runtime.GC()
	runtime.ReadMemStats(&m)
	return m.HeapAlloc
}

func x05run(x *X, head, period, tail []byte, n int, entries []endless) {
	fail := func(f string, a ...any) {
		x.Note("head", "%s", hexs(head))
		x.Note("period", "%s", hexs(period))
		x.Fail(f, a...)
	}
	for _, e := range entries {
		x.Inner(1)
		// heap sizes are those of the whole process: a verdict has to come every time
		bad := ""
		for try := 0; try < 4; try++ {
			before := runtime.NumGoroutine()
			p := newPeriodic(head, period, tail, n)
			e.run(p)
			if bad = p.verdict(before); bad == "" {
				break
			}
		}
		if bad != "" {
			fail("%s: %s", e.name, bad)
		}
	}
	// what the package keeps for ever grows in leaps, that a single run may not show
	now := heapNow()
	if x05base == 0 {
		x05base = now
	}
	if now > x05base+512<<10 || x.replay {
		t0 := time.Now()
		for i := 1; i <= 400 && time.Since(t0) < 20*time.Second; i++ {
			for _, e := range entries {
				e.run(newPeriodic(head, period, tail, n))
			}
			if i%20 > 0 {
				continue
			}
			if then := heapNow(); then > now+256<<10 {
				fail("memory in use grows from %d to %d bytes in %d runs of %d entries", now, then, i, len(entries))
			}
		}
		x05base = now
	}
}

func discard(int) {}

func x05spaces(thorough bool) []*Space {
	deep := b2i(thorough)
	n := 768
	if thorough {
		n = 2048
	}
	mine := ts.IsPID(0x21)
	start := mine.And(ts.IsPayloadUnitStart)
	recv := func(c ts.PacketChannel) {
		for range c {
		}
	}
	recvBytes := func(c <-chan []byte) {
		for range c {
		}
	}
	demux := func(name string, set func(d *ts.Demuxer) []func()) endless {
		return endless{name, func(src io.Reader) {
			d := ts.NewDemuxer(src)
			fs := set(d)
			done := d.Go()
			fin := make(chan bool)
			for _, f := range fs {
				go func() { f(); fin <- true }()
			}
			for range fs {
				<-fin
			}
			<-done
		}}
	}
	tsEntries := []endless{
		{"ts.Packet", func(src io.Reader) {
			br := bitreader.NewReader(src)
			p := &ts.Packet{}
			for p.Next(br) == nil {
			}
		}},
		{"ts.NewPayloadReader, buffers of 1000", func(src io.Reader) { bytesDrain(ts.NewPayloadReader(src, mine), 1000) }},
		{"ts.NewPayloadReader, buffers of 50", func(src io.Reader) { bytesDrain(ts.NewPayloadReader(src, mine), 50) }},
		{"ts.NewPayloadReader with conditions", func(src io.Reader) {
			r := ts.NewPayloadReader(src, mine)
			r.SkipUntil(start)
			r.TakeWhile(ts.IsPID(0x99).Not())
			bytesDrain(r, 188)
		}},
		{"ts.NewPayloadReader that skips for ever", func(src io.Reader) {
			r := ts.NewPayloadReader(src, mine)
			r.SkipUntil(ts.IsPID(0x99))
			bytesDrain(r, 188)
		}},
		{"ts.NewPayloadUnitReader, buffers of 70", func(src io.Reader) { bytesDrain(ts.NewPayloadUnitReader(src, start.Or(ts.IsPID(0x22))), 70) }},
		demux("ts.Demuxer, two channels", func(d *ts.Demuxer) []func() {
			a, b := d.Where(mine), d.Where(ts.IsPID(0x22))
			return []func(){func() { recv(a) }, func() { recv(b) }}
		}),
		demux("ts.Demuxer and PayloadOnly", func(d *ts.Demuxer) []func() {
			a := d.Where(mine).PayloadOnly()
			return []func(){func() { recvBytes(a) }}
		}),
		demux("ts.Demuxer that skips for ever", func(d *ts.Demuxer) []func() {
			a := d.Where(mine)
			d.SkipUntil(ts.IsPID(0x99))
			return []func(){func() { recv(a) }}
		}),
	}
	units := []endless{
		{"ts.NewPayloadUnitReader, buffers of 1000", func(src io.Reader) { bytesDrain(ts.NewPayloadUnitReader(src, mine), 1000) }},
		{"ts.NewPayloadUnitReader, buffers of 1", func(src io.Reader) { bytesDrain(ts.NewPayloadUnitReader(src, mine), 1) }},
		demux("ts.Demuxer and PayloadUnit", func(d *ts.Demuxer) []func() {
			a := d.Where(mine).PayloadUnit()
			return []func(){func() { recvBytes(a) }}
		}),
	}
	pesEntries := []endless{
		{"pes.Packet", func(src io.Reader) {
			br := bitreader.NewReader(src)
			p := &pes.Packet{}
			for p.Next(br) == nil {
			}
		}},
		{"pes.NewPacket", func(src io.Reader) {
			br := bitreader.NewReader(src)
			for {
				if _, err := pes.NewPacket(br); err != nil {
					return
				}
			}
		}},
		{"pes.NewPayloadReader, buffers of 1", func(src io.Reader) { bytesDrain(pes.NewPayloadReader(src), 1) }},
		{"pes.NewPayloadReader, buffers of 1000", func(src io.Reader) { bytesDrain(pes.NewPayloadReader(src), 1000) }},
	}
	psEntries := []endless{
		{"ps.NewPackReader, buffers of 3", func(src io.Reader) { bytesDrain(ps.NewPackReader(src), 3) }},
		{"ps.NewPackReader, buffers of 1000", func(src io.Reader) { bytesDrain(ps.NewPackReader(src), 1000) }},
		{"ps.NewDecoder", func(src io.Reader) {
			d := ps.NewDecoder(bitreader.NewReader(src))
			done := d.Go()
			fin := make(chan bool)
			go func() { <-done; close(fin) }()
			for k := range d.Packs() {
				for range k.Packets() {
				}
			}
			<-fin
		}},
	}
	vidEntries := []endless{
		{"video.Next", func(src io.Reader) { framesOut(video.NewVideoSequence(src), discard) }},
	}
	var out []*Space
	out = append(out, &Space{Name: "transport packets", Serial: true, Body: func(x *X) {
		w := x04word(x, 1+x.Choose(3+deep))
		if len(w.ends) == 0 {
			return // nothing but garbage
		}
		x05run(x, nil, w.b, nil, n, tsEntries)
		for _, k := range w.kinds {
			if k == 0 { // units that never end are kept, of course
				x05run(x, nil, w.b, nil, n, units)
				break
			}
		}
		x.Visit(HashBytes(1, w.b))
	}})
	out = append(out, &Space{Name: "PES packets", Serial: true, Body: func(x *X) {
		var b []byte
		k := 1 + x.Choose(3+deep)
		for i := 0; i < k; i++ {
			p, _ := x04pes(x.Choose(5), i)
			b = append(b, p...)
		}
		x05run(x, nil, b, nil, n, pesEntries)
		x.Visit(HashBytes(2, b))
	}})
	out = append(out, &Space{Name: "program streams", Serial: true, Body: func(x *X) {
		var b []byte
		k := 1 + x.Choose(3+deep)
		pack := packSpec{scr: 77, rate: 900}.bytes()
		for i := 0; i < k; i++ {
			c := x.Choose(7)
			if c >= 5 {
				s := packSpec{scr: 3000, rate: 900, stuffing: bytes.Repeat([]byte{0xff}, i*3%8)}
				if c == 6 {
					s.sys = &sysHeader{rate: 900, video: 1, streams: []psStream{{0xe0, 1, 100}}}
				}
				b = append(b, s.bytes()...)
				continue
			}
			p, _ := x04pes(c, i)
			b = append(b, p...)
		}
		x05run(x, pack, b, []byte{0, 0, 1, 0xb9}, n, psEntries)
		x.Visit(HashBytes(3, b))
	}})
	out = append(out, &Space{Name: "pictures", Serial: true, Body: func(x *X) {
		// the second time a word is written there are references before it
		k := 1 + x.Choose(3+deep)
		toks := []vToken{'G'}
		for len(toks) < k {
			toks = append(toks, Pick(x, []vToken{'P', 'I', 'B', 'G'}))
		}
		opt := x.Choose(4)
		e := &vEnc{}
		var first int
		for round := 0; round < 2; round++ {
			if round == 0 || opt == 1 || opt == 3 {
				q := mbSize(1, 1)
				q.ext = [][]byte{userData('x', 0, 'y')}
				e.seq(q)
			}
			for i, k := range plan(toks) {
				if k.group {
					e.group(vGOP{ext: [][]byte{userData('a')}})
				}
				p := tiny(k, i)
				if opt == 2 {
					p.qm = &vQuantExt{m: [4]*[64]int{vMatrix(3), vMatrix(4), nil, nil}}
				}
				e.pic(p)
			}
			if opt == 3 {
				e.end()
			}
			if round == 0 {
				first = len(e.b)
				if opt == 3 {
					first = 0
				}
			}
		}
		e.Align()
		b := e.b
		if opt == 3 {
			b = b[:len(b)/2]
		}
		x05run(x, b[:first], b[first:], []byte{0, 0, 1, 0xb7}, n, vidEntries)
		x.Visit(HashBytes(4, b))
	}})
	// without group headers the temporal reference comes round after 1024 pictures
	out = append(out, &Space{Name: "pictures of one group", Serial: true, Body: func(x *X) {
		pat := Pick(x, []string{"P", "I", "PB", "PI", "PBBB", "IBPB", "PPPPBBBB"})
		head, period := x05group(pat)
		x05run(x, head, period, []byte{0, 0, 1, 0xb7}, 2+2*deep, vidEntries)
		x.Visit(HashBytes(6, period))
	}})
	out = append(out, &Space{Name: "pictures in packets", Serial: true, Body: func(x *X) {
		toks := []vToken{'G'}
		for _, c := range []string{"", "P", "PB"}[x.Choose(3)] {
			toks = append(toks, vToken(c))
		}
		e := &vEnc{}
		e.seq(mbSize(1, 1))
		for i, k := range plan(toks) {
			if k.group {
				e.group(vGOP{closed: 1})
			}
			e.pic(tiny(k, i))
		}
		e.Align()
		l := &layout{es: e.b, cuts: []int{len(e.b) / 2}}
		chains := []endless{
			{"units, packets, frames", func(src io.Reader) {
				framesOut(video.NewVideoSequence(pes.NewPayloadReader(ts.NewPayloadUnitReader(src, mine))), discard)
			}},
			{"payload, packets, frames", func(src io.Reader) {
				framesOut(video.NewVideoSequence(pes.NewPayloadReader(ts.NewPayloadReader(src, mine))), discard)
			}},
		}
		x05run(x, nil, l.ts(0x21), nil, n, chains)
		b := l.ps()
		x05run(x, nil, b[:len(b)-4], []byte{0, 0, 1, 0xb9}, n, []endless{{"packs, frames", func(src io.Reader) {
			framesOut(video.NewVideoSequence(ps.NewPackReader(src)), discard)
		}}})
		x.Visit(HashBytes(5, e.b))
	}})
	return out
}

// bytesDrain reads to the end with one buffer.
func bytesDrain(r io.Reader, n int) {
	p := make([]byte, n)
	for {
		if _, err := r.Read(p); err != nil && err != ts.EOP {
			return
		}
	}
}

// x05group is a group of the pattern: one kilopicture, and the one that repeats for ever.
func x05group(pat string) (head, period []byte) {
	toks := []vToken{'G'}
	for len(toks) < 3*1024+16 {
		toks = append(toks, vToken(pat[(len(toks)-1)%len(pat)]))
	}
	e := &vEnc{}
	e.seq(mbSize(1, 1))
	var at []int
	for i, k := range plan(toks) {
		if k.group {
			e.group(vGOP{closed: 1})
		}
		e.Align()
		at = append(at, len(e.b))
		e.pic(tiny(k, i%512))
	}
	from, to := at[1024+1], at[2048+1]
	if !bytes.Equal(e.b[from:to], e.b[to:at[3072+1]]) {
		panic("harness: the pictures have no period")
	}
	return bytes.Clone(e.b[:from]), bytes.Clone(e.b[from:to])
}
