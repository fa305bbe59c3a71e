package mc

import (
	"bytes"
	"fmt"
	"io"

	"github.com/32bitkid/bitreader"
	"github.com/32bitkid/mpeg/pes"
	"github.com/32bitkid/mpeg/ps"
	"github.com/32bitkid/mpeg/ts"
	"github.com/32bitkid/mpeg/video"
)

func init() {
	register(&Check{
		ID: "X03", Level: "model_checking",
		Rule:   "an elementary stream is packed by the harness's own multiplexer in every way of a bounded space (cuts into PES packets, PES headers, cuts into transport packets, foreign and payload-less packets in every place, packs, padding) and decoded through the documented chains of readers and channels; frames, their order, the end-of-sequence results and the final error are compared with those of the bare stream; states are (layout, pipeline)",
		Spaces: x03spaces,
	})
}

// layout tells how a stream is packed.
type layout struct {
	es      []byte
	cuts    []int // of the stream into packets
	unbound bool
	head    func(i int) pesSpec // of packet i
	// chunk is the number of payload bytes of the transport packet that carries the rest of
	// a packet from offset at on
	chunk func(pkt, at, rest int) int
	// field is the adaptation field (without its length) of transport packet number n, nil for
	// one that is only there when it has to be
	field func(n int) []byte
	marks int // error indicator, priority and scrambling of all transport packets
	// noise before transport packet number n, and at the end
	noise func(n int, cc int) [][]byte
	// pad is a number of bytes of padding after packet i, negative for none
	pad func(i int) int
	// packs starts a new pack before packet i
	packs  func(i int) bool
	pack   func(i int) packSpec
	noEnd  bool
	source *source
	want   *outcome // of the bare stream, if it is none of the usual ones
}

func (l *layout) packets() (out [][]byte) {
	from := 0
	for i, c := range append(l.cuts[:len(l.cuts):len(l.cuts)], len(l.es)) {
		s := pesSpec{id: 0xe0, flags2: 0x80, pts: uint64(i)*3003 + 1}
		if l.head != nil {
			s = l.head(i)
		}
		s.payload = l.es[from:c]
		b := s.bytes()
		if l.unbound {
			b[4], b[5] = 0, 0
		}
		out = append(out, b)
		from = c
		if l.pad != nil && l.pad(i) >= 0 {
			out = append(out, pesSpec{id: 0xbe, payload: bytes.Repeat([]byte{0xff}, l.pad(i))}.bytes())
		}
	}
	return
}

func (l *layout) ts(pid int) (b []byte) {
	cc, n := 0, 0
	for i, u := range l.packets() {
		for at := 0; at < len(u); {
			if l.noise != nil {
				for _, p := range l.noise(n, cc) {
					b = append(b, p...)
				}
			}
			n++
			k := min(184, len(u)-at)
			if l.chunk != nil {
				k = min(k, l.chunk(i, at, len(u)-at))
			}
			var f []byte
			if l.field != nil {
				f = l.field(n - 1)
			}
			if k = min(k, 183+b2i(f == nil)-len(f)); f != nil || l.marks != 0 {
				t := tsPacket{pid: pid, start: at == 0, cc: cc, marks: l.marks, afc: 1, af: f, afLen: -1, payload: u[at : at+k]}
				if f != nil || k < 184 {
					t.afc = 3
				}
				b = append(b, t.bytes()...)
			} else {
				b = append(b, carry(pid, at == 0, cc, u[at:at+k])...)
			}
			at += k
			cc++
		}
	}
	if l.noise != nil {
		for _, p := range l.noise(n, cc) {
			b = append(b, p...)
		}
	}
	return
}

func (l *layout) ps() (b []byte) {
	for i, p := range l.packets() {
		if i == 0 || l.packs != nil && l.packs(i) {
			s := packSpec{scr: uint64(i) * 3000, rate: 900}
			if l.pack != nil {
				s = l.pack(i)
			}
			b = append(b, s.bytes()...)
		}
		b = append(b, p...)
	}
	return append(b, 0, 0, 1, 0xb9)
}

// afield is an adaptation field with the optional parts of the flags, full of start codes.
func afield(flags, ext, private int) []byte {
	b := []byte{byte(flags)}
	for i := 0x10; i >= 8; i >>= 1 {
		if flags&i != 0 {
			b = append(b, 0, 0, 1, 0xe0, 0x7e, 0)
		}
	}
	if flags&4 != 0 {
		b = append(b, 0xff)
	}
	if flags&2 != 0 {
		b = append(append(b, byte(private)), []byte{0x47, 0, 0, 1, 0xb3, 0x47, 0}[:private]...)
	}
	if flags&1 != 0 {
		var e []byte
		if ext&4 != 0 {
			e = append(e, 0x80, 3)
		}
		if ext&2 != 0 {
			e = append(e, 0xc0, 0, 1)
		}
		if ext&1 != 0 {
			e = append(e, 0x21, 0, 1, 0, 1)
		}
		b = append(append(b, byte(len(e)+1), byte(ext<<5|0x1f)), e...)
	}
	return b
}

// pipeline is a way from a multiplexed stream to frames.
type pipeline struct {
	name    string
	ts, unb bool // takes transport streams, also with packets of unknown length
	run     func(src io.Reader, pid int) outcome
}

// feed is a reader of what a goroutine writes.
func feed(f func(w io.Writer) error) io.Reader {
	r, w := io.Pipe()
	go func() { w.CloseWithError(f(w)) }()
	return r
}

func pipelines() []pipeline {
	return []pipeline{
		{"payload units, packets, frames", true, true, func(src io.Reader, pid int) outcome {
			return frames(video.NewVideoSequence(pes.NewPayloadReader(ts.NewPayloadUnitReader(src, ts.IsPID(pid32(pid))))))
		}},
		{"the chain of the documentation", true, true, func(src io.Reader, pid int) outcome {
			v := video.NewVideoSequence(pes.NewPayloadReader(ts.NewPayloadUnitReader(src, ts.IsPID(pid32(pid)))))
			if err := v.AlignTo(video.SequenceHeaderStartCode); err != nil {
				return outcome{err: err}
			}
			return frames(v)
		}},
		{"payload, packets, frames", true, false, func(src io.Reader, pid int) outcome {
			return frames(video.NewVideoSequence(pes.NewPayloadReader(ts.NewPayloadReader(src, ts.IsPID(pid32(pid))))))
		}},
		{"packs, frames", false, false, func(src io.Reader, pid int) outcome {
			return frames(video.NewVideoSequence(ps.NewPackReader(src)))
		}},
		{"demultiplexer, units, packets, frames", true, true, func(src io.Reader, pid int) outcome {
			d := ts.NewDemuxer(src)
			c := d.Where(ts.IsPID(pid32(pid))).PayloadUnit()
			done := d.Go()
			return frames(video.NewVideoSequence(feed(func(w io.Writer) error {
				for u := range c {
					p, err := pes.NewPacket(bitreader.NewReader(bytes.NewReader(u)))
					if err != nil {
						return err
					}
					w.Write(p.Payload)
				}
				<-done
				return d.Err()
			})))
		}},
		{"decoder, packets, frames", false, false, func(src io.Reader, pid int) outcome {
			d := ps.NewDecoder(bitreader.NewReader(src))
			done := d.Go()
			go func() { <-done }()
			return frames(video.NewVideoSequence(feed(func(w io.Writer) error {
				for k := range d.Packs() {
					for p := range k.Packets() {
						w.Write(p.Payload)
					}
				}
				return d.Err()
			})))
		}},
	}
}

func pid32(n int) uint32 { return uint32(n) }

func x03spaces(thorough bool) []*Space {
	vid := append(x01video(), x02video()...)
	// the smallest stream: one picture of one macroblock
	e := &vEnc{}
	e.seq(mbSize(1, 1))
	e.group(vGOP{})
	e.pic(tiny(vPlan{kind: 1}, 3))
	e.pic(tiny(vPlan{kind: 2, tref: 1}, 3))
	e.end()
	small := e.b
	streams := append(vid, small)
	bare := map[*byte]*outcome{}
	for _, s := range streams {
		o := frames(newSeq(s))
		if o.err != io.EOF || len(o.out) < 2 {
			panic("harness: the bare stream does not decode: " + errName(o.err))
		}
		bare[&s[0]] = &o
	}
	pipes := pipelines()
	const pid = 0x21
	decode := func(x *X, p *pipeline, l *layout, what func() string) {
		b := []byte(nil)
		if p.ts {
			b = l.ts(pid)
		} else {
			b = l.ps()
		}
		src := &source{}
		if l.source != nil {
			*src = *l.source
		}
		src.data = b
		e := entry{run: func(r io.Reader) outcome { return p.run(r, pid) }}
		o, w := e.guarded(src), bare[&l.es[0]]
		if l.want != nil {
			w = l.want
		}
		d := o.same(w)
		if d == "" && o.err != w.err && (l.want == nil || errName(o.err) != errName(w.err)) {
			// the transport stream ends where the video does, so the last result is the same
			d = fmt.Sprintf("the final result is %s, expected %s", errName(o.err), errName(w.err))
		}
		if d != "" {
			x.Note("stream", "%s", hexs(b))
			x.Fail("%s: %s: %s", p.name, what(), d)
		}
		x.Inner(1)
	}
	// all runs the pipelines that take the layout
	all := func(x *X, l *layout, what func() string) {
		for i := range pipes {
			if !l.unbound {
				if i == 4 && l.pad != nil {
					continue // a unit of padding alone is no packet with a payload for it
				}
				decode(x, &pipes[i], l, what)
			} else if pipes[i].unb {
				decode(x, &pipes[i], l, what)
			}
		}
	}
	var out []*Space
	out = append(out, &Space{Name: "two packets", Body: func(x *X) {
		k := x.Choose(len(streams))
		l := &layout{es: streams[k], unbound: x.Bool()}
		a := x.Choose(len(l.es) + 1)
		l.cuts = []int{a}
		all(x, l, func() string { return fmt.Sprintf("stream %d cut at %d", k, a) })
		x.Visit(HashInts(1, uint64(k), b2u(l.unbound), uint64(a)))
	}})
	out = append(out, &Space{Name: "three packets", Body: func(x *X) {
		k := len(streams) - 1
		if thorough {
			k = x.Choose(len(streams))
		}
		l := &layout{es: streams[k], unbound: x.Bool()}
		a := x.Choose(len(l.es) + 1)
		for b := a; b <= len(l.es); b++ {
			l.cuts = []int{a, b}
			all(x, l, func() string { return fmt.Sprintf("stream %d cut at %d and %d", k, a, b) })
		}
		x.Visit(HashInts(2, uint64(k), b2u(l.unbound), uint64(a)))
	}})
	out = append(out, &Space{Name: "packets of equal size", Body: func(x *X) {
		k := x.Choose(len(streams))
		l := &layout{es: streams[k], unbound: x.Bool()}
		n := 1 + x.Choose(len(l.es))
		for at := n; at < len(l.es); at += n {
			l.cuts = append(l.cuts, at)
		}
		all(x, l, func() string { return fmt.Sprintf("stream %d in packets of %d bytes", k, n) })
		x.Visit(HashInts(3, uint64(k), b2u(l.unbound), uint64(n)))
	}})
	tsOnly := []int{0, 1, 2, 4}
	each := func(x *X, l *layout, which []int, what func() string) {
		for _, i := range which {
			if (!l.unbound || pipes[i].unb) && !(i == 4 && l.pad != nil) {
				decode(x, &pipes[i], l, what)
			}
		}
	}
	// damaged video gives the same frames and the same error through the chains
	out = append(out, &Space{Name: "damaged video", Body: func(x *X) {
		k := x.Choose(len(streams))
		es := streams[k]
		at := x.Choose(len(es))
		unbound := x.Bool()
		for how := 0; how < 13; how++ {
			d := bytes.Clone(es)
			switch {
			case how < 8:
				d[at] ^= 1 << how
			case how == 8:
				d[at] = 0
			case how == 9:
				d[at] = 0xff
			case how == 10 && at > 0:
				d = d[:at]
			case how == 11:
				d = append(d[:at], es[at+1:]...)
			default:
				d = append(append(d[:at:at], es[at]), es[at:]...)
			}
			if len(d) == 0 || big(d) {
				continue
			}
			bareEntry := entry{run: func(r io.Reader) outcome { return frames(video.NewVideoSequence(r)) }}
			w := bareEntry.guarded(&source{data: d})
			l := &layout{es: d, unbound: unbound, cuts: []int{len(d) / 3, len(d) * 2 / 3}, want: &w}
			for _, i := range []int{0, 2, 3} {
				if !unbound || pipes[i].unb {
					decode(x, &pipes[i], l, func() string { return fmt.Sprintf("stream %d damaged at %d (%d)", k, at, how) })
				}
			}
		}
		x.Visit(HashInts(20, uint64(k), b2u(unbound), uint64(at)))
	}})
	out = append(out, &Space{Name: "sizes of transport payloads", Body: func(x *X) {
		k := x.Choose(len(streams))
		l := &layout{es: streams[k], unbound: x.Bool()}
		l.cuts = [][]int{nil, {1}, {len(l.es) * 2 / 3}}[x.Choose(3)]
		first := 1 + x.Choose(184)
		for _, then := range []int{1, 2, 7, 47, 183, 184, first} {
			l.chunk = func(pkt, at, rest int) int {
				if at == 0 {
					return first
				}
				return then
			}
			each(x, l, tsOnly, func() string {
				return fmt.Sprintf("stream %d cut at %v, transport payloads of %d, then %d bytes", k, l.cuts, first, then)
			})
		}
		x.Visit(HashInts(4, uint64(k), b2u(l.unbound), uint64(len(l.packets()[0])), uint64(first)))
	}})
	out = append(out, &Space{Name: "every composition", Body: func(x *X) {
		l := &layout{es: small, unbound: x.Bool(), cuts: []int{len(small) / 3, len(small) / 3 * 2}}
		var sizes []int
		depth := 5 + b2i(thorough)*2
		for i := 0; i < depth; i++ {
			sizes = append(sizes, Pick(x, []int{1, 5, 30, 184}))
		}
		n := 0
		l.chunk = func(pkt, at, rest int) int {
			n++
			return sizes[(n-1)%len(sizes)]
		}
		for _, i := range tsOnly {
			n = 0
			each(x, l, []int{i}, func() string { return fmt.Sprintf("transport payloads of %v bytes", sizes) })
		}
		h := HashInts(5, b2u(l.unbound))
		for _, s := range sizes {
			h = HashInts(h, uint64(s))
		}
		x.Visit(h)
	}})
	// what may come between transport packets
	other := (&layout{es: vid[0], cuts: []int{50}}).ts(0x22)
	noises := []func(cc int) []byte{
		nil,
		func(int) []byte { return carry(0x22, true, 3, other[4:100]) },
		func(int) []byte { return carry(0x1fff, false, 0, bytes.Repeat([]byte{0xff}, 184)) },
		func(int) []byte { return carry(0x20, false, 9, append([]byte{0, 0, 1, 0xe0}, pattern(7, 170)...)) },
		func(cc int) []byte { return tsPacket{pid: pid, afc: 2, cc: cc - 1, afLen: 183}.bytes() },
		func(cc int) []byte {
			return tsPacket{pid: pid, afc: 2, cc: cc - 1, afLen: 183, af: []byte{0x10, 1, 2, 3, 4, 0x7e, 5}}.bytes()
		},
		func(int) []byte { return tsPacket{pid: 0x121, start: true, afc: 1, payload: pattern(5, 184)}.bytes() },
		func(int) []byte {
			return bytes.Repeat(tsPacket{pid: 0, start: true, afc: 1, payload: bytes.Repeat([]byte{0x47}, 184)}.bytes(), 3)
		},
		func(int) []byte { return other },
	}
	out = append(out, &Space{Name: "foreign packets", Body: func(x *X) {
		l := &layout{es: small, unbound: x.Bool(), cuts: []int{20, len(small) - 30}}
		l.chunk = func(pkt, at, rest int) int { return 40 }
		total := len(l.ts(pid)) / 188
		depth := 4 + b2i(thorough)
		at := x.Choose(max(total+1-depth, 0) + 1)
		var ks []int
		for i := 0; i < depth; i++ {
			ks = append(ks, x.Choose(len(noises)))
		}
		l.noise = func(n, cc int) [][]byte {
			if n < at || n >= at+depth || noises[ks[n-at]] == nil {
				return nil
			}
			return [][]byte{noises[ks[n-at]](cc)}
		}
		each(x, l, tsOnly, func() string { return fmt.Sprintf("foreign packets of kinds %v from transport packet %d on", ks, at) })
		h := HashInts(6, b2u(l.unbound), uint64(at))
		for _, s := range ks {
			h = HashInts(h, uint64(s))
		}
		x.Visit(h)
	}})
	out = append(out, &Space{Name: "foreign packets everywhere", Body: func(x *X) {
		k := x.Choose(len(streams))
		l := &layout{es: streams[k], unbound: x.Bool()}
		n := 1 + x.Choose(200)
		for at := n; at < len(l.es); at += n {
			l.cuts = append(l.cuts, at)
		}
		a, b := x.Choose(len(noises)), x.Choose(len(noises))
		l.noise = func(n, cc int) (out [][]byte) {
			for _, f := range [][]int{{a}, {b}, {a, b}}[n%3] {
				if noises[f] != nil {
					out = append(out, noises[f](cc))
				}
			}
			return
		}
		each(x, l, tsOnly[:3], func() string {
			return fmt.Sprintf("stream %d in packets of %d bytes, foreign packets of kinds %d and %d", k, n, a, b)
		})
		x.Visit(HashInts(7, uint64(k), b2u(l.unbound), uint64(n), uint64(a), uint64(b)))
	}})
	out = append(out, &Space{Name: "adaptation fields", Body: func(x *X) {
		k := len(streams) - 1
		if thorough {
			k = x.Choose(len(streams))
		}
		l := &layout{es: streams[k], unbound: x.Bool()}
		n := Pick(x, []int{40, 1000, 100}[:2+b2i(thorough)])
		for at := n; at < len(l.es); at += n {
			l.cuts = append(l.cuts, at)
		}
		flags, ext := x.Choose(256), 0
		if flags&1 != 0 {
			ext = x.Choose(8)
		}
		f := afield(flags, ext, 5)
		l.marks = Pick(x, []int{0, 8, 4, 3})
		for when := 0; when < 4; when++ {
			if when&1 == 0 && !thorough {
				continue
			}
			// the fields are in all packets, or in the others than the first of each unit
			l.field = func(n int) []byte {
				if n%3 == when {
					return nil
				}
				return f
			}
			for _, c := range []int{184, 31, 183 - len(f)} {
				l.chunk = func(pkt, at, rest int) int { return c }
				each(x, l, tsOnly, func() string {
					return fmt.Sprintf("packets of %d bytes, adaptation fields %x but in every third packet from %d on, payloads of %d, marks %x", n, f, when, c, l.marks)
				})
			}
		}
		x.Visit(HashInts(12, uint64(k), b2u(l.unbound), uint64(n), uint64(flags), uint64(ext), uint64(l.marks)))
	}})
	// headers of the packets and padding between them
	heads := []pesSpec{
		{id: 0xe0}, {id: 0xe0, flags1: 0x3f, flags2: 0xff, extFlags: 0xff, pts: 1<<33 - 1, dts: 1 << 32, phf: 7, ext2: 3, stuffing: 5, bg: 0},
		{id: 0xef, flags2: 0xc0, pts: 90000, dts: 3}, {id: 0xe0, stuffing: 32}, {id: 0xe1, flags1: 0x04, flags2: 0x80, stuffing: 1},
		{id: 0xe0, flags2: 0x01, extFlags: 0x81, ext2: 1, bg: 0}, {id: 0xe0, flags2: 0x7e, bg: 0xff},
	}
	out = append(out, &Space{Name: "headers and padding", Body: func(x *X) {
		k := Pick(x, []int{1, len(streams) - 1})
		l := &layout{es: streams[k], unbound: x.Bool(), cuts: []int{3, 41, 42}}
		var hs, ps []int
		for i := 0; i < 4; i++ {
			hs = append(hs, x.Choose(len(heads)))
		}
		var pads []int
		ps = []int{-1, 0, 1, 200}
		a, b := x.Choose(4), x.Choose(4)
		pads = []int{ps[a], ps[b], -1, ps[(a+b)%4]}
		l.head = func(i int) pesSpec { return heads[hs[i]] }
		if a+b > 0 {
			l.pad = func(i int) int { return pads[i] }
			if l.unbound {
				return
			}
		}
		l.packs = func(i int) bool { return i%3 == a }
		all(x, l, func() string { return fmt.Sprintf("stream %d, headers %v, padding %v", k, hs, pads) })
		h := HashInts(8, uint64(k), b2u(l.unbound), uint64(a), uint64(b))
		for _, s := range hs {
			h = HashInts(h, uint64(s))
		}
		x.Visit(h)
	}})
	out = append(out, &Space{Name: "packs", Body: func(x *X) {
		k := x.Choose(len(streams))
		l := &layout{es: streams[k]}
		n := 8
		for i := 1; i < n; i++ {
			l.cuts = append(l.cuts, len(l.es)*i/n)
		}
		starts := x.Choose(128)
		stuff, pad := x.Choose(8), x.Choose(4)
		l.packs = func(i int) bool { return starts>>uint(i%7)&1 == 1 }
		l.pack = func(i int) packSpec {
			s := packSpec{scr: uint64(i) * 9000, ext: uint64(i), rate: 1 << 21, reserved: uint64(i) & 31, stuffing: bytes.Repeat([]byte{0xff}, (stuff*(i+1))&7)}
			if (i+stuff)%3 == 0 {
				s.sys = &sysHeader{rate: 900, video: 1, audio: i & 31, streams: []psStream{{0xe0, 1, 100}, {0xc0, 0, 32}}[:1+i%2]}
			}
			return s
		}
		if pad > 0 {
			l.pad = func(i int) int { return []int{-1, 0, 3, 300}[(pad+i)%4] }
		}
		each(x, l, []int{3, 5}, func() string {
			return fmt.Sprintf("stream %d, packs from %b, stuffing %d, padding %d", k, starts, stuff, pad)
		})
		x.Visit(HashInts(9, uint64(k), uint64(starts), uint64(stuff), uint64(pad)))
	}})
	// what the source does on top
	out = append(out, &Space{Name: "reads of the source", Body: func(x *X) {
		k := x.Choose(len(streams))
		l := &layout{es: streams[k], unbound: x.Bool(), cuts: []int{30, 60}, source: &source{chunk: 1 + x.Choose(200)}}
		l.noise = func(n, cc int) [][]byte {
			if n%2 == 1 {
				return [][]byte{noises[1+n%(len(noises)-1)](cc)}
			}
			return nil
		}
		all(x, l, func() string { return fmt.Sprintf("stream %d, reads of %d bytes", k, l.source.chunk) })
		x.Visit(HashInts(10, uint64(k), b2u(l.unbound), uint64(l.source.chunk)))
	}})
	// joining late: what precedes the first start of a unit is lost, and nothing else
	out = append(out, &Space{Name: "joining late", Body: func(x *X) {
		k := 1 // two sequences
		l := &layout{es: streams[k], unbound: x.Bool()}
		n := 1 + x.Choose(120)
		for at := n; at < len(l.es); at += n {
			l.cuts = append(l.cuts, at)
		}
		l.chunk = func(pkt, at, rest int) int { return []int{184, 20, 35}[pkt%3] }
		b := l.ts(pid)
		skip := x.Choose(len(b)/188 + 1)
		// the packets that remain
		begun, unit := 0, -1
		for at := 0; at < len(b); at += 188 {
			if b[at+1]&0x40 != 0 {
				begun++
				if at >= skip*188 && unit < 0 {
					unit = begun - 1
				}
			}
		}
		rest := []byte{}
		if unit >= 0 {
			rest = l.es[append([]int{0}, l.cuts...)[unit]:]
		}
		align := func(r io.Reader) (o outcome) {
			v := video.NewVideoSequence(r)
			if o.err = v.AlignTo(video.SequenceHeaderStartCode); o.err != nil {
				return
			}
			return frames(v)
		}
		w := align(&source{data: rest})
		e := entry{run: func(r io.Reader) outcome { return pipes[1].run(r, pid) }}
		o := e.guarded(&source{data: b[skip*188:]})
		d := o.same(&w)
		if d == "" && o.err != w.err {
			d = fmt.Sprintf("the final result is %s, expected %s", errName(o.err), errName(w.err))
		}
		if d != "" {
			x.Note("stream", "%s", hexs(b[skip*188:]))
			x.Fail("packets of %d bytes, joined at transport packet %d: %s", n, skip, d)
		}
		x.Visit(HashInts(11, b2u(l.unbound), uint64(n), uint64(skip)))
	}})
	// features of the layout together
	type lay struct {
		name string
		set  func(l *layout)
	}
	cutEvery := func(n int) func(l *layout) {
		return func(l *layout) {
			l.cuts = nil
			for at := n; at < len(l.es); at += n {
				l.cuts = append(l.cuts, at)
			}
		}
	}
	lays := []lay{
		{"packets of 1 byte", cutEvery(1)}, {"packets of 7 bytes", cutEvery(7)}, {"packets of 61 bytes", cutEvery(61)}, {"packets of 170 bytes", cutEvery(170)},
		{"an empty packet", func(l *layout) { l.cuts = []int{20, 20, len(l.es) - 9, len(l.es)} }},
		{"packets of unknown length", func(l *layout) { l.unbound = true }},
		{"error indicator", func(l *layout) { l.marks |= 8 }}, {"priority", func(l *layout) { l.marks |= 4 }}, {"scrambling", func(l *layout) { l.marks |= 3 }},
		{"reads of 1 byte", func(l *layout) { l.source = &source{chunk: 1} }}, {"reads of 187 bytes", func(l *layout) { l.source = &source{chunk: 187} }},
		{"packs everywhere", func(l *layout) { l.packs = func(int) bool { return true } }},
		{"some packs", func(l *layout) { l.packs = func(i int) bool { return i%3 == 1 } }},
		{"pack stuffing", func(l *layout) {
			l.pack = func(i int) packSpec {
				return packSpec{scr: uint64(i) << 20, ext: 511, rate: 1<<22 - 1, stuffing: bytes.Repeat([]byte{0xff}, 1+i%7)}
			}
		}},
		{"system headers", func(l *layout) {
			l.pack = func(i int) packSpec {
				return packSpec{scr: uint64(i), rate: 9, stuffing: bytes.Repeat([]byte{0xff}, i%3), sys: &sysHeader{rate: 900, video: 1, audio: i & 31, streams: []psStream{{0xe0, 1, 100}, {0xc0, 0, 32}}[:1+i%2]}}
			}
		}},
		{"no padding bytes", func(l *layout) { l.pad = func(i int) int { return 0 } }},
		{"padding", func(l *layout) { l.pad = func(i int) int { return []int{-1, 3, 200, 0}[i%4] } }},
	}
	for i := range heads {
		lays = append(lays, lay{fmt.Sprintf("header %d", i), func(l *layout) {
			was := l.head
			l.head = func(n int) pesSpec {
				if was != nil && n%2 == 1 {
					return was(n)
				}
				return heads[i]
			}
		}})
	}
	for _, c := range []int{1, 9, 31, 128, 183} {
		lays = append(lays, lay{fmt.Sprintf("transport payloads of %d bytes", c), func(l *layout) {
			was := l.chunk
			l.chunk = func(pkt, at, rest int) int {
				if was != nil && at%3 == 1 {
					return was(pkt, at, rest)
				}
				return c
			}
		}})
	}
	for i := 1; i < len(noises); i++ {
		lays = append(lays, lay{fmt.Sprintf("foreign packets %d", i), func(l *layout) {
			was := l.noise
			l.noise = func(n, cc int) (out [][]byte) {
				if was != nil && n%3 != 1 {
					out = was(n, cc)
				}
				if n%3 != 0 {
					out = append(out, noises[i](cc))
				}
				return
			}
		}})
	}
	for _, f := range [][]byte{{}, {0}, afield(0xe8, 0, 0), afield(0x1d, 0, 0), afield(0x13, 7, 7), afield(0x02, 0, 0), afield(0x40, 0, 0), append(afield(0x20, 0, 0), bytes.Repeat([]byte{0xff}, 100)...)} {
		lays = append(lays, lay{fmt.Sprintf("adaptation fields %x", f), func(l *layout) {
			was := l.field
			l.field = func(n int) []byte {
				if n%3 == 2 {
					return nil
				}
				if was != nil && n%3 == 1 {
					return was(n)
				}
				return f
			}
		}})
	}
	together := func(name string, size int, of int) *Space {
		return &Space{Name: name, Body: func(x *X) {
			k := Pick(x, []int{len(streams) - 1, 1, 0, 2, 3}[:of])
			l := &layout{es: streams[k], cuts: []int{30, 60}}
			names, last := "", 0
			for i := 0; i < size; i++ {
				f := last + x.Choose(len(lays)-last)
				if i == 0 || f != last {
					lays[f].set(l)
					names += ", " + lays[f].name
				}
				last = f
			}
			if l.unbound && l.pad != nil {
				return
			}
			all(x, l, func() string { return fmt.Sprintf("stream %d, %s", k, names[2:]) })
			x.Visit(HashBytes(uint64(k), []byte(names)))
		}}
	}
	out = append(out, together("pairs of features of the layout", 2, 5), together("three features of the layout", 3, 2))
	if thorough {
		out = append(out, together("four features of the layout", 4, 2))
	}
	// two programs, decoded from one demultiplexer
	out = append(out, &Space{Name: "two programs", Body: func(x *X) {
		i, k := x.Choose(len(streams)), x.Choose(len(streams))
		pi, pk := Pick(x, []int{1, 2, 3, 5}), Pick(x, []int{1, 2, 4})
		a := (&layout{es: streams[i], cuts: []int{33}}).ts(0x21)
		c := (&layout{es: streams[k], cuts: []int{1, 77}}).ts(0x22)
		var b []byte
		for len(a) > 0 || len(c) > 0 {
			n := min(len(a), pi*188)
			b, a = append(b, a[:n]...), a[n:]
			n = min(len(c), pk*188)
			b, c = append(b, c[:n]...), c[n:]
		}
		d := ts.NewDemuxer(&source{data: b})
		chans := []<-chan []byte{d.Where(ts.IsPID(0x21)).PayloadUnit(), d.Where(ts.IsPID(0x22)).PayloadUnit()}
		done := d.Go()
		outs := make([]chan outcome, 2)
		for n := range chans {
			outs[n] = make(chan outcome)
			go func() {
				e := entry{run: func(io.Reader) outcome {
					return frames(video.NewVideoSequence(feed(func(w io.Writer) error {
						for u := range chans[n] {
							p, err := pes.NewPacket(bitreader.NewReader(bytes.NewReader(u)))
							if err != nil {
								return err
							}
							w.Write(p.Payload)
						}
						return io.EOF
					})))
				}}
				outs[n] <- e.guarded(nil)
			}()
		}
		for n, s := range []int{i, k} {
			o, w := <-outs[n], bare[&streams[s][0]]
			if df := o.same(w); df != "" {
				x.Note("stream", "%s", hexs(b))
				x.Fail("program %d of two, stream %d: %s", n, s, df)
			}
		}
		<-done
		for n, p := range []int{0x21, 0x22} {
			for m := range pipes[:3] {
				e := entry{run: func(r io.Reader) outcome { return pipes[m].run(r, p) }}
				o, w := e.guarded(&source{data: b}), bare[&streams[[]int{i, k}[n]][0]]
				if df := o.same(w); df != "" {
					x.Note("stream", "%s", hexs(b))
					x.Fail("%s, program %d of two: %s", pipes[m].name, n, df)
				}
				x.Inner(1)
			}
		}
		x.Visit(HashInts(12, uint64(i), uint64(k), uint64(pi), uint64(pk)))
	}})
	// packets at the limits of their length field, and far beyond when they have none
	var huge []byte
	out = append(out, &Space{Name: "large packets", Setup: func() {
		if huge != nil {
			return
		}
		e := newVid(mbSize(20, 15))
		q := vParams{}
		for i := 0; i < 12; i++ {
			e.pic(textured(q.pic(1, i), 20, 15, 2, i))
		}
		e.end()
		b := e.b
		o := frames(newSeq(b))
		if o.err != io.EOF || len(o.out) < 12 || len(b) < 70000 {
			panic(fmt.Sprintf("harness: the large stream of %d bytes does not decode: %s, %d frames", len(b), errName(o.err), len(o.out)))
		}
		bare[&b[0]] = &o
		huge = b
	}, Body: func(x *X) {
		l := &layout{es: huge, unbound: x.Bool()}
		size := Pick(x, []int{100, 2000, 4095, 16384, 32768, 65526, 65527, 1 << 20})
		if !l.unbound && size > 65527 {
			return
		}
		l.head = func(i int) pesSpec {
			return pesSpec{id: 0xe0, flags2: []byte{0, 0x80}[i&b2i(size < 60000)], pts: uint64(i)}
		}
		for at := size; at < len(l.es); at += size {
			l.cuts = append(l.cuts, at)
		}
		all(x, l, func() string { return fmt.Sprintf("a stream of %d bytes in packets of %d", len(huge), size) })
		x.Visit(HashInts(13, b2u(l.unbound), uint64(size)))
	}})
	return out
}
