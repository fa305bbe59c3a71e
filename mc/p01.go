package mc

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"runtime"

	"github.com/32bitkid/bitreader"
	"github.com/32bitkid/mpeg/pes"
	"github.com/32bitkid/mpeg/ts"
)

func init() {
	register(&Check{
		ID: "P01", Level: "model_checking",
		Rule:   "every stream id and every legal combination of header flags, extension flags, inner lengths and stuffing (with several backgrounds for the value bits) is built, parsed, and compared field by field with a byte-offset reference reader; states are distinct reference packets",
		Assume: []string{"time stamps are covered by every pair of bits, P-STD fields by all values; the forbidden PTS_DTS_flags value 01 is not generated"},
		Spaces: p01spaces,
	})
	register(&Check{
		ID: "P02", Level: "model_checking",
		Rule:   "every sequence of packet kinds up to the depth, optionally split into payload units, is read into one reused object and into fresh ones; both must equal the reference reading of the packet's own bytes; states are (kind, previous kind, position)",
		Spaces: p02spaces,
	})
	register(&Check{
		ID: "P03", Level: "fault_enumeration",
		Rule:   "a corpus of PES packets is damaged at every truncation point, by every value of every header byte, and by every combination of packet length, header length and inner lengths; an evaluation is one damaged stream read until it fails, compared with the outcome class (good, must fail, cut, no start code) of a reference reader; non-trivial are distinct (corpus element, position, outcome)",
		Assume: []string{"marker bits inside of fields that are skipped undecoded and the forbidden PTS_DTS_flags value 01 may or may not be reported"},
		Spaces: p03spaces,
	})
	register(&Check{
		ID: "P04", Level: "model_checking",
		Rule:   "every sequence of packet kinds up to the depth x every placement of payload unit ends x every stream end (clean or cut) x read sizes and source chunk sizes is read through the payload reader and compared with the concatenation of the payloads; states are (kind history, bytes delivered)",
		Spaces: p04spaces,
	})
}

func checkPES(x *X, b []byte, tail int) {
	r, class := readPES(b[:len(b)-tail])
	if class != pesGood {
		panic(fmt.Sprintf("harness: malformed packet in a well-formed space: %d %x", class, b))
	}
	br := newBR(b)
	p, err := pes.NewPacket(br)
	if err != nil {
		x.Note("packet", "%s", hexs(b))
		x.Fail("a well-formed packet is rejected: %v", err)
	}
	d, known := diffPES(p, &r)
	if d != "" {
		x.Note("packet", "%s", hexs(b))
		x.Fail("%s", d)
	}
	if known != "" {
		x.Known(known, "presentation %d (expected %d), decoding %d (expected %d)", p.PresentationTimeStamp, r.pts, p.DecodingTimeStamp, r.dts)
	}
	if tail > 0 {
		if got := rest(br); !bytes.Equal(got, b[len(b)-tail:]) {
			x.Note("packet", "%s", hexs(b))
			x.Fail("after the packet the stream continues with %.20x, expected %.20x", got, b[len(b)-tail:])
		}
	}
	h := HashInts(r.id, r.length, uint64(r.flags1), uint64(r.flags2), uint64(r.hdl), r.pts, r.dts, uint64(r.extFlags), r.scale, r.size, uint64(len(r.payload)))
	x.Visit(h)
}

var pesTail = []byte{0, 0, 1, 0x47}

func p01spaces(thorough bool) []*Space {
	payload := pattern(50, 40)
	var out []*Space
	out = append(out, &Space{Name: "every stream id", Body: func(x *X) {
		id := byte(x.Choose(256))
		pl := pattern(int(id), Pick(x, []int{0, 1, 2, 3, 8, 9, 40, 255, 256, 257, 2000, 60000}))
		flags2 := Pick(x, []byte{0x00, 0x80, 0xc1, 0x3f})
		s := pesSpec{id: id, flags2: flags2, extFlags: 0x90, pts: 0x12345678, dts: 0x0fedcba9, bg: 0x33, payload: pl}
		b := s.bytes()
		tail := x.Choose(2) * len(pesTail)
		checkPES(x, append(b, pesTail[:tail]...), tail)
		if pesHeadered(id) {
			s.unbound = true
			checkPES(x, s.bytes(), 0)
			x.Inner(1)
		}
		x.Note("packet", "%s", hexs(b))
	}})
	out = append(out, &Space{Name: "every flag combination", Body: func(x *X) {
		flags2 := byte(x.Choose(256))
		if flags2>>6 == 1 {
			return
		}
		bg := Pick(x, []byte{0x00, 0xff, 0xa5, 0x01})
		ext := 1
		if flags2&1 != 0 {
			ext = 256
		}
		n := 0
		for ef := 0; ef < ext; ef++ {
			phfs, ext2s := []int{0}, []int{0}
			if ef&0x40 != 0 {
				phfs = []int{0, 1, 12, 70}
			}
			if ef&0x01 != 0 {
				ext2s = []int{0, 1, 9, 100, 127}
			}
			for _, phf := range phfs {
				for _, e2 := range ext2s {
					for _, st := range []int{0, 1, 7, 33} {
						s := pesSpec{id: 0xe0, flags1: byte(n % 64), flags2: flags2, extFlags: byte(ef), phf: phf, ext2: e2,
							stuffing: st, bg: bg, pts: 0x1_0000_0001 >> 1, dts: 0xaaaaaaaa, payload: payload}
						if s.headerLen() > 255 {
							continue
						}
						checkPES(x, append(s.bytes(), pesTail...), len(pesTail))
						n++
					}
				}
			}
		}
		x.Inner(int64(n))
		x.Note("flags", "%08b background %02x: %d packets", flags2, bg, n)
	}})
	out = append(out, &Space{Name: "every first flag byte and stuffing length", Body: func(x *X) {
		f1 := byte(x.Choose(64))
		flags2 := Pick(x, []byte{0x00, 0x80, 0xc0, 0xff})
		s := pesSpec{id: 0xc0, flags1: f1, flags2: flags2, extFlags: 0x10, payload: payload, pts: 5, dts: 4, bg: 0x7e}
		max := 255 - s.headerLen()
		for st := 0; st <= max; st++ {
			s.stuffing = st
			s.payload = payload[:st%41]
			checkPES(x, append(s.bytes(), pesTail...), len(pesTail))
		}
		x.Inner(int64(max))
	}})
	out = append(out, &Space{Name: "time stamps by bit pairs", Body: func(x *X) {
		kind := x.Choose(2)
		bg := uint64(x.Choose(2)) * (1<<33 - 1)
		i := x.Choose(66)
		s := pesSpec{id: 0xe0, flags2: []byte{0x80, 0xc0}[kind], payload: payload[:4], pts: bg, dts: bg}
		flip := func(k int) {
			if k < 33 {
				s.pts ^= 1 << uint(k)
			} else {
				s.dts ^= 1 << uint(k-33)
			}
		}
		flip(i)
		for j := 0; j < 66; j++ {
			if j != i {
				flip(j)
			}
			checkPES(x, append(s.bytes(), pesTail...), len(pesTail))
			if j != i {
				flip(j)
			}
		}
		x.Inner(66)
	}})
	out = append(out, &Space{Name: "time stamps by halves", Body: func(x *X) {
		// every value of each 15-bit section, of both stamps
		which := x.Choose(5)
		hi := x.Choose(128)
		base := Pick(x, []uint64{0, 0x0_ffff_ffff, 0x0_5a5a_a5a5})
		for lo := 0; lo < 256; lo++ {
			v := uint64(hi<<8 | lo)
			s := pesSpec{id: 0xe0, flags2: 0xc0, pts: base, dts: base}
			switch which {
			case 0:
				s.pts = s.pts&^0x7fff | v
			case 1:
				s.pts = s.pts&^(0x7fff<<15) | v<<15
			case 2:
				s.dts = s.dts&^0x7fff | v
			case 3:
				s.dts = s.dts&^(0x7fff<<15) | v<<15
			case 4:
				s.flags2 = 0x80
				s.pts = v&3<<30 | v
			}
			checkPES(x, append(s.bytes(), pesTail...), len(pesTail))
		}
		x.Inner(255)
	}})
	out = append(out, &Space{Name: "all P-STD buffers", Body: func(x *X) {
		hi := x.Choose(64)
		for lo := 0; lo < 256; lo++ {
			s := pesSpec{id: 0xe0, flags2: 0x01, extFlags: 0x10, payload: payload[:3]}
			b := s.bytes()
			b[10], b[11] = 0x40|byte(hi), byte(lo)
			checkPES(x, append(b, pesTail...), len(pesTail))
		}
		x.Inner(255)
	}})
	if thorough {
		out = append(out, &Space{Name: "inner lengths", Body: func(x *X) {
			phf := x.Choose(240)
			for e2 := 0; e2 < 128; e2++ {
				for _, fl := range []byte{0x01, 0xc1, 0x3f} {
					for _, ef := range []byte{0x41, 0x51, 0xf1, 0xff} {
						s := pesSpec{id: 0xbd, flags2: fl, extFlags: ef, phf: phf, ext2: e2, payload: payload, stuffing: e2 % 3, bg: 0xff}
						if s.headerLen() > 255 {
							continue
						}
						checkPES(x, append(s.bytes(), pesTail...), len(pesTail))
						x.Inner(1)
					}
				}
			}
		}})
	}
	return out
}

// unitSource delivers segments, each followed by the end-of-packet mark, then the end.
type unitSource struct {
	segs  [][]byte
	marks []bool // mark after the segment
	chunk int
	pos   int
	ends  int
}

func (u *unitSource) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	for {
		if len(u.segs) == 0 {
			if u.ends++; u.ends > maxEnds {
				panic("livelock: the source was read again and again after its end")
			}
			return 0, io.EOF
		}
		s := u.segs[0][u.pos:]
		if len(s) == 0 {
			m := u.marks[0]
			u.segs, u.marks, u.pos = u.segs[1:], u.marks[1:], 0
			if m {
				return 0, ts.EOP
			}
			continue
		}
		n := len(p)
		if u.chunk > 0 && n > u.chunk {
			n = u.chunk
		}
		n = copy(p[:n], s)
		u.pos += n
		return n, nil
	}
}

type pesKind struct {
	name    string
	spec    pesSpec
	unbound bool
}

func pesKinds() []pesKind {
	long := pattern(60, 300)
	return []pesKind{
		{"plain", pesSpec{id: 0xe0, payload: pattern(61, 20)}, false},
		{"pts", pesSpec{id: 0xe1, flags1: 0x0f, flags2: 0xc0, pts: 77, dts: 66, stuffing: 4, payload: long}, false},
		{"extension", pesSpec{id: 0xbd, flags2: 0x3f, extFlags: 0xf1, phf: 5, ext2: 3, bg: 0x5a, payload: pattern(62, 7)}, false},
		{"padding", pesSpec{id: 0xbe, payload: bytes.Repeat([]byte{0xff}, 30)}, false},
		{"header-less", pesSpec{id: 0xbf, payload: pattern(63, 50)}, false},
		{"header-less empty", pesSpec{id: 0xf8}, false},
		{"empty", pesSpec{id: 0xc0, flags2: 0x80, pts: 9}, false},
		{"directory", pesSpec{id: 0xff, payload: []byte{0, 0, 1, 0xe0, 0, 2}}, false},
		{"unbounded", pesSpec{id: 0xe2, flags2: 0x80, pts: 5, payload: pattern(64, 90), unbound: true}, true},
		{"unbounded empty", pesSpec{id: 0xe3, flags2: 0x01, extFlags: 0x90, bg: 0x11, unbound: true}, true},
	}
}

// pesStream enumerates a sequence of packets and unit ends. Packets without a length
// are always followed by a unit end or the end of the stream.
func pesStream(x *X, depth int, kinds []pesKind, force int) (segs [][]byte, marks []bool, pk [][]byte, seq []int, between []bool) {
	n := x.Choose(depth + 1)
	if force > 0 {
		n = force
	}
	for i := 0; i < n; i++ {
		k := x.Choose(len(kinds))
		seq = append(seq, k)
		b := kinds[k].spec.bytes()
		pk = append(pk, b)
		mark := kinds[k].unbound
		if i == n-1 && kinds[k].unbound {
			mark = x.Bool()
		} else if !mark {
			mark = x.Bool()
		}
		if len(marks) > 0 && !marks[len(marks)-1] {
			segs[len(segs)-1] = append(append([]byte{}, segs[len(segs)-1]...), b...)
			marks[len(marks)-1] = mark
		} else {
			segs = append(segs, b)
			marks = append(marks, mark)
		}
		between = append(between, mark && !kinds[k].unbound)
	}
	return
}

func p02spaces(thorough bool) []*Space {
	kinds := pesKinds()
	return []*Space{{Name: "packet sequences", Body: func(x *X) {
		segs, marks, pk, seq, between := pesStream(x, 4+b2i(thorough), kinds, 0)
		for round, fresh := range []bool{false, true} {
			br := bitreader.NewReader(&unitSource{segs: segs, marks: marks})
			p := new(pes.Packet)
			prev := -1
			for i, b := range pk {
				var err error
				if fresh {
					p, err = pes.NewPacket(br)
				} else {
					err = p.Next(br)
				}
				if err != nil {
					x.Fail("packet %d of kinds %v (unit ends %v, fresh %v) is rejected: %v", i, seq, marks, fresh, err)
				}
				r, class := readPES(b)
				if class != pesGood {
					panic("harness: bad corpus")
				}
				if d, _ := diffPES(p, &r); d != "" {
					x.Fail("packet %d of kinds %v (unit ends %v, fresh %v): %s", i, seq, marks, fresh, d)
				}
				if between[i] {
					// the mark of a unit end between packets is reported once
					var e2 error
					if fresh {
						_, e2 = pes.NewPacket(br)
					} else {
						e2 = p.Next(br)
					}
					if e2 != ts.EOP {
						x.Fail("kinds %v: the unit end after packet %d gives %v", seq, i, e2)
					}
				}
				x.Visit(HashInts(uint64(seq[i]), uint64(prev+1), uint64(i), uint64(round), b2u(between[i])))
				prev = seq[i]
			}
			if _, err := pes.NewPacket(br); err != io.EOF {
				x.Fail("kinds %v: after the last packet: %v, expected end of file", seq, err)
			}
		}
		x.Inner(1)
		x.Note("kinds", "%v unit ends %v", seq, marks)
	}}, {Name: "framing by length", Body: func(x *X) {
		// every stream id with lengths around the header's size
		id := byte(x.Choose(256))
		if id == 0xb9 || id == 0xba || id == 0xbb {
			// not special to a PES reader
		}
		n := Pick(x, []int{0, 1, 5, 100, 1000, 40000})
		second := Pick(x, kinds[:9])
		s := pesSpec{id: id, flags2: 0x80, pts: 1, payload: pattern(65, n)}
		b := append(s.bytes(), second.spec.bytes()...)
		b = append(b, kinds[1].spec.bytes()...)
		br := newBR(b)
		p := new(pes.Packet)
		for k := 0; k < 3 && len(b) > 0; k++ {
			r, class := readPES(b)
			if class != pesGood {
				panic("harness: bad stream")
			}
			if err := p.Next(br); err != nil {
				x.Fail("stream id %#x length %d: packet %d: %v", id, n, k, err)
			}
			if d, _ := diffPES(p, &r); d != "" {
				x.Fail("stream id %#x length %d: packet %d: %s", id, n, k, d)
			}
			b = b[r.consumed:]
		}
		x.Visit(HashInts(99, uint64(id), uint64(n)))
	}}}
}

// p03eval reads a damaged stream; the reference decides what each call must give.
func p03eval(x *X, b []byte, what func() string) (packets int, cls pesClass) {
	src := &source{data: b}
	br := bitreader.NewReader(src)
	p := new(pes.Packet)
	for {
		r, class := readPES(b)
		err := p.Next(br)
		switch class {
		case pesGood, pesAmbiguous:
			if class == pesAmbiguous && err != nil {
				return packets, class
			}
			if err != nil {
				x.Note("stream", "%s", hexs(b))
				x.Fail("%s: packet %d is well-formed, but rejected: %v", what(), packets, err)
			}
			if d, _ := diffPES(p, &r); d != "" {
				x.Note("stream", "%s", hexs(b))
				x.Fail("%s: packet %d: %s", what(), packets, d)
			}
			b = b[r.consumed:]
			packets++
			continue
		case pesEnd:
			if err == nil || len(b) == 0 && err != io.EOF {
				x.Fail("%s: at the end of the input: %v, expected end of file", what(), errName(err))
			}
		case pesNoStart:
			if err != pes.ErrStartCodePrefixNotFound {
				x.Fail("%s: without a start code: %v", what(), errName(err))
			}
			if got := rest(br); !bytes.Equal(got, b) {
				x.Fail("%s: a missing start code consumes %d bytes", what(), len(b)-len(got))
			}
		case pesBad, pesCut:
			if err == nil {
				x.Note("stream", "%s", hexs(b))
				x.Fail("%s: packet %d is damaged (%v), but accepted", what(), packets, map[pesClass]string{pesBad: "malformed", pesCut: "cut short"}[class])
			}
			if class == pesCut && err == io.EOF {
				x.Note("stream", "%s", hexs(b))
				x.Fail("%s: packet %d is cut short, but reported as a clean end of file", what(), packets)
			}
			if errors.Is(err, ts.EOP) {
				x.Fail("%s: reported as end of a payload unit", what())
			}
		}
		return packets, class
	}
}

func p03spaces(thorough bool) []*Space {
	kinds := pesKinds()
	second := kinds[1].spec.bytes()
	var out []*Space
	out = append(out, &Space{Name: "truncations", Body: func(x *X) {
		a, c := x.Choose(len(kinds)), x.Choose(len(kinds))
		s := append(append([]byte{}, kinds[a].spec.bytes()...), kinds[c].spec.bytes()...)
		for cut := 0; cut <= len(s); cut++ {
			n, class := p03eval(x, s[:cut], func() string { return fmt.Sprintf("kinds %d,%d cut at byte %d", a, c, cut) })
			x.Visit(HashInts(1, uint64(a), uint64(c), uint64(cut), uint64(n), uint64(class)))
		}
		x.Inner(int64(len(s)))
	}})
	out = append(out, &Space{Name: "units that end inside a packet", Body: func(x *X) {
		a, c := x.Choose(len(kinds)), x.Choose(len(kinds))
		one, next := kinds[a].spec.bytes(), kinds[c].spec.bytes()
		for cut := 3; cut < len(one); cut++ {
			_, class := readPES(one[:cut])
			br := bitreader.NewReader(&unitSource{segs: [][]byte{one[:cut], next}, marks: []bool{true, true}})
			_, err := pes.NewPacket(br)
			if (class == pesGood) != (err == nil) || err == io.EOF || err == ts.EOP {
				x.Fail("kind %d in a unit that ends at byte %d, then kind %d: the packet gives %v", a, cut, c, errName(err))
			}
			x.Visit(HashInts(8, uint64(a), uint64(c), uint64(cut), uint64(class)))
		}
		x.Inner(int64(len(one) - 4))
	}})
	out = append(out, &Space{Name: "every byte value", Body: func(x *X) {
		a := x.Choose(len(kinds))
		one := kinds[a].spec.bytes()
		lim := len(one)
		if lim > 80 {
			lim = 80
		}
		pos := x.Choose(lim)
		follow := x.Bool()
		s := append([]byte{}, one...)
		if follow {
			s = append(s, second...)
		}
		for v := 0; v < 256; v++ {
			s[pos] = byte(v)
			n, class := p03eval(x, s, func() string { return fmt.Sprintf("kind %d with byte %d set to %#x", a, pos, v) })
			x.Visit(HashInts(2, uint64(a), uint64(pos), uint64(n), uint64(class), b2u(follow)))
		}
		x.Inner(255)
		x.Note("damage", "kind %s byte %d, all values", kinds[a].name, pos)
	}})
	out = append(out, &Space{Name: "pairs of damaged bytes", Body: func(x *X) {
		a := Pick(x, []int{1, 2, 8})
		one := kinds[a].spec.bytes()
		lim := min(len(one), 60)
		i := 3 + x.Choose(lim-4)
		s := append(append([]byte{}, one...), second...)
		vals := []byte{0x00, 0x01, 0x7f, 0x80, 0xff, 0x21, 0x31}
		n := 0
		for j := i + 1; j < lim; j++ {
			oi, oj := s[i], s[j]
			for _, v := range vals {
				for _, w := range vals {
					s[i], s[j] = v, w
					k, class := p03eval(x, s, func() string { return fmt.Sprintf("kind %d with bytes %d,%d set to %#x,%#x", a, i, j, v, w) })
					x.Visit(HashInts(3, uint64(a), uint64(i), uint64(k), uint64(class)))
					n++
				}
			}
			s[i], s[j] = oi, oj
		}
		x.Inner(int64(n))
	}})
	out = append(out, &Space{Name: "packet length x header length", Body: func(x *X) {
		hdl := x.Choose(256)
		flags2 := Pick(x, []byte{0x00, 0x80, 0xc0, 0x3e, 0x01, 0xff})
		ef := byte(0)
		if flags2&1 != 0 {
			ef = Pick(x, []byte{0x00, 0x10, 0x80, 0xf0, 0x41, 0xf1})
		}
		fill := Pick(x, []byte{0xff, 0x00})
		s := pesSpec{id: 0xe0, flags2: flags2, extFlags: ef, phf: 3, ext2: 2, pts: 8, dts: 9, bg: 0x81, payload: bytes.Repeat([]byte{fill}, 600)}
		b := s.bytes()
		b[8] = byte(hdl)
		n := 0
		for l := 0; l < 620; l++ {
			if l > 300 && l%7 != 0 && !thorough {
				continue
			}
			b[4], b[5] = byte(l>>8), byte(l)
			k, class := p03eval(x, b, func() string {
				return fmt.Sprintf("flags %#x/%#x, packet length %d, header length %d", flags2, ef, l, hdl)
			})
			x.Visit(HashInts(4, uint64(hdl), uint64(flags2), uint64(ef), uint64(fill), uint64(k), uint64(class)))
			n++
		}
		x.Inner(int64(n))
	}})
	out = append(out, &Space{Name: "extension lengths", Body: func(x *X) {
		phf := x.Choose(256)
		ef := Pick(x, []byte{0x40, 0x41, 0x01, 0x51, 0xf1})
		hdl := Pick(x, []int{0, 1, 4, 20, 100, 200, 255})
		for e2 := 0; e2 < 256; e2++ {
			w := &BW{}
			w.Put(1, 24).Put(0xe0, 8).Put(500, 16).Put(2, 2).Put(0, 6).Put(1, 8).Put(uint64(hdl), 8).Put(uint64(ef), 8)
			if ef&0x80 != 0 {
				w.Bytes(pattern(1, 16)...)
			}
			if ef&0x40 != 0 {
				w.Put(uint64(phf), 8)
				w.Bytes(bytes.Repeat([]byte{0xff}, phf)...)
			}
			if ef&0x20 != 0 {
				w.Put(0xffff, 16)
			}
			if ef&0x10 != 0 {
				w.Put(0x4fff, 16)
			}
			if ef&0x01 != 0 {
				w.Put(uint64(e2), 8)
			}
			b := append(w.b, bytes.Repeat([]byte{0xff}, 506)...)
			k, class := p03eval(x, b[:506+9], func() string {
				return fmt.Sprintf("extension flags %#x, header length %d, pack header field %d, second extension %#x", ef, hdl, phf, e2)
			})
			x.Visit(HashInts(5, uint64(phf), uint64(ef), uint64(hdl), uint64(k), uint64(class)))
			if ef&0x01 == 0 {
				break
			}
		}
		x.Inner(255)
	}})
	out = append(out, &Space{Name: "short arbitrary streams", Body: func(x *X) {
		alpha := []byte{0x00, 0x01, 0xe0, 0x80, 0xff, 0xbe}
		n := x.Choose(7 + b2i(thorough))
		var s []byte
		for i := 0; i < n; i++ {
			s = append(s, Pick(x, alpha))
		}
		for _, pre := range [][]byte{nil, {0, 0, 1}, {0, 0, 1, 0xe0}, {0, 0, 1, 0xe0, 0, 0}, {0, 0, 1, 0xe0, 0, 5}} {
			t := append(append([]byte{}, pre...), s...)
			k, class := p03eval(x, t, func() string { return fmt.Sprintf("stream %x", t) })
			x.Visit(HashInts(6, HashBytes(0, t), uint64(k), uint64(class)))
		}
		x.Inner(4)
	}})
	out = append(out, &Space{Name: "memory", Serial: true, Body: func(x *X) {
		a := x.Choose(len(kinds))
		v := Pick(x, []byte{0x00, 0x01, 0x7f, 0x80, 0xff})
		s := append(kinds[a].spec.bytes(), second...)
		lim := min(len(s), 60)
		var m0, m1 runtime.MemStats
		runtime.ReadMemStats(&m0)
		for pos := 0; pos < lim; pos++ {
			old := s[pos]
			s[pos] = v
			br := newBR(s)
			p := new(pes.Packet)
			for k := 0; k < 50; k++ {
				if p.Next(br) != nil {
					break
				}
			}
			s[pos] = old
		}
		runtime.ReadMemStats(&m1)
		per := (m1.TotalAlloc - m0.TotalAlloc) / uint64(lim)
		if per > 4<<20 {
			x.Fail("reading a damaged stream of %d bytes allocates %d bytes on average", len(s), per)
		}
		x.Inner(int64(lim - 1))
		x.Visit(HashInts(7, uint64(a), uint64(v)))
	}})
	return out
}

func p04spaces(thorough bool) []*Space {
	kinds := pesKinds()
	check := func(x *X, what string, segs [][]byte, marks []bool, want []byte, expErr error, chunk int, next func(int) int) {
		r := pes.NewPayloadReader(&unitSource{segs: segs, marks: marks, chunk: chunk})
		res := readAllSized(x, r, len(want), next)
		if d := diffBytes(res.data, want); d != "" {
			x.Fail("%s: %s", what, d)
		}
		if expErr != nil && res.err != expErr {
			x.Fail("%s: ends with %v, expected %v", what, res.err, expErr)
		}
	}
	collect := func(x *X, pk [][]byte, seq []int) []byte {
		var want []byte
		h := uint64(4)
		for i, b := range pk {
			r, class := readPES(b)
			if class != pesGood {
				panic("harness: bad corpus")
			}
			want = append(want, r.payload...)
			h = HashInts(h, uint64(seq[i]))
			x.Visit(HashInts(h, uint64(len(want))))
		}
		return want
	}
	cutKinds := []int{0, 1, 2, 3, 4}
	return []*Space{
		{Name: "uniform sizes", Body: func(x *X) {
			segs, marks, pk, seq, _ := pesStream(x, 4, kinds, 0)
			want := collect(x, pk, seq)
			n := 0
			for _, rs := range []int{1000, 1, 7, 20, 21, 300} {
				for _, cs := range []int{0, 1, 5, 64} {
					if len(seq) > 2 && (rs+cs)%3 == 0 || len(seq) > 3 && cs == 1 {
						continue
					}
					check(x, fmt.Sprintf("kinds %v, unit ends %v, reads of %d, source chunks of %d", seq, marks, rs, cs), segs, marks, want, io.EOF, cs, constSize(rs))
					n++
				}
			}
			x.Inner(int64(n))
			x.Note("kinds", "%v unit ends %v", seq, marks)
		}},
		{Name: "cut streams", Body: func(x *X) {
			segs, marks, pk, seq, _ := pesStream(x, 2, kinds, 0)
			want := collect(x, pk, seq)
			if len(seq) > 0 && kinds[seq[len(seq)-1]].unbound && !marks[len(marks)-1] {
				return // an unbounded packet would swallow the cut one
			}
			last := kinds[Pick(x, cutKinds)].spec.bytes()
			for cut := 1; cut < len(last); cut++ {
				if cut > 60 && cut%20 != 0 && cut != len(last)-1 {
					continue
				}
				s2 := append(append([][]byte{}, segs...), last[:cut])
				m2 := append(append([]bool{}, marks...), false)
				exp := io.ErrUnexpectedEOF
				if cut < 3 {
					exp = nil
				}
				check(x, fmt.Sprintf("kinds %v, unit ends %v, then a packet cut at byte %d", seq, marks, cut), s2, m2, want, exp, 0, constSize(50))
				x.Inner(1)
			}
			// a unit that ends inside of a packet, before another unit
			for cut := 1; cut < len(last); cut++ {
				if cut > 60 && cut%20 != 0 && cut != len(last)-1 {
					continue
				}
				what := fmt.Sprintf("kinds %v, unit ends %v, then a unit that ends at byte %d of a packet, and another", seq, marks, cut)
				r := pes.NewPayloadReader(&unitSource{segs: append(append([][]byte{}, segs...), last[:cut], kinds[0].spec.bytes()), marks: append(append([]bool{}, marks...), true, true)})
				got, err := []byte{}, error(nil)
				for buf := make([]byte, 50); err == nil && len(got) <= len(want); {
					var n int
					n, err = r.Read(buf)
					got = append(got, buf[:n]...)
				}
				if d := diffBytes(got, want); d != "" {
					x.Fail("%s: %s", what, d)
				}
				if err == nil || err == io.EOF || err == ts.EOP {
					x.Fail("%s: ends with %v, though a packet is cut short", what, errName(err))
				}
				x.Inner(1)
			}
			garbage := append(append([][]byte{}, segs...), []byte{0, 0, 2, 0xe0, 0, 0, 0})
			check(x, fmt.Sprintf("kinds %v, unit ends %v, then no start code", seq, marks), garbage, append(append([]bool{}, marks...), false), want, pes.ErrStartCodePrefixNotFound, 0, constSize(50))
		}},
		{Name: "deviating read sizes", Bound: 2 + b2i(thorough), Body: func(x *X) {
			segs, marks, pk, seq, _ := pesStream(x, 2, kinds, 0)
			want := collect(x, pk, seq)
			base := Pick(x, []int{20, 64, 400})
			check(x, fmt.Sprintf("kinds %v, unit ends %v, base read size %d", seq, marks, base), segs, marks, want, io.EOF, 0, func(i int) int {
				if i >= 8 {
					return base
				}
				return []int{base, 0, 1, 7, 20, 21, 300}[x.Dev(7)]
			})
		}},
	}
}
