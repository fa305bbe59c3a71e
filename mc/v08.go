package mc

import (
	"bytes"
	"fmt"

	"github.com/32bitkid/mpeg/video"
)

func init() {
	register(&Check{
		ID: "V08", Level: "fault_enumeration",
		Rule: "over a corpus of small streams with all kinds of headers, macroblocks and code words: every truncation, every single bit flip, every pair of flips near each other, every byte overwritten, removed, doubled or inserted, every start code replaced, every segment between start codes removed, doubled or moved, all words of segments up to the bound, all slice bodies, picture coding extensions and sequence headers up to the bound; no panic and no hang, also in calls after errors, no more frames than picture start codes, no end of sequence without its code, frames that were complete before the damage exactly as they are, and for truncated streams exactly those; unsupported syntax in every place gives an error and no frame",
		Assume: []string{
			"streams whose damaged header announces more than 4 megasamples are left out, except for a few decoded one at a time",
			"the frame whose following start code is cut may or may not be returned",
		},
		Spaces: v08spaces, SelfTest: selfTestVideo,
	})
}

// damaged is a stream to be damaged, with what is known of it.
type damaged struct {
	name   string
	b      []byte
	coded  []*vFrame
	ends   []int // byte after each coded picture
	want   []*vFrame
	order  []int // the coded picture that each frame is
	marks  []int
	eos    int   // number of end codes
	eosAt  []int // frames before each end code
	eosPos []int // byte after each end code
}

func (d *damaged) add(e *vEnc, p *vPic) {
	d.coded = append(d.coded, e.pic(p))
	d.ends = append(d.ends, len(e.b))
}

func (d *damaged) end(e *vEnc) {
	e.end()
	d.eos++
	d.eosAt = append(d.eosAt, len(e.out))
	d.eosPos = append(d.eosPos, len(e.b))
	d.b, d.want, d.marks = e.b, e.out, e.marks
	d.order = nil
	for _, f := range d.want {
		for i, c := range d.coded {
			if c == f {
				d.order = append(d.order, i)
			}
		}
	}
}

// before is the number of frames that are certain once the first n bytes are there.
func (d *damaged) before(n, margin int) int {
	m := 0
	for m < len(d.ends) && d.ends[m]+margin <= n {
		m++
	}
	for i, c := range d.order {
		if c >= m {
			return i
		}
	}
	return len(d.order)
}

func v08corpus() (out []*damaged) {
	start := func(name string, f func(d *damaged, e *vEnc)) {
		d := &damaged{name: name}
		e := &vEnc{}
		f(d, e)
		d.end(e)
		out = append(out, d)
	}
	pics := func(d *damaged, e *vEnc, toks string, w, h int) {
		for i, pl := range plan([]vToken(toks)) {
			if pl.group {
				e.group(vGOP{})
			}
			d.add(e, planPic(e, pl, i, w, h))
		}
	}
	start("I, P and B pictures", func(d *damaged, e *vEnc) {
		e.seq(mbSize(3, 2))
		pics(d, e, "GPBB", 3, 2)
	})
	start("two groups and a header between", func(d *damaged, e *vEnc) {
		e.seq(mbSize(2, 2))
		pics(d, e, "GP", 2, 2)
		e.seq(mbSize(2, 2))
		pics(d, e, "GB", 2, 2)
	})
	start("two sequences", func(d *damaged, e *vEnc) {
		e.seq(mbSize(2, 2))
		pics(d, e, "GP", 2, 2)
		d.end(e)
		s := mbSize(1, 2)
		s.stuff = 2
		e.seq(s)
		pics(d, e, "GBP", 1, 2)
	})
	start("optional elements", func(d *damaged, e *vEnc) {
		s := mbSize(1, 1)
		s.intraQ, s.ext = vMatrix(1), [][]byte{v09seq[10], userData(1, 2, 0, 3)}
		e.seq(s)
		e.group(vGOP{ext: [][]byte{userData(5)}})
		p := tiny(vPlan{kind: 1}, 3)
		p.extra, p.display = []byte{1, 0xff}, []uint64{1, 7, 0, 5, 99}
		p.ext = [][]byte{v09pic[7], v09pic[10], userData(7, 0)}
		d.add(e, p)
		p = tiny(vPlan{kind: 2, tref: 1}, 4)
		p.qm = &vQuantExt{m: [4]*[64]int{vMatrix(5), nil, nil, vMatrix(6)}}
		p.slices[0].intra, p.slices[0].extra = 1, []byte{9, 8}
		d.add(e, p)
	})
	start("concealment vectors and field DCT", func(d *damaged, e *vEnc) {
		e.seq(vSeqHdr{w: 48, h: 32})
		e.group(vGOP{})
		q := vParams{dcPrec: 3, qtype: 1, vlcfmt: 1, alt: 1, field: 1}
		for k := 1; k <= 2; k++ {
			p := q.pic(k, k-1)
			p.conceal = 1
			p.fcode[0] = [2]int{2, 1}
			p.rows(3, 2, 5, func(c, r int) vMB {
				t := mbType{intra: true, quant: c == 1}
				if k == 2 && c != 1 {
					t = mbType{fwd: true, pattern: c > 0, quant: c > 0}
				}
				b := mbOf(p, t, c, 3, r+k)
				b.mv[0][1] = r*-2 + 1
				return b
			})
			d.add(e, p)
		}
	})
	start("field vectors", func(d *damaged, e *vEnc) {
		e.seq(vSeqHdr{w: 48, h: 32})
		e.group(vGOP{})
		q := vParams{vlcfmt: 1, field: 1}
		d.add(e, textured(q.pic(1, 0), 3, 2, 6, 1))
		for _, k := range []struct{ kind, tref int }{{2, 3}, {3, 1}, {3, 2}} {
			p := q.pic(k.kind, k.tref)
			p.rows(3, 2, 5, func(c, r int) vMB {
				b := vMB{fwd: k.kind == 2 || c != 1, bwd: k.kind == 3 && c > 0, fmv: (c+r+k.tref)%3 != 1}
				b.mv = [2][2]int{{(1 - c) * 7, 13 - 26*r}, {(1 - c) * 5, 3 - 6*r}}
				b.mv2 = [2][2]int{{(1 - c) * 2, 2 - 4*r}, {(1 - c) * 10, 12 - 24*r}}
				b.sel = [2][2]int{{r, c & 1}, {1 - r, c >> 1}}
				return b
			})
			d.add(e, p)
		}
	})
	for kind := 1; kind <= 3; kind++ {
		k := kind
		start(fmt.Sprintf("all code words, kind %d", k), func(d *damaged, e *vEnc) {
			e2, _ := v02base(k, k&1, k>>1&1)
			*e = *e2
			// where the pictures end
			for _, g := range e.gop {
				d.coded = append(d.coded, g.f)
			}
			for _, m := range e.marks[1:] {
				if e.b[m+3] == 0 && len(d.ends) < len(d.coded)-1 && m > e.marks[4] {
					d.ends = append(d.ends, m)
				}
			}
			d.ends = append(d.ends, len(e.b))
		})
	}
	start("slice positions with extension", func(d *damaged, e *vEnc) {
		e.seq(vSeqHdr{w: 32, h: 2832, progressive: 1})
		e.group(vGOP{})
		for k := 1; k <= 2; k++ {
			p := vParams{}.pic(k, k-1)
			p.rows(2, 177, 3, func(c, r int) vMB {
				b := vMB{intra: k == 1, fwd: true, cbp: 0}
				for i := range b.blk {
					b.blk[i].dc = 128
				}
				return b
			})
			var some []vSlice
			for _, r := range []int{0, 127, 128, 176} {
				some = append(some, p.slices[r])
			}
			p.slices = some
			d.add(e, p)
		}
	})
	for _, d := range out {
		if len(d.order) != len(d.want) || len(d.ends) != len(d.coded) {
			panic("harness: corpus " + d.name)
		}
	}
	return
}

// announces is the largest number of samples that a (damaged) stream may announce.
func announces(b []byte) int {
	best := 0
	for i := 0; i+7 < len(b); i++ {
		if b[i] == 0 && b[i+1] == 0 && b[i+2] == 1 && b[i+3] == 0xb3 {
			w, h := int(b[i+4])<<4|int(b[i+5])>>4, int(b[i+5]&15)<<8|int(b[i+6])
			ew, eh := 0, 0
			for j := i + 7; j+6 < len(b); j++ {
				if b[j] == 0 && b[j+1] == 0 && b[j+2] == 1 && b[j+3] == 0xb5 && b[j+4]>>4 == 1 {
					ext := int(bits(b, 8*j+47, 4))
					ew, eh = max(ew, ext>>2), max(eh, ext&3)
				}
			}
			best = max(best, (w|ew<<12)*(h|eh<<12))
		}
	}
	return best
}

const tooBig = 1 << 22

func count(b []byte, code byte) (n int) {
	for i := 0; i+4 <= len(b); i++ {
		if b[i] == 0 && b[i+1] == 0 && b[i+2] == 1 && b[i+3] == code {
			n++
		}
	}
	return
}

// endure decodes anything: whatever comes, it ends, within what the start codes allow.
// The first frames have to be those given; with exact, up to most more of the expected
// ones and no others may come.
func endure(x *X, b []byte, want []*vFrame, eosAt []int, exact bool, most int, what func() string) {
	pictures, ends := count(b, 0), count(b, 0xb7)
	v := newSeq(b)
	frames, errs, eos, calls := 0, 0, 0, 0
	fail := func(format string, a ...any) {
		noteStream(x, b)
		x.Fail("%s: %s", what(), fmt.Sprintf(format, a...))
	}
	must := most
	if !exact {
		must = len(want)
	}
	for limit := pictures + ends + 12; errs < 8; calls++ {
		if calls > limit+errs {
			fail("no end after %d calls: %d frames, %d errors", calls, frames, errs)
		}
		img, err := v.Next()
		if err != nil {
			if img != nil {
				fail("a frame together with the error %v", err)
			}
			if err == video.EOS {
				eos++
				if eos > ends {
					fail("end of sequence without its code")
				}
				if len(eosAt) > 0 && frames == eosAt[0] {
					eosAt = eosAt[1:]
					continue // as in the undamaged stream
				}
			}
			if frames < must && frames < len(want) && errs == 0 {
				fail("frame %d: %v", frames, err)
			}
			errs++
			continue
		}
		if img == nil {
			fail("neither a frame nor an error")
		}
		r := img.Rect
		if r.Min.X != 0 || r.Min.Y != 0 || r.Dx()%16 != 0 || r.Dy()%16 != 0 || img.YStride < r.Dx() || img.CStride < r.Dx()/2 ||
			len(img.Y) < r.Dy()*img.YStride-img.YStride+r.Dx() || len(img.Cb) != len(img.Cr) {
			fail("frame %d has rectangle %v, strides %d and %d, %d and %d samples", frames, r, img.YStride, img.CStride, len(img.Y), len(img.Cb))
		}
		if frames < len(want) && (exact || errs == 0) {
			if d := diffFrame(img, want[frames]); d != "" {
				fail("frame %d: %s", frames, d)
			}
		}
		frames++
		if exact && frames > len(want) {
			fail("frame %d of a stream cut before it is complete", frames-1)
		}
		if frames > pictures {
			fail("%d frames from %d pictures", frames, pictures)
		}
	}
}

// hit tests a damaged stream of which the first n bytes are as they were.
func hit(x *X, d *damaged, b []byte, n int, what func() string) {
	if announces(b) > tooBig {
		return
	}
	k := d.before(n, 4)
	var eos []int
	for i, p := range d.eosPos {
		if p <= n {
			eos = append(eos, d.eosAt[i])
		}
	}
	endure(x, b, d.want[:k], eos, false, k, what)
}

func v08spaces(thorough bool) []*Space {
	corpus := v08corpus()
	var out []*Space
	out = append(out, &Space{Name: "truncations", Body: func(x *X) {
		d := Pick(x, corpus)
		n := x.Choose(len(d.b))
		x.Note("stream", "%s, %d of %d bytes", d.name, n, len(d.b))
		lo, hi := d.before(n, 4), d.before(n, 0)
		var eos []int
		for i, p := range d.eosPos {
			if p <= n {
				eos = append(eos, d.eosAt[i])
			}
		}
		endure(x, d.b[:n], d.want[:hi], eos, true, lo, func() string { return fmt.Sprintf("%s, cut at byte %d", d.name, n) })
		x.Visit(HashInts(8, HashBytes(0, []byte(d.name)), uint64(n)))
	}})
	out = append(out, &Space{Name: "flipped bits", Body: func(x *X) {
		d := Pick(x, corpus)
		at := x.Choose(len(d.b))
		for bit := 0; bit < 8; bit++ {
			b := bytes.Clone(d.b)
			b[at] ^= 0x80 >> uint(bit)
			hit(x, d, b, at, func() string { return fmt.Sprintf("%s, bit %d of byte %d flipped", d.name, bit, at) })
			x.Visit(HashInts(81, HashBytes(0, []byte(d.name)), uint64(at*8+bit)))
		}
		x.Inner(7)
	}})
	near := 24
	if thorough {
		near = 256
	}
	out = append(out, &Space{Name: "pairs of flipped bits", Body: func(x *X) {
		d := Pick(x, corpus)
		at := x.Choose(8 * len(d.b))
		for k := 1; k <= near && at+k < 8*len(d.b); k++ {
			b := bytes.Clone(d.b)
			b[at/8] ^= 0x80 >> uint(at%8)
			b[(at+k)/8] ^= 0x80 >> uint((at+k)%8)
			hit(x, d, b, at/8, func() string { return fmt.Sprintf("%s, bits %d and %d flipped", d.name, at, at+k) })
		}
		x.Inner(int64(near - 1))
		x.Visit(HashInts(82, HashBytes(0, []byte(d.name)), uint64(at)))
	}})
	values := []int{0, 1, 0x7f, 0x80, 0xff, 0xb3, 0xb5, 0xb7, 0xb8}
	if thorough {
		values = nil
		for i := 0; i < 256; i++ {
			values = append(values, i)
		}
	}
	out = append(out, &Space{Name: "bytes overwritten, inserted, removed", Body: func(x *X) {
		d := Pick(x, corpus)
		at := x.Choose(len(d.b))
		try := func(what string, b []byte, parts ...[]byte) {
			b = bytes.Clone(b)
			for _, p := range parts {
				b = append(b, p...)
			}
			hit(x, d, b, at, func() string { return fmt.Sprintf("%s, at byte %d: %s", d.name, at, what) })
			x.Inner(1)
		}
		for _, v := range values {
			try(fmt.Sprintf("set to %#x", v), d.b[:at], []byte{byte(v)}, d.b[at+1:])
			try(fmt.Sprintf("%#x inserted", v), d.b[:at], []byte{byte(v)}, d.b[at:])
		}
		for _, n := range []int{1, 2, 3, 4, 8, 17} {
			if at+n <= len(d.b) {
				try(fmt.Sprintf("%d bytes removed", n), d.b[:at], d.b[at+n:])
				try(fmt.Sprintf("%d bytes doubled", n), d.b[:at+n], d.b[at:])
				try(fmt.Sprintf("%d bytes zeroed", n), d.b[:at], make([]byte, n), d.b[at+n:])
				try(fmt.Sprintf("%d bytes set", n), d.b[:at], bytes.Repeat([]byte{0xff}, n), d.b[at+n:])
			}
		}
		for _, c := range []byte{0, 1, 2, 0xb2, 0xb3, 0xb5, 0xb7, 0xb8} {
			try(fmt.Sprintf("start code %#x inserted", c), d.b[:at], []byte{0, 0, 1, c}, d.b[at:])
			if at+4 <= len(d.b) {
				try(fmt.Sprintf("start code %#x written", c), d.b[:at], []byte{0, 0, 1, c}, d.b[at+4:])
			}
		}
		x.Visit(HashInts(83, HashBytes(0, []byte(d.name)), uint64(at)))
	}})
	out = append(out, &Space{Name: "start codes replaced", Body: func(x *X) {
		d := Pick(x, corpus)
		m := Pick(x, d.marks)
		for c := 0; c < 256; c++ {
			b := bytes.Clone(d.b)
			b[m+3] = byte(c)
			hit(x, d, b, m, func() string { return fmt.Sprintf("%s, start code at byte %d set to %#x", d.name, m, c) })
			x.Visit(HashInts(84, HashBytes(0, []byte(d.name)), uint64(m), uint64(c)))
		}
		x.Inner(255)
	}})
	out = append(out, &Space{Name: "segments removed, doubled and moved", Body: func(x *X) {
		d := Pick(x, corpus)
		seg := append(append([]int{}, d.marks...), len(d.b))
		n := len(seg) - 1
		i := x.Choose(n)
		try := func(what string, parts ...[]byte) {
			b := bytes.Join(parts, nil)
			hit(x, d, b, seg[i], func() string { return fmt.Sprintf("%s, segment %d of %d %s", d.name, i, n, what) })
			x.Inner(1)
		}
		for j := i; j < n; j++ {
			try(fmt.Sprintf("and following to %d removed", j), d.b[:seg[i]], d.b[seg[j+1]:])
			try(fmt.Sprintf("removed, and %d", j), d.b[:seg[i]], d.b[seg[i+1]:max(seg[i+1], seg[j])], d.b[seg[j+1]:])
			try(fmt.Sprintf("and following to %d doubled", j), d.b[:seg[j+1]], d.b[seg[i]:])
			if j > i {
				try(fmt.Sprintf("exchanged with %d", j), d.b[:seg[i]], d.b[seg[j]:seg[j+1]], d.b[seg[i+1]:seg[j]], d.b[seg[i]:seg[i+1]], d.b[seg[j+1]:])
				try(fmt.Sprintf("moved behind %d", j), d.b[:seg[i]], d.b[seg[i+1]:seg[j+1]], d.b[seg[i]:seg[i+1]], d.b[seg[j+1]:])
				try(fmt.Sprintf("preceded by %d", j), d.b[:seg[i]], d.b[seg[j]:seg[j+1]], d.b[seg[i]:])
			}
		}
		x.Visit(HashInts(85, HashBytes(0, []byte(d.name)), uint64(i)))
	}})
	// splices of different streams
	out = append(out, &Space{Name: "splices", Body: func(x *X) {
		d, s := Pick(x, corpus), Pick(x, corpus)
		at := x.Choose(len(d.b))
		if !thorough && at%3 != 0 {
			return
		}
		for _, m := range append([]int{len(s.b) / 2, len(s.b) / 3}, s.marks...) {
			b := append(bytes.Clone(d.b[:at]), s.b[m:]...)
			hit(x, d, b, at, func() string { return fmt.Sprintf("%s to byte %d, then %s from byte %d", d.name, at, s.name, m) })
		}
		x.Inner(int64(len(s.marks)) + 1)
		x.Visit(HashInts(86, HashBytes(0, []byte(d.name+s.name)), uint64(at)))
	}})
	out = append(out, v08words(thorough)...)
	out = append(out, v08bodies(thorough)...)
	out = append(out, v08unsupported(thorough)...)
	return out
}

// v08words takes well-formed segments in any order.
func v08words(thorough bool) []*Space {
	seg := func(e *vEnc) []byte { return e.b }
	var alphabet [][]byte
	var names []string
	put := func(name string, b []byte) {
		alphabet = append(alphabet, b)
		names = append(names, name)
	}
	split := func(b []byte, marks []int) (out [][]byte) {
		for i, m := range marks {
			end := len(b)
			if i+1 < len(marks) {
				end = marks[i+1]
			}
			out = append(out, b[m:end])
		}
		return
	}
	e := &vEnc{}
	e.seq(mbSize(2, 2))
	s := split(e.b, e.marks)
	put("sequence header", s[0])
	put("sequence extension", s[1])
	e = &vEnc{}
	e.seq(vSeqHdr{w: 40, h: 40})
	put("other sequence", seg(e))
	e = &vEnc{}
	e.group(vGOP{})
	put("group", seg(e))
	for k := 1; k <= 3; k++ {
		e = &vEnc{}
		e.seq(mbSize(2, 2))
		e.refs = [2]*vFrame{newFrame(32, 32), newFrame(32, 32)}
		n := len(e.marks)
		e.pic(planPic(e, vPlan{kind: k, tref: []int{0, 0, 2, 1}[k], fwd: true}, k, 2, 2))
		s := split(e.b, e.marks)[n:]
		put(fmt.Sprintf("picture header %d", k), s[0])
		put(fmt.Sprintf("coding extension %d", k), s[1])
		put(fmt.Sprintf("slice of %d", k), s[2+k%2])
	}
	put("user data", userData('a', 'b'))
	put("end", []byte{0, 0, 1, 0xb7})
	put("zero bytes", make([]byte, 5))
	n := 5
	if thorough {
		n = 6
	}
	return []*Space{{Name: "words of segments", Body: func(x *X) {
		// after a sound beginning or none
		begin := x.Choose(4)
		var b []byte
		switch begin {
		case 1:
			b = append(append(b, alphabet[0]...), alphabet[1]...)
		case 2, 3:
			for _, k := range []int{0, 1, 3, 4, 5, 6} {
				b = append(b, alphabet[k]...)
			}
			if begin == 3 {
				for _, k := range []int{7, 8, 9} {
					b = append(b, alphabet[k]...)
				}
			}
		}
		length := n
		if begin > 0 {
			length--
		}
		word := make([]int, length)
		var h uint64
		for i := 0; i < 2; i++ {
			word[i] = x.Choose(len(alphabet))
			h = mix(h, uint64(word[i]))
		}
		var walk func(i int, b []byte)
		walk = func(i int, b []byte) {
			if i == length {
				endure(x, b, nil, nil, false, 0, func() string {
					s := fmt.Sprintf("beginning %d", begin)
					for _, k := range word {
						s += ", " + names[k]
					}
					return s
				})
				x.Inner(1)
				return
			}
			for k, a := range alphabet {
				word[i] = k
				walk(i+1, append(b[:len(b):len(b)], a...))
			}
		}
		for _, k := range word[:2] {
			b = append(b, alphabet[k]...)
		}
		walk(2, b)
		x.Visit(HashInts(87, uint64(begin), h))
	}}}
}

// v08bodies has all bit patterns in the places of headers and macroblock data.
func v08bodies(thorough bool) []*Space {
	var out []*Space
	width := 16
	if thorough {
		width = 20
	}
	out = append(out, &Space{Name: "slice bodies", Body: func(x *X) {
		kind := 1 + x.Choose(3)
		par := x.Choose(8) // frame_pred_frame_dct, concealment, B.15
		deep := x.Choose(3)
		hi := x.Choose(1 << 8)
		fm, conceal, vf := par&1, par>>1&1, par>>2&1
		e := newVid(mbSize(2, 2))
		first := []*vFrame{e.pic(textured(vParams{}.pic(1, 0), 2, 2, 4, 3))}
		if kind == 3 {
			e.pic(textured(vParams{}.pic(1, 2), 2, 2, 4, 4))
		}
		p := vParams{field: fm, vlcfmt: vf}.pic(kind, 1)
		p.conceal = conceal
		if conceal == 1 {
			p.fcode[0] = [2]int{2, 2}
		}
		p.slices = []vSlice{{row: deep % 2, q: 3}}
		e.pic(p)
		for lo := 0; lo < 1<<uint(width-8); lo++ {
			w := &BW{}
			w.Bytes(e.b[:len(e.b)-1]...)
			w.Put(3<<1, 6) // quantiser code and no extra information
			if deep == 2 {
				// after a first, sound macroblock
				switch {
				case kind == 1:
					w.Put(3, 2).Put(uint64(fm), fm)
					if conceal == 1 {
						w.Put(7, 3)
					}
					w.Put(0x12492, 17).Put(0, 1)
				case kind == 2:
					w.Put(1, 1).Put(1, 3).Put(2, 2*fm).Put(3, 2)
				case kind == 3:
					w.Put(1, 1).Put(2, 3).Put(2, 2*fm).Put(3, 2)
				}
			}
			w.Put(uint64(hi), 8).Put(uint64(lo), width-8)
			w.Put([]uint64{0x5a5a, 0xffff, 0x0842}[lo%3], 16)
			w.Align()
			w.Bytes(0, 0, 1, 0xb7)
			endure(x, w.b, first, nil, false, 1, func() string {
				return fmt.Sprintf("kind %d, parameters %d, depth %d, body %x %x", kind, par, deep, hi, lo)
			})
		}
		x.Inner(1 << uint(width-8))
		x.Visit(HashInts(88, uint64(kind), uint64(par), uint64(deep), uint64(hi)))
	}})
	// all picture headers and picture coding extensions, with real slices behind
	out = append(out, &Space{Name: "picture headers and coding extensions", Body: func(x *X) {
		kind := x.Choose(8)
		data := 1 + x.Choose(3)
		structure := x.Choose(4)
		fc := x.Choose(16)
		e := newVid(mbSize(2, 2))
		first := []*vFrame{e.pic(textured(vParams{}.pic(1, 0), 2, 2, 4, 3))}
		e.pic(textured(vParams{}.pic(1, 2), 2, 2, 4, 4))
		n := len(e.marks)
		head := bytes.Clone(e.b)
		e.pic(planPic(e, vPlan{kind: data, tref: 1, fwd: true}, 1, 2, 2))
		slices := e.b[e.marks[n+2]:]
		for flags := 0; flags < 1<<10; flags++ {
			if !thorough && flags%4 != fc%4 && flags>>3 != fc {
				continue
			}
			w := &BW{}
			w.Bytes(head...)
			w.Put(0x100, 32).Put(1, 10).Put(uint64(kind), 3).Put(0xffff, 16)
			if kind == 2 || kind == 3 {
				w.Put(7, 4)
			}
			if kind == 3 {
				w.Put(7, 4)
			}
			w.Put(0, 1).Align()
			w.Put(0x1b5, 32).Put(8, 4)
			for i := 0; i < 4; i++ {
				w.Put(uint64((fc+i*(flags&7)*3)&15), 4)
			}
			w.Put(uint64(flags>>8), 2).Put(uint64(structure), 2).Put(uint64(flags&255), 8).Put(uint64(flags>>3&1), 1)
			w.Put(uint64(flags&1), 1)
			if flags&1 == 1 {
				w.Put(uint64(flags)*777, 20)
			}
			w.Align()
			w.Bytes(slices...)
			w.Bytes(0, 0, 1, 0xb7)
			endure(x, w.b, first, nil, false, 1, func() string {
				return fmt.Sprintf("picture type %d with slices of type %d, structure %d, f codes %d, flags %d", kind, data, structure, fc, flags)
			})
			x.Inner(1)
		}
		x.Visit(HashInts(89, uint64(kind), uint64(data), uint64(structure), uint64(fc)))
	}})
	// predictions from references that are missing or have another size
	dims := [][2]int{{0, 0}, {1, 1}, {3, 1}, {3, 2}, {2, 3}, {3, 3}, {5, 2}, {4, 4}}
	out = append(out, &Space{Name: "references that do not fit", Body: func(x *X) {
		one, two := Pick(x, dims), Pick(x, dims)
		now := Pick(x, dims[2:])
		kind := 2 + x.Choose(2)
		between := x.Choose(4) // group header, end of sequence
		inter := x.Choose(2)
		e := &vEnc{}
		var want []*vFrame
		for i, d := range [][2]int{one, two} {
			if d[0] == 0 {
				continue
			}
			s := mbSize(d[0], d[1])
			s.progressive = 1 - inter
			e.seq(s)
			e.group(vGOP{})
			want = append(want, e.pic(textured(vParams{field: inter}.pic(1, 0), e.w/16, e.h/16, 4, 3+i)))
		}
		if between&2 == 2 {
			e.end()
		}
		ends := len(want)
		for mode := 0; mode < 9; mode++ {
			for _, v := range [][2]int{{0, 0}, {-32, -32}, {31, 31}, {0, -32}, {-1, 30}} {
				f := &vEnc{blind: true}
				s := mbSize(now[0], now[1])
				s.progressive = 1 - inter
				f.seq(s)
				if between&1 == 1 {
					f.group(vGOP{})
				}
				f.refs = [2]*vFrame{newFrame(f.w, f.h), newFrame(f.w, f.h)}
				for n := 0; n < 2; n++ {
					p := vParams{field: inter}.pic(kind, 0)
					for r := 0; r < f.h/16; r++ {
						sl := vSlice{row: r, q: 3}
						for c := 0; c < now[0]; c++ {
							b := vMB{fwd: kind == 2 || mode%3 != 1, bwd: kind == 3 && mode%3 != 0, mv: [2][2]int{v, v}, mv2: [2][2]int{v, v}}
							switch {
							case mode < 3 && c == 1 && now[0] > 2:
								continue // skipped
							case mode < 3:
								if mode == 2 && c == 0 {
									b = vMB{intra: true}
								}
								b.skip = int(b2u(c == 2))
							case mode < 6 && inter == 1:
								b.fmv, b.sel = true, [2][2]int{{r & 1, c & 1}, {n, 1}}
							case mode >= 6 && c%2 == 0:
								b.cbp = 60
								for i := range b.blk {
									b.blk[i].co = []vCoef{{level: 9}}
								}
								if kind == 2 {
									b.fwd = mode == 7
								}
							}
							sl.mbs = append(sl.mbs, b)
						}
						p.slices = append(p.slices, sl)
					}
					f.pic(p)
				}
				f.startCode(0xb7, 0)
				b := append(bytes.Clone(e.b), f.b...)
				var eos []int
				if between&2 == 2 {
					eos = []int{ends}
				}
				endure(x, b, want, eos, false, 0, func() string {
					return fmt.Sprintf("pictures of %v and %v macroblocks, then two of kind %d of %v, mode %d, vectors %v, between %d, interlaced %d", one, two, kind, now, mode, v, between, inter)
				})
				x.Inner(1)
			}
		}
		x.Visit(HashInts(78, HashInts(uint64(one[0]), uint64(one[1]), uint64(two[0]), uint64(two[1]), uint64(now[0]), uint64(now[1])), uint64(kind), uint64(between), uint64(inter)))
	}})
	sizes := []int{0, 1, 15, 16, 17, 31, 32, 33, 48, 100, 2799, 2800, 2801, 2816, 2832, 4095, 4096, 4097, 8192, 16383}
	out = append(out, &Space{Name: "sizes of pictures", Serial: true, Body: func(x *X) {
		// slices of a 2x2 picture in pictures of all sizes
		w, h := Pick(x, sizes), Pick(x, sizes)
		prog := x.Choose(2)
		if w*h > tooBig && !(w == 16383 && h > 8000) {
			return
		}
		for row := 1; row < 256; row++ {
			if w*h > 1<<20 && row != 1 && row != 0xaf && row != 2 {
				continue
			}
			if w*h > 1<<16 && row%8 != 1 && row != 0xaf && row != 0xb0 {
				continue
			}
			for ext := 0; ext < 8; ext++ {
				if h <= 2800 && ext > 0 || w*h > 1<<16 && ext%7 > 0 {
					continue
				}
				e := &vEnc{}
				e.seq(vSeqHdr{w: w, h: h, progressive: prog})
				e.group(vGOP{})
				e.h, e.w = 32, 32 // does not matter
				e.startCode(0, 0)
				e.Put(0, 10).Put(1, 3).Put(0, 17).Align()
				e.startCode(0xb5, 0)
				e.Put(8, 4).Put(0xffff, 16).Put(0, 2).Put(3, 2).Put(0x40, 10).Put(0, 2)
				for k := 0; k < 2; k++ {
					e.startCode((row+k)&255, 0)
					if h > 2800 {
						e.Put(uint64(ext), 3)
					}
					e.Put(1, 5).Put(0, 1)
					for i := 0; i < 2; i++ {
						e.Put(3, 2).Put(0x12492, 17).Put(0x2, 3)
						e.Put(0, 0)
					}
				}
				e.startCode(0xb7, 0)
				endure(x, e.b, nil, nil, false, 0, func() string { return fmt.Sprintf("%dx%d, slice start code %#x, extension %d", w, h, row, ext) })
				x.Inner(1)
			}
		}
		x.Visit(HashInts(80, uint64(w), uint64(h), uint64(prog)))
	}})
	out = append(out, &Space{Name: "short byte strings", Body: func(x *X) {
		// any bytes at all, after nothing or after a beginning
		alphabet := []byte{0, 1, 0x40, 0xb2, 0xb3, 0xb5, 0xb7, 0xb8, 0xff}
		begin := x.Choose(4)
		n := 5
		if thorough {
			n = 7
		}
		n = x.Choose(n + 1)
		e := &vEnc{}
		switch begin {
		case 1:
			e.seq(mbSize(1, 1))
		case 2:
			e.seq(mbSize(1, 1))
			e.group(vGOP{})
		case 3:
			e.seq(mbSize(1, 1))
			e.group(vGOP{})
			e.pic(tiny(vPlan{kind: 1}, 3))
		}
		at := len(e.b)
		b := append(bytes.Clone(e.b), make([]byte, n)...)
		total := 1
		for i := 0; i < n; i++ {
			total *= len(alphabet)
		}
		first := 0
		if n > 0 {
			first = x.Choose(len(alphabet))
			total /= len(alphabet)
		}
		for k := 0; k < total; k++ {
			if n > 0 {
				b[at] = alphabet[first]
			}
			for i, r := 1, k; i < n; i, r = i+1, r/len(alphabet) {
				b[at+i] = alphabet[r%len(alphabet)]
			}
			endure(x, b, nil, nil, false, 0, func() string { return fmt.Sprintf("beginning %d, then %x", begin, b[at:]) })
			x.Inner(1)
		}
		x.Visit(HashInts(79, uint64(begin), uint64(n), uint64(first)))
	}})
	return out
}

// v08unsupported: syntax that is not supported is reported.
func v08unsupported(thorough bool) []*Space {
	refuse := func(x *X, kind int, e *vEnc, good int, want []*vFrame, what string, bad error) {
		e.startCode(0xb7, 0)
		v := newSeq(e.b)
		for i := 0; i < good; i++ {
			img, err := v.Next()
			if err != nil {
				noteStream(x, e.b)
				x.Fail("%s, frame %d before it: %v", what, i, err)
			}
			if d := diffFrame(img, want[i]); d != "" {
				noteStream(x, e.b)
				x.Fail("%s, frame %d before it: %s", what, i, d)
			}
		}
		again := 3
		if kind == 8 || bad == video.ErrUnsupportedScalableExtension || bad == video.ErrUnsupportedMotionType {
			again = 1 // what follows the error may be decodable
		}
		for i := 0; i < again; i++ {
			img, err := v.Next()
			if img != nil {
				noteStream(x, e.b)
				x.Fail("%s gives a frame", what)
			}
			if i == 0 && (err == video.EOS || err == nil || bad != nil && err != bad) {
				noteStream(x, e.b)
				x.Fail("%s is reported as %v, expected %v", what, errName(err), bad)
			}
		}
	}
	return []*Space{{Name: "unsupported syntax", Body: func(x *X) {
		kind := x.Choose(9)
		before := x.Choose(3) // frames of a sound sequence header before
		e := &vEnc{}
		if before > 0 {
			e.seq(mbSize(2, 2))
			for i, pl := range plan([]vToken("GPP")[:before]) {
				if pl.group {
					e.group(vGOP{})
				}
				e.pic(planPic(e, pl, i, 2, 2))
			}
			e.flush()
		}
		want := e.out
		s := mbSize(2, 2)
		what := ""
		var bad error
		picture := func(more func(p *vPic)) {
			e.group(vGOP{})
			p := textured(vParams{}.pic(1, 0), 2, 2, 4, 9)
			if more != nil {
				more(p)
			}
			e.pic(p)
		}
		switch kind {
		case 0:
			what = "an MPEG-1 stream"
			s.noExtension = true
			if before == 0 {
				bad = video.ErrUnsupportedVideoStream_ISO_IEC_11172_2
			}
			s.intraQ = []*[64]int{nil, vMatrix(1)}[x.Choose(2)]
			if x.Bool() {
				s.ext = [][]byte{userData('x')}
			}
			e.seq(s)
			picture(nil)
		case 1, 2:
			s.chroma = 1 + kind
			what = []string{"", "4:2:2", "4:4:4"}[kind]
			bad = video.ErrUnsupportedChromaFormat
			e.seq(s)
			picture(nil)
		case 3:
			what = "a scalable sequence"
			mode := uint64(x.Choose(4))
			bad = video.ErrUnsupportedScalableExtension
			s.ext = [][]byte{extension(5, func(w *BW) {
				w.Put(mode, 2).Put(uint64(x.Choose(16)), 4)
				switch mode {
				case 1:
					w.Put(360, 14).Put(1, 1).Put(288, 14).Put(2, 5).Put(1, 5).Put(2, 5).Put(1, 5)
				case 3:
					w.Put(0, 1).Put(3, 3).Put(2, 3)
				}
			})}
			switch x.Choose(3) {
			case 1:
				s.ext = append([][]byte{v09seq[7]}, s.ext...)
			case 2:
				s.ext = append([][]byte{userData('x')}, s.ext...)
			}
			e.seq(s)
			picture(nil)
		case 4:
			what = "a spatially scalable picture"
			bad = video.ErrUnsupportedScalableExtension
			e.seq(s)
			l := [][]byte{extension(9, func(w *BW) { w.Put(5, 10).Put(1, 1).Put(0, 15).Put(1, 1).Put(0, 15).Put(0, 4) })}
			if x.Bool() {
				l = append([][]byte{v09pic[9], userData('y')}, l...)
			}
			picture(func(p *vPic) { p.ext = l })
		case 5:
			what = "dual-prime"
			bad = video.ErrUnsupportedMotionType
			e.seq(s)
			picture(nil)
			p := vParams{field: 1}.pic(2, 1)
			p.rows(2, 2, 4, func(c, r int) vMB { return vMB{fwd: true} })
			where := x.Choose(4)
			p.slices = p.slices[:where/2]
			e.pic(p)
			e.gop = e.gop[:len(e.gop)-1]
			e.flush()
			want = e.out
			e.startCode(1+where/2, 0)
			e.Put(4, 5).Put(0, 1)
			if where%2 == 1 {
				// a forward macroblock with a frame vector first
				e.Put(1, 1).Put(1, 3).Put(2, 2).Put(3, 2)
			}
			e.Put(1, 1).Put(1, 3).Put(3, 2) // motion code, then dmv 0
			e.Put(1, 1).Put(0, 1).Put(1, 1).Put(0, 1)
			if where%2 == 0 {
				e.Put(1, 1).Put(1, 3).Put(2, 2).Put(3, 2)
			}
			e.Align()
			refuse(x, kind, e, len(want), want, what, bad)
			x.Visit(HashChoices(x))
			return
		case 6:
			what = "a reserved chroma format"
			e.seq(s)
			// rewrite the two bits
			m := e.marks[len(e.marks)-1]
			e.b[m+5] &^= 6
			bad = video.ErrUnsupportedChromaFormat
			picture(nil)
		case 7:
			what = "an MPEG-1 picture"
			e.seq(s)
			e.group(vGOP{})
			e.startCode(0, 0)
			e.Put(0, 10).Put(1, 3).Put(0xffff, 16).Put(0, 1).Align()
			p := textured(vParams{}.pic(1, 0), 2, 2, 4, 9)
			for i := range p.slices {
				e.slice(p, &p.slices[i], newFrame(32, 32))
			}
		}
		if kind == 8 {
			what = "a field picture"
			e.seq(s)
			n, structure := 1+x.Choose(2), x.Choose(3)
			if before > 0 {
				n = 1 + x.Choose(3)
			}
			if n > 1 {
				// one frame picture, then a field
				picture(nil)
				e.flush()
				want = e.out
			}
			p := vParams{field: 1}.pic(min(n, 2), 1)
			p.structure = 1 + structure
			p.rows(2, 1+x.Choose(2), 4, func(c, r int) vMB { return vMB{fwd: n > 1, intra: n == 1} })
			if n == 1 {
				e.group(vGOP{})
				p.tref = 0
			}
			e.pic(p)
			e.gop = e.gop[:len(e.gop)-1]
			refuse(x, kind, e, len(want), want, what, nil)
			x.Visit(HashChoices(x))
			return
		}
		refuse(x, kind, e, len(want), want, what, bad)
		x.Visit(HashChoices(x))
	}}}
}
