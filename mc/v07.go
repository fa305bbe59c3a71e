package mc

import (
	"fmt"
	"unsafe"

	"image"

	"github.com/32bitkid/mpeg/video"
)

func init() {
	register(&Check{
		ID: "V07", Level: "model_checking",
		Rule:   "every history of matrix events (sequence headers and quant matrix extensions with every subset of matrices, group headers) up to the bound with I, P and B pictures after each, and every value of every matrix position through every way of transmission; samples are compared with an independent reconstruction; states are the pairs of matrices in force",
		Assume: []string{"the matrix value 0, which the standard forbids, is left out"},
		Spaces: v07spaces, SelfTest: selfTestVideo,
	})
	register(&Check{
		ID: "V10", Level: "model_checking",
		Rule:   "all 2^25 time codes, with every combination of the closed and broken flags and of stuffing; fields, flags, printed form and the position after the header are compared with the bits written; states are sections of the time code space",
		Spaces: v10spaces,
	})
	register(&Check{
		ID: "V11", Level: "model_checking",
		Rule: "all 14-bit widths and heights for the reported size, all picture sizes up to the bound for the frames, every order and subset of slice rows up to the bound, tall pictures with every row addressed, and histories of sequence headers with different sizes; states are (size, interlacing) and slice row sets",
		Assume: []string{
			"large pictures are one macroblock wide or high",
			"rows that no slice covers are not judged",
		},
		Spaces: v11spaces, SelfTest: selfTestVideo,
	})
	register(&Check{
		ID: "V12", Level: "model_checking",
		Rule:   "for every coding order of I, P and B pictures and group headers up to the bound, concatenated sequences and streams cut at every byte, all frames returned are kept, and after every further call each is compared with its reconstruction and its storage with that of all others; states are (picture structure, frames held)",
		Spaces: v12spaces, SelfTest: selfTestVideo,
	})
}

// ---------------------------------------------------------------- V07

// vMatrix is a matrix in transmission order that tells its positions apart.
func vMatrix(salt int) *[64]int {
	m := new([64]int)
	for i := range m {
		m[i] = 1 + (i*5+salt*53+i*i*salt)%255
	}
	return m
}

// weighed uses all positions of the matrices: dense blocks with different levels.
func weighed(kind, tref, alt, i int) *vPic {
	q := vParams{alt: alt, qtype: i & 1}
	p := q.pic(kind, tref)
	b := vMB{intra: kind == 1, fwd: kind == 2, bwd: kind == 3, cbp: 63}
	for k := range b.blk {
		b.blk[k].dc = 120
		first := 0
		if kind == 1 {
			first = 1
		}
		for j := first; j < 64; j++ {
			l := 1 + (j+k+i)%3
			if (j/2+k)%2 == 0 {
				l = -l
			}
			if j < 64 {
				b.blk[k].co = append(b.blk[k].co, vCoef{level: l})
			}
		}
	}
	p.slices = []vSlice{{q: 2, mbs: []vMB{b}}}
	return p
}

func v07spaces(thorough bool) []*Space {
	var out []*Space
	depth := 4
	if thorough {
		depth = 5
	}
	// events: 0 nothing, 1..4 a sequence header with a subset of matrices, 5..8 a quant
	// matrix extension with luma matrices, 9..11 one with chroma matrices, 12 a group
	const events = 13
	out = append(out, &Space{Name: "histories of matrix events", Body: func(x *X) {
		e := &vEnc{}
		n := 1 + x.Choose(depth)
		first := x.Choose(4)
		s := mbSize(1, 1)
		if first&1 == 1 {
			s.intraQ = vMatrix(1)
		}
		if first&2 == 2 {
			s.nonIntraQ = vMatrix(2)
		}
		e.seq(s)
		e.group(vGOP{})
		e.pic(weighed(1, 0, 0, 0))
		tref := 1
		h := uint64(first)
		for i := 0; i < n; i++ {
			ev := x.Choose(events)
			h = h*events + uint64(ev)
			kind := 2 // pictures alternate so that both matrices are seen
			if i%2 == 1 {
				kind = 1
			}
			var qm *vQuantExt
			switch {
			case ev >= 1 && ev <= 4:
				s := mbSize(1, 1)
				if (ev-1)&1 == 1 {
					s.intraQ = vMatrix(3 + i)
				}
				if (ev-1)&2 == 2 {
					s.nonIntraQ = vMatrix(13 + i)
				}
				e.seq(s)
			case ev >= 5 && ev <= 11:
				qm = &vQuantExt{}
				set := []int{0, 1, 2, 3, 4, 8, 13}[ev-5]
				for k := 0; k < 4; k++ {
					if set>>uint(k)&1 == 1 {
						qm.m[k] = vMatrix(23 + 4*i + k)
					}
				}
			case ev == 12:
				e.group(vGOP{})
				tref = 0
				kind = 1
			}
			p := weighed(kind, tref, i&1, i)
			p.qm = qm
			e.pic(p)
			e.pic(weighed(3-kind, tref+1, i>>1&1, i+1))
			tref += 2
			x.Visit(HashInts(hashMatrix(e.W[0]), hashMatrix(e.W[1])))
		}
		x.Note("events", "first %d, then base-13 digits of %d", first, h)
		e.check(x)
	}})
	out = append(out, &Space{Name: "every value at every position", Body: func(x *X) {
		pos := x.Choose(64)
		way := x.Choose(4) // sequence header or extension, intra or non-intra
		alt := x.Choose(2)
		e := newVid(mbSize(1, 1))
		tref := 0
		e.pic(weighed(1, 0, 0, 0))
		for v := 1; v < 256; v++ {
			m := new([64]int)
			for i := range m {
				m[i] = 16
			}
			m[pos] = v
			tref++
			kind := 1 + way&1
			p := vParams{alt: alt}.pic(kind, tref)
			b := vMB{intra: kind == 1, fwd: kind == 2, cbp: 63}
			// the position of this weight in the scan in use
			n := 0
			for n < 64 && scans[alt][n] != scans[0][pos] {
				n++
			}
			for k := range b.blk {
				b.blk[k].dc = 128
				run := n
				if kind == 1 {
					run--
				}
				if run >= 0 {
					b.blk[k].co = []vCoef{{run: run, level: 1 + k - k%2*2*(1+k)}}
				} else {
					b.blk[k].co = []vCoef{{run: k, level: 2}}
				}
			}
			p.slices = []vSlice{{q: 3, mbs: []vMB{b}}}
			if way < 2 {
				s := mbSize(1, 1)
				if way == 0 {
					s.intraQ = m
				} else {
					s.nonIntraQ = m
				}
				e.seq(s)
			} else {
				p.qm = &vQuantExt{}
				p.qm.m[way-2] = m
			}
			e.pic(p)
			if v%16 == 0 {
				tref++
				e.pic(weighed(1, tref, 0, 0)) // keep the samples in range
			}
		}
		x.Inner(255)
		x.Visit(HashInts(7, uint64(pos), uint64(way), uint64(alt)))
		e.check(x)
	}})
	out = append(out, &Space{Name: "matrices with B pictures", Body: func(x *X) {
		// an extension before a B picture stays in force for the next reference picture
		e := newVid(mbSize(1, 1))
		e.pic(weighed(1, 0, 0, 0))
		tref := 2
		for i := 0; i < 3; i++ {
			ref := weighed(1+x.Choose(2), tref, i&1, i)
			b := weighed(3, tref-1, 1-i&1, i)
			for k, p := range []*vPic{ref, b} {
				if set := x.Choose(4); set > 0 {
					p.qm = &vQuantExt{}
					if set&1 == 1 {
						p.qm.m[0] = vMatrix(30 + 2*i + k)
					}
					if set&2 == 2 {
						p.qm.m[1] = vMatrix(40 + 2*i + k)
					}
				}
				e.pic(p)
			}
			tref += 2
			x.Visit(HashInts(hashMatrix(e.W[0]), hashMatrix(e.W[1])))
			if i == 1 && !thorough {
				break
			}
		}
		e.check(x)
	}})
	return out
}

func hashMatrix(m [64]int) uint64 {
	var h uint64
	for _, v := range m {
		h = mix(h, uint64(v))
	}
	return h
}

// ---------------------------------------------------------------- V10

func v10spaces(thorough bool) []*Space {
	const batch = 1 << 12
	return []*Space{{Name: "all time codes", Body: func(x *X) {
		hi := x.Choose(1 << 13)
		flags := 4
		for fl := 0; fl < flags; fl++ {
			if !thorough && (hi+fl)%4 > 1 {
				continue // two of the four combinations of flags for each section
			}
			w := &BW{b: make([]byte, 0, batch*10)}
			for lo := 0; lo < batch; lo++ {
				w.Put(0x1b8, 32).Put(uint64(hi*batch+lo), 25).Put(uint64(fl), 2).Align()
				for k := 0; k < (hi+fl)%3; k++ {
					w.Put(0, 8)
				}
			}
			w.Put(0x1b7, 32)
			br := newBR(w.b)
			for lo := 0; lo < batch; lo++ {
				v := hi*batch + lo
				g, err := video.ReadGOPHeader(br)
				if err != nil {
					x.Fail("time code %#x, flags %d: %v", v, fl, err)
				}
				want := video.TimeCode{DropFrame: v>>24 == 1, Hours: int32(v >> 19 & 31), Minutes: int32(v >> 13 & 63), Seconds: int32(v >> 6 & 63), Pictures: int32(v & 63)}
				if got := g.TimeCode(); got != want {
					x.Fail("time code %#x reads as %+v, expected %+v", v, got, want)
				}
				if g.ClosedGOP != (fl>>1 == 1) || g.BrokenLink != (fl&1 == 1) {
					x.Fail("time code %#x with flags %d reads closed=%v broken=%v", v, fl, g.ClosedGOP, g.BrokenLink)
				}
				if got := want.String(); got != timeString(v) || g.TimeCode().String() != got {
					x.Fail("time code %#x prints as %q, expected %q", v, g.TimeCode().String(), timeString(v))
				}
			}
			if code, err := br.Read32(32); err != nil || code != 0x1b7 {
				x.Fail("after the headers the stream continues with %#x (%v)", code, err)
			}
			x.Inner(batch)
		}
		x.Note("section", "time codes %#x to %#x", hi*batch, hi*batch+batch-1)
		x.Visit(HashInts(10, uint64(hi)))
	}}, {Name: "position after the header", Body: func(x *X) {
		v := 1<<uint(x.Choose(25)) | x.Choose(2)
		fl := x.Choose(4)
		stuff := x.Choose(5)
		next := Pick(x, []uint64{0x100, 0x1b2, 0x1b7, 0x101, 0x1b8})
		w := (&BW{}).Put(0x1b8, 32).Put(uint64(v), 25).Put(uint64(fl), 2).Align()
		for i := 0; i < stuff; i++ {
			w.Put(0, 8)
		}
		w.Put(next, 32).Put(0xa5, 8)
		br := newBR(w.b)
		if _, err := video.ReadGOPHeader(br); err != nil {
			x.Fail("%x: %v", w.b, err)
		}
		if got := fmt.Sprintf("%x", rest(br)); got != fmt.Sprintf("%08xa5", next) {
			x.Fail("%x: after the header the stream continues with %s", w.b, got)
		}
		x.Visit(HashBytes(10, w.b))
	}}, {Name: "not a group header", Body: func(x *X) {
		bit := x.Choose(32)
		w := (&BW{}).Put(0x1b8^1<<uint(bit), 32).Put(5, 25).Put(3, 2).Align().Put(0x100, 32)
		br := newBR(w.b)
		if _, err := video.ReadGOPHeader(br); err == nil {
			x.Fail("%x is read as a group header", w.b)
		}
		if got := rest(br); string(got) != string(w.b) {
			x.Fail("%x: a failed header consumes bits", w.b)
		}
		x.Visit(HashBytes(10, w.b))
	}}}
}

func timeString(v int) string {
	two := func(n int) string { return string([]byte{byte('0' + n/10), byte('0' + n%10)}) }
	sep := ":"
	if v>>24 == 1 {
		sep = ";"
	}
	return two(v>>19&31) + ":" + two(v>>13&63) + ":" + two(v>>6&63) + sep + two(v&63)
}

// ---------------------------------------------------------------- V11

func v11spaces(thorough bool) []*Space {
	var out []*Space
	out = append(out, &Space{Name: "reported sizes", Body: func(x *X) {
		side := x.Choose(2)
		hi := x.Choose(128)
		prog := x.Choose(2)
		for lo := 0; lo < 128; lo++ {
			n := hi<<7 | lo
			if n == 0 {
				continue
			}
			for _, o := range []int{1, 576, 4095, 4096, 16383} {
				w, h := n, o
				if side == 1 {
					w, h = o, n
				}
				e := &vEnc{}
				e.seq(vSeqHdr{w: w, h: h, progressive: prog})
				e.startCode(0xb7, 0)
				v := newSeq(e.b)
				if a, b := v.Size(); a != -1 || b != -1 {
					x.Fail("before the first sequence header the size is %d x %d", a, b)
				}
				v.Next()
				if a, b := v.Size(); a != w || b != h {
					noteStream(x, e.b)
					x.Fail("the size is %d x %d, expected %d x %d", a, b, w, h)
				}
			}
		}
		x.Inner(5 * 127)
		x.Visit(HashInts(11, uint64(side), uint64(hi), uint64(prog)))
	}})
	lim := 66
	if thorough {
		lim = 130
	}
	out = append(out, &Space{Name: "picture sizes", Body: func(x *X) {
		w := 1 + x.Choose(lim)
		prog := x.Choose(2)
		for h := 1; h <= lim; h++ {
			e := newVid(vSeqHdr{w: w, h: h, progressive: prog})
			p := vParams{}.pic(1, 0)
			textured(p, e.w/16, e.h/16, 4, w*h)
			e.pic(p)
			q := vParams{}.pic(2, 1)
			q.rows(e.w/16, e.h/16, 4, func(c, r int) vMB { return vMB{fwd: true} })
			e.pic(q)
			b, want := e.finish()
			v := newSeq(b)
			for i, f := range want {
				img, err := v.Next()
				if err != nil {
					noteStream(x, b)
					x.Fail("%dx%d, frame %d: %v", w, h, i, err)
				}
				if d := diffFrame(img, f); d != "" {
					noteStream(x, b)
					x.Fail("%dx%d, frame %d: %s", w, h, i, d)
				}
				if gw, gh := v.Size(); gw != w || gh != h {
					x.Fail("after frame %d the size is %dx%d, expected %dx%d", i, gw, gh, w, h)
				}
			}
			x.Visit(HashInts(11, uint64(w), uint64(h), uint64(prog)))
		}
		x.Inner(int64(lim))
	}})
	out = append(out, &Space{Name: "wide and tall pictures", Body: func(x *X) {
		n := Pick(x, []int{1999, 2047, 2783, 2784, 2785, 2799, 2800, 2801, 2815, 2816, 2817, 4000, 4080, 4095, 4096, 4097, 4112, 5000, 6143, 6144, 8175, 8191, 8192, 8193, 12288, 12289, 16368, 16383})
		side := x.Choose(2)
		prog := x.Choose(2)
		order := x.Choose(3)
		s := vSeqHdr{w: n, h: 9 + x.Choose(2)*16, progressive: prog}
		if side == 1 {
			s.w, s.h = s.h, s.w
		}
		e := newVid(s)
		p := vParams{}.pic(1, 0)
		// without a slice extension there is no start code for more than 175 rows, although
		// an interlaced picture of 2785 to 2800 lines has 176
		rows := e.h / 16
		if s.h <= 2800 && rows > 175 {
			rows = 175
		}
		textured(p, e.w/16, rows, 4, n)
		switch order {
		case 1:
			for i, j := 0, len(p.slices)-1; i < j; i, j = i+1, j-1 {
				p.slices[i], p.slices[j] = p.slices[j], p.slices[i]
			}
		case 2:
			for i := range p.slices {
				p.slices[i].intra = 1 + i%2
			}
		}
		e.pic(p)
		q := vParams{}.pic(2, 1)
		for r := 0; r < rows; r++ {
			s := vSlice{row: r, q: 4, mbs: []vMB{{fwd: true}}}
			if e.w > 16 {
				s.mbs = append(s.mbs, vMB{skip: e.w/16 - 2, fwd: true, mv: [2][2]int{{-3, 0}}})
			}
			q.slices = append(q.slices, s)
		}
		e.pic(q)
		x.Visit(HashInts(11, uint64(s.w), uint64(s.h), uint64(prog), uint64(order)))
		x.Inner(int64(e.w * e.h / 256))
		if rows == e.h/16 {
			e.check(x)
			return
		}
		b, want := e.finish()
		v := newSeq(b)
		for i, f := range want {
			img, err := v.Next()
			if err != nil {
				noteStream(x, b)
				x.Fail("frame %d: %v", i, err)
			}
			for r := 0; r < rows; r++ {
				if d := diffRow(img, f, r); d != "" {
					noteStream(x, b)
					x.Fail("frame %d: %s", i, d)
				}
			}
		}
	}})
	out = append(out, largePictures("IP"))
	// slices in every order, with rows left out
	out = append(out, &Space{Name: "slice orders", Body: func(x *X) {
		n := 1 + x.Choose(5)
		prog := x.Choose(2)
		e := newVid(vSeqHdr{w: 24, h: 16*n - 5, progressive: prog})
		p := vParams{}.pic(1, 0)
		full := textured(p, 2, e.h/16, 4, n).slices
		p.slices = nil
		left := make([]int, n)
		for i := range left {
			left[i] = i
		}
		covered := map[int]bool{}
		h := uint64(prog)
		for len(left) > 0 {
			k := x.Choose(len(left) + 1)
			if k == len(left) {
				if len(p.slices) > 0 {
					break
				}
				k = 0
			}
			p.slices = append(p.slices, full[left[k]])
			covered[left[k]] = true
			h = h*7 + uint64(left[k]) + 1
			left = append(left[:k:k], left[k+1:]...)
		}
		f := e.pic(p)
		b, _ := e.finish()
		v := newSeq(b)
		img, err := v.Next()
		if err != nil {
			noteStream(x, b)
			x.Fail("%v", err)
		}
		if img.Rect != image.Rect(0, 0, f.w, f.h) {
			x.Fail("the frame covers %v, expected %dx%d", img.Rect, f.w, f.h)
		}
		for r := range covered {
			if d := diffRow(img, f, r); d != "" {
				noteStream(x, b)
				x.Fail("%s", d)
			}
		}
		x.Visit(HashInts(h, uint64(n)))
	}})
	// sequence headers with other sizes take effect for the pictures after them
	sizes := []vSeqHdr{{w: 16, h: 16, progressive: 1}, {w: 40, h: 20, progressive: 1}, {w: 40, h: 20}, {w: 17, h: 70}, {w: 80, h: 3, progressive: 1}, {w: 64, h: 32}}
	out = append(out, &Space{Name: "changes of size", Body: func(x *X) {
		e := &vEnc{}
		n := 4
		type exp struct {
			f    *vFrame
			w, h int
		}
		var want []exp
		var ends []bool
		hs := uint64(0)
		for i := 0; i < n; i++ {
			k := x.Choose(len(sizes))
			s := sizes[k]
			hs = hs*8 + uint64(k)
			e.seq(s)
			e.group(vGOP{})
			for j := 0; j < 2; j++ {
				p := vParams{}.pic(1+j, j)
				if j == 0 {
					textured(p, e.w/16, e.h/16, 4, i)
				} else {
					p.rows(e.w/16, e.h/16, 4, func(c, r int) vMB { return vMB{fwd: true} })
				}
				want = append(want, exp{e.pic(p), s.w, s.h})
				ends = append(ends, false)
			}
			if i == n-1 || x.Bool() {
				e.end()
				ends[len(ends)-1] = true
			}
		}
		v := newSeq(e.b)
		for i, f := range want {
			img, err := v.Next()
			if err != nil {
				noteStream(x, e.b)
				x.Fail("frame %d: %v", i, err)
			}
			if d := diffFrame(img, f.f); d != "" {
				noteStream(x, e.b)
				x.Fail("frame %d: %s", i, d)
			}
			if w, h := v.Size(); w != f.w || h != f.h {
				noteStream(x, e.b)
				x.Fail("after frame %d the size is %dx%d, expected %dx%d", i, w, h, f.w, f.h)
			}
			if ends[i] {
				if _, err := v.Next(); err != video.EOS {
					noteStream(x, e.b)
					x.Fail("after frame %d: %v", i, err)
				}
			}
		}
		x.Visit(HashInts(11, hs))
	}})
	return out
}

// diffRow compares one row of macroblocks.
func diffRow(img *image.YCbCr, f *vFrame, r int) string {
	for y := 16 * r; y < 16*r+16; y++ {
		for x := 0; x < f.w; x++ {
			if got, want := img.Y[img.YOffset(x, y)], f.y[y*f.w+x]; got != want {
				return fmt.Sprintf("luma sample (%d,%d) is %d, expected %d", x, y, got, want)
			}
			if o, c := img.COffset(x, y), y/2*f.w/2+x/2; img.Cb[o] != f.cb[c] || img.Cr[o] != f.cr[c] {
				return fmt.Sprintf("chroma at (%d,%d) is %d %d, expected %d %d", x, y, img.Cb[o], img.Cr[o], f.cb[c], f.cr[c])
			}
		}
	}
	return ""
}

// ---------------------------------------------------------------- V12

type held struct {
	img  *image.YCbCr
	copy image.YCbCr
	y    []byte
	cb   []byte
	cr   []byte
}

func hold(img *image.YCbCr) held {
	return held{img, *img, append([]byte{}, img.Y...), append([]byte{}, img.Cb...), append([]byte{}, img.Cr...)}
}

func (h *held) diff() string {
	i := h.img
	if i.Rect != h.copy.Rect || i.YStride != h.copy.YStride || i.CStride != h.copy.CStride || i.SubsampleRatio != h.copy.SubsampleRatio ||
		len(i.Y) != len(h.y) || len(i.Cb) != len(h.cb) || len(i.Cr) != len(h.cr) {
		return "its dimensions changed"
	}
	if string(i.Y) != string(h.y) || string(i.Cb) != string(h.cb) || string(i.Cr) != string(h.cr) {
		return "its samples changed"
	}
	return ""
}

func span(b []byte) (lo, hi uintptr) {
	if len(b) == 0 {
		return 0, 0
	}
	lo = uintptr(unsafe.Pointer(&b[0]))
	return lo, lo + uintptr(len(b))
}

// shares tells whether two planes overlap.
func shares(a, b *image.YCbCr) bool {
	for _, p := range [][]byte{a.Y, a.Cb, a.Cr} {
		for _, q := range [][]byte{b.Y, b.Cb, b.Cr} {
			l1, h1 := span(p)
			l2, h2 := span(q)
			if l1 < h2 && l2 < h1 {
				return true
			}
		}
	}
	return false
}

// holdAll decodes to the end, several sequences and errors included, keeping all frames.
func holdAll(x *X, b []byte, more int) int {
	v := newSeq(b)
	var all []held
	errs := 0
	for {
		img, err := v.Next()
		for i := range all {
			if d := all[i].diff(); d != "" {
				noteStream(x, b)
				x.Fail("after call %d frame %d is no longer what was returned: %s", len(all)+1, i, d)
			}
		}
		if err != nil {
			errs++
			if errs > more {
				break
			}
			continue
		}
		for i := range all {
			if all[i].img == img || shares(all[i].img, img) {
				noteStream(x, b)
				x.Fail("frames %d and %d share their samples", i, len(all))
			}
		}
		all = append(all, hold(img))
		if len(all) > 5000 {
			x.Fail("more than 5000 frames")
		}
	}
	return len(all)
}

func v12spaces(thorough bool) []*Space {
	n := 7
	if thorough {
		n = 9
	}
	var out []*Space
	out = append(out, &Space{Name: "coding orders", Body: func(x *X) {
		toks := structure(x, 1+x.Choose(n))
		e := &vEnc{}
		e.seq(mbSize(4, 2))
		for i, k := range plan(toks) {
			if k.group {
				e.group(vGOP{})
			}
			p := planPic(e, k, i, 4, 2)
			if k.kind == 2 {
				// skipped macroblocks too
				for r := range p.slices {
					s := &p.slices[r]
					s.mbs = []vMB{s.mbs[0], s.mbs[3]}
					s.mbs[1].skip = 2
				}
			}
			e.pic(p)
		}
		b, want := e.finish()
		if got := holdAll(x, b, 3); got != len(want) {
			noteStream(x, b)
			x.Fail("%d frames, expected %d", got, len(want))
		}
		x.Visit(HashBytes(12, tokBytes(toks)))
	}})
	out = append(out, &Space{Name: "several sequences and sizes", Body: func(x *X) {
		e := &vEnc{}
		frames := 0
		for i := 0; i < 3; i++ {
			toks := structure(x, 1+x.Choose(3))
			w := 1 + x.Choose(2)
			e.seq(mbSize(w, 2))
			for i, k := range plan(toks) {
				if k.group {
					e.group(vGOP{})
				}
				e.pic(planPic(e, k, i, w, 2))
			}
			e.end()
			frames += len(toks)
		}
		if got := holdAll(x, e.b, 5); got != frames {
			noteStream(x, e.b)
			x.Fail("%d frames, expected %d", got, frames)
		}
		x.Visit(HashBytes(12, e.b))
	}})
	out = append(out, &Space{Name: "frames kept for long", Body: func(x *X) {
		// a word of pictures repeated as groups, or within one group
		toks := structure(x, 1+x.Choose(4))
		n := 2300
		if thorough {
			n = 4500
		}
		groups := x.Bool()
		e := &vEnc{}
		e.seq(mbSize(1, 1))
		frames := 0
		if groups {
			for frames < n {
				for i, k := range plan(toks) {
					if k.group {
						e.group(vGOP{})
					}
					e.pic(planPic(e, k, frames+i, 1, 1))
				}
				frames += len(plan(toks))
			}
		} else {
			all := []vToken{toks[0]}
			for len(all) < n {
				for _, t := range toks[1:] {
					if t != 'G' {
						all = append(all, t)
					}
				}
				all = append(all, 'P')
			}
			for i, k := range plan(all) {
				if k.group {
					e.group(vGOP{})
				}
				e.pic(planPic(e, k, i, 1, 1))
			}
		}
		b, want := e.finish()
		if got := holdAll(x, b, 3); got != len(want) {
			x.Fail("%d frames, expected %d", got, len(want))
		}
		x.Visit(HashBytes(13, tokBytes(toks)))
	}})
	out = append(out, &Space{Name: "cut and damaged streams", Body: func(x *X) {
		toks := []vToken("GPBBPBGPB")
		e := &vEnc{}
		e.seq(mbSize(3, 2))
		for i, k := range plan(toks) {
			if k.group {
				e.group(vGOP{})
			}
			e.pic(planPic(e, k, i, 3, 2))
		}
		b, _ := e.finish()
		cut := x.Choose(len(b))
		how := x.Choose(4)
		d := append([]byte{}, b...)
		switch how {
		case 0:
			d = d[:cut]
		case 1:
			d[cut] ^= 0xff
		case 2:
			d[cut] = 0
		case 3:
			d = append(d[:cut:cut], b[cut+1:]...)
		}
		// the good stream follows, so that decoding may go on
		d = append(d, b...)
		if big(d) {
			return
		}
		holdAll(x, d, 40)
		x.Visit(HashInts(12, uint64(cut), uint64(how)))
	}})
	return out
}

// big tells whether a (damaged) stream has a sequence header with so many samples that
// decoding it only tests the memory of the machine.
func big(b []byte) bool {
	for i := 0; i+7 < len(b); i++ {
		if b[i] == 0 && b[i+1] == 0 && b[i+2] == 1 && b[i+3] == 0xb3 {
			w, h := int(b[i+4])<<4|int(b[i+5])>>4, int(b[i+5]&15)<<8|int(b[i+6])
			ext := 0
			for j := i + 7; j+6 < len(b) && j < i+160; j++ {
				if b[j] == 0 && b[j+1] == 0 && b[j+2] == 1 && b[j+3] == 0xb5 && b[j+4]>>4 == 1 {
					ext = int(bits(b, 8*j+47, 4))
					w |= ext >> 2 << 12
					h |= ext & 3 << 12
					break
				}
			}
			if w*h > 1<<20 {
				return true
			}
		}
	}
	return false
}
