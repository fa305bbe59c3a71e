package mc

import (
	"fmt"
	"image"
	"io"

	"github.com/32bitkid/mpeg/video"
)

// A video encoder and reference decoder in one: pictures are described by the values of
// their syntax elements; writing one to the bit stream also reconstructs it as ISO/IEC
// 13818-2 prescribes, with predictors and references kept here.

type vSeqHdr struct {
	w, h        int
	progressive int
	intraQ      *[64]int // in the order of transmission
	nonIntraQ   *[64]int
	aspect      int
	rate        int
	bitrate     int
	vbv         int
	constrained int
	profile     int
	chroma      int // 0 stands for 4:2:0
	brext       int
	vbvext      int
	lowDelay    int
	frn, frd    int
	stuff       int // zero bytes before each start code
	ext         [][]byte
	noExtension bool
}

type vGOP struct {
	time           int
	closed, broken int
	stuff          int
	ext            [][]byte
}

type vCoef struct {
	run, level int
	esc        bool
}

type vBlk struct {
	dc int // quantised DC of intra blocks
	co []vCoef
}

type vMB struct {
	skip     int
	intra    bool
	q        int // new quantiser code, 0 for none
	fwd, bwd bool
	mv       [2][2]int // in half samples; [0] is the concealment vector of intra macroblocks
	// fmv selects field prediction: mv holds the vectors of the even lines, mv2 those of the
	// odd lines, both in lines of fields, sel the fields they point into
	fmv   bool
	mv2   [2][2]int
	sel   [2][2]int // [line parity][direction]
	alt   bool      // prefer the other representation of a vector difference
	cbp   int
	field bool // field DCT
	blk   [6]vBlk
}

type vSlice struct {
	row   int
	q     int
	mbs   []vMB
	intra int    // 1: intra_slice_flag with intra_slice 0; 2: with intra_slice 1
	extra []byte // with intra != 0
	stuff int
}

type vPic struct {
	kind    int // 1 I, 2 P, 3 B
	tref    int
	vbv     int
	dcPrec  int
	qtype   int
	vlcfmt  int
	alt     int
	fpfd    int // frame_pred_frame_dct
	conceal int
	// 0 stands for a frame picture; otherwise one more than the picture_structure
	structure int
	fcode     [2][2]int
	tff, rff  int
	c420      int
	progf     int
	display   []uint64 // composite display: v_axis field_sequence sub_carrier burst phase
	fullpel   int
	oldf      int // the f_code fields of the picture header
	extra     []byte
	stuff     int
	ext       [][]byte
	slices    []vSlice
	// qm is a quant matrix extension after the picture coding extension
	qm *vQuantExt
}

type vQuantExt struct{ m [4]*[64]int }

type vFrame struct {
	w, h      int
	y, cb, cr []byte
	fields    [6][2][]byte
}

// field is plane i of one of the fields.
func (f *vFrame) field(i, parity int) []byte {
	if f.fields[i][parity] == nil {
		pl, w := f.plane(i)
		out := []byte{}
		for y := parity; y*w < len(pl); y += 2 {
			out = append(out, pl[y*w:y*w+w]...)
		}
		f.fields[i][parity] = out
	}
	return f.fields[i][parity]
}

func newFrame(w, h int) *vFrame {
	return &vFrame{w: w, h: h, y: make([]byte, w*h), cb: make([]byte, w*h/4), cr: make([]byte, w*h/4)}
}

func (f *vFrame) clone() *vFrame {
	return &vFrame{w: f.w, h: f.h, y: append([]byte{}, f.y...), cb: append([]byte{}, f.cb...), cr: append([]byte{}, f.cr...)}
}

// vEnc writes a stream and keeps the decoder state it implies.
type vEnc struct {
	BW
	W      [2][64]int // intra, non-intra; raster order
	w, h   int        // of the frames
	height int        // as transmitted
	refs   [2]*vFrame
	gop    []vShown // pictures of the group, in coding order
	out    []*vFrame
	marks  []int // byte offsets of the start codes
	states []uint64
	elems  []vElem
	// blind leaves out the predictions, for references that are not what they should be
	blind bool
}

// vElem is a code word in the stream.
type vElem struct {
	table  byte
	pos, n int
}

type vShown struct {
	tref int
	f    *vFrame
}

func (e *vEnc) startCode(c int, stuff int) {
	e.Align()
	for i := 0; i < stuff; i++ {
		e.Put(0, 8)
	}
	e.marks = append(e.marks, len(e.b))
	e.Put(uint64(0x100|c), 32)
}

func (e *vEnc) code(table byte, c vcode) {
	e.elems = append(e.elems, vElem{table, e.n, c.n})
	e.Put(c.v, c.n)
}

// signed writes a code word and its sign bit.
func (e *vEnc) signed(table byte, c vcode, neg bool) {
	e.code(table, vcode{c.v<<1 | b2u(neg), c.n + 1})
}

// codeSet lists the complete code words of a table.
func codeSet(table byte) []vcode {
	switch table {
	case 'a':
		return append(append([]vcode{}, tableB1...), codeAddrEscape)
	case 'I':
		return codesOf(tableMB[1])
	case 'P':
		return codesOf(tableMB[2])
	case 'B':
		return codesOf(tableMB[3])
	case 'c':
		return tableB9
	case 'm':
		out := []vcode{tableB10[0]}
		for _, c := range tableB10[1:] {
			out = append(out, vcode{c.v << 1, c.n + 1}, vcode{c.v<<1 | 1, c.n + 1})
		}
		return out
	case 'l':
		return tableB12
	case 'h':
		return tableB13
	case '0':
		out := []vcode{{2, 2}, {3, 2}, codeEscape}
		for k, c := range tableB14 {
			if k != (runLevel{0, 1}) {
				out = append(out, vcode{c.v << 1, c.n + 1}, vcode{c.v<<1 | 1, c.n + 1})
			}
		}
		return out
	case '4':
		return append(withSign(tableB14), codeEscape, codeEOB14)
	case '5':
		return append(withSign(tableB15), codeEscape, codeEOB15)
	}
	panic("harness: no such table")
}

func (e *vEnc) matrix(m *[64]int, dst *[64]int) {
	for i, v := range m {
		e.Put(uint64(v), 8)
		if dst != nil {
			dst[scans[0][i]] = v
		}
	}
}

func (e *vEnc) seq(s vSeqHdr) {
	e.startCode(0xb3, s.stuff)
	e.Put(uint64(s.w), 12).Put(uint64(s.h), 12)
	or := func(v, d int) uint64 {
		if v == 0 {
			v = d
		}
		return uint64(v)
	}
	e.Put(or(s.aspect, 1), 4).Put(or(s.rate, 3), 4).Put(or(s.bitrate, 1000), 18).Put(1, 1)
	e.Put(uint64(s.vbv), 10).Put(uint64(s.constrained), 1)
	e.W[0], e.W[1] = defaultIntraQ, flatQ(16)
	for i, m := range []*[64]int{s.intraQ, s.nonIntraQ} {
		if m == nil {
			e.Put(0, 1)
		} else {
			e.Put(1, 1)
			e.matrix(m, &e.W[i])
		}
	}
	if !s.noExtension {
		e.startCode(0xb5, s.stuff)
		e.Put(1, 4).Put(or(s.profile, 0x48), 8).Put(uint64(s.progressive), 1).Put(or(s.chroma, 1), 2)
		e.Put(uint64(s.w>>12), 2).Put(uint64(s.h>>12), 2).Put(uint64(s.brext), 12).Put(1, 1).Put(uint64(s.vbvext), 8)
		e.Put(uint64(s.lowDelay), 1).Put(uint64(s.frn), 2).Put(uint64(s.frd), 5)
	}
	e.exts(s.ext)
	e.height = s.h
	e.w, e.h = (s.w+15)/16*16, (s.h+15)/16*16
	if s.progressive == 0 {
		e.h = (s.h + 31) / 32 * 32
	}
}

func (e *vEnc) exts(l [][]byte) {
	for _, b := range l {
		e.Align()
		e.marks = append(e.marks, len(e.b))
		e.Bytes(b...)
	}
}

func (e *vEnc) group(g vGOP) {
	e.flush()
	e.startCode(0xb8, g.stuff)
	e.Put(uint64(g.time), 25).Put(uint64(g.closed), 1).Put(uint64(g.broken), 1)
	e.exts(g.ext)
}

// end writes the sequence end code; what follows stands alone.
func (e *vEnc) end() {
	e.flush()
	e.startCode(0xb7, 0)
	e.refs = [2]*vFrame{}
}

// flush appends the pictures of the group in display order.
func (e *vEnc) flush() {
	for range e.gop {
		best := -1
		for i, s := range e.gop {
			if s.f != nil && (best < 0 || s.tref < e.gop[best].tref) {
				best = i
			}
		}
		e.out = append(e.out, e.gop[best].f)
		e.gop[best].f = nil
	}
	e.gop = e.gop[:0]
}

func userData(b ...byte) []byte { return append([]byte{0, 0, 1, 0xb2}, b...) }

// pic writes a picture and returns its reconstruction.
func (e *vEnc) pic(p *vPic) *vFrame {
	e.startCode(0x00, p.stuff)
	e.Put(uint64(p.tref&1023), 10).Put(uint64(p.kind), 3).Put(uint64(p.vbv), 16)
	of := uint64(p.oldf)
	if p.oldf == 0 {
		of = 7
	}
	if p.kind >= 2 {
		e.Put(uint64(p.fullpel&1), 1).Put(of, 3)
	}
	if p.kind == 3 {
		e.Put(uint64(p.fullpel>>1), 1).Put(of, 3)
	}
	for _, c := range p.extra {
		e.Put(1, 1).Put(uint64(c), 8)
	}
	e.Put(0, 1)
	e.startCode(0xb5, p.stuff)
	e.Put(8, 4)
	for s := 0; s < 2; s++ {
		for t := 0; t < 2; t++ {
			f := p.fcode[s][t]
			if f == 0 {
				f = 15
			}
			e.Put(uint64(f), 4)
		}
	}
	e.Put(uint64(p.dcPrec), 2).Put(uint64((p.structure+3)%4), 2).Put(uint64(p.tff), 1).Put(uint64(p.fpfd), 1).Put(uint64(p.conceal), 1)
	e.Put(uint64(p.qtype), 1).Put(uint64(p.vlcfmt), 1).Put(uint64(p.alt), 1).Put(uint64(p.rff), 1).Put(uint64(p.c420), 1).Put(uint64(p.progf), 1)
	if p.display == nil {
		e.Put(0, 1)
	} else {
		e.Put(1, 1).Put(p.display[0], 1).Put(p.display[1], 3).Put(p.display[2], 1).Put(p.display[3], 7).Put(p.display[4], 8)
	}
	if p.qm != nil {
		e.startCode(0xb5, p.stuff)
		e.Put(3, 4)
		for i, m := range p.qm.m {
			if m == nil {
				e.Put(0, 1)
				continue
			}
			e.Put(1, 1)
			if i < 2 {
				e.matrix(m, &e.W[i])
			} else {
				e.matrix(m, nil)
			}
		}
	}
	e.exts(p.ext)
	f := newFrame(e.w, e.h)
	for i := range p.slices {
		e.slice(p, &p.slices[i], f)
	}
	e.Align()
	e.gop = append(e.gop, vShown{p.tref, f})
	if p.kind != 3 {
		e.refs[0], e.refs[1] = e.refs[1], f
	}
	return f
}

func (e *vEnc) slice(p *vPic, s *vSlice, f *vFrame) {
	if e.height > 2800 {
		e.startCode(s.row%128+1, s.stuff)
		e.Put(uint64(s.row/128), 3)
	} else {
		e.startCode(s.row+1, s.stuff)
	}
	e.Put(uint64(s.q), 5)
	if s.intra != 0 {
		e.Put(1, 1).Put(uint64(s.intra-1), 1).Put(0, 7)
		for _, c := range s.extra {
			e.Put(1, 1).Put(uint64(c), 8)
		}
	}
	e.Put(0, 1)
	m := &vMBState{e: e, p: p, f: f, row: s.row, q: s.q, col: -1}
	m.resetDC()
	for i := range s.mbs {
		m.mb(&s.mbs[i], i == 0)
	}
	e.Align()
}

// vMBState is the state that lives inside of a slice.
type vMBState struct {
	e        *vEnc
	p        *vPic
	f        *vFrame
	row, col int
	q        int
	dc       [3]int
	pmv      [2][2][2]int // [vector][direction][component]
	fwd, bwd bool
	mv       [2][2][2]int
	fmv      bool
	sel      [2][2]int
}

func (m *vMBState) resetDC() {
	for i := range m.dc {
		m.dc[i] = 128 << uint(m.p.dcPrec)
	}
}

func (m *vMBState) mb(b *vMB, first bool) {
	e, p := m.e, m.p
	inc := b.skip + 1
	for n := inc; ; n -= 33 {
		if n <= 33 {
			e.code('a', tableB1[n-1])
			break
		}
		e.code('a', codeAddrEscape)
	}
	if first {
		m.col += b.skip // the position of the first macroblock, nothing is skipped
	} else {
		for i := 0; i < b.skip; i++ {
			m.col++
			m.resetDC()
			if p.kind == 2 {
				m.pmv = [2][2][2]int{}
				m.fwd, m.bwd = true, false
			}
			m.mv, m.fmv = m.pmv, false
			m.predict()
		}
	}
	m.col++
	t := mbType{quant: b.q != 0, fwd: b.fwd && !b.intra, bwd: b.bwd && !b.intra, pattern: b.cbp != 0 && !b.intra, intra: b.intra}
	c, ok := tableMB[p.kind][t]
	if !ok {
		panic(fmt.Sprintf("harness: no macroblock type %+v in picture kind %d", t, p.kind))
	}
	e.code(" IPB"[p.kind], c)
	if (t.fwd || t.bwd) && p.fpfd == 0 {
		if b.fmv {
			e.Put(1, 2)
		} else {
			e.Put(2, 2)
		}
	} else if b.fmv {
		panic("harness: no field vectors here")
	}
	if p.fpfd == 0 && (t.intra || t.pattern) {
		e.Put(b2u(b.field), 1)
	} else if b.field {
		// no dct_type is sent: frame DCT
		c := *b
		c.field = false
		b = &c
	}
	if t.quant {
		e.Put(uint64(b.q), 5)
		m.q = b.q
	}
	conceal := t.intra && p.conceal == 1
	if t.intra && !conceal {
		m.pmv = [2][2][2]int{}
	}
	m.fmv, m.sel = b.fmv, b.sel
	if !t.intra && !t.fwd && p.kind == 2 {
		m.pmv = [2][2][2]int{}
		m.fwd, m.bwd, m.mv = true, false, m.pmv
	} else {
		m.fwd, m.bwd = t.fwd, t.bwd
	}
	if t.fwd || conceal {
		m.vector(0, b)
	}
	if t.bwd {
		m.vector(1, b)
	}
	if conceal {
		e.Put(1, 1)
	}
	cbp := b.cbp
	if t.intra {
		cbp = 63
	} else {
		m.resetDC()
		if t.pattern {
			e.code('c', tableB9[cbp])
		}
	}
	if !t.intra {
		m.predict()
	}
	for i := 0; i < 6; i++ {
		if cbp>>uint(5-i)&1 == 1 {
			m.block(b, i, t.intra)
		}
	}
	e.states = append(e.states, HashInts(uint64(m.q), uint64(m.dc[0]), uint64(m.dc[1]), uint64(m.dc[2]), HashInts(uint64(m.pmv[0][0][0]), uint64(m.pmv[0][0][1]), uint64(m.pmv[0][1][0]), uint64(m.pmv[0][1][1]), uint64(m.pmv[1][0][0]), uint64(m.pmv[1][0][1]), uint64(m.pmv[1][1][0]), uint64(m.pmv[1][1][1])), b2u(m.fwd), b2u(m.bwd), uint64(p.kind), b2u(t.intra)))
}

func (m *vMBState) vector(s int, b *vMB) {
	if !b.fmv || b.intra {
		m.component(0, s, b.mv[s], b.alt, 0)
		m.pmv[1][s] = m.pmv[0][s]
		return
	}
	for r, v := range [2][2]int{b.mv[s], b.mv2[s]} {
		m.e.Put(uint64(b.sel[r][s]), 1)
		m.component(r, s, v, b.alt, 1)
	}
}

// component writes a vector. In a frame picture the predictor of a field vector counts lines of
// the frame.
func (m *vMBState) component(r, s int, vec [2]int, alt bool, field int) {
	for t, v := range vec {
		f := 1 << uint(m.p.fcode[s][t]-1)
		if v < -16*f || v > 16*f-1 {
			panic(fmt.Sprintf("harness: vector %d out of the range of f_code %d", v, m.p.fcode[s][t]))
		}
		pred := m.pmv[r][s][t]
		if t == 1 && field == 1 {
			if pred %= 2; pred < 0 {
				pred = 1
			}
			pred = (m.pmv[r][s][t] - pred) / 2
		}
		d := v - pred
		for d < -16*f {
			d += 32 * f
		}
		for d > 16*f {
			d -= 32 * f
		}
		if alt && (d == 16*f || d == -16*f) {
			d = -d
		}
		m.code(d, f, m.p.fcode[s][t]-1)
		m.mv[r][s][t] = v
		if t == 1 && field == 1 {
			v *= 2
		}
		m.pmv[r][s][t] = v
	}
}

func (m *vMBState) code(d, f, rsize int) {
	if d == 0 {
		m.e.code('m', tableB10[0])
		return
	}
	a := max(d, -d)
	m.e.signed('m', tableB10[(a-1)/f+1], d < 0)
	m.e.Put(uint64((a-1)%f), rsize)
}

// plane i of a frame: samples, width
func (f *vFrame) plane(i int) ([]byte, int) {
	switch i {
	case 4:
		return f.cb, f.w / 2
	case 5:
		return f.cr, f.w / 2
	}
	return f.y, f.w
}

// at is a sample of a plane in half sample coordinates.
func sampleAt(pl []byte, w, hx, hy int) int {
	x, y := hx>>1, hy>>1
	h := len(pl) / w
	mx, my := x+hx&1, y+hy&1
	if x < 0 || y < 0 || mx >= w || my >= h {
		panic("harness: prediction from outside of the reference picture")
	}
	switch {
	case hx&1 == 0 && hy&1 == 0:
		return int(pl[y*w+x])
	case hy&1 == 0:
		return (int(pl[y*w+x]) + int(pl[y*w+x+1]) + 1) >> 1
	case hx&1 == 0:
		return (int(pl[y*w+x]) + int(pl[(y+1)*w+x]) + 1) >> 1
	}
	return (int(pl[y*w+x]) + int(pl[y*w+x+1]) + int(pl[(y+1)*w+x]) + int(pl[(y+1)*w+x+1]) + 2) >> 2
}

// predict writes the prediction of the current macroblock to the frame.
func (m *vMBState) predict() {
	if m.e.blind {
		return
	}
	var ref [2]*vFrame
	if m.p.kind == 2 {
		ref[0] = m.e.refs[1]
	} else {
		ref[0], ref[1] = m.e.refs[0], m.e.refs[1]
	}
	use := [2]bool{m.fwd, m.bwd}
	for _, i := range []int{0, 4, 5} {
		n := 16
		if i >= 4 {
			n = 8
		}
		dst, w := m.f.plane(i)
		for y := 0; y < n; y++ {
			for x := 0; x < n; x++ {
				px, py := m.col*n+x, m.row*n+y
				sum, k := 0, 0
				for s := 0; s < 2; s++ {
					if !use[s] {
						continue
					}
					if ref[s] == nil {
						panic("harness: prediction from a missing reference")
					}
					r := 0
					if m.fmv {
						r = y % 2
					}
					vx, vy := m.mv[r][s][0], m.mv[r][s][1]
					if i >= 4 {
						vx, vy = vx/2, vy/2
					}
					pl, rw := ref[s].plane(i)
					if m.fmv {
						// a field is a picture of every other line
						pl = ref[s].field(i, m.sel[r][s])
						sum += sampleAt(pl, rw, 2*px+vx, 2*(py/2)+vy)
					} else {
						sum += sampleAt(pl, rw, 2*px+vx, 2*py+vy)
					}
					k++
				}
				if k == 2 {
					sum = (sum + 1) >> 1
				}
				dst[py*w+px] = byte(sum)
			}
		}
	}
}

func (m *vMBState) block(b *vMB, i int, intra bool) {
	e, p := m.e, m.p
	blk := &b.blk[i]
	var qf [64]int // raster order
	n := 0
	cc := 0
	if i >= 4 {
		cc = i - 3
	}
	if intra {
		d := blk.dc - m.dc[cc]
		m.dc[cc] = blk.dc
		a := d
		if d < 0 {
			a = -d
		}
		size := 0
		for a>>uint(size) != 0 {
			size++
		}
		if cc == 0 {
			e.code('l', tableB12[size])
		} else {
			e.code('h', tableB13[size])
		}
		if d < 0 {
			d += 1<<uint(size) - 1
		}
		e.Put(uint64(d), size)
		qf[0] = blk.dc
		n = 1
	}
	table, eob, id := tableB14, codeEOB14, byte('4')
	if intra && p.vlcfmt == 1 {
		table, eob, id = tableB15, codeEOB15, '5'
	}
	for _, c := range blk.co {
		a := max(c.level, -c.level)
		v, ok := table[runLevel{c.run, a}]
		t := id
		if n == 0 {
			t = '0'
		}
		switch {
		case n == 0 && c.run == 0 && a == 1 && !c.esc:
			e.signed(t, vcode{1, 1}, c.level < 0)
		case ok && !c.esc:
			e.signed(t, v, c.level < 0)
		default:
			e.code(t, codeEscape)
			e.Put(uint64(c.run), 6).Put(uint64(c.level)&0xfff, 12)
		}
		n += c.run
		if n > 63 {
			panic("harness: too many coefficients")
		}
		qf[scans[p.alt][n]] = c.level
		n++
	}
	e.code(id, eob)

	W := &e.W[1]
	if intra {
		W = &e.W[0]
	}
	scale := quantScale(p.qtype, m.q)
	var F [64]int32
	sum := 0
	for k := range qf {
		if qf[k] == 0 {
			continue
		}
		var v int
		switch {
		case intra && k == 0:
			v = qf[0] * (8 >> uint(p.dcPrec))
		case intra:
			v = 2 * qf[k] * W[k] * scale / 32
		case qf[k] > 0:
			v = (2*qf[k] + 1) * W[k] * scale / 32
		default:
			v = (2*qf[k] - 1) * W[k] * scale / 32
		}
		v = min(max(v, -2048), 2047)
		sum += v
		F[k] = int32(v)
	}
	if sum%2 == 0 {
		F[63] ^= 1 // toggles the least significant bit
	}
	idctRef(&F)

	pl, w := m.f.plane(i)
	bx, by, step := m.col*16+i%2*8, m.row*16+i/2*8, 1
	if i >= 4 {
		bx, by = m.col*8, m.row*8
	} else if b.field {
		by, step = m.row*16+i/2, 2
	}
	for y := 0; y < 8; y++ {
		for x := 0; x < 8; x++ {
			at := &pl[(by+y*step)*w+bx+x]
			v := int(F[y*8+x])
			if !intra {
				v += int(*at)
			}
			*at = byte(min(max(v, 0), 255))
		}
	}
}

// ---------------------------------------------------------------- comparison

// diffFrame compares a returned frame with the reconstruction.
func diffFrame(img *image.YCbCr, f *vFrame) string {
	if img == nil {
		return "no frame"
	}
	if img.Rect != image.Rect(0, 0, f.w, f.h) {
		return fmt.Sprintf("the frame covers %v, expected %dx%d", img.Rect, f.w, f.h)
	}
	if img.SubsampleRatio != image.YCbCrSubsampleRatio420 {
		return "the frame is not subsampled 4:2:0"
	}
	for y := 0; y < f.h; y++ {
		o := img.YOffset(0, y)
		got, want := img.Y[o:o+f.w], f.y[y*f.w:y*f.w+f.w]
		if string(got) != string(want) {
			for x := range got {
				if got[x] != want[x] {
					return fmt.Sprintf("luma sample (%d,%d) is %d, expected %d", x, y, got[x], want[x])
				}
			}
		}
	}
	cw := f.w / 2
	for y := 0; y < f.h/2; y++ {
		o := img.COffset(0, 2*y)
		for k, pl := range [][]byte{img.Cb[o : o+cw], img.Cr[o : o+cw]} {
			want := f.cb
			if k == 1 {
				want = f.cr
			}
			want = want[y*cw : y*cw+cw]
			if string(pl) != string(want) {
				for x := range pl {
					if pl[x] != want[x] {
						return fmt.Sprintf("chroma sample %d (%d,%d) is %d, expected %d", k+1, x, y, pl[x], want[x])
					}
				}
			}
		}
	}
	return ""
}

// finish ends the stream and returns it with the expected frames.
func (e *vEnc) finish() ([]byte, []*vFrame) {
	e.end()
	return e.b, e.out
}

// checkStream decodes a stream and compares frames and ending.
func checkStream(x *X, r io.Reader, stream []byte, want []*vFrame) {
	if d := framesDiff(r, want); d != "" {
		noteStream(x, stream)
		x.Fail("%s", d)
	}
}

// framesDiff tells how what is decoded differs from the frames wanted.
func framesDiff(r io.Reader, want []*vFrame) string {
	v := video.NewVideoSequence(r)
	for i, f := range want {
		img, err := v.Next()
		if err != nil {
			return fmt.Sprintf("frame %d of %d: %v", i, len(want), err)
		}
		if d := diffFrame(img, f); d != "" {
			return fmt.Sprintf("frame %d of %d: %s", i, len(want), d)
		}
	}
	if img, err := v.Next(); img != nil || err != video.EOS {
		return fmt.Sprintf("after the last frame: %v, expected the end of the sequence", errName(err))
	}
	return ""
}

func noteStream(x *X, b []byte) { x.Note("stream", "%s", hexs(b)) }

func (e *vEnc) check(x *X) {
	b, want := e.finish()
	checkStream(x, &source{data: b}, b, want)
	for _, s := range e.states {
		x.Visit(s)
	}
	if x.Noting() {
		x.Note("stream", "%d bytes: %s", len(b), hexs(b[:min(len(b), 400)]))
		x.Note("frames", "%d", len(want))
	}
}

func newSeq(b []byte) *video.VideoSequence { return video.NewVideoSequence(&source{data: b}) }
