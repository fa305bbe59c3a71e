package mc

import (
	"fmt"

	"github.com/32bitkid/mpeg/video"
)

func init() {
	register(&Check{
		ID: "V01", Level: "model_checking",
		Rule: "every coding parameter combination x quantiser code x coefficient position x level class, every coefficient pair, every DC difference of every precision, every slice partition and macroblock position is encoded and the decoded samples compared with an independent reconstruction; states are (quantiser, DC and vector predictors) after each macroblock",
		Assume: []string{
			"coefficient blocks are covered by single positions, pairs and dense patterns, not by all 4095^64 blocks",
			"the inverse transform is the integer transform of the reference decoder, as the library documents",
		},
		Spaces: v01spaces, SelfTest: selfTestVideo,
	})
	register(&Check{
		ID: "V02", Level: "model_checking",
		Rule: "every code word of every table is decoded in a picture whose samples and further parsing depend on its value and length, and every minimal invalid bit pattern is inserted before and substituted for every code word of I, P and B pictures; states are (quantiser, predictors) after each macroblock",
		Assume: []string{
			"code tables of the model were written independently and validated by prefix and completeness sums",
			"coded block pattern 0 and the escape levels 0 and -2048, which the standard forbids without giving them to anything else, are not judged",
		},
		Spaces: v02spaces, SelfTest: selfTestVideo,
	})
}

// scramble is a fixed mixing function for picture content.
func scramble(vs ...int) int {
	h := uint64(0x9e3779b97f4a7c15)
	for _, v := range vs {
		h = mix(h, uint64(v))
	}
	return int(h>>20) & 0x7fffffff
}

type vParams struct{ dcPrec, qtype, vlcfmt, alt, field int }

func pickParams(x *X) vParams {
	n := x.Choose(64)
	return vParams{n & 3, n >> 2 & 1, n >> 3 & 1, n >> 4 & 1, n >> 5 & 1}
}

func (q vParams) pic(kind, tref int) *vPic {
	p := &vPic{kind: kind, tref: tref, dcPrec: q.dcPrec, qtype: q.qtype, vlcfmt: q.vlcfmt, alt: q.alt, fpfd: 1, progf: 1}
	if q.field == 1 {
		p.fpfd, p.progf = 0, 0
	}
	for s := 0; s < 2; s++ {
		for t := 0; t < 2; t++ {
			if kind > 1 && s < kind-1 {
				p.fcode[s][t] = 2
			}
		}
	}
	return p
}

// rows fills a picture with one slice per row.
func (p *vPic) rows(wMB, hMB, q int, mb func(col, row int) vMB) *vPic {
	for r := 0; r < hMB; r++ {
		s := vSlice{row: r, q: q}
		for c := 0; c < wMB; c++ {
			s.mbs = append(s.mbs, mb(c, r))
		}
		p.slices = append(p.slices, s)
	}
	return p
}

// texture is an intra macroblock of varied content.
func texture(p *vPic, seed ...int) vMB {
	b := vMB{intra: true}
	h := scramble(seed...)
	b.field = p.fpfd == 0 && h&1 == 1
	for i := range b.blk {
		k := &b.blk[i]
		g := scramble(h, i)
		k.dc = (40 + g%150) << uint(p.dcPrec)
		k.co = []vCoef{{run: g >> 8 & 1, level: 3 + g>>10&7}, {run: g >> 13 & 1, level: -5 + g>>15&7*2 - 0}, {run: g >> 18 & 3, level: 3 - g>>20&1*7}}
		for j := range k.co {
			if k.co[j].level == 0 {
				k.co[j].level = 1
			}
		}
	}
	return b
}

func textured(p *vPic, wMB, hMB, q, seed int) *vPic {
	return p.rows(wMB, hMB, q, func(c, r int) vMB { return texture(p, seed, c, r) })
}

// newVid starts a stream with a sequence header and a group.
func newVid(s vSeqHdr) *vEnc {
	e := &vEnc{}
	e.seq(s)
	e.group(vGOP{closed: 1})
	return e
}

// progressive sequences of the given size in macroblocks
func mbSize(w, h int) vSeqHdr { return vSeqHdr{w: 16 * w, h: 16 * h, progressive: 1} }

var v01levels = []int{1, -1, 2, -2, 3, -7, 18, -40, 41, 255, -256, 1000, 2047, -2047}

func v01spaces(thorough bool) []*Space {
	var out []*Space
	// every block of one picture has one coefficient; n numbers (level, position)
	out = append(out, &Space{Name: "single coefficients", Body: func(x *X) {
		q := pickParams(x)
		code := 1 + x.Choose(31)
		step := 1
		e := newVid(mbSize(3, 3))
		n := 0
		tref := 0
		for n < 63*len(v01levels) {
			p := q.pic(1, tref)
			tref++
			p.rows(3, 3, code, func(c, r int) vMB {
				b := vMB{intra: true, field: q.field == 1 && (c+r)%2 == 0}
				for i := range b.blk {
					b.blk[i].dc = (128 + n%50) << uint(q.dcPrec)
					if n < 63*len(v01levels) {
						b.blk[i].co = []vCoef{{run: n / len(v01levels), level: v01levels[n%len(v01levels)]}}
					}
					n += step
				}
				return b
			})
			e.pic(p)
		}
		x.Inner(int64(tref * 54))
		e.check(x)
	}})
	out = append(out, &Space{Name: "coefficient pairs", Body: func(x *X) {
		q := pickParams(x)
		a := x.Choose(62)
		lv := [][2]int{{1, 1}, {1, -1}, {-3, 2}, {-5, -5}, {200, -170}, {2047, 2047}, {-2047, 2047}}
		e := newVid(mbSize(3, 3))
		n, total := 0, (62-a)*len(lv)
		tref := 0
		for n < total {
			p := q.pic(1, tref)
			tref++
			p.rows(3, 3, 2+a%29, func(c, r int) vMB {
				b := vMB{intra: true}
				for i := range b.blk {
					b.blk[i].dc = 100
					if n < total {
						l := lv[n%len(lv)]
						b.blk[i].co = []vCoef{{run: a, level: l[0]}, {run: n / len(lv), level: l[1]}}
					}
					n++
				}
				return b
			})
			e.pic(p)
		}
		x.Inner(int64(total))
		e.check(x)
	}})
	// every level at every scale; positions rotate, in the thorough tier all of them are taken
	out = append(out, &Space{Name: "all levels", Body: func(x *X) {
		code := 1 + x.Choose(31)
		cfg := x.Choose(8)
		q := vParams{qtype: cfg & 1, alt: cfg >> 1 & 1, vlcfmt: cfg >> 2 & 1, dcPrec: code & 3}
		turn := 0
		if thorough {
			turn = x.Choose(63)
		} else {
			turn = x.Choose(8) * 8
		}
		e := newVid(mbSize(5, 5))
		tref := 0
		l := 1
		for l < 2048 {
			p := q.pic(1, tref)
			tref++
			p.rows(5, 5, code, func(c, r int) vMB {
				b := vMB{intra: true}
				for i := range b.blk {
					b.blk[i].dc = 128 << uint(q.dcPrec)
					if l < 2048 {
						pos := (l + turn) % 63
						b.blk[i].co = []vCoef{{run: pos, level: l - i%2*2*l}}
						if i%2 == 1 {
							l++
						}
					}
				}
				return b
			})
			e.pic(p)
		}
		x.Inner(4094)
		e.check(x)
	}})
	out = append(out, &Space{Name: "dense blocks", Body: func(x *X) {
		q := pickParams(x)
		code := 1 + x.Choose(31)
		e := newVid(mbSize(3, 2))
		for k := 0; k < 4; k++ {
			p := q.pic(1, k)
			p.rows(3, 2, code, func(c, r int) vMB {
				b := vMB{intra: true, field: q.field == 1 && c != 1}
				for i := range b.blk {
					b.blk[i].dc = (scramble(c, r, i, k) % 255) << uint(q.dcPrec)
					for j := 1; j < 64; j++ {
						v := 0
						switch g := scramble(c, r, i, j, k, code); k {
						case 0:
							v = g%7 - 3
						case 1:
							v = g%41 - 20
						case 2:
							v = (g%2*2 - 1) * 2047
						case 3:
							if j <= 10*(c+3*r)+i {
								v = 1
							}
						}
						if v != 0 {
							b.blk[i].co = append(b.blk[i].co, vCoef{run: 0, level: v})
						} else {
							break
						}
					}
				}
				return b
			})
			e.pic(p)
		}
		x.Inner(4 * 36)
		e.check(x)
	}})
	// all differences of each precision, from both ends and from the middle
	out = append(out, &Space{Name: "DC differences", Body: func(x *X) {
		prec := x.Choose(4)
		top := 1<<uint(8+prec) - 1
		parts := 1 << uint(prec)
		part := x.Choose(parts)
		cfg := x.Choose(4)
		q := vParams{dcPrec: prec, vlcfmt: cfg & 1, field: cfg >> 1}
		e := newVid(mbSize(3, 3))
		d, last := -top+part*(2*top+1)/parts, -top+(part+1)*(2*top+1)/parts
		tref := 0
		for d < last {
			p := q.pic(1, tref)
			tref++
			odd := false
			from, to := 0, 0
			p.rows(3, 3, 8, func(c, r int) vMB {
				// luma and chroma both go from a starting value to that plus d
				b := vMB{intra: true}
				for i := 0; i < 4; i += 2 {
					if d < last {
						lo := max(0, -d)
						hi := min(top, top-d)
						from = []int{lo, hi, (lo + hi) / 2}[d&0xffff%3]
						to = from + d
					}
					b.blk[i].dc, b.blk[i+1].dc = from, to
					if i == 0 && !odd {
						// chroma has one block in a macroblock: it takes two
						b.blk[4].dc, b.blk[5].dc = from, from
					} else if i == 0 {
						b.blk[4].dc, b.blk[5].dc = to, to
					}
					if i == 2 {
						d++
					}
				}
				// redo chroma so that consecutive macroblocks step by the difference
				b.blk[4].dc, b.blk[5].dc = from, to
				odd = !odd
				return b
			})
			e.pic(p)
		}
		x.Inner(int64(tref * 54))
		e.check(x)
	}})
	out = append(out, &Space{Name: "chroma DC differences", Body: func(x *X) {
		prec := x.Choose(4)
		top := 1<<uint(8+prec) - 1
		parts := 2 << uint(prec)
		part := x.Choose(parts)
		q := vParams{dcPrec: prec}
		e := newVid(mbSize(4, 2))
		d, last := -top+part*(2*top+1)/parts, -top+(part+1)*(2*top+1)/parts
		tref := 0
		for d < last {
			p := q.pic(1, tref)
			tref++
			var from int
			p.rows(4, 2, 8, func(c, r int) vMB {
				b := vMB{intra: true}
				lo, hi := max(0, -d), min(top, top-d)
				if c%2 == 0 {
					from = []int{lo, hi, (lo + hi) / 2}[(d+3*top)%3]
					b.blk[4].dc = from
				} else {
					b.blk[4].dc = from + d
				}
				b.blk[5].dc = top - b.blk[4].dc
				for i := 0; i < 4; i++ {
					b.blk[i].dc = 128 << uint(prec)
				}
				if c%2 == 1 && d < last-1 {
					d++
				}
				return b
			})
			if d == last-1 {
				d++
			}
			e.pic(p)
		}
		x.Inner(int64(tref * 16))
		e.check(x)
	}})
	out = append(out, &Space{Name: "all DC pairs at 8 bits", Body: func(x *X) {
		a := x.Choose(256)
		e := newVid(mbSize(4, 4))
		b := 0
		for tref := 0; b < 256; tref++ {
			p := vParams{}.pic(1, tref)
			p.rows(4, 4, 8, func(c, r int) vMB {
				m := vMB{intra: true}
				m.blk[0].dc, m.blk[1].dc, m.blk[2].dc, m.blk[3].dc = a, b&255, a, (b+1)&255
				m.blk[4].dc, m.blk[5].dc = a, b&255
				if c%2 == 1 {
					m.blk[4].dc, m.blk[5].dc = b&255, a
				}
				b += 2
				return m
			})
			e.pic(p)
		}
		x.Inner(256)
		e.check(x)
	}})
	// slices: every partition of every row of pictures up to 6 macroblocks wide
	out = append(out, &Space{Name: "slice partitions", Body: func(x *X) {
		w := 1 + x.Choose(6)
		h := 1 + x.Choose(3)
		e := newVid(mbSize(w, h))
		p := vParams{vlcfmt: x.Choose(2)}.pic(1, 0)
		flag := x.Choose(3)
		free := min(h, 2)
		part := make([]int, h)
		for r := 0; r < free; r++ {
			part[r] = x.Choose(1 << uint(w-1))
		}
		if free < h {
			part[h-1] = part[0] ^ (1<<uint(w-1) - 1)
		}
		for r := 0; r < h; r++ {
			start := 0
			for c := 1; c <= w; c++ {
				if c < w && part[r]>>uint(c-1)&1 == 0 {
					continue
				}
				s := vSlice{row: r, q: 3 + (start+r)%7, intra: flag}
				if flag == 2 {
					s.extra = make([]byte, start%3)
				}
				for k := start; k < c; k++ {
					b := texture(p, r, k, 5)
					if k == start {
						b.skip = start
					}
					s.mbs = append(s.mbs, b)
				}
				p.slices = append(p.slices, s)
				start = c
			}
		}
		e.pic(p)
		e.check(x)
	}})
	out = append(out, &Space{Name: "positions in large pictures", Body: func(x *X) {
		w := Pick(x, []int{1, 2, 7, 33, 34, 35, 45, 67, 120})
		h := Pick(x, []int{1, 2, 9, 36, 68})
		fmtc := x.Choose(2)
		s := mbSize(w, h)
		s.progressive = x.Choose(2)
		e := newVid(s)
		p := vParams{vlcfmt: fmtc, field: fmtc}.pic(1, 0)
		textured(p, w, h, 5, w*h)
		e.pic(p)
		x.Inner(int64(w * h))
		e.check(x)
	}})
	out = append(out, &Space{Name: "sequences of pictures with different parameters", Body: func(x *X) {
		e := newVid(mbSize(2, 2))
		for k := 0; k < 2; k++ {
			q := pickParams(x)
			p := q.pic(1, k)
			e.pic(textured(p, 2, 2, 4+k*9, k))
		}
		e.check(x)
	}})
	return out
}

// ---------------------------------------------------------------- V02

// motionCodes decodes every motion code with its residuals, for every f_code, component and
// direction, from a predictor of zero and back to it.
func motionCodes(thorough bool) *Space {
	return &Space{Name: "motion codes", Body: func(x *X) {
		dir := x.Choose(3) // forward in P, forward and backward in B pictures
		t := x.Choose(2)
		fc := 1 + x.Choose(9)
		alt := x.Bool()
		f := 1 << uint(fc-1)
		// every vector of small ranges, the ends of every code of large ones
		var vecs []int
		for d := 1; d <= 16*f; d++ {
			if k := (d - 1) % f; f <= 4 || k < 2 || k == f-1 || k == f/2 {
				vecs = append(vecs, -d)
				if d < 16*f {
					vecs = append(vecs, d)
				}
			}
		}
		margin := (16*f + 31) / 32
		const across = 8
		w, h := 2*margin+across+1, 1
		if t == 1 {
			w, h = across+1, 2*margin+1
			if h*16 > 2800 {
				return
			}
		}
		e := newVid(mbSize(w, h))
		e.pic(textured(vParams{}.pic(1, 0), w, h, 4, fc))
		if dir == 1 || dir == 2 {
			e.pic(textured(vParams{}.pic(1, 1+(len(vecs)+3)/4), w, h, 4, fc+20))
		}
		n, tref := 0, 1
		for n < len(vecs) {
			kind, s := 2, 0
			if dir > 0 {
				kind, s = 3, dir-1
			}
			p := vParams{}.pic(kind, tref)
			tref++
			for i := range p.fcode {
				p.fcode[i] = [2]int{1, 1}
			}
			p.fcode[s][t] = fc
			blank := vMB{fwd: s == 0, bwd: s == 1}
			for r := 0; r < h; r++ {
				sl := vSlice{row: r, q: 4, mbs: []vMB{blank}}
				at, size := 0, w
				if t == 1 && r == margin {
					at = 1
				} else if t == 0 {
					at, size = margin, margin+across+1
					if margin > 1 {
						b := blank
						b.skip = margin - 2
						sl.mbs = append(sl.mbs, b)
					}
				}
				if at > 0 {
					for c := at; c < size; c++ {
						b := blank
						b.alt = alt
						if (c-at)%2 == 0 && c-at < across && n < len(vecs) {
							b.mv[s][t] = vecs[n]
							n++
						}
						sl.mbs = append(sl.mbs, b)
					}
				}
				if left := w - 1 - max(size-1, 0); t == 0 && left > 0 {
					b := blank
					b.skip = left - 1
					sl.mbs = append(sl.mbs, b)
				} else if at == 0 {
					b := blank
					b.skip = w - 2
					sl.mbs = append(sl.mbs, b)
				}
				p.slices = append(p.slices, sl)
			}
			e.pic(p)
		}
		x.Inner(int64(len(vecs)))
		e.check(x)
	}}
}

// longSkips are pictures with runs of skipped macroblocks of all lengths in wide pictures.
func longSkips(kind int, thorough bool) *Space {
	return &Space{Name: "long runs of skipped macroblocks in " + string("IPB"[kind-1]) + " pictures", Body: func(x *X) {
		width := []int{130, 1023}[x.Choose(2)]
		n := 0
		if width == 130 || thorough {
			n = x.Choose(width - 1)
		} else {
			var some []int
			for k := 33; k < width-1; k += 33 {
				some = append(some, k-1, k, k+1)
			}
			n = Pick(x, append(some, 63, 64, 127, 128, 255, 256, 257, 511, 512, 513, 1021))
		}
		n = min(n, width-2)
		from := []int{1, width - 2 - n, (width - 2 - n) / 2}[x.Choose(3)]
		e := newVid(mbSize(width, 2))
		e.pic(textured(vParams{}.pic(1, 0), width, 2, 4, n))
		if kind == 3 {
			e.pic(textured(vParams{}.pic(1, 2), width, 2, 4, n+1))
		}
		p := vParams{}.pic(kind, 1)
		for r := 0; r < 2; r++ {
			s := vSlice{row: r, q: 4}
			b := vMB{fwd: true, cbp: 9 + r*4, mv: [2][2]int{{0, 1 - 2*r}, {0, 2 - 4*r}}}
			if kind == 3 {
				b.fwd, b.bwd = (n+r)%3 != 0, (n+r)%3 != 1
			}
			for i := range b.blk {
				b.blk[i].co = []vCoef{{level: 5 + i}}
			}
			b.mv[0][0], b.mv[1][0] = 1, 2
			for c := 0; c < width; c++ {
				if c >= from && c < from+n {
					continue
				}
				m := b
				if c == from+n {
					m.skip = n
				}
				if c == width-1 {
					m.mv[0][0], m.mv[1][0] = -1, -2
				}
				s.mbs = append(s.mbs, m)
			}
			p.slices = append(p.slices, s)
		}
		e.pic(p)
		e.check(x)
	}}
}

func v02spaces(thorough bool) []*Space {
	var out []*Space
	// every escape code and every short code of both tables, in first and later place
	out = append(out, &Space{Name: "coefficient codes", Body: func(x *X) {
		kind := x.Choose(3) // intra B-14, intra B-15, non-intra
		esc := x.Bool()
		run := x.Choose(64)
		q := vParams{vlcfmt: kind & 1, alt: run & 1}
		table := tableB14
		if kind == 1 {
			table = tableB15
		}
		var levels []int
		if esc {
			for l := 1; l < 2048; l++ {
				{
					levels = append(levels, l, -l)
				}
			}
		} else {
			for l := 1; l <= 40; l++ {
				if _, ok := table[runLevel{run, l}]; ok {
					levels = append(levels, l, -l)
				}
			}
		}
		if len(levels) == 0 || (kind != 2 && run > 62) {
			return
		}
		e := newVid(mbSize(3, 3))
		tref := 0
		if kind == 2 {
			e.pic(textured(vParams{}.pic(1, 0), 3, 3, 4, 77))
			tref++
		}
		n := 0
		for n < len(levels) {
			k := 1
			if kind == 2 {
				k = 2
			}
			p := q.pic(k, tref)
			tref++
			p.rows(3, 3, 1+run%31, func(c, r int) vMB {
				b := vMB{intra: kind != 2, cbp: 63}
				for i := range b.blk {
					b.blk[i].dc = 128
					l := levels[n%len(levels)]
					n++
					co := vCoef{run: run, level: l, esc: esc}
					// a code of known meaning follows; in the other half one precedes too
					first := kind != 2 || n/len(levels) == 0
					if !first || n%2 == 0 && kind != 2 {
						if run < 62 {
							b.blk[i].co = append(b.blk[i].co, vCoef{level: 2})
						}
					}
					b.blk[i].co = append(b.blk[i].co, co)
					if run < 60 {
						b.blk[i].co = append(b.blk[i].co, vCoef{run: 1, level: 3})
					}
				}
				return b
			})
			e.pic(p)
		}
		x.Inner(int64(len(levels)))
		e.check(x)
	}})
	out = append(out, &Space{Name: "every ordered pair of short codes", Body: func(x *X) {
		kind := x.Choose(3)
		q := vParams{vlcfmt: kind & 1}
		table := tableB14
		if kind == 1 {
			table = tableB15
		}
		// a fixed order of the table
		var keys []runLevel
		for r := 0; r < 32; r++ {
			for l := 1; l <= 40; l++ {
				if _, ok := table[runLevel{r, l}]; ok {
					keys = append(keys, runLevel{r, l})
				}
			}
		}
		a := keys[x.Choose(len(keys))]
		e := newVid(mbSize(3, 2))
		tref := 0
		if kind == 2 {
			e.pic(textured(vParams{}.pic(1, 0), 3, 2, 4, 78))
			tref++
		}
		n := 0
		for n < len(keys) {
			k := 1
			if kind == 2 {
				k = 2
			}
			p := q.pic(k, tref)
			tref++
			p.rows(3, 2, 3, func(c, r int) vMB {
				b := vMB{intra: kind != 2, cbp: 63}
				for i := range b.blk {
					b.blk[i].dc = 90
					f := keys[n%len(keys)]
					s := 1 - n&1*2
					n++
					b.blk[i].co = []vCoef{{run: a.run, level: -s * a.level}}
					if a.run+f.run < 62 {
						b.blk[i].co = append(b.blk[i].co, vCoef{run: f.run, level: s * f.level})
					}
				}
				return b
			})
			e.pic(p)
		}
		x.Inner(int64(n))
		e.check(x)
	}})
	out = append(out, &Space{Name: "address increments", Body: func(x *X) {
		kind := 1 + x.Choose(3)
		width := 110
		e := newVid(mbSize(width, 1))
		e.pic(textured(vParams{}.pic(1, 0), width, 1, 4, 3))
		tref := 1
		if kind == 3 {
			e.pic(textured(vParams{}.pic(1, 2), width, 1, 4, 4))
		} else if kind == 1 {
			tref = 1
		}
		inc := 1 + x.Choose(107)
		p := vParams{}.pic(kind, tref)
		b := vMB{fwd: true, mv: [2][2]int{{3, 0}}, cbp: 5}
		b.blk[3].co = []vCoef{{level: 4}}
		b.blk[5].co = []vCoef{{level: -4}}
		if kind == 1 {
			// the increment positions the first macroblock of a slice
			s1, s2 := vSlice{q: 3}, vSlice{q: 4}
			for c := 0; c < width; c++ {
				t := texture(p, c, 9)
				if c < inc {
					s1.mbs = append(s1.mbs, t)
				} else {
					if c == inc {
						t.skip = c
					}
					s2.mbs = append(s2.mbs, t)
				}
			}
			p.slices = []vSlice{s1, s2}
		} else {
			s := vSlice{q: 3, mbs: []vMB{b}}
			c := b
			c.mv[0] = [2]int{-5, 0}
			c.skip = inc - 1
			s.mbs = append(s.mbs, c)
			if inc < width-1 {
				d := b
				d.skip = width - 2 - inc
				d.mv[0] = [2]int{-2, 0}
				s.mbs = append(s.mbs, d)
			}
			p.slices = []vSlice{s}
		}
		e.pic(p)
		e.check(x)
	}})
	out = append(out, motionCodes(thorough), longSkips(2, thorough), longSkips(3, thorough))
	out = append(out, &Space{Name: "DC codes", Body: func(x *X) {
		prec := x.Choose(4)
		top := 255<<uint(prec) | 1<<uint(prec) - 1
		base := []int{1, top / 2, top}[x.Choose(3)]
		field := x.Choose(2)
		e := newVid(mbSize(4, 4))
		tref := 0
		for v := 1; v <= top; {
			p := vParams{dcPrec: prec, field: field}.pic(1, tref)
			tref++
			p.rows(4, 4, 7, func(c, r int) vMB {
				b := vMB{intra: true, field: field == 1 && c%2 == 1}
				// luma: base, v, v+1, base; chroma: base or one of the values
				d := []int{base, v, v + 1, base, v + 2, v + 3}
				if c%2 == 1 {
					d[4], d[5] = base, base
					v += 2
				}
				v += 1
				for i := range b.blk {
					b.blk[i].dc = min(d[i], top)
					if (v+i)%3 == 0 {
						b.blk[i].co = []vCoef{{level: 1}}
					}
				}
				return b
			})
			e.pic(p)
		}
		x.Inner(int64(top))
		e.check(x)
	}})
	// all macroblock types, in ordered pairs
	out = append(out, &Space{Name: "pairs of macroblock types", Body: func(x *X) {
		kind := 1 + x.Choose(3)
		q := vParams{field: x.Choose(2)}
		conceal := x.Choose(2)
		var types []mbType
		for n := 0; n < 32; n++ {
			t := mbType{quant: n&1 != 0, fwd: n&2 != 0, bwd: n&4 != 0, pattern: n&8 != 0, intra: n&16 != 0}
			if _, ok := tableMB[kind][t]; ok {
				types = append(types, t)
			}
		}
		a := types[x.Choose(len(types))]
		e := newVid(mbSize(5, 2))
		e.pic(textured(vParams{}.pic(1, 0), 5, 2, 4, 3))
		if kind == 3 {
			e.pic(textured(vParams{}.pic(1, 1+len(types)), 5, 2, 4, 4))
		}
		for i, t := range types {
			p := q.pic(kind, 1+i)
			p.conceal = conceal
			if kind == 1 && conceal == 1 {
				p.fcode[0] = [2]int{2, 1}
			}
			p.rows(5, 2, 6, func(c, r int) vMB {
				u := a
				if (c+r)%2 == 1 {
					u = t
				}
				b := texture(p, i, c, r)
				b.intra, b.fwd, b.bwd = u.intra, u.fwd, u.bwd
				b.field = q.field == 1 && c > 2
				if u.quant {
					b.q = 1 + (c*5+r)%31
				}
				if u.pattern {
					b.cbp = 1 + (c*17+r*5+i)%63
				}
				if c > 0 && c < 4 {
					b.mv = [2][2]int{{c - 2, 1 - r*2}, {3 - c, 2 - r*4}}
				}
				return b
			})
			e.pic(p)
		}
		x.Inner(int64(len(types)))
		e.check(x)
	}})
	out = append(out, &Space{Name: "coded block patterns and macroblock types", Body: func(x *X) {
		kind := 2 + x.Choose(2)
		cbp := 1 + x.Choose(63)
		q := vParams{field: x.Choose(2)}
		e := newVid(mbSize(4, 2))
		e.pic(textured(vParams{}.pic(1, 0), 4, 2, 4, 3))
		types := []mbType{}
		for _, fb := range [][2]bool{{false, false}, {true, false}, {false, true}, {true, true}} {
			for _, qu := range []bool{false, true} {
				t := mbType{quant: qu, fwd: fb[0], bwd: fb[1], pattern: true}
				if _, ok := tableMB[kind][t]; ok {
					types = append(types, t)
				}
			}
		}
		if kind == 3 {
			e.pic(textured(vParams{}.pic(1, 1+len(types)), 4, 2, 4, 4))
		}
		for i, t := range types {
			p := q.pic(kind, 1+i)
			p.rows(4, 2, 6, func(c, r int) vMB {
				b := vMB{fwd: t.fwd, bwd: t.bwd, cbp: (cbp+c*r)%63 + 1, field: q.field == 1 && c%2 == 0}
				if c < 2 {
					b.cbp = cbp
				}
				if t.quant {
					b.q = 1 + (c+4*r+cbp)%31
				}
				// vectors stay inside of the picture
				b.mv = [2][2]int{{c%2*-2 + 1, 1 - r*2}, {2 - c%2*3, r * -1}}
				if c == 0 {
					b.mv[0][0], b.mv[1][0] = 1, 2
				} else if c == 3 {
					b.mv[0][0], b.mv[1][0] = -1, -2
				}
				for j := range b.blk {
					b.blk[j].co = []vCoef{{run: j, level: 2 + j}}
				}
				return b
			})
			e.pic(p)
		}
		e.check(x)
	}})
	out = append(out, &Space{Name: "non-codes", Body: func(x *X) {
		kind := 1 + x.Choose(3)
		fm := x.Choose(2)
		conceal := 0
		if x.Bool() {
			conceal = 1
		}
		e, start := v02base(kind, fm, conceal)
		el := e.elems[start:]
		el = el[:len(el)]
		k := x.Choose(len(el))
		bad := invalidPrefixes(codeSet(el[k].table), 17)
		if len(bad) == 0 {
			return
		}
		replace := x.Choose(2)
		b, _ := e.finish()
		frames := len(e.out)
		for _, c := range bad {
			for _, tail := range []vcode{{0, 0}, {1, 1}, {0x15, 5}} {
				w := &BW{}
				pos := el[k].pos
				copyBits(w, b, 0, pos)
				w.Put(c.v, c.n).Put(tail.v, tail.n)
				if replace == 1 {
					pos += el[k].n
				}
				copyBits(w, b, pos, len(b)*8)
				w.Align()
				if el[k].table == 'a' && bits(w.b, el[k].pos, 23) == 0 {
					continue // the end of the slice
				}
				// whole streams follow, so that running out of data is not what stops the decoder
				s := append(append([]byte{}, w.b...), b...)
				v := video.NewVideoSequence(&source{data: s})
				x.Inner(1)
				got := 0
				var err error
				for err == nil {
					_, err = v.Next()
					if err == nil {
						got++
					}
				}
				if got >= frames {
					noteStream(x, s)
					x.Fail("with the non-code %0*b at bit %d (table %c) all frames are returned", c.n, c.v, el[k].pos, el[k].table)
				}
				if err == video.EOS {
					noteStream(x, s)
					x.Fail("with the non-code %0*b at bit %d (table %c) decoding ends without error", c.n, c.v, el[k].pos, el[k].table)
				}
			}
		}
		x.Visit(HashInts(uint64(kind), uint64(fm), uint64(conceal), uint64(k), uint64(replace)))
	}})
	return out
}

func copyBits(w *BW, b []byte, from, to int) {
	for ; from < to && from%8 != 0; from++ {
		w.Put(bits(b, from, 1), 1)
	}
	for ; from+8 <= to; from += 8 {
		w.Put(uint64(b[from/8]), 8)
	}
	for ; from < to; from++ {
		w.Put(bits(b, from, 1), 1)
	}
}

// v02base is a stream whose last coded picture has macroblocks of all kinds; start is its
// first code word.
func v02base(kind, fm, conceal int) (*vEnc, int) {
	e := newVid(mbSize(4, 2))
	q := vParams{vlcfmt: fm, field: fm}
	tref := 0
	if kind > 1 {
		e.pic(textured(vParams{}.pic(1, 0), 4, 2, 4, 3))
		tref = 1
	}
	if kind > 2 {
		e.pic(textured(vParams{}.pic(1, 2), 4, 2, 4, 4))
	}
	start := len(e.elems)
	p := q.pic(kind, tref)
	p.conceal = conceal
	if conceal == 1 {
		p.fcode[0] = [2]int{2, 1}
	}
	p.rows(4, 2, 6, func(c, r int) vMB {
		b := texture(p, c, r, 50)
		b.mv[0] = [2]int{c*3 - 7, r - 1}
		if kind == 1 || (c == 1 && r == 0) {
			if c == 2 {
				b.q = 9
			}
			return b
		}
		b = vMB{fwd: true, bwd: kind == 3 && (c+r)%2 == 0, cbp: 33, field: fm == 1 && c == 1}
		if c == 2 {
			b.fwd, b.bwd = kind == 3 && r == 0, kind == 3 && r == 1
		}
		if c == 3 {
			b.q = 12
		}
		b.mv = [2][2]int{{1 - c%2*3, 2 - r*4}, {-1 + c%2, 1 - r*3}}
		if c == 0 {
			b.mv = [2][2]int{{5, 0}, {4, 0}}
		}
		b.blk[0].co = []vCoef{{level: 1}, {run: 2, level: -3}}
		b.blk[5].co = []vCoef{{run: 1, level: 4}, {run: 33, level: 70, esc: true}}
		if r == 1 && c == 3 {
			b.skip = 0
		}
		return b
	})
	e.pic(p)
	if len(e.elems) == start {
		panic(fmt.Sprint("harness: nothing recorded"))
	}
	return e, start
}
