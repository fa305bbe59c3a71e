package mc

import "fmt"

// Interactions: features of a stream, none of which has to do with the others, in sets of up to
// two or three, together with every short coding order. What one feature does is the matter
// of the spaces of its property; here it is that none of them disturbs another.

// ambience is a stream in which features are turned on.
type ambience struct {
	head    vSeqHdr
	repeat  string // the kinds of pictures before which the sequence header is repeated
	change  int    // matrices of repeated headers: 1 intra, 2 non-intra, 3 in turns
	nogroup bool
	group   func(i int) vGOP
	pic     []func(p *vPic, i int)
	slice   func(s *vSlice, i int)
	split   bool
	far     bool
	long    bool // skips of more than 33 macroblocks
	// kinds of macroblocks
	quant, skip, still, intra, resid bool
	again                            bool // a second sequence follows
}

type feature struct {
	name  string
	kinds string // the pictures that have it, all of them if empty
	set   func(a *ambience)
}

func onPic(f func(p *vPic, i int)) func(a *ambience) {
	return func(a *ambience) { a.pic = append(a.pic, f) }
}

var features = []feature{
	{"intra matrix", "", func(a *ambience) { a.head.intraQ = vMatrix(3) }},
	{"non-intra matrix", "", func(a *ambience) { a.head.nonIntraQ = vMatrix(4) }},
	{"interlaced sequence", "", func(a *ambience) { a.head.progressive = 0 }},
	{"low delay", "", func(a *ambience) { a.head.lowDelay = 1 }},
	{"header values", "", func(a *ambience) {
		h := &a.head
		h.aspect, h.rate, h.bitrate, h.vbv, h.constrained, h.profile = 3, 8, 1<<18-1, 1023, 1, 0x85
		h.brext, h.vbvext, h.frn, h.frd = 4095, 255, 3, 31
	}},
	{"sequence display extension", "", func(a *ambience) {
		a.head.ext = append(a.head.ext, extension(2, func(w *BW) { w.Put(5, 3).Put(1, 1).Put(0x010101, 24).Put(720, 14).Put(1, 1).Put(576, 14) }))
	}},
	{"sequence user data", "", func(a *ambience) { a.head.ext = append(a.head.ext, v09user[4]) }},
	{"stuffing", "", func(a *ambience) { a.head.stuff = 3 }},
	{"odd size", "", func(a *ambience) { a.head.w, a.head.h = a.head.w-5, a.head.h-3 }},
	{"headers repeated before groups", "", func(a *ambience) { a.repeat += "G" }},
	{"headers repeated before references", "", func(a *ambience) { a.repeat += "GIP" }},
	{"repeated headers with intra matrices", "", func(a *ambience) { a.repeat += "GP"; a.change |= 1 }},
	{"repeated headers with non-intra matrices", "", func(a *ambience) { a.repeat += "GI"; a.change |= 2 }},
	{"repeated headers with matrices in turns", "", func(a *ambience) { a.repeat += "GIP"; a.change |= 4 }},
	{"matrices in the first header only", "", func(a *ambience) {
		a.repeat += "GIP"
		a.head.intraQ, a.head.nonIntraQ = vMatrix(6), vMatrix(7)
		a.change |= 8
	}},
	{"no group header", "", func(a *ambience) { a.nogroup = true }},
	{"group header values", "", func(a *ambience) {
		a.group = func(i int) vGOP { return vGOP{closed: i & 1, broken: i >> 1 & 1, time: 0x1234567 + i} }
	}},
	{"broken links", "B", func(a *ambience) { a.group = func(int) vGOP { return vGOP{broken: 1} } }},
	{"group user data", "", func(a *ambience) { a.group = func(int) vGOP { return vGOP{ext: [][]byte{v09user[2]}, stuff: 2} } }},
	{"DC precision", "", onPic(func(p *vPic, i int) { p.dcPrec = (i + 1) & 3 })},
	{"non-linear quantiser", "", onPic(func(p *vPic, i int) { p.qtype = 1 - i>>1&1 })},
	{"intra VLC format", "", onPic(func(p *vPic, i int) { p.vlcfmt = 1 - i>>1&1 })},
	{"alternate scan", "", onPic(func(p *vPic, i int) { p.alt = 1 - i>>1&1 })},
	{"concealment vectors", "", onPic(func(p *vPic, i int) {
		p.conceal = 1
		if p.kind == 1 {
			p.fcode[0] = [2]int{1 + i%9, 9 - i%9}
		}
	})},
	{"field structures", "", func(a *ambience) {
		a.head.progressive = 0
		onPic(func(p *vPic, i int) { p.fpfd, p.progf = 0, 0 })(a)
	}},
	{"top field first", "", onPic(func(p *vPic, i int) { p.tff = 1 })},
	{"repeat first field", "", onPic(func(p *vPic, i int) { p.rff = 1 - i>>1&1 })},
	{"chroma type", "", onPic(func(p *vPic, i int) { p.c420 = 1 })},
	{"interlaced pictures", "", func(a *ambience) {
		a.head.progressive = 0
		onPic(func(p *vPic, i int) { p.progf = i & 1 })(a)
	}},
	{"composite display", "", onPic(func(p *vPic, i int) { p.display = []uint64{1, uint64(i & 7), 1, 127, 255} })},
	{"vbv delay", "", onPic(func(p *vPic, i int) { p.vbv = 0xffff - i })},
	{"extra picture information", "", onPic(func(p *vPic, i int) { p.extra = []byte{0, 0, 1, byte(i)} })},
	{"picture stuffing", "", onPic(func(p *vPic, i int) { p.stuff = 1 + i&3 })},
	{"picture user data", "", onPic(func(p *vPic, i int) { p.ext = append(p.ext, v09user[1+i%4]) })},
	{"copyright", "", onPic(func(p *vPic, i int) { p.ext = append(p.ext, v09pic[7+i&1]) })},
	{"picture display", "", onPic(func(p *vPic, i int) { p.ext = append(p.ext, v09pic[9+i%3]) })},
	{"temporal scalable", "", onPic(func(p *vPic, i int) { p.ext = append(p.ext, v09pic[12+i&1]) })},
	{"reserved extension", "", onPic(func(p *vPic, i int) { p.ext = append(p.ext, v09pic[i%7]) })},
	{"quant matrix extension", "", onPic(func(p *vPic, i int) {
		p.qm = &vQuantExt{}
		for k := range p.qm.m {
			if (i+1)>>uint(k)&1 == 1 {
				p.qm.m[k] = vMatrix(10 + 4*i + k)
			}
		}
	})},
	{"empty quant matrix extension", "", onPic(func(p *vPic, i int) { p.qm = &vQuantExt{} })},
	{"large f_code", "PB", onPic(func(p *vPic, i int) {
		for s := 0; s < p.kind-1; s++ {
			p.fcode[s] = [2]int{9 - i&1, 3 + (i+s)%7}
		}
	})},
	{"old vector fields", "PB", onPic(func(p *vPic, i int) { p.oldf, p.fullpel = 1+i%7, i&3 })},
	{"slice information", "", func(a *ambience) {
		a.slice = func(s *vSlice, i int) { s.intra, s.extra = 1+(i&1), []byte{0, byte(i)} }
	}},
	{"slice stuffing", "", func(a *ambience) { a.slice = func(s *vSlice, i int) { s.stuff = 2 } }},
	{"several slices in a row", "", func(a *ambience) { a.split = true }},
	{"quantiser changes", "", func(a *ambience) { a.quant = true }},
	{"long skips", "PB", func(a *ambience) { a.head.w, a.long = a.head.w+560, true }},
	{"skipped macroblocks", "PB", func(a *ambience) { a.skip = true }},
	{"macroblocks without vector", "P", func(a *ambience) { a.still = true }},
	{"intra macroblocks", "PB", func(a *ambience) { a.intra = true }},
	{"residuals", "PB", func(a *ambience) { a.resid = true }},
	{"far vectors", "PB", func(a *ambience) { a.far = true }},
	{"a second sequence", "", func(a *ambience) { a.again = true }},
}

// featuresOf are those that concern some of the kinds of pictures.
func featuresOf(kinds string) (out []feature) {
	for _, f := range features {
		use := f.kinds == ""
		for _, k := range f.kinds {
			for _, l := range kinds {
				use = use || k == l
			}
		}
		if use {
			out = append(out, f)
		}
	}
	return
}

// picture builds the picture of a plan.
func (a *ambience) picture(pl vPlan, i, w, h int) *vPic {
	p := vParams{}.pic(pl.kind, pl.tref)
	for _, f := range a.pic {
		f(p, i)
	}
	for r := 0; r < h; r++ {
		s := vSlice{row: r, q: 4 + (i+r)%3}
		skip := 0
		done := func(col int) {
			if a.slice != nil {
				a.slice(&s, i+r)
			}
			p.slices = append(p.slices, s)
			s = vSlice{row: r, q: 7 - (i+r)%3}
			skip = col
		}
		cut := w
		if a.split {
			cut = 1 + (i+r)%(w-1)
		}
		for c := 0; c < w; c++ {
			k := c*3 + r*5 + i*2
			if c == cut {
				done(c)
			}
			edge := c == 0 || c == cut-1 || c == cut || c == w-1
			m := vMB{}
			gap := a.long && pl.kind > 1 && c > 1+(i+r)%4 && !edge && c < 37+(i+r)%4 // skipped
			// in some rows of P pictures the gap is between intra macroblocks
			around := a.long && pl.kind == 2 && (i+r)&1 == 1 && !gap
			switch {
			case pl.kind == 1 || around || a.intra && !a.long && k%4 == 0:
				m = texture(p, i, c, r, len(a.pic))
				if pl.kind > 1 || c > 0 {
					// a plain block among the others
					m.blk[k%6].co = nil
				}
			case gap:
				skip++
				continue
			case a.skip && !a.long && !edge && k%3 != 0 && !(pl.kind == 3 && s.mbs[len(s.mbs)-1].intra):
				skip++
				continue
			case a.still && pl.kind == 2 && k%3 == 1:
				m.cbp = 1 + (k*7)%63
			default:
				a.vectors(p, &m, pl, c, r, w, h, k)
			}
			if m.skip = skip; !m.intra {
				if a.resid && k&1 == 0 {
					m.cbp |= 1 + (k*11)%63
				}
				for b := range m.blk {
					m.blk[b].co = []vCoef{{run: (k + b) % 9, level: 5 - k%4}, {run: b, level: -3}}
				}
				m.field = p.fpfd == 0 && m.cbp != 0 && k%5 < 3
			}
			if a.quant && (m.intra || m.cbp != 0) && k%2 == 0 {
				m.q = 1 + (k*5+i)%31
			}
			skip = 0
			s.mbs = append(s.mbs, m)
		}
		done(0)
	}
	return p
}

// vectors chooses a prediction. A skipped macroblock may follow and repeat it.
func (a *ambience) vectors(p *vPic, m *vMB, pl vPlan, c, r, w, h, k int) {
	m.fwd, m.bwd = true, false
	if pl.kind == 3 {
		m.fwd, m.bwd = pl.fwd && k%3 != 1, !pl.fwd || k%3 != 0
	}
	m.fmv = p.fpfd == 0 && k%4 < 2
	// half samples to the borders; skipped macroblocks may extend to the last but one column
	left, right := -32*c, 32*max(0, w-1-c)
	if a.skip || a.long {
		right = 0
	}
	unit := 32
	if m.fmv {
		unit = 16
	}
	up, down := -unit*r, unit*(h-1-r)
	for s := 0; s < p.kind-1; s++ {
		if s == 0 && !m.fwd || s == 1 && !m.bwd {
			continue
		}
		pick := func(t, lo, hi, n int) int {
			f := 1 << uint(p.fcode[s][t]-1)
			lo, hi = max(lo, -16*f), min(hi, 16*f-1)
			if a.far {
				return []int{lo, hi, lo / 2, hi / 2}[n&3]
			}
			return max(lo, min(hi, n%7-3))
		}
		m.mv[s] = [2]int{pick(0, left, right, k+s), pick(1, up, down, k/2+s)}
		m.mv2[s] = [2]int{pick(0, left, right, k/3+s), pick(1, up, down, k/5+s)}
		m.sel[0][s], m.sel[1][s] = (k+s)&1, k>>1&1
	}
}

// write writes the stream; parts are the frames of its sequences.
func (a *ambience) write(e *vEnc, toks []vToken) (parts [][]*vFrame) {
	n := 1
	if a.again {
		n = 2
	}
	for s := 0; s < n; s++ {
		e.out = nil
		w, h := 0, 0
		for i, k := range plan(toks) {
			again := false
			for _, c := range a.repeat {
				again = again || c == rune(toks[i])
			}
			if i == 0 || again {
				hd := a.head
				for _, t := range toks {
					if t == 'B' {
						hd.lowDelay = 0 // there are no B pictures in such a sequence
					}
				}
				if i > 0 && a.change != 0 {
					turn := a.change
					if turn == 8 {
						turn = 0
					} else if turn >= 4 {
						turn = []int{0, 3, 0, 2, 1}[i%5]
					}
					hd.intraQ, hd.nonIntraQ = nil, nil
					if turn&1 == 1 {
						hd.intraQ = vMatrix(20 + i)
					}
					if turn&2 == 2 {
						hd.nonIntraQ = vMatrix(40 + i)
					}
				}
				e.seq(hd)
				w, h = e.w/16, e.h/16
			}
			if k.group && (i > 0 || !a.nogroup) {
				g := vGOP{closed: b2i(i == 0)}
				if a.group != nil {
					g = a.group(i)
				}
				e.group(g)
			}
			e.pic(a.picture(k, i+s, w, h))
		}
		e.end()
		parts = append(parts, e.out)
	}
	return parts
}

// interactions tries all sets of features with all coding orders of the kinds of pictures, up to
// pairs and n pictures; if thorough triples, and more pictures for pairs. The frames are
// given to check.
func interactions(kinds string, thorough bool, n int, check func(x *X, b []byte, parts [][]*vFrame)) []*Space {
	list := featuresOf(kinds)
	space := func(name string, size, n int) *Space {
		return &Space{Name: name, Body: func(x *X) {
			a := &ambience{head: vSeqHdr{w: 80, h: 32, progressive: 1}}
			rich := x.Choose(2)
			if rich == 1 {
				// all kinds of macroblocks
				a.quant, a.skip, a.still, a.intra, a.resid, a.split = true, true, true, true, true, true
			}
			names, last := "", 0
			for i := 0; i < size; i++ {
				f := last + x.Choose(len(list)-last)
				if i == 0 || f != last {
					list[f].set(a)
					names += fmt.Sprintf(", %s", list[f].name)
				}
				last = f
			}
			toks := []vToken{'G'}
			for m := x.Choose(n - 1 + rich); m > 0; m-- {
				toks = append(toks, Pick(x, []vToken("G"+kinds)))
			}
			e := &vEnc{}
			parts := a.write(e, toks)
			x.Note("stream", "%s: %s, with all kinds of macroblocks: %v", tokBytes(toks), names[2:], rich == 1)
			for _, s := range e.states {
				x.Visit(s)
			}
			check(x, e.b, parts)
		}}
	}
	if thorough {
		return []*Space{space("pairs of features", 2, n+1), space("three features", 3, n-1)}
	}
	return []*Space{space("pairs of features", 2, n)}
}

// checkHeld decodes all sequences and keeps the frames.
func checkHeld(x *X, b []byte, parts [][]*vFrame) {
	n := 0
	for _, p := range parts {
		n += len(p)
	}
	if got := holdAll(x, b, len(parts)); got != n {
		noteStream(x, b)
		x.Fail("%d frames, expected %d", got, n)
	}
}
