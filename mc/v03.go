package mc

func init() {
	register(&Check{
		ID: "V03", Level: "model_checking",
		Rule: "every frame vector and every field vector of either field of the reference that stays in the picture from every macroblock position, every ordered pair of field and frame vectors, every ordered pair of consecutive vectors of f_codes 1 to 3 and of the boundary values of larger ones, every non-intra coefficient position x scale x level class, every picture of skipped/uncoded/coded macroblocks up to the bound; samples are compared with an independent reconstruction; states are (quantiser, predictors) after each macroblock",
		Assume: []string{
			"vectors that point outside of the reference picture, which the standard forbids, are not judged here (V08 covers them)",
			"frame and field prediction in frame pictures; the library refuses dual-prime prediction and field pictures (V08)",
		},
		Spaces: v03spaces, SelfTest: selfTestVideo,
	})
	register(&Check{
		ID: "V04", Level: "model_checking",
		Rule:   "every quadruple of forward and backward vector components of -3..3, the same of field vectors, every in-picture frame and field vector in each direction, and every coding order of I, P and B pictures and group headers up to the bound with forward, backward, averaged and skipped macroblocks; samples are compared with an independent reconstruction; states are (quantiser, predictors, directions) after each macroblock and picture structures",
		Assume: []string{"frame and field prediction in frame pictures; the library refuses field pictures (V08)"},
		Spaces: v04spaces, SelfTest: selfTestVideo,
	})
	register(&Check{
		ID: "V05", Level: "model_checking",
		Rule:   "every sequence of macroblock kinds up to the bound, with every placement of slice breaks, in I, P and B pictures, with and without concealment vectors, field vectors and field DCT; samples and further parsing are compared with an independent reconstruction; states are (quantiser, DC and vector predictors, directions) after each macroblock",
		Assume: []string{"a skipped macroblock directly after an intra one in a B picture, which the standard forbids, is left out"},
		Spaces: v05spaces, SelfTest: selfTestVideo,
	})
}

// inPicture lists the vector components that keep a macroblock of a row or column of n
// inside of the reference when it sits at position i.
func inPicture(i, n int) (out []int) {
	for v := -32 * i; v <= 32*(n-1-i); v++ {
		out = append(out, v)
	}
	return
}

// inField is inPicture for the vertical components of field vectors.
func inField(i, n int) (out []int) {
	for v := -16 * i; v <= 16*(n-1-i); v++ {
		out = append(out, v)
	}
	return
}

// fieldPairs has every ordered pair of vertical components, one or both of a field vector.
func fieldPairs(thorough bool) *Space {
	return &Space{Name: "pairs of field and frame vectors", Body: func(x *X) {
		f := 1 + x.Choose(2+b2i(thorough))
		how := x.Choose(3) // field after field, frame after field, field after frame
		n := 16 << uint(f)
		a := x.Choose(n) - n/2
		alt := x.Bool()
		side := 1 + n/32 // rows on each side
		e := newVid(mbSize(34, 2*side+1))
		q := vParams{field: 1}
		e.pic(textured(q.pic(1, 0), 34, 2*side+1, 4, a))
		tref := 1
		for b := -n / 2; b < n/2; {
			p := q.pic(2, tref)
			p.fcode[0] = [2]int{1, f}
			tref++
			for r := 0; r <= 2*side; r++ {
				s := vSlice{row: r, q: 4, mbs: []vMB{{fwd: true}}}
				if r != side {
					s.mbs = append(s.mbs, vMB{skip: 32, fwd: true})
					p.slices = append(p.slices, s)
					continue
				}
				for c := 1; c < 34; c++ {
					first := c%2 == 1
					m := vMB{fwd: true, alt: alt, fmv: how == 0 || first == (how == 1)}
					m.sel = [2][2]int{{c >> 1 & 1}, {c >> 2 & 1}}
					v, o := a, b
					if !first {
						v, o = min(b, n/2-1), a
						b++
					}
					m.mv[0] = [2]int{c%3 - 1, v}
					m.mv2[0] = [2]int{1 - c%3, o}
					if c == 33 {
						m.mv[0][0], m.mv2[0][0] = 0, 0
					}
					m.mv2[0][1] = min(o, n/2-1)
					s.mbs = append(s.mbs, m)
				}
				p.slices = append(p.slices, s)
			}
			e.pic(p)
		}
		x.Inner(int64(n))
		e.check(x)
	}}
}

// fcodeFor is the smallest f_code with the vectors in range.
func fcodeFor(vs ...int) int {
	f := 1
	for _, v := range vs {
		for v < -(8<<uint(f)) || v > 8<<uint(f)-1 {
			f++
		}
	}
	return f
}

func v03spaces(thorough bool) []*Space {
	out := []*Space{longSkips(2, thorough), unlikeCodes(2, thorough)}
	mults := []int{1, 2, 3, 4, 6, 7, 8, 9, 11} // coprime to 65
	out = append(out, &Space{Name: "all vectors from all positions", Body: func(x *X) {
		vy := x.Choose(65)
		field := x.Choose(2)
		coded := x.Bool()
		e := newVid(mbSize(3, 3))
		for vx := 0; vx < 65; vx++ {
			q := vParams{field: field, dcPrec: vx & 3}
			e.pic(textured(q.pic(1, 2*vx), 3, 3, 3, vx%5))
			p := q.pic(2, 2*vx+1)
			p.fcode[0] = [2]int{4 + (vx+vy)%3, 4 + vy%2}
			k := 0
			p.rows(3, 3, 5, func(c, r int) vMB {
				hs, vs := inPicture(c, 3), inPicture(r, 3)
				b := vMB{fwd: true, field: (c+r)%2 == 0}
				b.mv[0] = [2]int{hs[(vx*mults[k]+vy)%65], vs[(vy*mults[8-k]+k)%65]}
				k++
				if coded {
					b.cbp = 1 + scramble(vx, vy, k)%63
					for i := range b.blk {
						b.blk[i].co = []vCoef{{run: (vx + i) % 9, level: 1 + i}}
					}
				}
				return b
			})
			e.pic(p)
		}
		x.Inner(65 * 9)
		e.check(x)
	}})
	out = append(out, &Space{Name: "all field vectors from all positions", Body: func(x *X) {
		vy := x.Choose(33)
		sel := x.Choose(4)
		coded := x.Bool()
		e := newVid(mbSize(3, 3))
		q := vParams{field: 1}
		for vx := 0; vx < 65; vx++ {
			e.pic(textured(q.pic(1, 2*vx), 3, 3, 3, vx%5))
			p := q.pic(2, 2*vx+1)
			p.fcode[0] = [2]int{4 + (vx+vy)%3, 3 + vy%2}
			k := 0
			p.rows(3, 3, 5, func(c, r int) vMB {
				hs, vs := inPicture(c, 3), inField(r, 3)
				b := vMB{fwd: true, fmv: true, field: (c+r)%2 == 0}
				b.mv[0] = [2]int{hs[(vx*mults[k]+vy)%65], vs[(vy*mults[8-k]+k)%33]}
				b.mv2[0] = [2]int{hs[(vx*mults[8-k]+3*vy)%65], vs[(vy+5*vx+k)%33]}
				b.sel = [2][2]int{{sel & 1}, {sel >> 1}}
				if (vx+k)%5 == 4 {
					b.fmv = false // a frame vector in between
				}
				k++
				if coded {
					b.cbp = 1 + scramble(vx, vy, k)%63
					for i := range b.blk {
						b.blk[i].co = []vCoef{{run: (vx + i) % 9, level: 1 + i}}
					}
				}
				return b
			})
			e.pic(p)
		}
		x.Inner(65 * 9)
		e.check(x)
	}})
	out = append(out, fieldPairs(thorough))
	// consecutive vectors: every ordered pair
	for f := 1; f <= 3; f++ {
		f := f
		n := 16 << uint(f)
		out = append(out, &Space{Name: "vector pairs of f_code " + string(rune('0'+f)), Body: func(x *X) {
			a := x.Choose(n) - n/2
			swap := x.Choose(2)
			alt := x.Bool()
			margin := 1 + n/64
			w := 14 + 2*margin
			e := newVid(mbSize(w, 2*margin+1))
			e.pic(textured(vParams{}.pic(1, 0), w, 2*margin+1, 4, a))
			tref := 1
			b := -n / 2
			for b < n/2 {
				p := vParams{}.pic(2, tref)
				p.fcode[0] = [2]int{f, f}
				if swap == 1 {
					p.fcode[0] = [2]int{f, 1 + f%3}
				}
				tref++
				for r := 0; r <= 2*margin; r++ {
					s := vSlice{row: r, q: 4, mbs: []vMB{{fwd: true}}}
					if r != margin {
						s.mbs = append(s.mbs, vMB{skip: w - 2, fwd: true})
						p.slices = append(p.slices, s)
						continue
					}
					s.mbs[0].skip = 0
					for c := 1; c < w; c++ {
						m := vMB{fwd: true, alt: alt}
						if c >= margin && c < w-margin {
							v := a
							if (c-margin)%2 == 1 && b < n/2 {
								v = b
								b++
							}
							m.mv[0] = [2]int{v, 0}
							if swap == 1 {
								lim := 8 << uint(p.fcode[0][1])
								o := (v*3%lim + c) % lim
								m.mv[0][1] = max(-margin*32, min(margin*32, o))
							} else {
								m.mv[0][1] = -1 - v
							}
						}
						s.mbs = append(s.mbs, m)
					}
					p.slices = append(p.slices, s)
				}
				e.pic(p)
			}
			x.Inner(int64(n))
			e.check(x)
		}})
	}
	// larger f_codes: boundary values, in wide and in tall pictures
	out = append(out, &Space{Name: "boundary vectors of large f_codes", Body: func(x *X) {
		f := 4 + x.Choose(4)
		if thorough {
			f = 4 + x.Choose(6)
		}
		n := 16 << uint(f)
		vals := []int{-n / 2, -n/2 + 1, -n/4 - 1, -n / 4, -1, 0, 1, n/4 - 1, n / 4, n/2 - 2, n/2 - 1}
		a := Pick(x, vals)
		alt := x.Bool()
		tall := x.Bool()
		margin := n / 64
		side := 2*margin + 3
		w, h := side, 1
		if tall {
			w, h = 4, side
			if h*16 > 2800 {
				return
			}
		}
		e := newVid(mbSize(w, h))
		e.pic(textured(vParams{}.pic(1, 0), w, h, 4, a))
		tref := 1
		for _, b := range vals {
			p := vParams{}.pic(2, tref)
			tref++
			t := 0
			p.fcode[0] = [2]int{f, 1}
			if tall {
				t = 1
				p.fcode[0] = [2]int{1, f}
			}
			for r := 0; r < h; r++ {
				s := vSlice{row: r, q: 4, mbs: []vMB{{fwd: true}}}
				if tall && (r != margin && r != margin+1) {
					s.mbs = append(s.mbs, vMB{skip: w - 2, fwd: true})
					p.slices = append(p.slices, s)
					continue
				}
				for c := 1; c < w; c++ {
					m := vMB{fwd: true, alt: alt}
					i := c
					if tall {
						i = c + margin - 1
					}
					switch i {
					case margin:
						m.mv[0][t] = a
					case margin + 1:
						m.mv[0][t] = b
					case margin + 2:
						m.mv[0][t] = 0
					}
					if m.mv[0][t] == -n/2 && !tall && c < margin || m.mv[0][t] > 0 && (w-1-c)*32 < m.mv[0][t] && !tall {
						m.mv[0][t] = 0
					}
					if tall && (r*32+m.mv[0][t] < 0 || (h-1-r)*32 < m.mv[0][t]) {
						m.mv[0][t] = 0
					}
					s.mbs = append(s.mbs, m)
				}
				p.slices = append(p.slices, s)
			}
			e.pic(p)
		}
		x.Inner(int64(len(vals)))
		e.check(x)
	}})
	out = append(out, &Space{Name: "residual coefficients", Body: func(x *X) {
		q := pickParams(x)
		code := 1 + x.Choose(31)
		e := newVid(mbSize(3, 3))
		n, tref := 0, 0
		total := 64 * len(v01levels)
		for n < total {
			if tref%8 == 0 {
				e.pic(textured(q.pic(1, tref), 3, 3, 4, 6))
				tref++
			}
			p := q.pic(2, tref)
			tref++
			p.rows(3, 3, code, func(c, r int) vMB {
				b := vMB{fwd: true, cbp: 63, field: q.field == 1 && (c+r)%2 == 0}
				if c == 1 {
					b.mv[0] = [2]int{(n%9 - 4), r * -3}
				}
				for i := range b.blk {
					k := n % total
					b.blk[i].co = []vCoef{{run: k / len(v01levels), level: v01levels[k%len(v01levels)]}}
					n++
				}
				return b
			})
			e.pic(p)
		}
		x.Inner(int64(n))
		e.check(x)
	}})
	out = append(out, &Space{Name: "residual coefficient pairs", Body: func(x *X) {
		q := pickParams(x)
		a := x.Choose(63)
		lv := [][2]int{{1, 1}, {1, -1}, {-3, 2}, {-5, -5}, {200, -170}, {2047, 2047}, {-2047, 2047}}
		e := newVid(mbSize(3, 3))
		e.pic(textured(q.pic(1, 0), 3, 3, 4, 6))
		n, total := 0, (63-a)*len(lv)
		tref := 1
		for n < total {
			p := q.pic(2, tref)
			tref++
			p.rows(3, 3, 2+a%29, func(c, r int) vMB {
				b := vMB{cbp: 63, field: q.field == 1 && c > 0}
				for i := range b.blk {
					l := lv[n%total%len(lv)]
					b.blk[i].co = []vCoef{{run: a, level: l[0]}, {run: n % total / len(lv), level: l[1]}}
					n++
				}
				return b
			})
			e.pic(p)
		}
		x.Inner(int64(total))
		e.check(x)
	}})
	out = append(out, &Space{Name: "dense residual blocks", Body: func(x *X) {
		q := pickParams(x)
		code := 1 + x.Choose(31)
		e := newVid(mbSize(3, 2))
		e.pic(textured(q.pic(1, 0), 3, 2, 4, 6))
		for k := 0; k < 3; k++ {
			p := q.pic(2, 1+k)
			p.rows(3, 2, code, func(c, r int) vMB {
				b := vMB{fwd: true, cbp: 63 - (c+r)*7, field: q.field == 1 && c != 1}
				b.mv[0] = [2]int{(1 - c) * 3, 1 - 2*r}
				for i := range b.blk {
					for j := 0; j < 64; j++ {
						v := 0
						switch g := scramble(c, r, i, j, k, code); k {
						case 0:
							v = g%5 - 2
						case 1:
							v = (g%2*2 - 1) * 2047
						case 2:
							if j <= 10*(c+3*r)+i {
								v = -1
							}
						}
						if v == 0 {
							break
						}
						b.blk[i].co = append(b.blk[i].co, vCoef{level: v})
					}
					if len(b.blk[i].co) == 0 {
						b.blk[i].co = []vCoef{{run: c, level: 3}}
					}
				}
				return b
			})
			e.pic(p)
		}
		x.Inner(3 * 36)
		e.check(x)
	}})
	// what a P picture does with its macroblocks: all pictures of 5 x 1 macroblocks, chained
	out = append(out, &Space{Name: "chains of P pictures", Body: func(x *X) {
		e := newVid(mbSize(4, 2))
		e.pic(textured(vParams{}.pic(1, 0), 4, 2, 4, 8))
		n := 2
		if thorough {
			n = 3
		}
		for k := 1; k <= n; k++ {
			p := vParams{}.pic(2, k)
			s := vSlice{row: 0, q: 5}
			skip := 0
			for c := 0; c < 4; c++ {
				m := vMB{}
				m.blk[c] = vBlk{co: []vCoef{{run: c, level: 3 + k}}}
				alts := 5
				if c == 0 || c == 3 {
					alts = 4
				}
				switch x.Choose(alts) {
				case 0:
					m.cbp = 32 >> uint(c)
				case 1:
					m.fwd, m.mv[0] = true, [2]int{3 - 2*c - k, k}
				case 2:
					m.fwd = true
				case 3:
					m = texture(p, c, k)
				case 4:
					skip++
					continue
				}
				m.skip = skip
				skip = 0
				s.mbs = append(s.mbs, m)
			}
			// the vectors of the first row stay inside: clip at the left edge
			if s.mbs[0].mv[0][0] < 0 {
				s.mbs[0].mv[0][0] = 1
			}
			p.slices = append(p.slices, s)
			p.slices = append(p.slices, vSlice{row: 1, q: 3, mbs: []vMB{{fwd: true, mv: [2][2]int{{k, -k}}}, {skip: 2, fwd: true, mv: [2][2]int{{-k, -2 * k}}}}})
			e.pic(p)
		}
		e.check(x)
	}})
	return out
}

// ---------------------------------------------------------------- V04

// vToken is a picture of a coding order: I, P, B, or G for an I picture with a group header.
type vToken byte

// structures enumerates the coding orders of n pictures, beginning with a group.
func structure(x *X, n int) (toks []vToken) {
	toks = append(toks, 'G')
	refs := 1
	for len(toks) < n {
		var opts []vToken
		opts = append(opts, 'P', 'I', 'G', 'B')
		t := Pick(x, opts)
		if t != 'B' {
			refs++
		}
		toks = append(toks, t)
	}
	return
}

// vPlan gives each picture of a coding order its temporal reference.
type vPlan struct {
	kind   int
	tref   int
	group  bool
	fwd    bool // a forward reference exists
	bframe int
}

func plan(toks []vToken) []vPlan {
	out := make([]vPlan, len(toks))
	held := -1 // the reference that waits to be shown
	next := 0
	refs := 0
	show := func(i int) {
		out[i].tref = next
		next++
	}
	for i, t := range toks {
		switch t {
		case 'B':
			out[i].kind = 3
			out[i].fwd = refs > 1
			show(i)
			continue
		case 'P':
			out[i].kind = 2
		default:
			out[i].kind = 1
		}
		if held >= 0 {
			show(held)
		}
		if t == 'G' {
			out[i].group = true
			next = 0
		}
		held = i
		refs++
	}
	if held >= 0 {
		show(held)
	}
	return out
}

// planPic builds one picture of a plan, with content that tells it from all others.
func planPic(e *vEnc, pl vPlan, i, w, h int) *vPic {
	p := vParams{}.pic(pl.kind, pl.tref)
	switch pl.kind {
	case 1:
		return textured(p, w, h, 4, 100+i)
	case 2:
		return p.rows(w, h, 4, func(c, r int) vMB {
			b := vMB{fwd: true, cbp: 1 + (c+r+i)%63}
			if c == 1 {
				b.mv[0] = [2]int{1 - i%3, r*-2 + 1}
			}
			for k := range b.blk {
				b.blk[k].co = []vCoef{{run: (i + k) % 7, level: 4 + (i+c)%5}}
			}
			return b
		})
	}
	for r := 0; r < h; r++ {
		s := vSlice{row: r, q: 5}
		skip := 0
		for c := 0; c < w; c++ {
			if c > 0 && c < w-1 && (c+r)%3 == 0 {
				skip++
				continue
			}
			b := vMB{skip: skip}
			skip = 0
			switch (c + r + i) % 3 {
			case 0:
				b.fwd = true
			case 1:
				b.bwd = true
			case 2:
				b.fwd, b.bwd = true, true
			}
			if !pl.fwd {
				b.fwd, b.bwd = false, true
			}
			if c > 0 && c < w-1 {
				b.mv = [2][2]int{{i%5 - 2, 1 - 2*r}, {2 - i%4, 2 - 4*r}}
				if r > 0 && r < h-1 {
					b.mv[0][1], b.mv[1][1] = 3, -3
				}
			}
			s.mbs = append(s.mbs, b)
		}
		p.slices = append(p.slices, s)
	}
	return p
}

func v04spaces(thorough bool) []*Space {
	out := []*Space{longSkips(3, thorough), unlikeCodes(3, thorough)}
	mults := []int{1, 2, 3, 4, 6, 7, 8, 9, 11}
	out = append(out, &Space{Name: "small vector quadruples", Body: func(x *X) {
		a := x.Choose(343)
		field := x.Choose(2)
		e := newVid(mbSize(3, 3))
		q := vParams{field: field}
		e.pic(textured(q.pic(1, 0), 3, 3, 3, a%3))
		e.pic(textured(q.pic(2-1, 1+7*3), 3, 3, 3, 50+a%4))
		for k := 0; k < 21; k++ {
			p := q.pic(3, 1+k)
			d := k % 7
			p.rows(3, 3, 5, func(c, r int) vMB {
				b := vMB{fwd: k/7 != 1, bwd: k/7 != 0, field: field == 1 && c == r}
				b.mv = [2][2]int{{a%7 - 3, a/7%7 - 3}, {a/49 - 3, d - 3}}
				for s := range b.mv {
					// at the edges vectors point inwards
					if c == 0 && b.mv[s][0] < 0 || c == 2 && b.mv[s][0] > 0 {
						b.mv[s][0] = -b.mv[s][0]
					}
					if r == 0 && b.mv[s][1] < 0 || r == 2 && b.mv[s][1] > 0 {
						b.mv[s][1] = -b.mv[s][1]
					}
				}
				if (c+r)%2 == 0 {
					b.cbp = 1 + scramble(a, k, c)%63
					for i := range b.blk {
						b.blk[i].co = []vCoef{{run: i, level: 2 - k%5*2 + 1}}
					}
				}
				return b
			})
			e.pic(p)
		}
		x.Inner(21 * 9)
		e.check(x)
	}})
	out = append(out, &Space{Name: "all vectors from all positions", Body: func(x *X) {
		vy := x.Choose(65)
		e := newVid(mbSize(3, 3))
		q := vParams{}
		e.pic(textured(q.pic(1, 0), 3, 3, 3, vy%5))
		e.pic(textured(q.pic(1, 196), 3, 3, 3, 20+vy%7))
		for vx := 0; vx < 195; vx++ {
			p := q.pic(3, 1+vx)
			p.fcode = [2][2]int{{4 + (vx+vy)%3, 4 + vy%2}, {4 + vx%2, 4 + (vx+vy)%2}}
			k := 0
			p.rows(3, 3, 5, func(c, r int) vMB {
				hs, vs := inPicture(c, 3), inPicture(r, 3)
				m := (vx/65 + k) % 3
				b := vMB{fwd: m != 1, bwd: m != 0}
				b.mv[0] = [2]int{hs[(vx*mults[k]+vy)%65], vs[(vy*mults[8-k]+k)%65]}
				b.mv[1] = [2]int{hs[(vx*mults[8-k]+3*vy)%65], vs[(vy*mults[k]+5*vx+k)%65]}
				k++
				return b
			})
			e.pic(p)
		}
		x.Inner(195 * 9)
		e.check(x)
	}})
	out = append(out, &Space{Name: "small field vectors in both directions", Body: func(x *X) {
		sel := x.Choose(16)
		a := x.Choose(49)
		skips := x.Choose(2)
		q := vParams{field: 1}
		e := newVid(mbSize(4, 3))
		e.pic(textured(q.pic(1, 0), 4, 3, 3, a%3))
		e.pic(textured(q.pic(1, 50), 4, 3, 3, 50+sel%4))
		for k := 0; k < 49; k++ {
			p := q.pic(3, 1+k)
			p.rows(4, 3, 5, func(c, r int) vMB {
				d := (k + c + r) % 3
				b := vMB{fwd: d != 1, bwd: d != 0, fmv: (k+c)%4 != 3, field: c == r}
				b.sel = [2][2]int{{sel & 1, sel >> 1 & 1}, {sel >> 2 & 1, sel >> 3}}
				b.mv = [2][2]int{{k%5 - 2, a%7 - 3}, {a%5 - 2, k%7 - 3}}
				b.mv2 = [2][2]int{{a%3 - 1, a/7 - 3}, {k%3 - 1, k/7 - 3}}
				for _, m := range []*[2][2]int{&b.mv, &b.mv2} {
					for s := range m {
						// at the edges vectors point inwards
						if c == 0 && m[s][0] < 0 || c == 3 && m[s][0] > 0 {
							m[s][0] = -m[s][0]
						}
						if r == 0 && m[s][1] < 0 || r == 2 && m[s][1] > 0 {
							m[s][1] = -m[s][1]
						}
					}
				}
				if (c+r)%2 == 0 {
					b.cbp = 1 + scramble(a, k, c)%63
					for i := range b.blk {
						b.blk[i].co = []vCoef{{run: i, level: 2 - k%5*2 + 1}}
					}
				}
				return b
			})
			if skips == 1 {
				// two skipped macroblocks after one with field vectors; the vectors in force are
				// those of the frame
				for i := range p.slices {
					s := &p.slices[i]
					for _, m := range []*[2][2]int{&s.mbs[0].mv, &s.mbs[0].mv2} {
						for d := range m {
							// PMV are in lines of the frame: keep them in the picture
							m[d][0] = max(0, m[d][0])
						}
					}
					s.mbs = []vMB{s.mbs[0], s.mbs[3]}
					s.mbs[1].skip = 2
				}
			}
			e.pic(p)
		}
		x.Inner(49 * 12)
		e.check(x)
	}})
	out = append(out, &Space{Name: "all field vectors from all positions", Body: func(x *X) {
		vy := x.Choose(33)
		sel := x.Choose(16)
		e := newVid(mbSize(3, 3))
		q := vParams{field: 1}
		e.pic(textured(q.pic(1, 0), 3, 3, 3, vy%5))
		e.pic(textured(q.pic(1, 66), 3, 3, 3, 20+vy%7))
		for vx := 0; vx < 65; vx++ {
			p := q.pic(3, 1+vx)
			p.fcode = [2][2]int{{4 + (vx+vy)%3, 3 + vy%2}, {4 + vx%2, 3 + (vx+vy)%2}}
			k := 0
			p.rows(3, 3, 5, func(c, r int) vMB {
				hs, vs := inPicture(c, 3), inField(r, 3)
				m := (vx + k) % 3
				b := vMB{fwd: m != 1, bwd: m != 0, fmv: (k+vx)%5 != 0}
				b.sel = [2][2]int{{sel & 1, sel >> 1 & 1}, {sel >> 2 & 1, sel >> 3}}
				b.mv[0] = [2]int{hs[(vx*mults[k]+vy)%65], vs[(vy*mults[8-k]+k)%33]}
				b.mv[1] = [2]int{hs[(vx*mults[8-k]+3*vy)%65], vs[(vy*mults[k]+5*vx+k)%33]}
				b.mv2[0] = [2]int{hs[(vx+vy*mults[k])%65], vs[(vy+vx+k)%33]}
				b.mv2[1] = [2]int{hs[(vx*3+vy*k)%65], vs[(vy*7+vx*mults[k])%33]}
				k++
				return b
			})
			e.pic(p)
		}
		x.Inner(65 * 9)
		e.check(x)
	}})
	n := 8
	if thorough {
		n = 9
	}
	out = append(out, &Space{Name: "coding orders", Body: func(x *X) {
		toks := structure(x, 2+x.Choose(n-1))
		pl := plan(toks)
		e := &vEnc{}
		e.seq(mbSize(4, 3))
		for i, k := range pl {
			if k.group {
				e.group(vGOP{closed: i & 1})
			}
			e.pic(planPic(e, k, i, 4, 3))
		}
		x.Note("coding order", "%s", string(tokBytes(toks)))
		e.check(x)
		x.Visit(HashBytes(3, tokBytes(toks)))
	}})
	out = append(out, &Space{Name: "averages", Body: func(x *X) {
		// flat references of all values: rounding of the mean
		a := x.Choose(256)
		e := newVid(mbSize(4, 4))
		flat := func(tref, v int) *vPic {
			return vParams{}.pic(1, tref).rows(4, 4, 4, func(c, r int) vMB {
				b := vMB{intra: true}
				for i := range b.blk {
					b.blk[i].dc = (v + 16*c + 64*r + i) & 255
				}
				return b
			})
		}
		e.pic(flat(0, a))
		for k := 0; k < 16; k++ {
			e.pic(flat(2+2*k, 17*k+a*k))
			e.pic(vParams{}.pic(3, 1+2*k).rows(4, 4, 4, func(c, r int) vMB { return vMB{fwd: true, bwd: true} }))
		}
		x.Inner(16)
		e.check(x)
	}})
	return out
}

func tokBytes(t []vToken) (b []byte) {
	for _, c := range t {
		b = append(b, byte(c))
	}
	return
}

// ---------------------------------------------------------------- V05

// kinds of macroblocks
var v05kinds = [4][]mbType{
	1: {{intra: true}, {intra: true, quant: true}},
	2: {
		{intra: true}, {intra: true, quant: true}, {fwd: true}, {fwd: true, pattern: true}, {fwd: true, pattern: true, quant: true},
		{pattern: true}, {pattern: true, quant: true}, {},
	},
	3: {
		{intra: true}, {intra: true, quant: true},
		{fwd: true}, {bwd: true}, {fwd: true, bwd: true},
		{fwd: true, pattern: true}, {bwd: true, pattern: true}, {fwd: true, bwd: true, pattern: true},
		{fwd: true, pattern: true, quant: true}, {bwd: true, pattern: true, quant: true}, {fwd: true, bwd: true, pattern: true, quant: true},
		{},
	},
}

// mbOf makes a macroblock of a kind at position i of n in a row, in the middle of three rows.
func mbOf(p *vPic, t mbType, i, n, salt int) vMB {
	b := vMB{intra: t.intra, fwd: t.fwd, bwd: t.bwd, fmv: t.fmv}
	g := scramble(i, salt)
	b.mv = [2][2]int{{g%14 - 7, g>>4%9 - 4}, {g>>8%12 - 6, g>>12%15 - 7}}
	if t.fmv {
		h := scramble(i, salt, 1)
		b.mv2 = [2][2]int{{h%14 - 7, h>>4%9 - 4}, {h>>8%12 - 6, h>>12%15 - 7}}
		b.sel = [2][2]int{{h >> 16 & 1, h >> 17 & 1}, {h >> 18 & 1, h >> 19 & 1}}
	}
	for _, m := range []*[2][2]int{&b.mv, &b.mv2} {
		for s := range m {
			if i == 0 && m[s][0] < 0 || i == n-1 && m[s][0] > 0 {
				m[s][0] = -m[s][0]
			}
		}
	}
	if t.quant {
		b.q = 1 + (i*7+salt*3+4)%31
	}
	b.field = p.fpfd == 0 && (i+salt)%2 == 0
	if t.pattern {
		b.cbp = 1 + scramble(i, salt, 2)%63
	}
	for k := range b.blk {
		h := scramble(i, salt, k, 3)
		b.blk[k].dc = (20 + h%200) << uint(p.dcPrec)
		b.blk[k].co = []vCoef{{run: h >> 8 & 3, level: 2 + h>>10&3}}
		if t.intra && h>>14&1 == 0 {
			b.blk[k].co = nil
		}
	}
	return b
}

// v05edge is a slice in the row above or below.
func v05edge(p *vPic, row, n int) vSlice {
	s := vSlice{row: row, q: 7}
	if p.kind > 1 {
		// short: its state must not reach the next slice
		for i := 0; i < n; i += n - 1 {
			t := mbType{intra: true}
			if i == 0 {
				t = mbType{fwd: true, pattern: true, quant: true}
			}
			b := mbOf(p, t, i, n, 40+row)
			for k := range b.mv {
				b.mv[k][1] = max(b.mv[k][1], -b.mv[k][1])
				if row == 2 {
					b.mv[k][1] = -b.mv[k][1]
				}
			}
			if i > 0 {
				b.skip = n - 2
			}
			s.mbs = append(s.mbs, b)
		}
		return s
	}
	for i := 0; i < n; i++ {
		s.mbs = append(s.mbs, mbOf(p, mbType{intra: true}, i, n, 40+row))
	}
	return s
}

// v05legal rejects skipped macroblocks after intra ones in B pictures.
func v05legal(kind int, kinds []mbType) bool {
	intra := false
	for _, k := range kinds {
		if k == (mbType{}) {
			if kind == 3 && intra {
				return false
			}
			continue
		}
		intra = k.intra
	}
	return true
}

// v05breaks rejects slices that would begin or end with a skipped macroblock.
func v05breaks(kinds []mbType, brk int) bool {
	for i := 1; i < len(kinds); i++ {
		if brk>>uint(i)&1 == 1 && (kinds[i] == mbType{} || kinds[i-1] == mbType{}) {
			return false
		}
	}
	return true
}

// v05close gives the backward reference its number, after all B pictures.
func v05close(e *vEnc, at, tref int) {
	if at < 0 {
		return
	}
	for i := 0; i < 10; i++ {
		m := byte(0x80 >> uint((at+i)%8))
		e.b[(at+i)/8] &^= m
		if tref>>uint(9-i)&1 == 1 {
			e.b[(at+i)/8] |= m
		}
	}
}

// v05restart begins another group.
func v05restart(e *vEnc, kind, n, at int) (int, int) {
	v05close(e, at, 500)
	e.group(vGOP{})
	tref := 0
	if kind > 1 {
		e.pic(textured(vParams{}.pic(1, 0), n, 3, 3, 11))
		tref++
	}
	at = -1
	if kind > 2 {
		e.Align()
		at = len(e.b)*8 + 32
		e.pic(textured(vParams{}.pic(1, 1023), n, 3, 3, 12))
	}
	return tref, at
}

func v05spaces(thorough bool) []*Space {
	var out []*Space
	add := func(kind, depth int, name string, alphabet []mbType, fmv bool) {
		out = append(out, &Space{Name: name, Body: func(x *X) {
			cfg := 2
			if fmv {
				cfg += x.Choose(2)
			} else {
				cfg = x.Choose(4)
			}
			conceal, field := cfg&1, cfg>>1
			n := depth
			kinds := make([]mbType, n)
			// the last two kinds and all slice breaks are enumerated by successive
			// pictures of one stream
			for i := 0; i < n-2; i++ {
				kinds[i] = Pick(x, alphabet)
			}
			if kinds[0] == (mbType{}) {
				return
			}
			e := newVid(mbSize(n, 3))
			q := vParams{dcPrec: (n + cfg) & 3, field: field, vlcfmt: field}
			tref := 0
			if kind > 1 {
				e.pic(textured(vParams{}.pic(1, 0), n, 3, 3, 11))
				tref++
			}
			at := -1
			if kind > 2 {
				// the backward reference is shown last: its number is not known yet
				at = len(e.b)*8 + 32
				e.pic(textured(vParams{}.pic(1, 1023), n, 3, 3, 12))
			}
			emit := func(brk int) {
				p := q.pic(kind, tref)
				tref++
				p.conceal = conceal
				p.fcode[0] = [2]int{2, 1}
				if kind == 3 {
					p.fcode[1] = [2]int{1, 2}
				}
				p.slices = append(p.slices, v05edge(p, 0, n))
				skip := 0
				for i := range kinds {
					if kinds[i] == (mbType{}) {
						skip++
						continue
					}
					b := mbOf(p, kinds[i], i, n, 5+tref%3)
					b.skip = skip
					skip = 0
					if brk>>uint(i)&1 == 1 {
						p.slices = append(p.slices, vSlice{row: 1, q: 3 + 5*i%28})
						b.skip = i
					}
					s := &p.slices[len(p.slices)-1]
					s.mbs = append(s.mbs, b)
				}
				p.slices = append(p.slices, v05edge(p, 2, n))
				e.pic(p)
			}
			last := alphabet
			pics := 0
			for _, a := range last {
				for _, b := range last {
					kinds[n-2], kinds[n-1] = a, b
					if b == (mbType{}) || !v05legal(kind, kinds) {
						continue
					}
					for brk := 1; brk < 1<<uint(n); brk += 2 {
						if v05breaks(kinds, brk) {
							emit(brk)
							pics++
							if tref == 500 {
								tref, at = v05restart(e, kind, n, at)
							}
						}
					}
				}
			}
			if pics == 0 {
				return
			}
			v05close(e, at, tref)
			x.Inner(int64(pics))
			e.check(x)
		}})
	}
	if thorough {
		for kind := 2; kind <= 3; kind++ {
			u := unlikeCodes(kind, false)
			u.Name += " in " + string("IPB"[kind-1]) + " pictures"
			out = append(out, u)
		}
	}
	add(1, 6, "I pictures", v05kinds[1], false)
	fieldP := []mbType{{fwd: true, fmv: true}, {fwd: true}, {fwd: true, pattern: true, fmv: true}, {pattern: true}, {intra: true}, {}}
	fieldB := []mbType{
		{fwd: true, fmv: true}, {bwd: true, fmv: true, pattern: true}, {fwd: true, bwd: true, fmv: true},
		{fwd: true}, {bwd: true}, {fwd: true, bwd: true, pattern: true}, {intra: true}, {},
	}
	more := b2i(thorough)
	if thorough {
		add(1, 8, "I pictures, longer", v05kinds[1], false)
	}
	add(2, 5+more, "P pictures", v05kinds[2], false)
	add(3, 4+more, "B pictures", v05kinds[3], false)
	add(2, 5+more, "P pictures with field vectors", fieldP, true)
	add(3, 4+more, "B pictures with field vectors", fieldB, true)
	out = append(out, &Space{Name: "carry between pictures and sequences", Body: func(x *X) {
		// the last slice of one picture and the first of the next: all kinds of both
		k1, k2 := 1+x.Choose(3), 1+x.Choose(3)
		pick := func(k int) mbType {
			for {
				if t := Pick(x, v05kinds[k]); t != (mbType{}) {
					return t
				}
				return mbType{intra: true}
			}
		}
		t1, t2 := pick(k1), pick(k2)
		again := x.Choose(3)
		e := &vEnc{}
		one := func(k int, t mbType, salt int) {
			n := 3
			e.seq(mbSize(n, 3))
			e.group(vGOP{})
			tref := 0
			if k > 1 {
				e.pic(textured(vParams{}.pic(1, 0), n, 3, 3, salt))
				tref++
			}
			if k > 2 {
				e.pic(textured(vParams{}.pic(1, 2), n, 3, 3, salt+1))
			}
			p := vParams{dcPrec: salt & 3}.pic(k, tref)
			p.fcode[0] = [2]int{2, 1}
			p.fcode[1] = [2]int{1, 2}
			p.rows(n, 3, 3, func(c, r int) vMB {
				b := mbOf(p, t, c, n, salt+r)
				if r != 1 {
					b.mv = [2][2]int{}
				}
				return b
			})
			e.pic(p)
		}
		one(k1, t1, 60)
		switch again {
		case 1:
			e.end()
			b, want := e.finish()
			_ = b
			_ = want
		case 2:
			one(k2, t2, 61)
		}
		if again == 1 {
			// two sequences in one stream, each with its own end code
			first := append([]byte{}, e.b...)
			e2 := &vEnc{}
			e = e2
			one(k2, t2, 62)
			second, want2 := e2.finish()
			checkTwo(x, first, second, want2)
			return
		}
		one(k2, t2, 63)
		e.check(x)
	}})
	return out
}

// checkTwo decodes second alone and after first; both must give the same frames.
func checkTwo(x *X, first, second []byte, want []*vFrame) {
	// the first stream ends with two end codes, of which one is surplus
	first = first[:len(first)-4]
	s := append(append([]byte{}, first...), second...)
	v := newSeq(s)
	for {
		if _, err := v.Next(); err != nil {
			if err.Error() != "end of sequence" {
				noteStream(x, s)
				x.Fail("first sequence: %v", err)
			}
			break
		}
	}
	for i, f := range want {
		img, err := v.Next()
		if err != nil {
			noteStream(x, s)
			x.Fail("second sequence, frame %d: %v", i, err)
		}
		if d := diffFrame(img, f); d != "" {
			noteStream(x, s)
			x.Fail("second sequence, frame %d: %s", i, d)
		}
	}
}
