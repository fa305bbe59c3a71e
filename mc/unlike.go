package mc

import "fmt"

// unlikeCodes has f_codes that differ between the components and the directions, and pairs of
// macroblocks with frame or field vectors at the ends of the ranges, in either representation.
func unlikeCodes(kind int, thorough bool) *Space {
	return &Space{Name: "unlike f_codes", Body: func(x *X) {
		fh := 1 + x.Choose(4)
		fv := 1 + x.Choose(3+b2i(thorough))
		first := x.Choose(5) // a frame vector, or field vectors into the fields
		alt := x.Bool()
		mx, my := max(1, (4<<uint(fh))/16), max(1, (8<<uint(fv))/16)
		w, h := 2*mx+3, 2*my+1
		sent := [2][2]int{{fh, fv}, {fh, fv}}
		if kind == 3 && x.Bool() {
			// the other direction has codes of its own; its vectors are short
			sent[1] = [2]int{5 - fh, 4 - min(3, fv)}
		}
		end := func(s, t, hi int) int {
			f := min(sent[0][t], sent[s][t])
			if hi == 1 {
				return 8<<uint(f) - 1
			}
			return -8 << uint(f)
		}
		q := vParams{field: 1}
		mb := func(form, ends int) vMB {
			m := vMB{alt: alt, fwd: true}
			if kind == 3 {
				m.fwd, m.bwd = ends%3 != 1, ends%3 != 0
			}
			if form > 0 {
				m.fmv = true
				m.sel = [2][2]int{{(form - 1) & 1, ends & 1}, {(form - 1) >> 1, ends >> 1 & 1}}
			}
			for s := 0; s < kind-1; s++ {
				k := ends
				if s == 1 {
					k = 15 - ends*7%16
				}
				m.mv[s] = [2]int{end(s, 0, k&1), end(s, 1, k>>1&1)}
				m.mv2[s] = [2]int{end(s, 0, k>>2&1), end(s, 1, k>>3)}
			}
			return m
		}
		const batch = 80 // a divisor of the number of pictures
		var e *vEnc
		tref, n := 0, 0
		begin := func() {
			e = newVid(mbSize(w, h))
			e.pic(textured(q.pic(1, 0), w, h, 4, first))
			tref = 1
			if kind == 3 {
				e.pic(textured(q.pic(1, batch+1), w, h, 4, first+9))
			}
		}
		for i := 0; i < 16; i++ {
			for second := 0; second < 2; second++ {
				for j := 0; j < 16; j++ {
					if first == 0 && i > 3 || second == 0 && j > 3 {
						continue // frame vectors have two components
					}
					if n%batch == 0 {
						if n > 0 {
							e.check(x)
						}
						begin()
					}
					p := q.pic(kind, tref)
					tref++
					n++
					for d := 0; d < kind-1; d++ {
						p.fcode[d] = sent[d]
					}
					for r := 0; r < h; r++ {
						still := vMB{fwd: true}
						s := vSlice{row: r, q: 4, mbs: []vMB{still}}
						if r == my {
							a, b := mb(first, i), mb(second*(1+(i+j)%4), j)
							a.skip = mx - 1
							c := still
							c.alt = alt
							s.mbs = append(s.mbs, a, b, c)
							still.skip = w - mx - 4
						} else {
							still.skip = w - 2
						}
						s.mbs = append(s.mbs, still)
						p.slices = append(p.slices, s)
					}
					e.pic(p)
				}
			}
		}
		x.Inner(int64(n))
		x.Note("f_codes", "%v", fmt.Sprint(sent))
		e.check(x)
	}}
}
