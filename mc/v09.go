package mc

import (
	"bytes"
	"fmt"

	"github.com/32bitkid/mpeg/video"
)

func init() {
	register(&Check{
		ID: "V09", Level: "model_checking",
		Rule:   "every choice of up to the bounded number of optional elements over all places of a stream of two groups with I, P and B pictures and a repeated sequence header (user data, display, copyright, temporal scalable and reserved extensions, extra bytes, zero stuffing, header fields without effect, composite display), decoded and compared with the reconstruction; all user data up to the bound; AlignTo on every byte string up to the bound from every bit offset; Check and Assert of start codes and extension ids at every offset for every pattern one or two bits away; IsSlice on all 2^32 values; states are (elements, place) and strings",
		Assume: []string{"user data never contains a start code prefix, as the standard requires"},
		Spaces: v09spaces, SelfTest: selfTestVideo,
	})
}

func aligned(f func(w *BW)) []byte {
	w := &BW{}
	f(w)
	w.Align()
	return w.b
}

func extension(id uint64, f func(w *BW)) []byte {
	return aligned(func(w *BW) {
		w.Put(0x1b5, 32).Put(id, 4)
		if f != nil {
			f(w)
		}
	})
}

// v09user are user data, at every level.
var v09user = [][]byte{
	userData(),
	userData('A'),
	userData(0, 0, 2, 0xff, 0, 1, 0),
	userData(0, 0),
	userData(1, 0xb3, 0xb5, 0, 0, 0, 0),
	userData(append(bytes.Repeat([]byte{0, 1, 2, 3}, 70), 0xb7)...),
}

// v09seq are the extensions that follow a sequence extension, v09pic those that follow a
// picture coding extension.
var v09seq, v09pic [][]byte

func init() {
	for _, id := range []uint64{0, 6, 11, 12, 13, 14, 15} {
		b := extension(id, func(w *BW) { w.Put(0x5a5a3, 20).Put(id*0x111, 16) })
		v09seq, v09pic = append(v09seq, b), append(v09pic, b)
	}
	v09seq = append(v09seq,
		extension(2, func(w *BW) { w.Put(5, 3).Put(0, 1).Put(720, 14).Put(1, 1).Put(576, 14) }),
		extension(2, func(w *BW) { w.Put(0, 3).Put(0, 1).Put(0, 14).Put(1, 1).Put(0, 14) }),
		extension(2, func(w *BW) { w.Put(7, 3).Put(0, 1).Put(16383, 14).Put(1, 1).Put(16383, 14) }),
		extension(2, func(w *BW) { w.Put(2, 3).Put(1, 1).Put(0x010101, 24).Put(720, 14).Put(1, 1).Put(576, 14) }),
		extension(2, func(w *BW) { w.Put(2, 3).Put(1, 1).Put(0xffffff, 24).Put(1, 14).Put(1, 1).Put(1, 14) }))
	v09pic = append(v09pic,
		// copyright
		extension(4, func(w *BW) {
			w.Put(1, 1).Put(0xa5, 8).Put(1, 1).Put(0, 7).Put(1, 1).Put(0xfffff, 20).Put(1, 1).Put(0, 22).Put(1, 1).Put(0x3fffff, 22)
		}),
		extension(4, func(w *BW) {
			w.Put(0, 1).Put(0, 8).Put(0, 1).Put(0, 7).Put(1, 1).Put(0, 20).Put(1, 1).Put(0, 22).Put(1, 1).Put(0, 22)
		}),
		// picture display, with one to three offsets
		extension(7, func(w *BW) { w.Put(0, 16).Put(1, 1).Put(0, 16).Put(1, 1) }),
		extension(7, func(w *BW) {
			for i := 0; i < 2; i++ {
				w.Put(0xffff, 16).Put(1, 1).Put(0x8001, 16).Put(1, 1)
			}
		}),
		extension(7, func(w *BW) {
			for i := 0; i < 3; i++ {
				w.Put(0x1234, 16).Put(1, 1).Put(7, 16).Put(1, 1)
			}
		}),
		// temporal scalable
		extension(10, func(w *BW) { w.Put(0, 2).Put(0, 10).Put(1, 1).Put(0, 10) }),
		extension(10, func(w *BW) { w.Put(3, 2).Put(1023, 10).Put(1, 1).Put(1023, 10) }))
}

// slots fills a list of optional elements: up to n of the given ones.
func slots(x *X, n int, of ...[][]byte) (out [][]byte) {
	total := 0
	for _, l := range of {
		total += len(l)
	}
	for i := 0; i < n; i++ {
		k := x.Dev(1 + total)
		if k == 0 {
			return
		}
		k--
		for _, l := range of {
			if k < len(l) {
				out = append(out, l[k])
				break
			}
			k -= len(l)
		}
	}
	return
}

func v09head(x *X, w int) vSeqHdr {
	s := mbSize(w, 2)
	s.stuff = []int{0, 1, 2, 7}[x.Dev(4)]
	switch x.Dev(15) {
	case 1:
		s.aspect = 15
	case 2:
		s.rate = 15
	case 3:
		s.bitrate = 1<<18 - 1
	case 4:
		s.vbv = 1023
	case 5:
		s.constrained = 1
	case 6:
		s.profile = 255
	case 7:
		s.brext = 4095
	case 8:
		s.vbvext = 255
	case 9:
		s.frn, s.frd = 1, 2
	case 10:
		s.frn = 3
	case 11:
		s.frd = 31
	case 12:
		s.aspect, s.rate = 2, 8
	case 13:
		s.profile, s.bitrate = 0x85, 1
	case 14:
		s.vbv, s.vbvext, s.brext = 112, 1, 1
	}
	s.ext = slots(x, 3, v09seq, v09user)
	return s
}

func v09group(x *X) vGOP {
	var g vGOP
	g.stuff = []int{0, 1, 6}[x.Dev(3)]
	g.time = []int{0, 1 << 24, 1<<25 - 1, 0x1234567, 59 << 6}[x.Dev(5)]
	switch x.Dev(4) {
	case 1:
		g.closed = 1
	case 2:
		g.broken = 1
	case 3:
		g.closed, g.broken = 1, 1
	}
	g.ext = slots(x, 2, v09user)
	return g
}

func v09picture(x *X, e *vEnc, pl vPlan, i int) *vPic {
	p := planPic(e, pl, i, w09, 2)
	p.stuff = []int{0, 1, 5}[x.Dev(3)]
	p.vbv = []int{0, 0xffff, 0x1234}[x.Dev(3)]
	p.extra = [][]byte{nil, {0}, {0xff}, {0, 0, 1, 0}, bytes.Repeat([]byte{0x5a, 0}, 100)}[x.Dev(5)]
	if pl.kind > 1 {
		switch x.Dev(4) {
		case 1:
			p.fullpel = 1
		case 2:
			p.fullpel = 2
		case 3:
			p.oldf = 1
		}
	}
	switch x.Dev(7) {
	case 1:
		p.tff = 1
	case 2:
		p.rff = 1
	case 3:
		p.c420 = 1
	case 4:
		p.progf = 1
	case 5:
		p.display = []uint64{1, 7, 1, 127, 255}
	case 6:
		p.display = []uint64{0, 0, 0, 0, 0}
	}
	p.ext = slots(x, 3, v09pic, v09user)
	for k := range p.slices {
		s := &p.slices[k]
		s.stuff = []int{0, 1, 4}[x.Dev(3)]
		switch k := x.Dev(6); k {
		case 1, 2:
			s.intra = k
		case 3:
			s.intra, s.extra = 1, []byte{0}
		case 4:
			s.intra, s.extra = 2, []byte{0xff, 0}
		case 5:
			s.intra, s.extra = 1, bytes.Repeat([]byte{0, 1, 0x80}, 40)
		}
	}
	return p
}

type v09field struct {
	name string
	bits int
	low  uint64 // the lowest value allowed
}

// v09fields writes a short stream; f gives the values of its fields without effect.
func v09fields(f func(name string, bits int, def uint64, low uint64) uint64) ([]byte, []*vFrame) {
	g := func(name string, bits int, def uint64) int { return int(f(name, bits, def, 0)) }
	s := mbSize(2, 1)
	s.aspect, s.rate = int(f("aspect_ratio_information", 4, 1, 1)), int(f("frame_rate_code", 4, 3, 1))
	s.bitrate, s.vbv, s.constrained = int(f("bit_rate_value", 18, 100, 1)), g("vbv_buffer_size_value", 10, 5), g("constrained_parameters_flag", 1, 0)
	s.profile, s.brext, s.vbvext = int(f("profile_and_level_indication", 8, 0x48, 1)), g("bit_rate_extension", 12, 0), g("vbv_buffer_size_extension", 8, 0)
	s.lowDelay, s.frn, s.frd = g("low_delay", 1, 0), g("frame_rate_extension_n", 2, 0), g("frame_rate_extension_d", 5, 0)
	put := func(w *BW, name string, bits int, def uint64) { w.Put(uint64(g(name, bits, def)), bits) }
	if g("sequence_display_extension", 1, 1) == 1 {
		s.ext = append(s.ext, extension(2, func(w *BW) {
			put(w, "video_format", 3, 5)
			c := g("colour_description", 1, 0)
			w.Put(uint64(c), 1)
			p, t, m := f("colour_primaries", 8, 1, 1), f("transfer_characteristics", 8, 1, 1), f("matrix_coefficients", 8, 1, 1)
			if c == 1 {
				w.Put(p, 8).Put(t, 8).Put(m, 8)
			}
			put(w, "display_horizontal_size", 14, 32)
			w.Put(1, 1)
			put(w, "display_vertical_size", 14, 16)
		}))
	}
	e := &vEnc{}
	e.seq(s)
	e.group(vGOP{time: g("time_code", 25, 4096) | 4096, closed: g("closed_gop", 1, 0), broken: g("broken_link", 1, 0)})
	toks := []vToken("IPB")
	if s.lowDelay == 1 {
		toks[2] = 'P' // no B pictures then
	}
	for i, pl := range plan(toks) {
		p := vParams{}.pic(pl.kind, pl.tref)
		p.rows(2, 1, 5, func(c, r int) vMB {
			if pl.kind == 1 {
				return texture(p, c, 9)
			}
			b := vMB{fwd: true, bwd: pl.kind == 3, cbp: 1 + c*20 + i}
			for k := range b.blk {
				b.blk[k].co = []vCoef{{run: k, level: 5 + c}}
			}
			return b
		})
		n := "I: "
		if i > 0 {
			n = string("IPB"[i]) + ": "
		}
		p.vbv, p.tff, p.rff = g(n+"vbv_delay", 16, 0xffff), g(n+"top_field_first", 1, 0), g(n+"repeat_first_field", 1, 0)
		p.c420, p.progf = g(n+"chroma_420_type", 1, 1), g(n+"progressive_frame", 1, 1)
		if i > 0 {
			p.fullpel, p.oldf = g(n+"full_pel_vectors", 2, 0), int(f(n+"old f_codes", 3, 7, 1))
		}
		a, b, c, d, h := g(n+"v_axis", 1, 0), g(n+"field_sequence", 3, 0), g(n+"sub_carrier", 1, 0), g(n+"burst_amplitude", 7, 0), g(n+"sub_carrier_phase", 8, 0)
		if g(n+"composite_display_flag", 1, b2u(i == 1)) == 1 {
			p.display = []uint64{uint64(a), uint64(b), uint64(c), uint64(d), uint64(h)}
		}
		if i == 1 {
			p.ext = append(p.ext, extension(4, func(w *BW) {
				put(w, "copyright_flag", 1, 0)
				put(w, "copyright_identifier", 8, 0)
				put(w, "original_or_copy", 1, 0)
				w.Put(0, 7).Put(1, 1)
				put(w, "copyright_number_1", 20, 0)
				w.Put(1, 1)
				put(w, "copyright_number_2", 22, 0)
				w.Put(1, 1)
				put(w, "copyright_number_3", 22, 0)
			}), extension(7, func(w *BW) {
				for k := 0; k < 1+g("number of frame centre offsets", 1, 0); k++ {
					put(w, "frame_centre_horizontal_offset", 16, 0)
					w.Put(1, 1)
					put(w, "frame_centre_vertical_offset", 16, 0)
					w.Put(1, 1)
				}
			}), extension(10, func(w *BW) {
				put(w, "reference_select_code", 2, 0)
				put(w, "forward_temporal_reference", 10, 0)
				w.Put(1, 1)
				put(w, "backward_temporal_reference", 10, 0)
			}))
		}
		e.pic(p)
	}
	return e.finish()
}

func v09spaces(thorough bool) []*Space {
	bound := 2
	if thorough {
		bound = 3
	}
	var out []*Space
	out = append(out, &Space{Name: "optional elements", Bound: bound, Body: func(x *X) {
		e := &vEnc{}
		e.seq(v09head(x, w09))
		for i, pl := range plan([]vToken("GPBGB")) {
			if pl.group {
				if i > 0 {
					e.seq(v09head(x, w09))
				}
				e.group(v09group(x))
			}
			e.pic(v09picture(x, e, pl, i))
		}
		e.flush()
		e.startCode(0xb7, []int{0, 1, 3}[x.Dev(3)])
		checkStream(x, &source{data: e.b}, e.b, e.out)
		x.Visit(HashChoices(x))
		x.Note("stream", "%s", hexs(e.b))
	}})
	// combinations at one place, without a bound on deviations
	out = append(out, &Space{Name: "elements at one place", Bound: 1 << 20, Body: func(x *X) {
		e := &vEnc{}
		plain := &X{} // takes no deviation
		n := 2
		if thorough {
			n = 3
		}
		place := x.Choose(3)
		at := func(p int) *X {
			if p == place {
				return x
			}
			return plain
		}
		s := v09head(plain, w09)
		s.ext = slots(at(0), n, v09seq, v09user)
		e.seq(s)
		for i, pl := range plan([]vToken("GPB")) {
			if pl.group {
				e.group(v09group(at(1)))
			}
			p := v09picture(plain, e, pl, i)
			if i == 1 {
				p.extra = [][]byte{nil, {0}, {0xff, 0}}[at(2).Dev(3)]
				p.display = [][]uint64{nil, {1, 5, 0, 99, 201}}[at(2).Dev(2)]
				p.stuff = []int{0, 1, 2}[at(2).Dev(3)]
				p.ext = slots(at(2), n, v09pic, v09user)
			}
			e.pic(p)
		}
		b, want := e.finish()
		checkStream(x, &source{data: b}, b, want)
		x.Visit(HashChoices(x))
	}})
	// every field that has no effect on the frames: all values of short fields, all pairs of
	// bits of long ones, and pairs of fields
	var fields []v09field
	v09fields(func(name string, bits int, def uint64, low uint64) uint64 {
		fields = append(fields, v09field{name, bits, low})
		return def
	})
	some := func(f v09field) []uint64 {
		top := uint64(1)<<uint(f.bits) - 1
		return []uint64{f.low, 1, top, top / 3, top/2 + 1}
	}
	with := func(x *X, set map[string]uint64, what string) {
		b, want := v09fields(func(name string, bits int, def uint64, low uint64) uint64 {
			if v, ok := set[name]; ok {
				return v
			}
			return def
		})
		x.Inner(1)
		if d := framesDiff(&source{data: b}, want); d != "" {
			noteStream(x, b)
			x.Fail("%s: %s", what, d)
		}
	}
	out = append(out, &Space{Name: "values of fields without effect", Body: func(x *X) {
		i := x.Choose(len(fields))
		f := fields[i]
		var vals []uint64
		if f.bits <= 8 {
			for v := f.low; v < 1<<uint(f.bits); v++ {
				vals = append(vals, v)
			}
		} else {
			top := uint64(1)<<uint(f.bits) - 1
			vals = some(f)
			for a := 0; a < f.bits; a++ {
				for b := 0; b <= a; b++ {
					vals = append(vals, 1<<uint(a)|1<<uint(b), top&^(1<<uint(a)|1<<uint(b)))
				}
			}
		}
		for _, v := range vals {
			with(x, map[string]uint64{f.name: v}, fmt.Sprintf("%s = %d", f.name, v))
			x.Visit(HashInts(90, uint64(i), v))
		}
	}})
	out = append(out, &Space{Name: "pairs of fields without effect", Body: func(x *X) {
		i := x.Choose(len(fields))
		j := x.Choose(len(fields))
		if j >= i {
			return
		}
		for _, v := range some(fields[i]) {
			for _, w := range some(fields[j]) {
				with(x, map[string]uint64{fields[i].name: v, fields[j].name: w}, fmt.Sprintf("%s = %d and %s = %d", fields[i].name, v, fields[j].name, w))
			}
			x.Visit(HashInts(91, uint64(i), uint64(j), v))
		}
	}})
	alphabet := []byte{0, 1, 2, 0xb2, 0xb3, 0xff}
	length := 6
	if thorough {
		length = 7
	}
	out = append(out, &Space{Name: "user data", Body: func(x *X) {
		place := x.Choose(4)
		n := x.Choose(length + 1)
		var u []byte
		for i := 0; i < min(n, 2); i++ {
			u = append(u, Pick(x, alphabet))
		}
		total := 1
		for i := len(u); i < n; i++ {
			total *= len(alphabet)
		}
		for k := 0; k < total; k++ {
			d := append([]byte{}, u...)
			for i, r := len(u), k; i < n; i, r = i+1, r/len(alphabet) {
				d = append(d, alphabet[r%len(alphabet)])
			}
			if bytes.Contains(d, []byte{0, 0, 1}) {
				continue
			}
			e := &vEnc{}
			s := mbSize(1, 1)
			if place == 0 {
				s.ext = [][]byte{userData(d...)}
			}
			e.seq(s)
			var g vGOP
			if place == 1 {
				g.ext = [][]byte{userData(d...)}
			}
			e.group(g)
			p := tiny(vPlan{kind: 1}, len(d))
			if place >= 2 {
				p.ext = [][]byte{userData(d...)}
			}
			if place == 3 {
				p.ext = append(p.ext, v09pic[9], userData(d...))
			}
			e.pic(p)
			b, want := e.finish()
			checkStream(x, &source{data: b}, b, want)
			x.Visit(HashBytes(9+uint64(place), d))
			x.Inner(1)
		}
	}})
	out = append(out, &Space{Name: "extra bytes", Body: func(x *X) {
		// every byte value in extra information, and every count
		v := x.Choose(256)
		for n := 0; n < 3; n++ {
			e := newVid(mbSize(1, 1))
			p := tiny(vPlan{kind: 1}, 3)
			q := tiny(vPlan{kind: 2, tref: 1}, 4)
			l := []int{1, 2, v}[n]
			p.extra = bytes.Repeat([]byte{byte(v)}, l)
			q.slices[0].intra = 1 + v&1
			q.slices[0].extra = bytes.Repeat([]byte{byte(v)}, l)
			e.pic(p)
			e.pic(q)
			b, want := e.finish()
			checkStream(x, &source{data: b}, b, want)
			x.Visit(HashInts(9, uint64(v), uint64(l)))
		}
	}})
	out = append(out, &Space{Name: "words of extra bytes", Body: func(x *X) {
		n := 1 + x.Choose(5+b2i(thorough))
		place := x.Choose(3)
		word := make([]byte, n)
		for i := range word {
			word[i] = Pick(x, []byte{0, 1, 0x80, 0xff})
		}
		e := newVid(mbSize(1, 1))
		p := tiny(vPlan{kind: 1}, 3)
		q := tiny(vPlan{kind: 2, tref: 1}, 4)
		switch place {
		case 0:
			p.extra = word
		case 1:
			q.extra = word
			q.slices[0].intra, q.slices[0].extra = 1, word
		case 2:
			p.slices[0].intra, p.slices[0].extra = 2, word
		}
		e.pic(p)
		e.pic(q)
		b, want := e.finish()
		checkStream(x, &source{data: b}, b, want)
		x.Visit(HashBytes(uint64(19+place), word))
	}})
	out = append(out, &Space{Name: "stuffing", Body: func(x *X) {
		// any number of zero bytes before any start code
		place := x.Choose(9)
		n := x.Choose(70)
		if n >= 64 {
			n = []int{100, 255, 256, 257, 4096, 5000}[n-64]
		}
		at := func(p int) int {
			if p == place {
				return n
			}
			return 0
		}
		e := &vEnc{}
		s := mbSize(2, 2)
		s.stuff = at(0)
		e.seq(s)
		e.group(vGOP{stuff: at(1)})
		for i, pl := range plan([]vToken("GPB")) {
			p := planPic(e, pl, i, 2, 2)
			p.stuff = at(2 + i)
			p.slices[1].stuff = at(5 + i)
			e.pic(p)
		}
		e.flush()
		e.startCode(0xb7, at(8))
		checkStream(x, &source{data: e.b}, e.b, e.out)
		x.Visit(HashInts(9, uint64(place), uint64(n)))
	}})
	out = append(out, &Space{Name: "long elements", Body: func(x *X) {
		n := Pick(x, append([]int{70, 100, 188, 200, 300}, longMarks...))
		what := x.Choose(8)
		fill := Pick(x, []byte{0xff, 0x80, 0x01})
		long := bytes.Repeat([]byte{fill}, n)
		e := &vEnc{}
		s := mbSize(2, 2)
		var g vGOP
		switch what {
		case 0:
			s.ext = [][]byte{userData(long...)}
		case 1:
			g.ext = [][]byte{userData(long...)}
		case 7:
			s.stuff = n
		}
		e.seq(s)
		e.group(g)
		for i, pl := range plan([]vToken("GPB")) {
			p := planPic(e, pl, i, 2, 2)
			switch {
			case what == 2 && i == 1:
				p.ext = [][]byte{userData(long...)}
			case what == 3 && i == 1:
				p.extra = long
			case what == 4 && i == 2:
				p.slices[1].intra, p.slices[1].extra = 1, long
			case what == 5 && i == 1:
				p.stuff = n
			case what == 6 && i == 0:
				p.slices[1].stuff = n
			}
			e.pic(p)
		}
		e.check(x)
		x.Visit(HashInts(92, uint64(n), uint64(what), uint64(fill)))
	}})
	out = append(out, v09scan(thorough)...)
	return out
}

func v09scan(thorough bool) []*Space {
	var out []*Space
	codes := []video.StartCode{0x100, 0x101, 0x1b3, 0x1b7, 0x1ff}
	length := 9
	if thorough {
		length = 11
	}
	alphabet := []byte{0, 1, 0xb3}
	out = append(out, &Space{Name: "AlignTo", Body: func(x *X) {
		code := Pick(x, codes)
		skip := x.Choose(18)
		n := x.Choose(length + 1)
		alpha := alphabet
		if c := byte(code); c != 0xb3 && c > 1 {
			alpha = []byte{0, 1, c}
		}
		total := 1
		for i := 0; i < n; i++ {
			total *= len(alpha)
		}
		for k := 0; k < total; k++ {
			d := make([]byte, n)
			for i, r := 0, k; i < n; i, r = i+1, r/len(alpha) {
				d[i] = alpha[r%len(alpha)]
			}
			if skip > 8*n {
				continue
			}
			v := newSeq(d)
			for i := skip; i > 0; i -= min(i, 8) {
				if err := v.Skip(uint(min(i, 8))); err != nil {
					x.Fail("%x: skipping %d bits: %v", d, skip, err)
				}
			}
			at := -1
			for i := (skip + 7) / 8; i+4 <= n; i++ {
				if bits(d, 8*i, 32) == uint64(code) {
					at = i
					break
				}
			}
			err := v.AlignTo(code)
			if at < 0 {
				if err == nil {
					x.Fail("%x after %d bits: aligned to %#x, which is not there", d, skip, uint32(code))
				}
				continue
			}
			if err != nil {
				x.Fail("%x after %d bits: not aligned to %#x: %v", d, skip, uint32(code), err)
			}
			if got := rest(v); !bytes.Equal(got, d[at:]) {
				x.Fail("%x after %d bits: aligned to %#x the stream continues with %x, expected %x", d, skip, uint32(code), got, d[at:])
			}
		}
		x.Inner(int64(total))
		x.Visit(HashInts(91, uint64(code), uint64(skip), uint64(n)))
	}})
	// a code far away, and successive calls
	out = append(out, &Space{Name: "AlignTo over long streams", Body: func(x *X) {
		d := make([]byte, 0, 10000)
		var at []int
		for i := 0; i < 6; i++ {
			n := []int{0, 1, 3, 5, 700, 4095}[(i+x.Choose(6))%6]
			for k := 0; k < n; k++ {
				d = append(d, []byte{0, 0, 1, 0xb4, 0, 1, 0xb3}[(k+n)%7])
			}
			at = append(at, len(d))
			d = append(d, 0, 0, 1, 0xb3)
		}
		v := newSeq(d)
		from := 0
		for _, want := range at {
			// the filler may have made an earlier one
			for i := from; i <= want; i++ {
				if bits(d, 8*i, 32) == 0x1b3 {
					want = i
					break
				}
			}
			if err := v.AlignTo(0x1b3); err != nil {
				x.Fail("%x: %v", d, err)
			}
			// still there: aligning again changes nothing
			if err := v.AlignTo(0x1b3); err != nil {
				x.Fail("%x: second call: %v", d, err)
			}
			b := append([]byte{}, d[want:min(len(d), want+8)]...)
			for i, c := range b[:4] {
				if g, err := v.Read32(8); err != nil || byte(g) != c {
					x.Fail("byte %d after aligning is %#x (%v), expected %#x", i, g, err, c)
				}
			}
			from = want + 4
		}
		x.Visit(HashBytes(92, d))
	}})
	out = append(out, &Space{Name: "start codes", Body: func(x *X) {
		code := Pick(x, []uint32{0x100, 0x101, 0x1af, 0x1b2, 0x1b3, 0x1b5, 0x1b7, 0x1b8, 0x1ff})
		off := x.Choose(41)
		i, j := x.Choose(33), x.Choose(33)
		is := code
		if i < 32 {
			is ^= 1 << uint(i)
		}
		if j < 32 {
			is ^= 1 << uint(j)
		}
		for tail := 0; tail < 3; tail++ {
			// at the very end, with more to follow, and cut short
			w := &BW{}
			for k := off; k > 0; k -= min(k, 8) {
				w.Put(0xaa, min(k, 8))
			}
			w.Put(uint64(is), 32)
			have := (off + 32 + 7) / 8 * 8
			if tail == 1 {
				w.Put(0x1b3000001b3, 48)
			}
			w.Align()
			d := w.b
			if tail == 2 {
				d = d[:len(d)-1]
				have = 8 * len(d)
			}
			enough := tail < 2 || have >= off+32
			br := newBR(d)
			for k := off; k > 0; k -= min(k, 8) {
				br.Skip(uint(min(k, 8)))
			}
			sc := video.StartCode(code)
			ok, err := sc.Check(br)
			if (err == nil) != enough || ok != (enough && is == code) {
				x.Fail("%x after %d bits: checking for %#x gives %v, %v", d, off, code, ok, err)
			}
			err = sc.Assert(br)
			took := 0
			switch {
			case !enough:
				if err == nil {
					x.Fail("%x after %d bits: %#x asserted in a stream cut short", d, off, code)
				}
			case is == code:
				took = 32
				if err != nil {
					x.Fail("%x after %d bits: asserting %#x: %v", d, off, code, err)
				}
			case err != video.ErrUnexpectedStartCode:
				x.Fail("%x after %d bits: asserting %#x: %v", d, off, code, err)
			}
			sameFrom(x, br, d, off+took)
		}
		x.Visit(HashInts(93, uint64(code), uint64(is), uint64(off)))
		x.Inner(2)
	}})
	out = append(out, &Space{Name: "extension ids", Body: func(x *X) {
		id, is := x.Choose(16), x.Choose(16)
		for off := 0; off < 24; off++ {
			for _, tail := range []int{0, 1, 2} {
				w := &BW{}
				for k := 0; k < off; k++ {
					w.Put(uint64(k+id)&1, 1)
				}
				w.Put(uint64(is), 4)
				if tail == 1 {
					w.Put(0x5a5a5a5a, 32)
				}
				w.Align()
				d := w.b
				if tail == 2 {
					d = d[:len(d)-1]
				}
				if off > 8*len(d) {
					continue
				}
				enough := 8*len(d) >= off+4
				br := newBR(d)
				for k := 0; k < off; k++ {
					br.Skip(1)
				}
				ok, err := video.ExtensionID(id).Check(br)
				if (err == nil) != enough || ok != (enough && is == id) {
					x.Fail("%x after %d bits: checking for extension %d gives %v, %v", d, off, id, ok, err)
				}
				err = video.ExtensionID(id).Assert(br)
				took := 0
				switch {
				case !enough:
					if err == nil {
						x.Fail("%x after %d bits: extension %d asserted in a stream cut short", d, off, id)
					}
				case is == id:
					took = 4
					if err != nil {
						x.Fail("%x after %d bits: asserting extension %d: %v", d, off, id, err)
					}
				case err != video.ErrUnexpectedExtensionID:
					x.Fail("%x after %d bits: asserting extension %d: %v", d, off, id, err)
				}
				sameFrom(x, br, d, off+took)
			}
		}
		res := id == 0 || id == 6 || id > 10
		if video.ExtensionID(id).IsReserved() != res {
			x.Fail("extension id %d: reserved is %v", id, !res)
		}
		x.Visit(HashInts(94, uint64(id), uint64(is)))
		x.Inner(71)
	}})
	out = append(out, &Space{Name: "slice start codes", Body: func(x *X) {
		hi := uint32(x.Choose(1 << 12))
		for lo := uint32(0); lo < 1<<20; lo++ {
			c := hi<<20 | lo
			if video.StartCode(c).IsSlice() != (c-0x101 <= 0xae) {
				x.Fail("IsSlice of %#x is wrong", c)
			}
		}
		x.Inner(1 << 20)
		x.Visit(HashInts(95, uint64(hi)))
	}})
	return out
}

// sameFrom checks that the reader stands at the given bit of d.
func sameFrom(x *X, br interface {
	Read1() (bool, error)
}, d []byte, at int) {
	for i := at; i < min(8*len(d), at+40); i++ {
		b, err := br.Read1()
		if err != nil || b2u(b) != bits(d, i, 1) {
			x.Fail("%x: bit %d is not read next (%v)", d, i, err)
		}
	}
	if at+40 >= 8*len(d) {
		if _, err := br.Read1(); err == nil {
			x.Fail("%x: the reader does not end where the stream does", d)
		}
	}
}

const w09 = 3 // width of the pictures in macroblocks
