package mc

import (
	"bytes"
	"fmt"
	"image"

	"github.com/32bitkid/mpeg/video"
)

func init() {
	register(&Check{
		ID: "V06", Level: "model_checking",
		Rule: "every coding order of I, P and B pictures, group headers and repeated sequence headers up to the bound, alone and in pairs of concatenated sequences with and without group headers, and groups of up to 3100 pictures with the wrap of the temporal reference at every phase of the pattern, and runs of up to 1023 B pictures, and every entry at a repeated sequence header; the frames returned are compared one by one, in order, with the reconstruction of the pictures in display order; states are (picture structure, frames returned)",
		Assume: []string{
			"temporal references count from zero, in a sequence without group headers as well",
			"pictures that are shown before the first reference picture of an entry point may be wrong or missing there: they may need a picture from before it",
			"temporal references within a group have no gaps, as the standard requires",
			"runs of 1024 and more B pictures, whose temporal references say nothing about the order of the pictures around them, are left out",
		},
		Spaces: v06spaces, SelfTest: selfTestVideo,
	})
}

// tiny builds a one-macroblock picture with content of its own.
func tiny(k vPlan, i int) *vPic {
	p := vParams{}.pic(k.kind, k.tref)
	b := vMB{intra: k.kind == 1, fwd: k.kind == 2}
	switch k.kind {
	case 1:
		for j := range b.blk {
			b.blk[j].dc = (i*37 + j*11 + 5) & 255
		}
		b.blk[0].co = []vCoef{{level: 2 + i%9}}
	case 2:
		b.cbp = 1 + i%63
		for j := range b.blk {
			b.blk[j].co = []vCoef{{run: (i + j) % 5, level: 3 + i%7}}
		}
	case 3:
		b.fwd, b.bwd = k.fwd && i%3 != 0, !k.fwd || i%3 != 1
		b.cbp = 1 + (i*5)%63
		for j := range b.blk {
			b.blk[j].co = []vCoef{{run: (i + 2*j) % 6, level: -2 - i%5}}
		}
	}
	p.slices = []vSlice{{q: 6, mbs: []vMB{b}}}
	return p
}

// v06seq writes one sequence; heads tells before which group or I picture the sequence
// header is repeated, groups whether the first group has a header.
func v06seq(e *vEnc, toks []vToken, heads int, firstGroup bool, salt int) {
	e.seq(mbSize(1, 1))
	for i, k := range plan(toks) {
		if i > 0 && heads>>uint(i)&1 == 1 {
			e.seq(mbSize(1, 1))
		}
		if k.group && (i > 0 || firstGroup) {
			e.group(vGOP{closed: i & 1, broken: i >> 1 & 1, time: i * 4097})
		}
		e.pic(tiny(k, i+salt))
	}
}

func v06spaces(thorough bool) []*Space {
	n := 8
	if thorough {
		n = 10
	}
	var out []*Space
	out = append(out, &Space{Name: "coding orders", Body: func(x *X) {
		toks := structure(x, 1+x.Choose(n))
		first := x.Bool()
		e := &vEnc{}
		v06seq(e, toks, 0, first, 1)
		x.Note("coding order", "%s", tokBytes(toks))
		e.check(x)
		x.Visit(HashBytes(6, tokBytes(toks)))
	}})
	out = append(out, &Space{Name: "repeated sequence headers", Body: func(x *X) {
		toks := structure(x, 1+x.Choose(n-2))
		heads := 0
		for i := 1; i < len(toks); i++ {
			if toks[i] == 'I' || toks[i] == 'G' || toks[i] == 'P' {
				heads |= x.Choose(2) << uint(i)
			}
		}
		e := &vEnc{}
		v06seq(e, toks, heads, true, 2)
		x.Note("coding order", "%s", tokBytes(toks))
		e.check(x)
		x.Visit(HashBytes(uint64(heads), tokBytes(toks)))
	}})
	m := 4
	if thorough {
		m = 5
	}
	out = append(out, &Space{Name: "concatenated sequences", Body: func(x *X) {
		a := structure(x, 1+x.Choose(m))
		b := structure(x, 1+x.Choose(m))
		g1, g2 := x.Bool(), x.Bool()
		stuff := x.Choose(3)
		third := x.Bool()
		e := &vEnc{}
		v06seq(e, a, 0, g1, 1)
		e.end()
		parts := [][]*vFrame{e.out}
		e.out = nil
		e.Bytes(make([]byte, stuff)...)
		v06seq(e, b, 0, g2, 20)
		e.end()
		parts = append(parts, e.out)
		if third {
			e.out = nil
			v06seq(e, a, 0, g2, 40)
			e.end()
			parts = append(parts, e.out)
		}
		x.Note("coding orders", "%s then %s", tokBytes(a), tokBytes(b))
		checkParts(x, e.b, parts)
		x.Visit(HashBytes(HashBytes(uint64(stuff), tokBytes(a)), tokBytes(b)))
	}})
	// the 10 bits of the temporal reference wrap at every phase of the pattern
	out = append(out, &Space{Name: "long groups", Body: func(x *X) {
		pat := Pick(x, []string{"I", "P", "PB", "PBB", "PBBB", "IPBB", "PBBBBBBB"})
		phase := x.Choose(len(pat) + 1)
		first := x.Choose(2)
		toks := []vToken{'G'}
		for i := 0; i < phase; i++ {
			toks = append(toks, 'P')
		}
		for len(toks) < 2100+first*1000 {
			for _, c := range pat {
				toks = append(toks, vToken(c))
			}
		}
		e := &vEnc{}
		v06seq(e, toks, 0, first == 1, 3)
		x.Note("pattern", "%s phase %d", pat, phase)
		x.Inner(int64(len(toks)))
		e.check(x)
		x.Visit(HashInts(6, uint64(len(pat)), uint64(phase), uint64(first)))
	}})
	out = append(out, &Space{Name: "long runs of B pictures", Body: func(x *X) {
		n := x.Choose(1024)
		if !thorough && n > 8 && n%32 > 1 && n < 500 || !thorough && n > 520 && n%32 < 31 && n < 1015 {
			return
		}
		phase := x.Choose(3)
		toks := []vToken{'G'}
		for i := 0; i < phase; i++ {
			toks = append(toks, 'P')
		}
		for k := 0; k < 2; k++ {
			toks = append(toks, vToken("PI"[(k+phase)&1]))
			for i := 0; i < n; i++ {
				toks = append(toks, 'B')
			}
		}
		toks = append(toks, 'P', 'G', 'B', 'P')
		e := &vEnc{}
		v06seq(e, toks, 0, true, 5)
		x.Note("coding order", "%d references, twice a reference with %d B pictures", phase+1, n)
		x.Inner(int64(len(toks)))
		e.check(x)
		x.Visit(HashInts(16, uint64(n), uint64(phase)))
	}})
	out = append(out, &Space{Name: "groups after long groups", Body: func(x *X) {
		// a group ends on every temporal reference near the wrap
		length := 1018 + x.Choose(12)
		pat := Pick(x, []string{"P", "PB", "PBB"})
		next := structure(x, 1+x.Choose(3))
		toks := []vToken{'G'}
		for len(toks) < length {
			for _, c := range pat {
				toks = append(toks, vToken(c))
			}
		}
		toks = append(toks, next...)
		e := &vEnc{}
		v06seq(e, toks, 0, true, 4)
		x.Inner(int64(len(toks)))
		e.check(x)
		x.Visit(HashBytes(uint64(length), tokBytes(next)))
	}})
	// decoding starts at a later sequence header
	out = append(out, &Space{Name: "entry points", Body: func(x *X) {
		large := x.Choose(2)
		toks := structure(x, 1+x.Choose(n-1-2*large))
		e := &vEnc{}
		size := mbSize(1, 1)
		if large == 1 {
			size = mbSize(3, 2)
		}
		e.seq(size)
		var at, first, lead []int // byte, picture, pictures shown before the first reference
		for i, k := range plan(toks) {
			if k.group {
				if i > 0 {
					at, first, lead = append(at, len(e.b)), append(first, i), append(lead, 0)
					e.seq(size)
					for j := i + 1; j < len(toks) && toks[j] == 'B'; j++ {
						lead[len(lead)-1]++
					}
				}
				e.group(vGOP{closed: i & 1, broken: i >> 1 & 1})
			}
			if large == 1 {
				e.pic(planPic(e, k, i, 3, 2))
			} else {
				e.pic(tiny(k, i+6))
			}
		}
		e.end()
		x.Note("coding order", "%s", tokBytes(toks))
		for k := range at {
			want := e.out[first[k]:]
			for _, before := range []int{0, 1, 2, 3, 5, 9} {
				b := append(bytes.Clone([]byte{0xb3, 1, 0, 0, 1, 0, 0, 0, 0}[9-before:]), e.b[at[k]:]...)
				v := newSeq(b)
				if err := v.AlignTo(video.SequenceHeaderStartCode); err != nil {
					x.Fail("entry point %d: %v", k, err)
				}
				var got []*image.YCbCr
				for {
					img, err := v.Next()
					if err == video.EOS {
						break
					}
					if err != nil {
						noteStream(x, b)
						x.Fail("entry point %d, %d bytes before it: %v after %d frames", k, before, err, len(got))
					}
					if got = append(got, img); len(got) > len(want) {
						noteStream(x, b)
						x.Fail("entry point %d, %d bytes before it: more than %d frames", k, before, len(want))
					}
				}
				// pictures shown before the first reference may need what is not there
				skip := len(want) - len(got)
				if skip > lead[k] {
					noteStream(x, b)
					x.Fail("entry point %d, %d bytes before it: %d frames, expected %d", k, before, len(got), len(want))
				}
				for i := lead[k]; i < len(want); i++ {
					if d := diffFrame(got[i-skip], want[i]); d != "" {
						noteStream(x, b)
						x.Fail("entry point %d, %d bytes before it, frame %d: %s", k, before, i-skip, d)
					}
				}
				x.Inner(1)
			}
			x.Visit(HashBytes(uint64(first[k]*2+large), tokBytes(toks)))
		}
	}})
	return out
}

// checkParts decodes a stream of several sequences.
func checkParts(x *X, stream []byte, parts [][]*vFrame) {
	v := newSeq(stream)
	fail := func(f string, a ...any) {
		noteStream(x, stream)
		x.Fail("%s", fmt.Sprintf(f, a...))
	}
	for k, want := range parts {
		for i, f := range want {
			img, err := v.Next()
			if err != nil {
				fail("sequence %d, frame %d of %d: %v", k, i, len(want), err)
			}
			if d := diffFrame(img, f); d != "" {
				fail("sequence %d, frame %d of %d: %s", k, i, len(want), d)
			}
		}
		if img, err := v.Next(); img != nil || err != video.EOS {
			fail("after sequence %d: %s, expected the end of the sequence", k, errName(err))
		}
	}
	if img, err := v.Next(); img != nil || err == nil || err == video.EOS {
		fail("after the last sequence and the end of the stream: %s, expected an error of its own", errName(err))
	}
}
