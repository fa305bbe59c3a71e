package mc

import (
	"github.com/32bitkid/mpeg/ts"
)

func init() {
	register(&Check{
		ID: "T01", Level: "model_checking",
		Rule: "every packet of the enumerated header/adaptation/extension space is built, parsed by a new packet object and by a reused one, and every published field is compared with a bit-offset reference reader; states are distinct reference packets",
		Assume: []string{
			"contents of private data are not published by the package and are not compared",
			"clock references and the splice time stamp are covered by every pair of bits on constant backgrounds, not by all 2^48 values; every other field by all of its values",
		},
		Spaces: t01spaces,
	})
}

// checkTS parses the packet and compares it with the reference.
func checkTS(x *X, b []byte, reuse *ts.Packet) {
	r, class := refTS(b)
	if class != tsGood {
		panic("harness: malformed packet in a well-formed space")
	}
	br := newBR(b)
	p, err := ts.NewPacket(br)
	if err != nil {
		x.Note("packet", "%x", b)
		x.Fail("a well-formed packet is rejected: %v", err)
	}
	if d := diffTS(p, &r); d != "" {
		x.Note("packet", "%x", b)
		x.Fail("%s", d)
	}
	if reuse != nil {
		if err := reuse.Next(newBR(b)); err != nil {
			x.Note("packet", "%x", b)
			x.Fail("a well-formed packet is rejected: %v", err)
		}
		if d := diffTS(reuse, &r); d != "" {
			x.Note("packet", "%x", b)
			x.Fail("reused packet object: %s", d)
		}
	}
	x.Visit(hashRef(&r))
}

var backgrounds = []byte{0x00, 0xff, 0x47, 0xa5, 0x5a, 0x01, 0x80}

// fillAF builds a whole packet with the given adaptation structure, every value bit
// taken from the background.
func fillAF(afc, flags, pdl, extFlags, extSlack, afLen int, bg byte) []byte {
	b := make([]byte, 188)
	for i := range b {
		b[i] = bg
	}
	b[0] = 0x47
	b[3] = b[3]&0xcf | byte(afc)<<4
	if afc&2 == 0 {
		return b
	}
	b[4] = byte(afLen)
	if afLen == 0 {
		return b
	}
	b[5] = byte(flags)
	at := 6
	if flags&0x10 != 0 {
		at += 6
	}
	if flags&0x08 != 0 {
		at += 6
	}
	if flags&0x04 != 0 {
		at++
	}
	if flags&0x02 != 0 {
		b[at] = byte(pdl)
		at += 1 + pdl
	}
	if flags&0x01 != 0 {
		b[at] = byte(extLen(extFlags, extSlack))
		b[at+1] = byte(extFlags)<<5 | bg&0x1f
	}
	return b
}

func extLen(extFlags, slack int) int {
	n := 1 + slack
	if extFlags&4 != 0 {
		n += 2
	}
	if extFlags&2 != 0 {
		n += 3
	}
	if extFlags&1 != 0 {
		n += 5
	}
	return n
}

func afMin(flags, pdl, extFlags, extSlack int) int {
	n := 1
	if flags&0x10 != 0 {
		n += 6
	}
	if flags&0x08 != 0 {
		n += 6
	}
	if flags&0x04 != 0 {
		n++
	}
	if flags&0x02 != 0 {
		n += 1 + pdl
	}
	if flags&0x01 != 0 {
		n += 1 + extLen(extFlags, extSlack)
	}
	return n
}

func t01spaces(thorough bool) []*Space {
	var out []*Space
	// every header
	out = append(out, &Space{Name: "headers", Body: func(x *X) {
		hi := x.Choose(1 << 12)
		var reuse ts.Packet
		b := make([]byte, 188)
		for i := range b {
			b[i] = byte(i*37 + hi)
		}
		b[0] = 0x47
		b[1], b[2] = byte(hi>>4), byte(hi<<4)
		lo := b[2]
		for l := 0; l < 1<<12; l++ {
			b[2] = lo | byte(l>>8)
			b[3] = byte(l)
			b[4], b[5] = byte(20+l%3), 0xc0
			checkTS(x, b, &reuse)
			x.Inner(2)
		}
		x.Note("packet", "%x", b)
	}})
	// every adaptation layout
	pdls := []int{0, 1, 2, 7, 8, 30, 100}
	slacks := []int{0, 1, 5, 60}
	if thorough {
		pdls = nil
		for i := 0; i < 183; i++ {
			pdls = append(pdls, i)
		}
		slacks = []int{0, 1, 2, 3, 4, 5, 8, 16, 40, 100, 171}
	}
	out = append(out, &Space{Name: "adaptation layouts", Body: func(x *X) {
		flags := x.Choose(256)
		afc := 2 + x.Choose(2)
		ef := 0
		if flags&1 != 0 {
			ef = x.Choose(8)
		}
		bg := Pick(x, backgrounds)
		var reuse ts.Packet
		n := 0
		for _, pdl := range pdls {
			if flags&2 == 0 && pdl != 0 {
				break
			}
			for _, sl := range slacks {
				if flags&1 == 0 && sl != 0 {
					break
				}
				m := afMin(flags, pdl, ef, sl)
				for l := m; l <= 183; l++ {
					if thorough && flags&2 != 0 && l > m+3 && l < 180 && l%8 != 0 {
						continue
					}
					b := fillAF(afc, flags, pdl, ef, sl, l, bg)
					checkTS(x, b, &reuse)
					n++
				}
			}
		}
		x.Inner(int64(2 * n))
		x.Note("layout", "flags %08b extension flags %03b afc %d background %02x: %d packets", flags, ef, afc, bg, n)
	}})
	out = append(out, &Space{Name: "empty adaptation fields", Body: func(x *X) {
		afc := x.Choose(4)
		bg := byte(x.Choose(256))
		b := fillAF(afc, 0, 0, 0, 0, 0, bg)
		checkTS(x, b, new(ts.Packet))
	}})
	// field values
	type field struct {
		name               string
		flags, ef, off, nb int
	}
	fields := []field{
		{"PCR", 0x10, 0, 6 * 8, 48},
		{"OPCR", 0x08, 0, 6 * 8, 48},
		{"PCR and OPCR", 0x18, 0, 6 * 8, 96},
		{"splice countdown", 0x04, 0, 6 * 8, 8},
		{"LTW", 0x01, 4, 8 * 8, 16},
		{"piecewise rate", 0x01, 2, 8 * 8, 24},
		{"seamless splice", 0x01, 1, 8 * 8, 40},
		{"whole extension", 0x01, 7, 8 * 8, 80},
		{"everything", 0x1f, 7, 6 * 8, 30 * 8},
	}
	out = append(out, &Space{Name: "field values by bit pairs", Body: func(x *X) {
		f := Pick(x, fields)
		bg := Pick(x, []byte{0x00, 0xff})
		i := x.Choose(f.nb)
		b := fillAF(3, f.flags, 3, f.ef, 0, afMin(f.flags, 3, f.ef, 0)+2, bg)
		lens := map[int]bool{}
		if f.flags == 0x1f { // keep the length bytes and flags inside
			at := 6 + 13
			for k := at * 8; k < at*8+8; k++ {
				lens[k] = true
			}
			for k := (at + 4) * 8; k < (at+5)*8+3; k++ {
				lens[k] = true
			}
		}
		flip := func(k int) {
			if !lens[f.off+k] {
				b[(f.off+k)/8] ^= 0x80 >> uint((f.off+k)%8)
			}
		}
		flip(i)
		for j := 0; j < f.nb; j++ {
			if j != i {
				flip(j)
			}
			checkTS(x, b, nil)
			if j != i {
				flip(j)
			}
		}
		x.Inner(int64(f.nb))
		x.Note("field", "%s bit %d with every other bit on background %02x", f.name, i, bg)
	}})
	for _, f := range fields[3:6] {
		f := f
		n := f.nb
		out = append(out, &Space{Name: "all values of " + f.name, Body: func(x *X) {
			var hi int
			if n > 8 {
				hi = x.Choose(1 << uint(n-8))
			}
			b := fillAF(3, f.flags, 0, f.ef, 0, afMin(f.flags, 0, f.ef, 0), 0xff)
			at := f.off / 8
			for k, v := n/8-2, hi; k >= 0; k, v = k-1, v>>8 {
				b[at+k] = byte(v)
			}
			for lo := 0; lo < 256; lo++ {
				b[at+n/8-1] = byte(lo)
				checkTS(x, b, nil)
			}
			x.Inner(256)
		}})
	}
	return out
}
