package mc

import "github.com/32bitkid/mpeg/ts"

// Packets in which any field of the header, the adaptation field and its extension may deviate
// from a background, up to a number of deviations. The reader of the fields has no state but the
// bit position, and flags decide what is there: what a flag, a length or a value of one field does
// to another is a matter of few of them.

var afBackgrounds = []struct {
	flags, ext int
	value      uint64
}{
	{0x00, 0, 0},
	{0x1f, 7, 0},
	{0x1f, 7, ^uint64(0)},
	{0xff, 7, 0xa5a5a5a5a5a5a5a5},
	{0x11, 1, 0x5a5a5a5a5a5a5a5a},
}

type bitPacker struct {
	b  []byte
	at int
}

func (w *bitPacker) put(v uint64, n int) {
	for i := n - 1; i >= 0; i-- {
		if w.at/8 >= len(w.b) {
			return
		}
		m := byte(0x80) >> uint(w.at%8)
		w.b[w.at/8] &^= m
		if v>>uint(i)&1 != 0 {
			w.b[w.at/8] |= m
		}
		w.at++
	}
}

// devValue is the background in n bits, or one of the values around it.
func devValue(x *X, v uint64, n int) uint64 {
	m := ^uint64(0) >> uint(64-n)
	v &= m
	switch x.Dev(6) {
	case 1:
		v ^= 1
	case 2:
		v ^= 1 << uint(n-1)
	case 3:
		v = ^v & m
	case 4:
		v ^= 1 << uint(n/2)
	case 5:
		v = 0x123456789abcdef & m
	}
	return v
}

func afFieldPacket(x *X) []byte {
	bg := Pick(x, afBackgrounds)
	b := make([]byte, 188)
	w := &bitPacker{b: b}
	w.put(0x47, 8)
	for i := 0; i < 3; i++ {
		w.put(bg.value&1^uint64(x.Dev(2)), 1)
	}
	w.put(devValue(x, bg.value, 13), 13)
	w.put(uint64(x.Dev(4)), 2)
	afc := []uint64{3, 2, 1, 0}[x.Dev(4)]
	w.put(afc, 2)
	w.put(bg.value&15^uint64(x.Dev(16)), 4)
	for i := 4; i < 188; i++ {
		b[i] = byte(bg.value) ^ byte(i)
	}
	if afc&2 == 0 {
		return b
	}
	flags, ext := bg.flags, bg.ext
	for i := 0; i < 8; i++ {
		flags ^= x.Dev(2) << uint(i)
	}
	pdl, slack := 0, 0
	if flags&2 != 0 {
		pdl = []int{3, 0, 1, 8, 120}[x.Dev(5)]
	}
	if flags&1 != 0 {
		for i := 0; i < 3; i++ {
			ext ^= x.Dev(2) << uint(i)
		}
		slack = []int{0, 1, 6, 20}[x.Dev(4)]
	}
	min := afMin(flags, pdl, ext, slack)
	var n int
	switch x.Dev(6) {
	case 0:
		n = min + 2
	case 1:
		n = min
	case 2:
		n = 183
	case 3:
		n = 182
	case 4:
		n = 181 // two bytes of payload
	case 5:
		w.put(0, 8)
		return b
	}
	if n < min {
		n = min
	}
	w.put(uint64(n), 8)
	w.put(uint64(flags), 8)
	for _, f := range []int{0x10, 0x08} {
		if flags&f != 0 {
			w.put(devValue(x, bg.value, 33), 33)
			w.put(bg.value&63^uint64(x.Dev(2)*63), 6)
			w.put(devValue(x, bg.value%300, 9), 9)
		}
	}
	if flags&4 != 0 {
		w.put(devValue(x, bg.value, 8), 8)
	}
	if flags&2 != 0 {
		w.put(uint64(pdl), 8)
		w.at += 8 * pdl
	}
	if flags&1 != 0 {
		w.put(uint64(extLen(ext, slack)), 8)
		w.put(uint64(ext), 3)
		w.put(bg.value&31^uint64(x.Dev(2)*31), 5)
		if ext&4 != 0 {
			w.put(bg.value&1^uint64(x.Dev(2)), 1)
			w.put(devValue(x, bg.value, 15), 15)
		}
		if ext&2 != 0 {
			w.put(bg.value&3^uint64(x.Dev(2)*3), 2)
			w.put(devValue(x, bg.value, 22), 22)
		}
		if ext&1 != 0 {
			w.put(devValue(x, bg.value, 4), 4)
			for _, k := range []int{3, 15, 15} {
				w.put(devValue(x, bg.value, k), k)
				w.put(bg.value&1^uint64(x.Dev(2)), 1)
			}
		}
	}
	return b
}

func afFieldSpaces(thorough bool) []*Space {
	one := &Space{Name: "fields of a packet", Bound: 2, Body: func(x *X) {
		checkTS(x, afFieldPacket(x), new(ts.Packet))
	}}
	two := &Space{Name: "fields of two packets", Bound: 2, Body: func(x *X) {
		var p ts.Packet
		checkTS(x, afFieldPacket(x), &p)
		checkTS(x, afFieldPacket(x), &p)
	}}
	if thorough {
		one.Bound = 4
	} else {
		one.Bound = 3
	}
	return []*Space{one, two}
}

// afReuse: two packets out of one stream, into one object.
func afReuse(thorough bool) []*Space {
	s := &Space{Name: "fields of two packets of a stream", Bound: 2, Body: func(x *X) {
		a, b := afFieldPacket(x), afFieldPacket(x)
		stream := append(append(append([]byte{}, a...), b...), 0x47, 0x12, 0x34)
		br := newBR(stream)
		var p ts.Packet
		for i, raw := range [][]byte{a, b, a} {
			if i == 2 {
				if got := rest(br); string(got) != "\x47\x12\x34" {
					x.Note("packets", "%x %x", a[:40], b[:40])
					x.Fail("after two packets the stream continues with %x", got)
				}
				break
			}
			r, _ := refTS(raw)
			if err := p.Next(br); err != nil {
				x.Note("packets", "%x %x", a[:40], b[:40])
				x.Fail("packet %d is rejected: %v", i, err)
			}
			if d := diffTS(&p, &r); d != "" {
				x.Note("packets", "%x %x", a[:40], b[:40])
				x.Fail("packet %d: %s", i, d)
			}
			x.Visit(HashInts(hashRef(&r), uint64(i)))
		}
	}}
	if thorough {
		s.Bound = 3
	}
	return []*Space{s}
}

// afTesters: what a tester says of a packet depends on the one field it names.
func afTesters(thorough bool) []*Space {
	s := &Space{Name: "testers and the fields of a packet", Bound: 2, Body: func(x *X) {
		raw := afFieldPacket(x)
		r, _ := refTS(raw)
		p, err := ts.NewPacket(newBR(raw))
		if err != nil {
			x.Note("packet", "%x", raw)
			x.Fail("rejected: %v", err)
		}
		pid, start := uint32(raw[1]&31)<<8|uint32(raw[2]), raw[1]&0x40 != 0
		want := func(what string, t ts.PacketTester, v bool) {
			if got := t(p); got != v {
				x.Note("packet", "%x", raw)
				x.Fail("%s is %v, expected %v", what, got, v)
			}
		}
		want("IsPayloadUnitStart", ts.IsPayloadUnitStart, start)
		want("Not of IsPayloadUnitStart", ts.IsPayloadUnitStart.Not(), !start)
		want("IsPID", ts.IsPID(pid), true)
		want("Not of IsPID", ts.IsPID(pid).Not(), false)
		for i := uint(0); i < 16; i++ {
			o := ts.IsPID(pid ^ 1<<i)
			want("IsPID of another", o, false)
			want("one or the other", o.Or(ts.IsPID(pid)), true)
			want("one and the other", ts.IsPID(pid).And(o), false)
			want("the other or a start", o.Or(ts.IsPayloadUnitStart), start)
			want("a start and not the other", ts.IsPayloadUnitStart.And(o.Not()), start)
		}
		x.Inner(83)
		x.Visit(hashRef(&r))
	}}
	if thorough {
		s.Bound = 3
	}
	return []*Space{s}
}

var afRun = map[string]func(thorough bool) []*Space{"T01": afFieldSpaces, "T02": afReuse, "T11": afTesters}
