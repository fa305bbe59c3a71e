package mc

import (
	"fmt"
	"io"
	"runtime"

	"github.com/32bitkid/bitreader"
	"github.com/32bitkid/mpeg/pes"
	"github.com/32bitkid/mpeg/ps"
	"github.com/32bitkid/mpeg/ts"
)

// Words of PES packets, and of packs, in which any field of any packet and pack header may
// deviate from the ordinary, up to a number of deviations.

// fieldPES is a packet whose ordinary form is plain or has every optional field.
func fieldPES(x *X, i int, rich bool) pesSpec {
	s := pesSpec{id: 0xe0, bg: 0x5a, pts: 1000 + uint64(i), dts: 900 + uint64(i), stuffing: 1}
	if rich {
		s.flags1, s.flags2, s.extFlags, s.phf, s.ext2 = 0x0f, 0xff, 0xf1, 5, 3
	}
	s.id = []byte{s.id, 0xe1, 0xc0, 0xbd, 0xfd, 0xef, 0xbe, 0xbf, 0xbc, 0xf8, 0xff}[x.Dev(11)]
	s.flags1 ^= byte(x.Dev(4)<<4 | x.Dev(2)<<3 | x.Dev(2)<<2 | x.Dev(2)<<1 | x.Dev(2))
	switch x.Dev(3) {
	case 1:
		s.flags2 ^= 0x80
		if s.flags2>>6 == 1 {
			s.flags2 &^= 0x40
		}
	case 2:
		if s.flags2 ^= 0x40; s.flags2>>6 == 1 {
			s.flags2 |= 0x80
		}
	}
	s.flags2 ^= byte(x.Dev(2)<<5 | x.Dev(2)<<4 | x.Dev(2)<<3 | x.Dev(2)<<2 | x.Dev(2)<<1 | x.Dev(2))
	s.extFlags ^= byte(x.Dev(2)<<7 | x.Dev(2)<<6 | x.Dev(2)<<5 | x.Dev(2)<<4 | x.Dev(2)*0x0e | x.Dev(2))
	s.phf = []int{s.phf, 0, 1, 60}[x.Dev(4)]
	s.ext2 = []int{s.ext2, 0, 1, 40}[x.Dev(4)]
	s.stuffing = []int{s.stuffing, 0, 2, 32}[x.Dev(4)]
	s.bg = []byte{s.bg, 0, 0xff, 0x80, 0x01}[x.Dev(5)]
	s.pts = []uint64{s.pts, 0, 1<<33 - 1, 1 << 32, 1 << 15, s.pts - 1}[x.Dev(6)]
	s.dts = []uint64{s.dts, 0, 1<<33 - 1, 1 << 32, s.pts}[x.Dev(5)]
	n := []int{40 + i, 0, 1, 2, 600}[x.Dev(5)]
	s.payload = pattern(5*i+3, n)
	switch x.Dev(6) {
	case 1:
		copy(s.payload, []byte{0, 0, 1, 0xe0, 0, 0, 0x80, 0, 0})
	case 2:
		copy(s.payload, []byte{0, 0, 1, 0xb9})
	case 3:
		clear(s.payload)
	case 4:
		copy(s.payload[n/2:], []byte{0, 0, 1, 0xba, 0x44})
	case 5:
		for k := range s.payload {
			s.payload[k] = 0xff
		}
	}
	return s
}

func fieldPack(x *X, i int, rich bool) packSpec {
	h := packSpec{scr: 5000 + uint64(i), ext: 7, rate: 999, reserved: 31}
	sys := &sysHeader{rate: 500, audio: 3, video: 2, alock: 1, reserved: 127, streams: []psStream{{0xe0, 1, 100}, {0xc0, 0, 30}}}
	h.scr = []uint64{h.scr, 0, 1<<33 - 1, 1 << 32, 1 << 15}[x.Dev(5)]
	h.ext = []uint64{h.ext, 0, 511, 256}[x.Dev(4)]
	h.rate = []uint64{h.rate, 0, 1<<22 - 1, 1}[x.Dev(4)]
	h.reserved = []uint64{h.reserved, 0}[x.Dev(2)]
	h.stuffing = [][]byte{nil, {0xff}, {0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff}}[x.Dev(3)]
	if (x.Dev(2) == 1) != rich {
		h.sys = sys
	}
	sys.rate = []int{sys.rate, 0, 1<<22 - 1}[x.Dev(3)]
	sys.audio = []int{sys.audio, 0, 63, 32}[x.Dev(4)]
	sys.video = []int{sys.video, 0, 31, 16}[x.Dev(4)]
	sys.fixed, sys.csps, sys.alock, sys.vlock, sys.prr = sys.fixed^x.Dev(2), sys.csps^x.Dev(2), sys.alock^x.Dev(2), sys.vlock^x.Dev(2), sys.prr^x.Dev(2)
	sys.reserved = []int{sys.reserved, 0}[x.Dev(2)]
	switch x.Dev(5) {
	case 1:
		sys.streams = nil
	case 2:
		sys.streams = sys.streams[:1]
	case 3:
		sys.streams = append(sys.streams, psStream{0xb8, 1, 8191}, psStream{0xb9, 0, 0}, psStream{0xbd, 1, 0})
	case 4:
		sys.streams[0], sys.streams[1] = sys.streams[1], sys.streams[0]
	}
	if len(sys.streams) > 0 {
		t := &sys.streams[len(sys.streams)-1]
		t.id = []byte{t.id, 0xff, 0xbf}[x.Dev(3)]
		t.scale ^= x.Dev(2)
		t.size = []int{t.size, 0, 8191, 4096}[x.Dev(4)]
	}
	return h
}

type fieldPES1 struct {
	b   []byte
	ref refPES
}

var pesFieldRun = map[string]func(x *X, w []fieldPES1, b []byte){
	"P01": func(x *X, w []fieldPES1, b []byte) {
		for _, p := range w {
			checkPES(x, p.b, 0)
		}
	},
	"P02": func(x *X, w []fieldPES1, b []byte) {
		br := newBR(b)
		p := new(pes.Packet)
		for i := range w {
			if err := p.Next(br); err != nil {
				x.Fail("packet %d: %v", i, err)
			}
			if d, _ := diffPES(p, &w[i].ref); d != "" {
				x.Fail("packet %d read into the object before it: %s", i, d)
			}
		}
		if err := p.Next(br); err != io.EOF {
			x.Fail("after the last packet: %v", errName(err))
		}
	},
	"P03": func(x *X, w []fieldPES1, b []byte) {
		// every mandatory part is still seen to be wrong, and nothing else is
		br := newBR(b)
		var kept []*pes.Packet
		for i := range w {
			p, err := pes.NewPacket(br)
			if err != nil {
				x.Fail("packet %d: %v", i, err)
			}
			kept = append(kept, p)
		}
		for i, p := range kept {
			if d, _ := diffPES(p, &w[i].ref); d != "" {
				x.Fail("packet %d, after the others were read: %s", i, d)
			}
		}
		last := w[len(w)-1].b
		for _, cut := range []int{len(last) - 1, len(last) / 2, 7, 4} {
			if cut >= len(last) || cut <= 0 {
				continue
			}
			br := newBR(b[:len(b)-len(last)+cut])
			p := new(pes.Packet)
			for i := range w {
				err := p.Next(br)
				if i < len(w)-1 && err != nil {
					x.Fail("packet %d: %v", i, err)
				}
				if i == len(w)-1 && (err == nil || err == io.EOF || err == ts.EOP) {
					x.Fail("packet %d cut at byte %d of %d: %v", i, cut, len(last), errName(err))
				}
			}
		}
	},
	"P04": func(x *X, w []fieldPES1, b []byte) {
		var want []byte
		for _, p := range w {
			want = append(want, p.ref.payload...)
		}
		for _, rs := range []int{4096, 33} {
			res := readAllSized(x, pes.NewPayloadReader(&source{data: b}), len(want), constSize(rs))
			if d := diffBytes(res.data, want); d != "" {
				x.Fail("reads of %d: %s", rs, d)
			}
			if res.err != io.EOF {
				x.Fail("reads of %d: ends with %v", rs, errName(res.err))
			}
		}
	},
}

type fieldPack1 struct {
	h    packSpec
	pkts []fieldPES1
}

var psFieldRun = map[string]func(x *X, w []fieldPack1, b []byte){
	"S01": func(x *X, w []fieldPack1, b []byte) {
		br := newBR(b)
		for i := range w {
			h, err := ps.NewPackHeader(br)
			if err != nil {
				x.Fail("pack header %d: %v", i, err)
			}
			if d, _ := diffPack(h, w[i].h); d != "" {
				x.Fail("pack header %d: %s", i, d)
			}
			for j := range w[i].pkts {
				p, err := pes.NewPacket(br)
				if err != nil {
					x.Fail("packet %d after pack header %d: %v", j, i, err)
				}
				if d, _ := diffPES(p, &w[i].pkts[j].ref); d != "" {
					x.Fail("packet %d after pack header %d: %s", j, i, d)
				}
			}
		}
	},
	"S02": func(x *X, w []fieldPack1, b []byte) {
		d := ps.NewDecoder(bitreader.NewReader(&source{data: b}))
		done := d.Go()
		type held struct {
			p    *pes.Packet
			i, j int
		}
		var kept []held
		i := 0
		var packs []*ps.Pack
		for pk := range d.Packs() {
			if i >= len(w) {
				x.Fail("%d packs, expected %d", i+1, len(w))
			}
			packs = append(packs, pk)
			j := 0
			for p := range pk.Packets() {
				if j >= len(w[i].pkts) {
					x.Fail("pack %d: %d packets, expected %d", i, j+1, len(w[i].pkts))
				}
				kept = append(kept, held{p, i, j})
				j++
			}
			if j != len(w[i].pkts) {
				x.Fail("pack %d: %d packets, expected %d", i, j, len(w[i].pkts))
			}
			i++
		}
		if i != len(w) {
			x.Fail("%d packs, expected %d; error %v", i, len(w), d.Err())
		}
		if !<-done || d.Err() != nil {
			x.Fail("completion does not report success: %v", d.Err())
		}
		for i, pk := range packs {
			if df, _ := diffPack(pk.PackHeader, w[i].h); df != "" {
				x.Fail("pack %d: %s", i, df)
			}
		}
		for _, k := range kept {
			if df, _ := diffPES(k.p, &w[k.i].pkts[k.j].ref); df != "" {
				x.Fail("pack %d packet %d: %s", k.i, k.j, df)
			}
		}
	},
	"S03": func(x *X, w []fieldPack1, b []byte) {
		want, class := readPS(b)
		if class != pesGood {
			panic("harness: bad stream")
		}
		for _, rs := range []int{4096, 33} {
			s03check(x, func() string { return fmt.Sprintf("reads of %d", rs) }, b, want, class, nil, 0, constSize(rs))
		}
	},
}

func fieldPESWord(x *X, n, shape int) (w []fieldPES1, b []byte) {
	for i := 0; i < n; i++ {
		s := fieldPES(x, i, shape>>uint(i)&1 == 1)
		p := fieldPES1{b: s.bytes()}
		var class pesClass
		if p.ref, class = readPES(p.b); class != pesGood {
			panic(fmt.Sprintf("harness: %x is %d", p.b, class))
		}
		w, b = append(w, p), append(b, p.b...)
	}
	return
}

// shapes say which packets are rich, in binary.
var fieldShapesPES = []int{0, 7, 2, 5}

func psFieldSpaces(kind string, thorough bool) []*Space {
	heads := func(b []byte) string {
		if len(b) > 400 {
			b = b[:400]
		}
		return hexs(b)
	}
	if f := pesFieldRun[kind]; f != nil {
		run := func(name string, n, bound int) *Space {
			return &Space{Name: name, Bound: bound, Body: func(x *X) {
				w, b := fieldPESWord(x, n, Pick(x, fieldShapesPES))
				x.Note("packets", "%s", heads(b))
				x.Visit(HashBytes(uint64(n), b))
				f(x, w, b)
			}}
		}
		if thorough {
			return []*Space{run("fields of three packets", 3, 3), run("fields of one packet", 1, 4)}
		}
		return []*Space{run("fields of three packets", 3, 2), run("fields of two packets", 2, 3)}
	}
	f := psFieldRun[kind]
	run := func(name string, packs, pkts, bound int) *Space {
		return &Space{Name: name, Bound: bound, Body: func(x *X) {
			shape := Pick(x, []int{0, 7, 2})
			var w []fieldPack1
			var b []byte
			for i := 0; i < packs; i++ {
				p := fieldPack1{h: fieldPack(x, i, (shape+i)&1 == 0)}
				var pb []byte
				p.pkts, pb = fieldPESWord(x, pkts, shape>>uint(i))
				w = append(w, p)
				b = append(append(b, p.h.bytes()...), pb...)
			}
			b = append(b, 0, 0, 1, 0xb9)
			x.Note("stream", "%s", heads(b))
			x.Visit(HashBytes(uint64(packs), b))
			f(x, w, b)
			runtime.Gosched()
		}}
	}
	if thorough {
		return []*Space{run("fields of two packs", 2, 2, 2), run("fields of a pack", 1, 2, 3), run("fields of pack headers", 2, 0, 4)}
	}
	return []*Space{run("fields of two packs", 2, 2, 2), run("fields of pack headers", 2, 0, 3)}
}
