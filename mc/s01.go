package mc

import (
	"bytes"
	"fmt"
	"io"
	"sync"

	"github.com/32bitkid/bitreader"
	"github.com/32bitkid/mpeg/pes"
	"github.com/32bitkid/mpeg/ps"
)

func init() {
	register(&Check{
		ID: "S01", Level: "model_checking",
		Rule:   "every value of every field by exhaustive sections and bit pairs, every stuffing length, every system header flag combination, stream lists up to the bound, and every marker bit cleared in turn; the header and the position after it are compared with what was encoded; states are distinct headers",
		Assume: []string{"clock references are covered by sections of 15 bits and bit pairs, not by all 2^42 values"},
		Spaces: s01spaces,
	})
	register(&Check{
		ID: "S02", Level: "model_checking",
		Rule: "every pack/packet structure of the space, intact, cut at every byte or with a damaged packet, is decoded by the real decoder under every order of source progress, pack receives and packet receives; deliveries, closings, completion value and error are compared with the model; states are (structure, damage, packs and packets delivered, closings)",
		Assume: []string{
			"goroutines of the library run for real inside a controlled bubble (testing/synctest); scheduling points are source reads at packet boundaries and all receives",
			"memory accesses between scheduling points are covered by a separate free-running pass under the race detector",
			"consumers drain every packet channel they are given",
		},
		Spaces: s02spaces,
		Race:   raceDecoder,
	})
	register(&Check{
		ID: "S03", Level: "model_checking",
		Rule:   "every pack/packet structure up to the depth x read sizes x source chunk sizes, every truncation point and every single-byte corruption is read through the pack reader and compared with the payloads and ending a reference walk assigns; states are (structure, bytes delivered, ending)",
		Assume: []string{"packets of undefined length, start codes below 0xBC between packets and system headers whose length field contradicts their content may be read either way"},
		Spaces: s03spaces,
	})
}

func checkPack(x *X, s packSpec, tail []byte) {
	b := append(s.bytes(), tail...)
	br := newBR(b)
	h, err := ps.NewPackHeader(br)
	if err != nil {
		x.Note("header", "%x", b)
		x.Fail("a well-formed pack header is rejected: %v", err)
	}
	d, known := diffPack(h, s)
	if d != "" {
		x.Note("header", "%x", b)
		x.Fail("%s", d)
	}
	if known != "" {
		x.Known(known, "base is %d, expected %d", h.SystemClockReferenceBase, s.scr)
	}
	if got := rest(br); !bytes.Equal(got, tail) {
		x.Note("header", "%x", b)
		x.Fail("after the header the stream continues with %x, expected %x", got, tail)
	}
	x.Visit(HashBytes(1, b))
}

var psTails = [][]byte{{0, 0, 1, 0xe0, 0, 0}, {0, 0, 1, 0xba}, {0, 0, 1, 0xb9}}

func s01spaces(thorough bool) []*Space {
	sys := func(n int) *sysHeader {
		h := &sysHeader{rate: 0x2aaaaa, audio: 21, video: 10, fixed: 1, vlock: 1, reserved: 0x7f}
		for i := 0; i < n; i++ {
			h.streams = append(h.streams, psStream{byte(0xe0 + i%32), i % 2, 0x1555 >> uint(i%3)})
		}
		return h
	}
	var out []*Space
	out = append(out, &Space{Name: "clock reference by bit pairs", Body: func(x *X) {
		bg := uint64(x.Choose(2))
		i := x.Choose(64)
		base := packSpec{scr: bg * (1<<33 - 1), ext: bg * 511, rate: bg * (1<<22 - 1)}
		if x.Bool() {
			base.sys = sys(1)
		}
		flip := func(k int) {
			switch {
			case k < 33:
				base.scr ^= 1 << uint(k)
			case k < 42:
				base.ext ^= 1 << uint(k-33)
			default:
				base.rate ^= 1 << uint(k-42)
			}
		}
		flip(i)
		for j := 0; j < 64; j++ {
			if i != j {
				flip(j)
			}
			checkPack(x, base, psTails[(i+j)%3])
			if i != j {
				flip(j)
			}
		}
		x.Inner(63)
	}})
	out = append(out, &Space{Name: "clock reference by sections", Body: func(x *X) {
		which := x.Choose(4)
		hi := x.Choose(128)
		for lo := 0; lo < 256; lo++ {
			v := uint64(hi<<8 | lo)
			s := packSpec{scr: 0x5555_5555, ext: 0xaa, rate: 1}
			switch which {
			case 0:
				s.scr = s.scr&^0x7fff | v
			case 1:
				s.scr = s.scr&^(0x7fff<<15) | v<<15
			case 2:
				s.ext = v % 512
				s.scr = v << 17
			case 3:
				s.scr = v & 3 << 30
				s.rate = v << 7
			}
			checkPack(x, s, psTails[0])
		}
		x.Inner(255)
	}})
	out = append(out, &Space{Name: "all mux rates", Body: func(x *X) {
		hi := x.Choose(1 << 12)
		for lo := 0; lo < 1<<10; lo++ {
			if !thorough && (hi+lo)%8 != 0 {
				continue
			}
			checkPack(x, packSpec{scr: 9, ext: 1, rate: uint64(hi<<10 | lo)}, psTails[0])
			x.Inner(1)
		}
	}})
	out = append(out, &Space{Name: "stuffing", Body: func(x *X) {
		n := x.Choose(8)
		bg := Pick(x, []byte{0xff, 0x00, 0x01, 0xbb})
		res := uint64(x.Choose(32))
		k := x.Choose(4)
		s := packSpec{scr: 1, ext: 2, rate: 3, reserved: res, stuffing: bytes.Repeat([]byte{bg}, n)}
		if k > 0 {
			s.sys = sys(k - 1)
		}
		for _, t := range psTails {
			checkPack(x, s, t)
		}
		x.Inner(2)
		x.Note("header", "%x", s.bytes())
	}})
	out = append(out, &Space{Name: "system header fields", Body: func(x *X) {
		fl := x.Choose(32)
		audio := x.Choose(64)
		for video := 0; video < 32; video++ {
			s := packSpec{rate: 5, sys: &sysHeader{audio: audio, video: video, rate: 1 << uint(fl%22), fixed: fl & 1, csps: fl >> 1 & 1, alock: fl >> 2 & 1, vlock: fl >> 3 & 1, prr: fl >> 4 & 1,
				reserved: (audio + video) & 0x7f}}
			s.sys.streams = []psStream{{0xc0, 0, video}}
			checkPack(x, s, psTails[video%3])
		}
		x.Inner(31)
	}})
	out = append(out, &Space{Name: "rate bounds", Body: func(x *X) {
		hi := x.Choose(1 << 12)
		for lo := 0; lo < 1<<10; lo++ {
			if !thorough && (hi+lo)%8 != 0 {
				continue
			}
			checkPack(x, packSpec{rate: 5, sys: &sysHeader{rate: hi<<10 | lo}}, psTails[1])
			x.Inner(1)
		}
	}})
	out = append(out, &Space{Name: "stream entries", Body: func(x *X) {
		n := x.Choose(4)
		s := packSpec{rate: 5, sys: &sysHeader{rate: 7}}
		for i := 0; i < n; i++ {
			s.sys.streams = append(s.sys.streams, psStream{Pick(x, []byte{0xb8, 0xb9, 0xbd, 0xc0, 0xe0, 0xff, 0x80}), x.Choose(2), Pick(x, []int{0, 1, 0x1fff, 0x1555})})
		}
		checkPack(x, s, psTails[0])
	}})
	out = append(out, &Space{Name: "buffer sizes", Body: func(x *X) {
		size := x.Choose(8192)
		for id := 0x80; id < 0x100; id += 3 {
			s := packSpec{rate: 5, sys: &sysHeader{rate: 7, streams: []psStream{{0xe0, 1, 0}, {byte(id), id & 1, size}, {0xbd, 0, 8191}}}}
			checkPack(x, s, psTails[0])
		}
		x.Inner(42)
	}})
	out = append(out, &Space{Name: "long stream lists", Body: func(x *X) {
		n := x.Choose(100)
		checkPack(x, packSpec{rate: 5, stuffing: make([]byte, n%8), sys: sys(n)}, psTails[n%3])
	}})
	out = append(out, &Space{Name: "markers and start codes", Body: func(x *X) {
		s := packSpec{scr: 0x1_2345_6789 >> 1, ext: 0x1ff, rate: 0x3fffff, stuffing: make([]byte, x.Choose(8))}
		if k := x.Choose(4); k > 0 {
			s.sys = sys(k - 1)
		}
		b := append(s.bytes(), psTails[0]...)
		for _, m := range s.markers() {
			b[m/8] ^= 0x80 >> uint(m%8)
			if _, err := ps.NewPackHeader(newBR(b)); err == nil {
				x.Note("header", "%x", b)
				x.Fail("a header with the fixed bit %d inverted is accepted", m)
			}
			b[m/8] ^= 0x80 >> uint(m%8)
			x.Inner(1)
			x.Visit(HashInts(9, uint64(m), uint64(len(b))))
		}
		for m := 0; m < 32; m++ {
			b[m/8] ^= 0x80 >> uint(m%8)
			br := newBR(b)
			if _, err := ps.NewPackHeader(br); err == nil {
				x.Fail("a wrong start code (bit %d inverted) is accepted", m)
			}
			if got := rest(br); !bytes.Equal(got, b) {
				x.Fail("a wrong start code consumes %d bytes", len(b)-len(got))
			}
			b[m/8] ^= 0x80 >> uint(m%8)
			x.Inner(1)
		}
		for cut := 0; cut < len(b)-6; cut++ {
			if _, err := ps.NewPackHeader(newBR(b[:cut])); err == nil {
				x.Fail("a header cut at byte %d is accepted", cut)
			}
			x.Inner(1)
		}
	}})
	return out
}

// ---------------------------------------------------------------- structures

func psKinds() []pesSpec {
	return []pesSpec{
		{id: 0xe0, flags2: 0x80, pts: 3, payload: pattern(70, 30)},
		{id: 0xbd, payload: pattern(71, 5)},
		{id: 0xbe, payload: bytes.Repeat([]byte{0xff}, 9)},
		{id: 0xbf, payload: pattern(72, 12)},
		{id: 0xc0},
	}
}

type psStructure struct {
	packs  []packSpec
	pkts   [][]int // kinds per pack
	stream []byte
	starts []int // offsets of packs, packets and the end code
	where  [][]int
}

func buildPS(kinds []pesSpec, pkts [][]int, end bool) psStructure {
	p := psStructure{pkts: pkts}
	for i, ks := range pkts {
		h := packSpec{scr: uint64(1000 + i), ext: uint64(i), rate: uint64(500 + i), stuffing: bytes.Repeat([]byte{0xff}, i%3)}
		if i%2 == 0 {
			h.sys = &sysHeader{rate: 77 + i, audio: i, video: 1, streams: []psStream{{0xe0, 1, 100 + i}}}
		}
		p.packs = append(p.packs, h)
		p.starts = append(p.starts, len(p.stream))
		p.stream = append(p.stream, h.bytes()...)
		var w []int
		for _, k := range ks {
			p.starts = append(p.starts, len(p.stream))
			w = append(w, len(p.stream))
			p.stream = append(p.stream, kinds[k].bytes()...)
		}
		p.where = append(p.where, w)
	}
	p.starts = append(p.starts, len(p.stream))
	if end {
		p.stream = append(p.stream, 0, 0, 1, 0xb9)
	}
	return p
}

// stepSource stops at a gate whenever a read reaches one of the given offsets.
type stepSource struct {
	b     *bubble
	name  string
	src   *source
	stops []int
	ended bool
}

func (g *stepSource) Read(p []byte) (int, error) {
	if len(g.stops) > 0 && g.src.pos >= g.stops[0] {
		for len(g.stops) > 0 && g.src.pos >= g.stops[0] {
			g.stops = g.stops[1:]
		}
		g.b.wait(g.name)
	} else if g.src.pos >= len(g.src.data) && !g.ended {
		g.ended = true
		g.b.wait(g.name)
	}
	n := len(p)
	if len(g.stops) > 0 && g.src.pos+n > g.stops[0] {
		n = g.stops[0] - g.src.pos
	}
	return g.src.Read(p[:n])
}

func enumPS(x *X, maxPacks, maxPkts, kinds int) [][]int {
	n := 1 + x.Choose(maxPacks)
	var out [][]int
	for i := 0; i < n; i++ {
		m := x.Choose(maxPkts + 1)
		l := []int{}
		for j := 0; j < m; j++ {
			l = append(l, x.Choose(kinds))
		}
		out = append(out, l)
	}
	return out
}

type psExpect struct {
	packs   int   // whole packs delivered
	packets []int // packets delivered per pack
	ok      bool
}

// runDecoder explores one program stream. packs/pkts are what must be delivered.
func runDecoder(x *X, p psStructure, kinds []pesSpec, stream []byte, srcEnd error, exp psExpect, dev bool, key uint64) {
	waiter := Pick(x, []string{"!wait for completion", "~wait for completion"})
	refs := make([]refPES, len(kinds))
	for i, k := range kinds {
		refs[i], _ = readPES(k.bytes())
	}
	inBubble(x, func(b *bubble) {
		src := &stepSource{b: b, name: "source", src: &source{data: stream, end: srcEnd}, stops: append([]int{}, p.starts...)}
		d := ps.NewDecoder(bitreader.NewReader(src))
		var mu sync.Mutex
		gotPacks, closedPacks, open := 0, false, 0
		gotPkts := make([]int, len(p.packs)+1)
		finished := false
		done := d.Go()
		type held struct {
			p *pes.Packet
			k int
		}
		var holding []held
		go func() {
			for n := 0; ; n++ {
				b.wait("receive pack")
				pk, ok := <-d.Packs()
				if !ok {
					mu.Lock()
					closedPacks = true
					mu.Unlock()
					return
				}
				if n >= exp.packs || pk == nil {
					b.failf("pack %d is delivered, expected %d packs", n, exp.packs)
					return
				}
				if df, _ := diffPack(pk.PackHeader, p.packs[n]); df != "" {
					b.failf("pack %d: %s", n, df)
				}
				mu.Lock()
				gotPacks++
				open++
				mu.Unlock()
				go func() {
					for m := 0; ; m++ {
						b.wait(fmt.Sprintf("receive packet of pack %d", n))
						q, ok := <-pk.Packets()
						if !ok {
							mu.Lock()
							open--
							mu.Unlock()
							if m != exp.packets[n] {
								b.failf("pack %d ends after %d packets, expected %d", n, m, exp.packets[n])
							}
							return
						}
						if m >= exp.packets[n] || q == nil {
							b.failf("pack %d delivers packet %d, expected %d packets", n, m, exp.packets[n])
							return
						}
						k := p.pkts[n][m]
						if df, _ := diffPES(q, &refs[k]); df != "" {
							b.failf("pack %d packet %d: %s", n, m, df)
						}
						mu.Lock()
						gotPkts[n]++
						holding = append(holding, held{q, k})
						mu.Unlock()
					}
				}()
			}
		}()
		go func() {
			b.wait(waiter)
			v, ok := <-done
			if !ok {
				b.failf("completion is signalled without a value")
				return
			}
			err := d.Err()
			if v != exp.ok {
				b.failf("completion reports %v (error %v), expected %v", v, err, exp.ok)
			}
			if v != (err == nil) {
				b.failf("completion reports %v, but the error is %v", v, err)
			}
			select {
			case _, ok := <-d.Packs():
				if ok {
					b.failf("completion is signalled before the last pack is delivered")
				}
			default:
				b.failf("completion is signalled, but the pack channel is open")
			}
			mu.Lock()
			finished = true
			mu.Unlock()
		}()
		b.run(dev, func() {
			mu.Lock()
			defer mu.Unlock()
			h := HashInts(key, uint64(gotPacks), b2u(closedPacks), b2u(finished), uint64(open))
			for _, n := range gotPkts {
				h = HashInts(h, uint64(n))
			}
			x.Visit(h)
			for _, g := range holding {
				if df, _ := diffPES(g.p, &refs[g.k]); df != "" {
					x.Fail("a packet received earlier has changed: %s", df)
				}
			}
		})
		if !finished || !closedPacks || open != 0 {
			x.Fail("deadlock: packs %d, pack channel closed %v, open packet channels %d, completion %v; schedule %v", gotPacks, closedPacks, open, finished, b.trace)
		}
		if gotPacks != exp.packs {
			x.Fail("%d packs are delivered, expected %d", gotPacks, exp.packs)
		}
	})
}

// expectCut says what a stream cut at byte n must still deliver.
func (p psStructure) expectCut(n int) psExpect {
	e := psExpect{}
	if n >= len(p.stream) {
		for _, k := range p.pkts {
			e.packs++
			e.packets = append(e.packets, len(k))
		}
		e.ok = true
		return e
	}
	for i := range p.packs {
		hdr := p.packs[i].bytes()
		start := p.starts[0]
		if i > 0 || true {
			start = p.packStart(i)
		}
		// a header without a system header is complete only when what follows is visible
		need := start + len(hdr)
		if p.packs[i].sys == nil {
			need += 4
		} else {
			need++
		}
		if n < need {
			break
		}
		e.packs++
		got := 0
		for j := range p.pkts[i] {
			end := p.packetEnd(i, j)
			if n < end {
				break
			}
			got++
		}
		e.packets = append(e.packets, got)
		if got < len(p.pkts[i]) {
			break
		}
	}
	return e
}

func (p psStructure) packStart(i int) int {
	k := 0
	for a := 0; a < i; a++ {
		k += 1 + len(p.pkts[a])
	}
	return p.starts[k]
}

func (p psStructure) packetEnd(i, j int) int {
	k := 0
	for a := 0; a < i; a++ {
		k += 1 + len(p.pkts[a])
	}
	return p.starts[k+1+j+1]
}

func keyPS(pkts [][]int) uint64 {
	h := uint64(11)
	for _, l := range pkts {
		h = HashInts(h, 99)
		for _, k := range l {
			h = HashInts(h, uint64(k))
		}
	}
	return h
}

func s02spaces(thorough bool) []*Space {
	kinds := psKinds()
	mp, mk := 2, 2
	if thorough {
		mp, mk = 3, 2
	}
	return []*Space{
		{Name: "intact streams, all interleavings", Body: func(x *X) {
			pkts := enumPS(x, mp, mk, 2)
			p := buildPS(kinds, pkts, true)
			runDecoder(x, p, kinds, p.stream, nil, p.expectCut(len(p.stream)), false, keyPS(pkts))
		}},
		{Name: "all packet kinds", Bound: 1, Body: func(x *X) {
			pkts := enumPS(x, 2, 2+b2i(thorough), len(kinds))
			p := buildPS(kinds, pkts, true)
			runDecoder(x, p, kinds, p.stream, nil, p.expectCut(len(p.stream)), true, keyPS(pkts))
		}},
		{Name: "longer streams, bounded deviations", Bound: 2, Body: func(x *X) {
			pkts := [][]int{{0, 1, 2}, {3}, {}, {4, 0}, {1}}
			p := buildPS(kinds, pkts, true)
			runDecoder(x, p, kinds, p.stream, nil, p.expectCut(len(p.stream)), true, keyPS(pkts))
		}},
		{Name: "cut at every byte", Bound: 1 + b2i(thorough), Body: func(x *X) {
			pkts := Pick(x, [][][]int{{{0, 1}, {3, 0}}, {{}, {1}}, {{2, 4}}, {{1}, {}, {0}}})
			p := buildPS(kinds, pkts, true)
			cut := x.Choose(len(p.stream))
			end := Pick(x, []error{nil, errSource})
			runDecoder(x, p, kinds, p.stream[:cut], end, p.expectCut(cut), true, HashInts(keyPS(pkts), uint64(cut)))
		}},
		{Name: "no end code", Bound: 1, Body: func(x *X) {
			pkts := enumPS(x, 2, 2, 2)
			p := buildPS(kinds, pkts, true)
			e := p.expectCut(len(p.stream))
			e.ok = false
			bad := Pick(x, [][]byte{{0, 0, 1, 0xb8}, {0, 0, 0, 0}, {0, 0, 1, 0xb9 ^ 0x01}, {1, 2, 3, 4}})
			if bad[2] == 1 && bad[3] >= 0xb8 {
				// a start code that is no pack: read as a packet and found damaged
			}
			s := append(append([]byte{}, p.stream[:len(p.stream)-4]...), bad...)
			runDecoder(x, p, kinds, s, nil, e, true, HashInts(keyPS(pkts), 5))
		}},
		{Name: "a damaged packet", Bound: 1 + b2i(thorough), Body: func(x *X) {
			pkts := Pick(x, [][][]int{{{0, 1}, {3, 0}}, {{0}, {0}}, {{0, 0, 0}}})
			p := buildPS(kinds, pkts, true)
			i := x.Choose(len(pkts))
			j := x.Choose(len(pkts[i]))
			at := p.where[i][j]
			s := append([]byte{}, p.stream...)
			e := psExpect{packs: i + 1}
			for a := 0; a < i; a++ {
				e.packets = append(e.packets, len(pkts[a]))
			}
			e.packets = append(e.packets, j)
			switch x.Choose(4) {
			case 0:
				s[at+2] = 0x02 // no start code
			case 1:
				s[at] = 0x7f // top bit clear: not a stream entry of a system header
			case 2: // marker of the header
				if !pesHeadered(s[at+3]) {
					return
				}
				s[at+6] ^= 0xc0
			case 3: // header longer than the packet
				if !pesHeadered(s[at+3]) {
					return
				}
				s[at+4], s[at+5] = 0, 1
			}
			runDecoder(x, p, kinds, s, nil, e, true, HashInts(keyPS(pkts), 6, uint64(at)))
		}},
		{Name: "a packet damaged in its last bytes", Bound: 1 + b2i(thorough), Body: func(x *X) {
			// the damage is noticed when nothing of the packet is left, so that a code follows
			pkts := Pick(x, [][][]int{{{0, 1}, {1, 0}}, {{0}, {0}}, {{1, 1, 1}}, {{}, {0, 0}}})
			i := x.Choose(len(pkts))
			if len(pkts[i]) == 0 {
				return
			}
			j := x.Choose(len(pkts[i]))
			how := x.Choose(5)
			last := pesSpec{id: 0xe0, flags2: 0x80, pts: 3, stuffing: b2i(how == 0)}.bytes()
			switch end := len(last) - 1; how {
			case 0: // stuffing
				last[end] = 0xfe
			case 1: // the marker at the end of the time stamp
				last[end] ^= 1
			case 2: // fields longer than the header
				last[8] = 4
			case 3: // fields longer than the packet
				last[5]--
			case 4:
				last[8] = 0
			}
			p := buildPS(kinds, pkts, true)
			at, n := p.where[i][j], len(kinds[pkts[i][j]].bytes())
			s := append(append(append([]byte{}, p.stream[:at]...), last...), p.stream[at+n:]...)
			e := psExpect{packs: i + 1}
			for a := 0; a < i; a++ {
				e.packets = append(e.packets, len(pkts[a]))
			}
			e.packets = append(e.packets, j)
			for k := range p.starts {
				if p.starts[k] > at {
					p.starts[k] += len(last) - n
				}
			}
			runDecoder(x, p, kinds, s, nil, e, true, HashInts(keyPS(pkts), 7, uint64(at), uint64(how)))
		}},
	}
}

func raceDecoder(thorough bool) error {
	kinds := psKinds()
	rounds := 200
	if thorough {
		rounds = 2000
	}
	for r := 0; r < rounds; r++ {
		pkts := [][]int{{0, 1, 2}, {3}, {}, {4, 0}, {1, r % 5}}
		p := buildPS(kinds, pkts, r%4 != 3)
		d := ps.NewDecoder(newBR(p.stream))
		done := d.Go()
		n := 0
		ok := make(chan error, 1)
		go func() {
			v := <-done
			if v != (r%4 != 3) || v != (d.Err() == nil) {
				ok <- fmt.Errorf("completion %v, error %v", v, d.Err())
				return
			}
			ok <- nil
		}()
		for pk := range d.Packs() {
			if df, _ := diffPack(pk.PackHeader, p.packs[n]); df != "" {
				return fmt.Errorf("pack %d: %s", n, df)
			}
			m := 0
			for q := range pk.Packets() {
				ref, _ := readPES(kinds[pkts[n][m]].bytes())
				if df, _ := diffPES(q, &ref); df != "" {
					return fmt.Errorf("pack %d packet %d: %s", n, m, df)
				}
				m++
			}
			if m != len(pkts[n]) {
				return fmt.Errorf("pack %d has %d packets", n, m)
			}
			n++
		}
		if n != len(pkts) {
			return fmt.Errorf("%d packs", n)
		}
		if err := <-ok; err != nil {
			return err
		}
	}
	return nil
}

// ---------------------------------------------------------------- pack reader

func s03check(x *X, what func() string, stream []byte, want []byte, class pesClass, end error, chunk int, next func(int) int) {
	r := ps.NewPackReader(&source{data: stream, chunk: chunk, end: end})
	res := readAllSized(x, r, len(stream), next)
	if class == pesAmbiguous {
		return
	}
	if d := diffBytes(res.data, want); d != "" {
		x.Note("stream", "%s", hexs(stream))
		x.Fail("%s: %s", what(), d)
	}
	if (class == pesGood) != (res.err == io.EOF) {
		x.Note("stream", "%s", hexs(stream))
		x.Fail("%s: ends with %v", what(), res.err)
	}
}

func s03spaces(thorough bool) []*Space {
	kinds := psKinds()
	return []*Space{
		{Name: "structures", Body: func(x *X) {
			pkts := enumPS(x, 3, 2, len(kinds)-1-b2i(!thorough))
			p := buildPS(kinds, pkts, true)
			want, class := readPS(p.stream)
			if class != pesGood {
				panic("harness: bad stream")
			}
			n := 0
			for _, rs := range []int{1000, 1, 5, 30, 31} {
				for _, cs := range []int{0, 1, 9} {
					if len(pkts) > 2 && (rs+cs)%3 != 0 {
						continue
					}
					s03check(x, func() string { return fmt.Sprintf("packs %v, reads of %d, source chunks of %d", pkts, rs, cs) }, p.stream, want, class, nil, cs, constSize(rs))
					n++
				}
			}
			x.Inner(int64(n))
			x.Visit(HashInts(keyPS(pkts), uint64(len(want))))
			x.Note("packs", "%v", pkts)
		}},
		{Name: "data after the end code", Body: func(x *X) {
			pkts := enumPS(x, 2, 2, 3)
			p := buildPS(kinds, pkts, true)
			want, _ := readPS(p.stream)
			q := buildPS(kinds, [][]int{{0}}, true)
			s := append(append([]byte{}, p.stream...), q.stream...)
			s03check(x, func() string { return fmt.Sprintf("packs %v and another stream", pkts) }, s, want, pesGood, nil, 0, constSize(40))
			x.Visit(HashInts(keyPS(pkts), 77))
		}},
		{Name: "deviating read sizes", Bound: 2 + b2i(thorough), Body: func(x *X) {
			pkts := enumPS(x, 2, 2, 3)
			p := buildPS(kinds, pkts, true)
			want, class := readPS(p.stream)
			base := Pick(x, []int{10, 64})
			s03check(x, func() string { return fmt.Sprintf("packs %v, base read size %d", pkts, base) }, p.stream, want, class, nil, 0, func(i int) int {
				if i >= 8 {
					return base
				}
				return []int{base, 0, 1, 5, 30, 31, 100}[x.Dev(7)]
			})
			x.Visit(HashInts(keyPS(pkts), 78))
		}},
		{Name: "truncations", Body: func(x *X) {
			pkts := enumPS(x, 2, 2, len(kinds))
			p := buildPS(kinds, pkts, true)
			rs := Pick(x, []int{1000, 3})
			end := Pick(x, []error{nil, errSource})
			for cut := 0; cut < len(p.stream); cut++ {
				want, class := readPS(p.stream[:cut])
				s03check(x, func() string { return fmt.Sprintf("packs %v cut at byte %d, reads of %d", pkts, cut, rs) }, p.stream[:cut], want, class, end, 0, constSize(rs))
				x.Visit(HashInts(keyPS(pkts), uint64(cut), uint64(len(want))))
			}
			x.Inner(int64(len(p.stream)))
		}},
		{Name: "every byte value", Body: func(x *X) {
			pkts := Pick(x, [][][]int{{{0, 1}, {3}}, {{2}, {4, 0}}, {{}, {1}}})
			p := buildPS(kinds, pkts, true)
			pos := x.Choose(len(p.stream))
			rs := Pick(x, []int{1000, 7})
			s := append([]byte{}, p.stream...)
			for v := 0; v < 256; v++ {
				s[pos] = byte(v)
				want, class := readPS(s)
				s03check(x, func() string { return fmt.Sprintf("packs %v with byte %d set to %#x", pkts, pos, v) }, s, want, class, nil, 0, constSize(rs))
				x.Visit(HashInts(keyPS(pkts), uint64(pos), uint64(class), uint64(len(want)), 3))
			}
			x.Inner(255)
		}},
	}
}
