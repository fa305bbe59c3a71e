package mc

import (
	"bytes"
	"fmt"
	"io"
	"runtime"

	"github.com/32bitkid/bitreader"
	"github.com/32bitkid/mpeg/ts"
)

// packet shapes that differ in everything a reused object could keep
func tsShapes() [][]byte {
	sync := bytes.Repeat([]byte{0x47}, 184)
	full := []byte{0x1f, // PCR OPCR splice private ext
		1, 2, 3, 4, 0x85, 6, 7, 8, 9, 10, 0x8b, 12, 0x21, 3, 0xaa, 0xbb, 0xcc,
		13, 0xe0, 0x81, 2, 0xc3, 4, 5, 0x27, 8, 9, 10, 11, 0xff, 0xff}
	return [][]byte{
		tsPacket{pid: 0x47, afc: 1, cc: 1, payload: pattern(1, 184)}.bytes(),
		tsPacket{pid: 0x100, afc: 1, cc: 2, start: true, payload: sync}.bytes(),
		tsPacket{pid: 0x101, afc: 3, cc: 3, af: full, afLen: 60, payload: pattern(2, 123)}.bytes(),
		tsPacket{pid: 0x1fff, afc: 2, cc: 4, af: []byte{0x10, 0, 0, 0, 1, 0x7f, 0xff}, afLen: 183}.bytes(),
		tsPacket{pid: 0x102, afc: 3, cc: 5, afLen: 0, payload: sync[:183]}.bytes(),
		tsPacket{pid: 0x103, afc: 3, cc: 6, afLen: 183}.bytes(),
		tsPacket{pid: 0x104, afc: 0, cc: 7, fill: 0x47}.bytes(),
		tsPacket{pid: 0x105, afc: 3, cc: 8, start: true, af: []byte{0x05, 9, 2, 0x00, 0x47}, afLen: 182, payload: []byte{0x47}}.bytes(),
		tsPacket{pid: 0x106, afc: 2, cc: 9, afLen: 1, fill: 0x47}.bytes(),
		tsPacket{pid: 0x107, afc: 3, cc: 10, af: []byte{0x02, 5, 0x47, 0x47, 0x47, 0x47, 0x47}, afLen: 7, payload: pattern(3, 176)}.bytes(),
		tsPacket{pid: 0x108, afc: 2, cc: 11, afLen: 0, fill: 0x47}.bytes(),
	}
}

func init() {
	register(&Check{
		ID: "T02", Level: "model_checking",
		Rule: "every sequence of packet shapes up to the depth is read into one reused packet object and, packet by packet, into fresh objects; both must equal the reference reading of exactly that packet's 188 bytes, and what is left of the stream is compared at the end; states are (shape, shape before it, position)",
		Spaces: func(thorough bool) []*Space {
			depth := 5
			if thorough {
				depth = 7
			}
			shapes := tsShapes()
			return []*Space{{Name: "shape sequences", Body: func(x *X) {
				n := 1 + x.Choose(depth)
				var seq []int
				for i := 0; i < n; i++ {
					seq = append(seq, x.Choose(len(shapes)))
				}
				var stream []byte
				for _, s := range seq {
					stream = append(stream, shapes[s]...)
				}
				tail := []byte{0x47, 0x12, 0x34}
				stream = append(stream, tail...)
				br := newBR(stream)
				br2 := newBR(stream)
				var reuse ts.Packet
				prev := -1
				for i, s := range seq {
					r, _ := refTS(shapes[s])
					if err := reuse.Next(br); err != nil {
						x.Fail("packet %d of shapes %v is rejected: %v", i, seq, err)
					}
					if d := diffTS(&reuse, &r); d != "" {
						x.Fail("packet %d of shapes %v read into a reused object: %s", i, seq, d)
					}
					p, err := ts.NewPacket(br2)
					if err != nil {
						x.Fail("packet %d of shapes %v is rejected: %v", i, seq, err)
					}
					if d := diffTS(p, &r); d != "" {
						x.Fail("packet %d of shapes %v: %s", i, seq, d)
					}
					x.Visit(HashInts(uint64(s), uint64(prev+1), uint64(i)))
					prev = s
				}
				for _, b := range []bitreader.BitReader{br, br2} {
					if got := rest(b); !bytes.Equal(got, tail) {
						x.Fail("after %d packets of shapes %v the stream continues with %x, expected %x", n, seq, got, tail)
					}
				}
				x.Note("shapes", "%v", seq)
			}}}
		},
	})
	register(&Check{
		ID: "T03", Level: "model_checking",
		Rule:   "streams of garbage runs (every length around multiples of 188, every misalignment), false sync bytes and packets are read to their end; every call's outcome (packet, no-sync error, end) is compared with a model of the search; states are (bytes discarded so far in this search, outcome)",
		Assume: []string{"a partial byte that is discarded to restore byte alignment does not count towards the 188 bytes"},
		Spaces: t03spaces,
	})
	register(&Check{
		ID: "T04", Level: "fault_enumeration",
		Rule:   "corpus streams are damaged at every truncation point, by every value of every byte, and by every combination of the nested length bytes; an evaluation is one damaged stream read to its end by a fresh and a reused object; it must end within a bounded number of calls without panic and with the error the reference assigns; non-trivial are the distinct outcomes (sequence of results) per damaged position",
		Assume: []string{"flags that ask for more optional fields than a legal length has room for may be read either way; only termination and framing are checked there"},
		Spaces: t04spaces,
	})
}

func t03spaces(thorough bool) []*Space {
	pkt := tsPacket{pid: 0x155, afc: 1, cc: 5, payload: bytes.Repeat([]byte{0x11}, 184)}.bytes()
	syncful := tsPacket{pid: 0x47, afc: 1, cc: 7, payload: bytes.Repeat([]byte{0x47}, 184)}.bytes()
	// run reads the stream to its end and compares every call with the model.
	run := func(x *X, stream []byte, misalign uint, reuse bool) {
		br := newBR(stream)
		pos := 0
		if misalign > 0 {
			br.Skip(misalign)
		}
		mis := misalign > 0
		var p *ts.Packet
		if reuse {
			p = new(ts.Packet)
		}
		for call := 0; ; call++ {
			if call > len(stream)+5 {
				x.Fail("reading does not end")
			}
			// model of one call
			expErr := error(nil)
			var exp refPacket
			q := pos
			if mis {
				q++
			}
			found := -1
			for i := 0; ; i++ {
				if q >= len(stream) {
					expErr = io.EOF
					break
				}
				if i == 188 {
					expErr = ts.ErrNoSyncByte
					break
				}
				if stream[q] == 0x47 {
					found = q
					break
				}
				q++
			}
			if q-pos >= 188 && q >= len(stream) {
				// the input ends with the search; either answer describes that
				expErr = nil
			}
			end := q
			anyErr := false
			if found >= 0 {
				if found+188 > len(stream) {
					expErr = io.ErrUnexpectedEOF
					if refTruncBad(stream[found:]) {
						anyErr = true
					}
				} else {
					var class tsClass
					exp, class = refTS(stream[found : found+188])
					if class != tsGood {
						return // damaged packets are another property
					}
					end = found + 188
				}
			} else if expErr == nil {
				anyErr = true
			}
			var err error
			if reuse {
				err = p.Next(br)
			} else {
				p, err = ts.NewPacket(br)
			}
			x.Visit(HashInts(uint64(q-pos), b2u(mis), uint64(len(errName(expErr))), b2u(found >= 0)))
			if found >= 0 && expErr == nil {
				if err != nil {
					x.Fail("call %d at byte %d: a packet at byte %d is not found: %v", call, pos, found, err)
				}
				if d := diffTS(p, &exp); d != "" {
					x.Fail("call %d at byte %d: packet at byte %d: %s", call, pos, found, d)
				}
			} else if anyErr {
				if err == nil {
					x.Fail("call %d at byte %d: success, expected an error", call, pos)
				}
			} else if err != expErr {
				x.Fail("call %d at byte %d (misaligned %v): error %v, expected %v", call, pos, mis, errName(err), errName(expErr))
			}
			if err != nil && err != ts.ErrNoSyncByte {
				return
			}
			pos, mis = end, false
		}
	}
	garbage := func(kind, n int) []byte {
		b := make([]byte, n)
		for i := range b {
			switch kind {
			case 0:
				b[i] = 0
			case 1:
				b[i] = 0x46 + byte(i%2)*2
			case 2:
				b[i] = 0xff
			case 3:
				// sync pattern that is never byte aligned
				b[i] = []byte{0x04, 0x70}[i%2]
			}
		}
		return b
	}
	max := 400
	if thorough {
		max = 1200
	}
	var out []*Space
	out = append(out, &Space{Name: "one garbage run", Body: func(x *X) {
		n := x.Choose(max)
		mis := uint(x.Choose(8))
		kind := x.Choose(4)
		reuse := x.Bool()
		tailKind := x.Choose(3)
		s := garbage(kind, n)
		if mis > 0 {
			s = append([]byte{Pick(x, []byte{0x00, 0x47, 0xff})}, s...)
		}
		switch tailKind {
		case 1:
			s = append(s, pkt...)
		case 2:
			s = append(s, syncful...)
			s = append(s, pkt...)
		}
		x.Note("stream", "%s", hexs(s))
		run(x, s, mis, reuse)
	}})
	lens := []int{0, 1, 2, 187, 188, 189, 375, 376, 377}
	if thorough {
		lens = append(lens, 3, 5, 100, 186, 190, 374, 378, 563, 564, 565)
	}
	out = append(out, &Space{Name: "garbage between packets", Body: func(x *X) {
		var s []byte
		runs := 3
		for i := 0; i < runs; i++ {
			s = append(s, garbage(x.Choose(2), Pick(x, lens))...)
			if i%2 == 0 {
				s = append(s, pkt...)
			} else {
				s = append(s, syncful...)
			}
		}
		s = append(s, garbage(0, Pick(x, lens))...)
		x.Note("stream", "%s", hexs(s))
		run(x, s, 0, true)
	}})
	// a false sync byte inside of garbage starts a packet there
	out = append(out, &Space{Name: "false sync bytes", Body: func(x *X) {
		n := x.Choose(200)
		after := x.Choose(6) * 47
		s := garbage(0, n)
		s = append(s, 0x47, 0x00, 0x01, 0x10) // reads as a payload-only packet
		s = append(s, garbage(0, after)...)
		s = append(s, pkt...)
		s = append(s, syncful...)
		s = append(s, pkt...)
		x.Note("stream", "%s", hexs(s))
		run(x, s, uint(x.Choose(2))*3, x.Bool())
	}})
	// the reader left the byte grid between packets
	out = append(out, &Space{Name: "misaligned between packets", Body: func(x *X) {
		mis := uint(x.Choose(8))
		skipBytes := x.Choose(190)
		s := append([]byte{}, pkt...)
		s = append(s, garbage(1, skipBytes)...)
		s = append(s, syncful...)
		br := newBR(s)
		p, err := ts.NewPacket(br)
		if err != nil {
			x.Fail("%v", err)
		}
		var lost int
		if mis > 0 {
			br.Skip(mis)
			lost = 1
		}
		want := s[188+lost:]
		i := bytes.IndexByte(want, 0x47)
		tries := 0
		for {
			err = p.Next(br)
			if err != ts.ErrNoSyncByte {
				break
			}
			tries++
		}
		if expTries := i / 188; tries != expTries {
			x.Fail("after %d bits: %d no-sync errors for %d bytes of garbage, expected %d", mis, tries, i, expTries)
		}
		if len(want[i:]) >= 188 {
			if err != nil {
				x.Fail("after %d bits: %v", mis, err)
			}
			r, _ := refTS(want[i : i+188])
			if d := diffTS(p, &r); d != "" {
				x.Fail("after %d bits: %s", mis, d)
			}
		} else if err == nil {
			x.Fail("a cut off packet is returned")
		}
		x.Visit(HashInts(uint64(mis), uint64(i)))
	}})
	// until every 16-bit count of packets, garbage runs or errors has wrapped
	out = append(out, &Space{Name: "long streams", Body: func(x *X) {
		w := wordOf(x, 1, 2, 6)
		var period []byte
		for i, k := range w {
			n := []int{0, 1, 187, 188, 189, 400}[k]
			period = append(period, garbage(i, n)...)
			period = append(period, pkt...)
		}
		run(x, bytes.Repeat(period, longRun/len(w)), 0, true)
	}})
	out = append(out, &Space{Name: "long garbage", Body: func(x *X) {
		n := 188*Pick(x, longMarks) + Pick(x, []int{-1, 0, 1, 100})
		s := append(append([]byte{}, pkt...), garbage(x.Choose(2), n)...)
		run(x, append(append(s, syncful...), pkt...), 0, true)
	}})
	return out
}

// refTruncBad says whether the visible part of a truncated packet may already show a
// length error.
func refTruncBad(b []byte) bool {
	full := make([]byte, 188)
	copy(full, b)
	_, class := refTS(full)
	return class != tsGood
}

func t04corpus() [][]byte {
	sh := tsShapes()
	var out [][]byte
	for _, s := range sh {
		out = append(out, s)
	}
	return out
}

// readAllTS reads packets until an error and returns a signature of the results.
func readAllTS(x *X, stream []byte, reuse bool, each func(i int, p *ts.Packet)) (n int, err error) {
	src := &source{data: stream}
	br := bitreader.NewReader(src)
	p := new(ts.Packet)
	nosync := 0
	for {
		if reuse {
			err = p.Next(br)
		} else {
			p, err = ts.NewPacket(br)
		}
		if err == nil {
			if each != nil {
				each(n, p)
			}
			n++
			if n > len(stream)/188+1 {
				x.Fail("%d packets were read from %d bytes", n, len(stream))
			}
			continue
		}
		if err == ts.ErrNoSyncByte {
			nosync++
			if nosync > len(stream)/100+2 {
				x.Fail("%d no-sync errors were reported for %d bytes", nosync, len(stream))
			}
			continue
		}
		return
	}
}

func t04spaces(thorough bool) []*Space {
	corpus := t04corpus()
	next := tsPacket{pid: 0x99, afc: 1, cc: 3, payload: pattern(9, 184)}.bytes()
	var out []*Space
	out = append(out, &Space{Name: "truncations", Body: func(x *X) {
		a, b := x.Choose(len(corpus)), x.Choose(len(corpus))
		reuse := x.Bool()
		s := append(append([]byte{}, corpus[a]...), corpus[b]...)
		refs := make([]refPacket, 2)
		refs[0], _ = refTS(s[:188])
		refs[1], _ = refTS(s[188:])
		for cut := 0; cut <= len(s); cut++ {
			n, err := readAllTS(x, s[:cut], reuse, func(i int, p *ts.Packet) {
				if d := diffTS(p, &refs[i]); d != "" {
					x.Fail("packet %d of a stream cut at byte %d: %s", i, cut, d)
				}
			})
			if n != cut/188 {
				x.Fail("%d packets are read from %d bytes, expected %d", n, cut, cut/188)
			}
			want := io.ErrUnexpectedEOF
			if cut%188 == 0 {
				want = io.EOF
			}
			if err != want {
				x.Fail("a stream cut at byte %d ends with %v, expected %v", cut, err, want)
			}
			x.Visit(HashInts(1, uint64(a), uint64(b), uint64(cut)))
		}
		x.Inner(int64(len(s)))
		x.Note("shapes", "%d %d, cut at 0..%d", a, b, len(s))
	}})
	out = append(out, &Space{Name: "every byte value", Body: func(x *X) {
		a := x.Choose(len(corpus))
		pos := x.Choose(188)
		reuse := x.Bool()
		cutAfter := x.Bool()
		s := append(append([]byte{}, corpus[a]...), next...)
		if cutAfter {
			s = s[:188]
		}
		rn, _ := refTS(next)
		for v := 0; v < 256; v++ {
			s[pos] = byte(v)
			r, class := refTS(s[:188])
			if pos == 0 && v != 0x47 {
				class = tsLenient
			}
			n, err := readAllTS(x, s, reuse, func(i int, p *ts.Packet) {
				if class == tsGood {
					e := &r
					if i == 1 {
						e = &rn
					}
					if d := diffTS(p, e); d != "" {
						x.Fail("shape %d with byte %d set to %#x: packet %d: %s", a, pos, v, i, d)
					}
				}
			})
			switch class {
			case tsGood:
				if n != len(s)/188 || err != io.EOF {
					x.Fail("shape %d with byte %d set to %#x is well-formed, but gives %d packets and %v", a, pos, v, n, err)
				}
			case tsBadLen:
				_, err := ts.NewPacket(newBR(s))
				if err == nil {
					x.Fail("shape %d with byte %d set to %#x has a length that does not fit, but is accepted", a, pos, v)
				}
				x.nontriv = true
			}
			x.Visit(HashInts(2, uint64(a), uint64(pos), uint64(v)/64, uint64(n), uint64(class), uint64(len(errName(err)))))
		}
		x.Inner(256)
	}})
	out = append(out, &Space{Name: "nested lengths", Body: func(x *X) {
		afl := x.Choose(256)
		flags := Pick(x, map[bool][]int{false: {0x02, 0x01, 0x03, 0x1f}, true: {0x02, 0x01, 0x03, 0x13, 0x1f}}[thorough])
		ef := Pick(x, []int{0, 7, 4}[:2+b2i(thorough)])
		bg := Pick(x, []byte{0x00, 0xff}[:1+b2i(thorough)])
		afc := 2 + x.Choose(2)
		more := x.Choose(2) * 700 // following bytes, to be swallowed by mistake
		cnt := 0
		try := func(pdl, el int) {
			b := fillAF(afc, flags, 0, 0, 0, 1, bg)
			b[4] = byte(afl)
			at := 6
			if flags&0x10 != 0 {
				at += 6
			}
			if flags&8 != 0 {
				at += 6
			}
			if flags&4 != 0 {
				at++
			}
			if flags&2 != 0 {
				b[at] = byte(pdl)
				at += 1 + pdl
			}
			if flags&1 != 0 && at < 187 {
				b[at] = byte(el)
				b[at+1] = byte(ef) << 5
			}
			r, class := refTS(b)
			for i := 0; i < more; i++ {
				b = append(b, next[i%188])
			}
			src := &source{data: b}
			p, err := ts.NewPacket(bitreader.NewReader(src))
			switch {
			case class == tsBadLen && err == nil:
				x.Note("packet", "%x", b)
				x.Fail("adaptation length %d, private data %d, extension %d (flags %#x) does not fit, but is accepted", afl, pdl, el, flags)
			case class == tsGood && err != nil:
				x.Note("packet", "%x", b)
				x.Fail("adaptation length %d, private data %d, extension %d (flags %#x) fits, but is rejected: %v", afl, pdl, el, flags, err)
			case class == tsGood:
				if d := diffTS(p, &r); d != "" {
					x.Note("packet", "%x", b)
					x.Fail("adaptation length %d, private data %d, extension %d (flags %#x): %s", afl, pdl, el, flags, d)
				}
			}
			x.Visit(HashInts(3, uint64(afl), uint64(flags), uint64(ef), uint64(class), b2u(err == nil), uint64(pdl)/16))
			cnt++
		}
		for pdl := 0; pdl < 256; pdl++ {
			if flags&2 == 0 && pdl > 0 {
				break
			}
			for el := 0; el < 256; el++ {
				if flags&1 == 0 && el > 0 {
					break
				}
				if d := pdl + el - afl; !thorough && flags&3 == 3 && pdl%51 != 0 && el%51 != 0 && (d < -23 || d > 1) {
					continue
				}
				if !thorough && flags&3 == 3 && pdl%3 != 0 && el%51 != 0 {
					continue
				}
				try(pdl, el)
			}
		}
		x.Inner(int64(cnt))
		x.Note("lengths", "adaptation %d flags %#x extension flags %d: %d combinations", afl, flags, ef, cnt)
	}})
	behind := make([]byte, 1000)
	out = append(out, &Space{Name: "flags without room", Body: func(x *X) {
		// whatever a packet asks for, it does not swallow the stream behind it
		flags := x.Choose(256)
		bg := Pick(x, []byte{0x00, 0xff, 0x11}[:2+b2i(thorough)])
		cnt := 0
		try := func(afc, afl, pdl, el, ef int) {
			b := fillAF(afc, flags, 0, 0, 0, 1, bg)
			b[4] = byte(afl)
			at := 6
			for bit, n := range map[int]int{0x10: 6, 0x08: 6, 0x04: 1} {
				if flags&bit != 0 {
					at += n
				}
			}
			if flags&2 != 0 {
				b[at] = byte(pdl)
				at += 1 + pdl
			}
			if flags&1 != 0 {
				b[at] = byte(el)
				b[at+1] = byte(ef) << 5
			}
			r, class := refTS(b)
			src := &source{data: append(b, behind...)}
			br := bitreader.NewReader(src)
			p, err := ts.NewPacket(br)
			what := fmt.Sprintf("control %d, adaptation length %d, flags %#x, private data %d, extension of %d with flags %d", afc, afl, flags, pdl, el, ef)
			if class == tsGood {
				if err != nil {
					x.Fail("%s: rejected: %v", what, err)
				}
				if d := diffTS(p, &r); d != "" {
					x.Fail("%s: %s", what, d)
				}
			}
			if class == tsBadLen && err == nil {
				x.Fail("%s: accepted", what)
			}
			if src.pos > 900 {
				x.Fail("%s: %d bytes of the source are consumed (error %v)", what, src.pos, err)
			}
			if err == nil {
				if n := len(rest(br)); n != len(behind) {
					x.Fail("%s: the packet takes %d bytes", what, 188+len(behind)-n)
				}
			}
			x.Visit(HashInts(6, uint64(flags), uint64(afl), uint64(class), uint64(el), uint64(ef), b2u(err == nil)))
			cnt++
		}
		for afl := 0; afl <= 33; afl++ {
			for afc := 2; afc <= 3; afc++ {
				for pdl := 0; pdl <= 1; pdl++ {
					if flags&2 == 0 && pdl > 0 {
						break
					}
					if flags&1 == 0 {
						try(afc, afl, pdl, 0, 0)
						continue
					}
					for el := 0; el <= 12; el++ {
						for ef := 0; ef < 8; ef++ {
							try(afc, afl, pdl, el, ef)
						}
					}
				}
			}
		}
		x.Inner(int64(cnt - 1))
		x.Note("flags", "%#x over %#x: %d combinations of lengths", flags, bg, cnt)
	}})
	out = append(out, &Space{Name: "short arbitrary streams", Body: func(x *X) {
		alpha := []byte{0x47, 0x00, 0xff, 0x30, 0xb7}
		n := x.Choose(8)
		var s []byte
		for i := 0; i < n; i++ {
			s = append(s, Pick(x, alpha))
		}
		fill := Pick(x, []byte{0x00, 0x47, 0xff, 0x20, 0x3f})
		for _, total := range []int{0, 1, 100, 180, 183, 187, 188, 189, 376, 600} {
			t := append(append([]byte{}, s...), bytes.Repeat([]byte{fill}, total)...)
			n, err := readAllTS(x, t, true, nil)
			x.Visit(HashInts(4, HashBytes(0, s), uint64(fill), uint64(n), uint64(len(errName(err)))))
		}
		x.Inner(10)
	}})
	out = append(out, &Space{Name: "memory", Serial: true, Body: func(x *X) {
		a := x.Choose(len(corpus))
		v := Pick(x, []byte{0x00, 0x01, 0x7f, 0xb7, 0xb8, 0xff})
		flags := Pick(x, []int{-1, 0x03, 0x1f, 0xff})
		s := append([]byte{}, corpus[a]...)
		if flags >= 0 {
			s[3] |= 0x30
			s[5] = byte(flags)
		}
		var m0, m1 runtime.MemStats
		runtime.ReadMemStats(&m0)
		for pos := 0; pos < 188; pos++ {
			old := s[pos]
			s[pos] = v
			readAllTS(x, s, true, nil)
			s[pos] = old
		}
		runtime.ReadMemStats(&m1)
		per := (m1.TotalAlloc - m0.TotalAlloc) / 188
		if per > 256<<10 {
			x.Fail("reading one damaged 188-byte packet allocates %d bytes on average", per)
		}
		x.Inner(187)
		x.Visit(HashInts(5, uint64(a), uint64(v)))
	}})
	return out
}
