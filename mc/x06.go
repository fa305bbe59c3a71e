package mc

import (
	"bytes"
	"fmt"
	"io"

	"github.com/32bitkid/bitreader"
	"github.com/32bitkid/mpeg/pes"
	"github.com/32bitkid/mpeg/ps"
	"github.com/32bitkid/mpeg/ts"
)

func init() {
	register(&Check{
		ID: "X06", Level: "fault_enumeration",
		Rule: "streams of packets and packs are cut at every byte, every byte is given every value, removed, doubled, inserted, and pairs of header bytes are damaged; each stream is read by every route (packet by packet into one or new objects, readers, units, demultiplexer, channels; decoder and pack reader) and the packets, payloads, units and the final errors are compared with those of the first route; non-trivial are distinct outcomes (number of packets, error) per damaged place",
		Assume: []string{
			"program streams begin with an undamaged pack start code: the pack reader reads packets in front of the first pack too",
			"routes are compared up to the first error; readers are not asked to go on behind it",
		},
		Spaces: x06spaces,
	})
}

// tsRoutes compares all ways to read a transport stream. It returns the number of packets and
// the error.
func tsRoutes(x *X, b []byte, pid int, what func() string) (int, error) {
	fail := func(f string, a ...any) {
		x.Note("stream", "%s", hexs(b))
		x.Fail("%s: %s", what(), fmt.Sprintf(f, a...))
	}
	limit := len(b)/188 + 2
	mine := ts.IsPID(uint32(pid))
	// one object after another
	var pkts []*ts.Packet
	var all []string
	var end error
	br := bitreader.NewReader(&source{data: b})
	for {
		p, err := ts.NewPacket(br)
		if err != nil {
			end = err
			break
		}
		pkts = append(pkts, p)
		all = append(all, deep(p))
		if len(pkts) > limit {
			fail("more than %d packets", limit)
		}
	}
	var payload []byte
	var parts, units [][]byte
	var own []string
	for i, p := range pkts {
		if !mine(p) {
			continue
		}
		own = append(own, all[i])
		payload = append(payload, p.Payload...)
		parts = append(parts, p.Payload)
		if p.PayloadUnitStartIndicator {
			units = append(units, []byte{})
		}
		if len(units) > 0 {
			units[len(units)-1] = append(units[len(units)-1], p.Payload...)
		}
	}
	ended := func(route string, err error) {
		if err != end && errName(err) != errName(end) {
			fail("%s ends with %s, reading packet by packet with %s", route, errName(err), errName(end))
		}
	}
	// one object for all
	br = bitreader.NewReader(&source{data: b})
	reuse := &ts.Packet{}
	for i := 0; ; i++ {
		err := reuse.Next(br)
		if err != nil {
			if i != len(all) {
				fail("reading into one object gives %d packets, into new ones %d", i, len(all))
			}
			ended("reading into one object", err)
			break
		}
		if i >= len(all) || deep(reuse) != all[i] {
			fail("packet %d read into the object before it is %s, into a new one %v", i, deep(reuse), all[min(i, len(all)):])
		}
	}
	// readers
	res := drain(ts.NewPayloadReader(&source{data: b}, mine), 150, false)
	if d := diffBytes(res.data, payload); d != "" {
		fail("payload reader: %s", d)
	}
	ended("the payload reader", res.err)
	u := ts.NewPayloadUnitReader(&source{data: b}, mine)
	var got [][]byte
	var cur []byte
	buf := make([]byte, 150)
	for i := 0; ; i++ {
		n, err := u.Read(buf)
		cur = append(cur, buf[:n]...)
		if err == ts.EOP {
			got, cur = append(got, cur), nil
			if len(got) > limit {
				fail("more than %d units", limit)
			}
		} else if err != nil {
			ended("the payload unit reader", err)
			break
		}
		if i > len(b)+100 {
			fail("the payload unit reader does not end")
		}
	}
	sameParts := func(route string, got, want [][]byte) {
		for i := 0; i < len(got) || i < len(want); i++ {
			if i >= len(got) || i >= len(want) {
				fail("%s: %d items, expected %d", route, len(got), len(want))
			}
			if d := diffBytes(got[i], want[i]); d != "" {
				fail("%s, item %d: %s", route, i, d)
			}
		}
	}
	if len(cur) > 0 {
		fail("payload unit reader: %d bytes have no end mark", len(cur))
	}
	sameParts("payload unit reader", got, units)
	// demultiplexer, with a channel for everything, one for the stream, and its transforms
	for k, route := range []string{"all", "own", "payloads", "units"} {
		d := ts.NewDemuxer(&source{data: b})
		var pc ts.PacketChannel
		var bc <-chan []byte
		switch k {
		case 0:
			pc = d.Where(func(*ts.Packet) bool { return true })
		case 1:
			pc = d.Where(mine)
		case 2:
			bc = d.Where(mine).PayloadOnly()
		case 3:
			bc = d.Where(mine).PayloadUnit()
		}
		done := d.Go()
		if k < 2 {
			want := all
			if k == 1 {
				want = own
			}
			i := 0
			for p := range pc {
				if i >= len(want) || deep(p) != want[i] {
					fail("demultiplexer (%s): packet %d is %s, read by itself %v", route, i, deep(p), want[min(i, len(want)):])
				}
				i++
			}
			if i != len(want) {
				fail("demultiplexer (%s): %d packets, expected %d", route, i, len(want))
			}
		} else {
			var got [][]byte
			for p := range bc {
				got = append(got, p)
			}
			if k == 2 {
				sameParts("demultiplexer and PayloadOnly", got, parts)
			} else {
				sameParts("demultiplexer and PayloadUnit", got, units)
			}
		}
		<-done
		ended("the demultiplexer", d.Err())
	}
	return len(pkts), end
}

// pesRoutes compares the ways to read elementary packets.
func pesRoutes(x *X, b []byte, what func() string) (int, error) {
	fail := func(f string, a ...any) {
		x.Note("stream", "%s", hexs(b))
		x.Fail("%s: %s", what(), fmt.Sprintf(f, a...))
	}
	var all []string
	var payload []byte
	var parts [][]byte
	var end error
	br := bitreader.NewReader(&source{data: b})
	for {
		p, err := pes.NewPacket(br)
		if err != nil {
			end = err
			break
		}
		all = append(all, deep(p))
		payload = append(payload, p.Payload...)
		parts = append(parts, p.Payload)
		if len(all) > len(b) {
			fail("more packets than bytes")
		}
	}
	br = bitreader.NewReader(&source{data: b})
	reuse := &pes.Packet{}
	for i := 0; ; i++ {
		err := reuse.Next(br)
		if err != nil {
			if i != len(all) || errName(err) != errName(end) {
				fail("reading into one object gives %d packets and %s, into new ones %d and %s", i, errName(err), len(all), errName(end))
			}
			break
		}
		if i >= len(all) || deep(reuse) != all[i] {
			fail("packet %d read into the object before it is %s, into a new one %v", i, deep(reuse), all[min(i, len(all)):])
		}
	}
	for _, n := range []int{13, 1000} {
		res := drain(pes.NewPayloadReader(&source{data: b}), n, false)
		if d := diffBytes(res.data, payload); d != "" {
			fail("payload reader, buffers of %d: %s", n, d)
		}
		if errName(res.err) != errName(end) {
			fail("the payload reader ends with %s, reading packet by packet with %s", errName(res.err), errName(end))
		}
	}
	in := make(chan *pes.Packet)
	go func() {
		defer close(in)
		br := bitreader.NewReader(&source{data: b})
		for {
			p, err := pes.NewPacket(br)
			if err != nil {
				return
			}
			in <- p
		}
	}()
	i := 0
	for p := range pes.PacketChannel(in).PayloadOnly() {
		if i >= len(parts) || !bytes.Equal(p, parts[i]) {
			fail("item %d of the channel of payloads is %x", i, p)
		}
		i++
	}
	if i != len(parts) {
		fail("the channel of payloads has %d items, expected %d", i, len(parts))
	}
	return len(all), end
}

// psRoutes compares the decoder with the pack reader.
func psRoutes(x *X, b []byte, what func() string) (int, error) {
	fail := func(f string, a ...any) {
		x.Note("stream", "%s", hexs(b))
		x.Fail("%s: %s", what(), fmt.Sprintf(f, a...))
	}
	d := ps.NewDecoder(bitreader.NewReader(&source{data: b}))
	done := d.Go()
	ok := make(chan bool, 1)
	go func() { ok <- <-done }()
	var payload []byte
	n := 0
	for k := range d.Packs() {
		n += 1000
		for p := range k.Packets() {
			payload = append(payload, p.Payload...)
			n++
		}
	}
	good := <-ok
	if good != (d.Err() == nil) {
		fail("decoder: completion %v with the error %s", good, errName(d.Err()))
	}
	for _, size := range []int{11, 1000} {
		res := drain(ps.NewPackReader(&source{data: b}), size, false)
		if d := diffBytes(res.data, payload); d != "" {
			fail("pack reader, buffers of %d, against the decoder's packets: %s", size, d)
		}
		if (res.err == io.EOF) != good {
			fail("the pack reader ends with %s, the decoder with completion %v and the error %s", errName(res.err), good, errName(d.Err()))
		}
	}
	return n, d.Err()
}

func x06spaces(thorough bool) []*Space {
	vid := x01video()
	p3 := inPES(vid[1], false, 5, 90)
	head := pesSpec{id: 0xe0, flags2: 0xff, extFlags: 0xf1, phf: 3, ext2: 4, pts: 5, dts: 4, stuffing: 2, bg: 0x3a, payload: pattern(3, 20)}.bytes()
	pesA := bytes.Join([][]byte{head, pesSpec{id: 0xbe, payload: bytes.Repeat([]byte{0xff}, 11)}.bytes(), pesSpec{id: 0xbf, payload: pattern(4, 9)}.bytes(), p3[0]}, nil)
	pesB := bytes.Join([][]byte{p3[0], pesSpec{id: 0xc0}.bytes(), inPES(pattern(8, 40), true)[0]}, nil)
	psA := inPS([][]byte{p3[0], head, pesSpec{id: 0xbf, payload: pattern(4, 9)}.bytes()}, 2)
	psB := inPS([][]byte{pesSpec{id: 0xc0}.bytes(), pesSpec{id: 0xe0, payload: []byte{0, 0, 1, 0xba, 0, 0, 1, 0xb9}}.bytes(), pesSpec{id: 0xbd, payload: pattern(5, 3)}.bytes()}, 1)
	rich := func(pid, k int) []byte {
		b := fillAF(3, 0xff, 5, 7, 0, 60, 0x5a)
		if k == 1 {
			b = fillAF(2, 0x13, 4, 0, 0, 183, 0xff)
		}
		b = bytes.Clone(b)
		b[1], b[2] = byte(pid>>8)|b[1]&0xe0|byte(k)<<6, byte(pid)
		return b
	}
	tsA := bytes.Join([][]byte{carry(0x21, true, 1, pattern(1, 100)), rich(0x21, 0), carry(0x21, false, 2, pattern(2, 184)), carry(0x22, true, 2, pattern(3, 5)), carry(0x21, true, 3, pattern(4, 1))}, nil)
	tsB := bytes.Join([][]byte{rich(0x21, 1), []byte{0x11, 0x22}, rich(0x22, 0), carry(0x21, true, 2, bytes.Repeat([]byte{0x47}, 184)), carry(0x21, false, 3, pattern(5, 33))}, nil)
	type corpus struct {
		name string
		b    []byte
		from int // first byte that may be damaged
		run  func(x *X, b []byte, what func() string) (int, error)
	}
	tr := func(x *X, b []byte, what func() string) (int, error) { return tsRoutes(x, b, 0x21, what) }
	all := []corpus{{"transport stream A", tsA, 0, tr}, {"transport stream B", tsB, 0, tr}, {"PES stream A", pesA, 0, pesRoutes}, {"PES stream B", pesB, 0, pesRoutes}, {"program stream A", psA, 4, psRoutes}, {"program stream B", psB, 4, psRoutes}}
	for _, c := range all {
		probe := &X{}
		if n, err := c.run(probe, c.b, func() string { return c.name }); n < 3 {
			panic(fmt.Sprintf("harness: %s gives %d packets and %v", c.name, n, err))
		}
	}
	visit := func(x *X, c corpus, at int, n int, err error) {
		x.Visit(HashInts(HashStr(c.name), uint64(at), uint64(n), HashStr(errName(err))))
		x.Inner(1)
	}
	var out []*Space
	out = append(out, &Space{Name: "every byte value", Body: func(x *X) {
		c := Pick(x, all)
		at := c.from + x.Choose(len(c.b)-c.from)
		b := bytes.Clone(c.b)
		step := 1
		if !thorough && len(c.b) > 900 && at%188 > 75 {
			step = 51 // payload, stuffing, or the head of a packet behind garbage
		}
		for v := 0; v < 256; v += step {
			b[at] = byte(v)
			n, err := c.run(x, b, func() string { return fmt.Sprintf("%s, byte %d set to %#x", c.name, at, v) })
			visit(x, c, at, n, err)
		}
	}})
	out = append(out, &Space{Name: "cut, removed, doubled, inserted", Body: func(x *X) {
		c := Pick(x, all)
		at := c.from + x.Choose(len(c.b)-c.from)
		for how := 0; how < 7; how++ {
			b := bytes.Clone(c.b)
			switch how {
			case 0:
				b = b[:at]
			case 1:
				b = append(b[:at], c.b[at+1:]...)
			case 2:
				b = append(b[:at+1], c.b[at:]...)
			case 3, 4, 5:
				b = append(append(b[:at], []byte{0, 0x47, 0xff}[how-3]), c.b[at:]...)
			case 6:
				b = append(b[:at], c.b[min(at+4, len(c.b)):]...)
			}
			n, err := c.run(x, b, func() string { return fmt.Sprintf("%s, byte %d, damage %d", c.name, at, how) })
			visit(x, c, at, n, err)
		}
	}})
	vals := []byte{0, 1, 0x1f, 0x47, 0x80, 0xb9, 0xba, 0xbb, 0xbe, 0xff}
	out = append(out, &Space{Name: "pairs of damaged bytes", Body: func(x *X) {
		c := Pick(x, all)
		at := c.from + x.Choose(len(c.b)-c.from-1)
		far := []int{1, 2, 3, 4, 5, 188}
		if !thorough && len(c.b) > 900 && at%188 > 20 {
			far = far[3:]
			if at%7 > 0 {
				return
			}
		}
		b := bytes.Clone(c.b)
		for _, d := range far[:3+b2i(thorough)*3] {
			if at+d >= len(b) {
				break
			}
			some := vals
			if !thorough && len(c.b) > 900 {
				some = vals[2:8]
			}
			for _, v := range some {
				for _, w := range some {
					b[at], b[at+d] = v, w
					n, err := c.run(x, b, func() string { return fmt.Sprintf("%s, bytes %d and %d set to %#x and %#x", c.name, at, at+d, v, w) })
					visit(x, c, at, n, err)
				}
			}
			b[at+d] = c.b[at+d]
		}
	}})
	out = append(out, &Space{Name: "segments exchanged", Body: func(x *X) {
		c := Pick(x, all)
		// the stream is put together of pieces of a few bytes in another order
		piece := Pick(x, []int{4, 7, 9, 14, 20, 47, 94, 188})
		if !thorough && len(c.b) > 900 {
			piece += 25
		}
		var parts [][]byte
		for i := c.from; i < len(c.b); i += piece {
			parts = append(parts, c.b[i:min(i+piece, len(c.b))])
		}
		i, j := x.Choose(len(parts)), x.Choose(len(parts))
		for how := 0; how < 3; how++ {
			q := append([][]byte{}, parts...)
			switch how {
			case 0:
				q[i], q[j] = q[j], q[i]
			case 1:
				q[i] = q[j]
			case 2:
				q[i] = append(bytes.Clone(q[j]), q[i]...)
			}
			b := append(bytes.Clone(c.b[:c.from]), bytes.Join(q, nil)...)
			n, err := c.run(x, b, func() string { return fmt.Sprintf("%s, pieces %d and %d of %d bytes, %d", c.name, i, j, piece, how) })
			visit(x, c, i, n, err)
		}
	}})
	out = append(out, &Space{Name: "short arbitrary streams", Body: func(x *X) {
		c := Pick(x, []corpus{all[0], all[2], all[4]})
		alphabet := []byte{0, 1, 0x47, 0xb9, 0xba, 0xbb, 0xe0, 0xff}
		n := x.Choose(6)
		var b []byte
		if c.from > 0 {
			b = append(b, psA[:14]...) // up to the end of the pack header
		}
		for i := 0; i < n; i++ {
			b = append(b, Pick(x, alphabet))
		}
		k, err := c.run(x, b, func() string { return fmt.Sprintf("%s, %x", c.name, b) })
		visit(x, c, n, k, err)
	}})
	return out
}
