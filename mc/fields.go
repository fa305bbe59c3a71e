package mc

import (
	"fmt"
	"io"

	"github.com/32bitkid/bitreader"
	"github.com/32bitkid/mpeg/ts"
)

// Words of transport packets in which any field of any packet may deviate from the ordinary, up
// to a number of deviations: none of the fields that a reader has no business with changes what
// it delivers, alone or together with others, in the same packet or in one before.

type fieldPacket struct {
	raw    []byte
	ref    refPacket
	pid    int
	start  bool
	random bool
}

const fieldPID = 0x21

var fieldPIDs = []int{fieldPID, fieldPID + 1, 0x1000 + fieldPID, 0x1fff, 0}

// fieldShapes are adaptation field control, field and length of the payload.
var fieldShapes = []struct {
	afc int
	af  []byte
	n   int
}{
	{1, nil, 184},
	{3, []byte{0}, 100},
	{2, nil, 0},
	{3, nil, 183}, // a field of length 0
	{3, []byte{0}, 182},
	{3, []byte{0}, 1},
	{3, []byte{0}, 0},
	{0, nil, 0},
	{3, afield(0x80, 0, 0), 20},
	{3, afield(0x40, 0, 0), 20},
	{3, afield(0x20, 0, 0), 20},
	{3, afield(0x10, 0, 0), 176},
	{2, afield(0x18, 0, 0), 0},
	{3, afield(0x06, 0, 5), 90},
	{3, afield(0x01, 7, 0), 9},
	{3, afield(0xff, 7, 7), 60},
	{2, afield(0x42, 0, 0), 0},
}

// fieldWord is a word of n packets; starts has the payload unit starts of an ordinary one.
func fieldWord(x *X, n, starts int) (out []fieldPacket) {
	for i := 0; i < n; i++ {
		start := starts>>uint(i)&1 ^ x.Dev(2)
		pid := fieldPIDs[x.Dev(len(fieldPIDs))]
		marks := x.Dev(2)*4 | x.Dev(2)*8 | x.Dev(4)
		s := fieldShapes[x.Dev(len(fieldShapes))]
		cc := i + x.Dev(16)
		pl := pattern(7*i+n, s.n)
		switch x.Dev(5) {
		case 1:
			copy(pl, []byte{0, 0, 1, 0xe0, 0, 0, 0x80, 0, 0})
		case 2:
			copy(pl, []byte{0x47, 0x40, fieldPID, 0x10})
		case 3:
			clear(pl)
		case 4:
			copy(pl, pattern(7*(i-1)+n, s.n)) // as the one before
		}
		t := tsPacket{pid: pid, start: start == 1, afc: s.afc, cc: cc, marks: marks, af: s.af, afLen: -1, payload: pl, fill: 0x47}
		if s.afc == 3 {
			t.afLen = 183 - s.n
		}
		f := fieldPacket{raw: t.bytes(), pid: pid, start: start == 1, random: len(s.af) > 0 && s.af[0]&0x40 != 0}
		f.ref, _ = refTS(f.raw)
		out = append(out, f)
	}
	return
}

func fieldStream(w []fieldPacket) (b []byte) {
	for _, f := range w {
		b = append(b, f.raw...)
	}
	return
}

func describe(w []fieldPacket) (s string) {
	for _, f := range w {
		s += fmt.Sprintf(" %x(%d)", f.raw[:12], len(f.ref.payload))
	}
	return
}

// conditions of windows; they are told the packet's fields.
var fieldConds = []struct {
	name   string
	tester ts.PacketTester
	model  func(f *fieldPacket) bool
}{
	{"none", nil, nil},
	{"unit start", ts.IsPayloadUnitStart, func(f *fieldPacket) bool { return f.start }},
	{"the stream", ts.IsPID(fieldPID), func(f *fieldPacket) bool { return f.pid == fieldPID }},
	{"not the other stream", ts.IsPID(fieldPID + 1).Not(), func(f *fieldPacket) bool { return f.pid != fieldPID+1 }},
	{"random access", func(p *ts.Packet) bool { return p.AdaptationField != nil && p.AdaptationField.RandomAccessIndicator }, func(f *fieldPacket) bool { return f.random }},
	{"not random access", func(p *ts.Packet) bool { return p.AdaptationField == nil || !p.AdaptationField.RandomAccessIndicator }, func(f *fieldPacket) bool { return !f.random }},
}

// fieldSpaces are the words for a property; they run through what it is about.
func fieldSpaces(kind string, thorough bool) []*Space {
	run := func(name string, n, bound int) *Space {
		return &Space{Name: name, Bound: bound, Body: func(x *X) {
			starts := Pick(x, []int{1, 1 | 4, 0, 15})
			w := fieldWord(x, n, starts)
			b := fieldStream(w)
			x.Note("packets", "%s", describe(w))
			x.Visit(HashBytes(uint64(n), b))
			fieldRun[kind](x, w, b)
		}}
	}
	if thorough && kind == "T06" {
		return []*Space{run("fields of four packets", 4, 2), run("fields of two packets", 2, 3)}
	}
	if thorough {
		return []*Space{run("fields of four packets", 4, 3), run("fields of two packets", 2, 4)}
	}
	if kind == "T06" { // with 36 pairs of conditions for each word
		return []*Space{run("fields of four packets", 4, 1), run("fields of three packets", 3, 2)}
	}
	return []*Space{run("fields of four packets", 4, 2), run("fields of two packets", 2, 3)}
}

var fieldRun = map[string]func(x *X, w []fieldPacket, b []byte){
	"T02": func(x *X, w []fieldPacket, b []byte) {
		br := bitreader.NewReader(&source{data: b})
		p := &ts.Packet{}
		for i := range w {
			if err := p.Next(br); err != nil {
				x.Fail("packet %d: %v", i, err)
			}
			if d := diffTS(p, &w[i].ref); d != "" {
				x.Fail("packet %d read into the object before it: %s", i, d)
			}
		}
		if err := p.Next(br); err != io.EOF {
			x.Fail("after the last packet: %v", errName(err))
		}
	},
	"T05": func(x *X, w []fieldPacket, b []byte) {
		var want []byte
		for _, f := range w {
			if f.pid == fieldPID {
				want = append(want, f.ref.payload...)
			}
		}
		for _, rs := range []int{1000, 50} {
			res := readAllSized(x, ts.NewPayloadReader(&source{data: b}, ts.IsPID(fieldPID)), len(want), constSize(rs))
			if d := diffBytes(res.data, want); d != "" {
				x.Fail("reads of %d: %s", rs, d)
			}
			if res.err != io.EOF {
				x.Fail("reads of %d: ends with %v", rs, errName(res.err))
			}
		}
	},
	"T06": func(x *X, w []fieldPacket, b []byte) {
		for s, skip := range fieldConds {
			for t, take := range fieldConds {
				var want []byte
				var pkts []int
				skipping, first, closed := true, false, false
				for i := range w {
					f := &w[i]
					if skipping {
						if s > 0 && !skip.model(f) {
							continue
						}
						skipping = false
						first = s == 0 && t > 0 && !take.model(f)
					} else if t > 0 && !take.model(f) {
						closed = true
						break
					}
					if f.pid == fieldPID {
						want, pkts = append(want, f.ref.payload...), append(pkts, i)
					}
				}
				what := func() string { return fmt.Sprintf("skip until %s, take while %s", skip.name, take.name) }
				setup := func(c ts.TransportStreamControl) {
					if s > 0 {
						c.SkipUntil(skip.tester)
					}
					if t > 0 {
						c.TakeWhile(take.tester)
					}
				}
				if !first {
					r := ts.NewPayloadReader(&source{data: b}, ts.IsPID(fieldPID))
					setup(r)
					res := readAllSized(x, r, len(want), constSize(120))
					if d := diffBytes(res.data, want); d != "" {
						x.Fail("payload reader, %s: %s", what(), d)
					}
					if res.err != io.EOF {
						x.Fail("payload reader, %s: ends with %v", what(), errName(res.err))
					}
				}
				if (s+t)%2 == 1 {
					continue
				}
				var end error = io.EOF
				if closed {
					end = nil
				}
				fieldDemux(x, w, b, pkts, what(), end, first, setup, false)
			}
		}
	},
	"T07": func(x *X, w []fieldPacket, b []byte) {
		r := ts.NewPayloadUnitReader(&source{data: b}, ts.IsPID(fieldPID))
		units := fieldUnits(w)
		got, cur := 0, []byte(nil)
		buf := make([]byte, 150)
		for i := 0; i < 100; i++ {
			n, err := r.Read(buf)
			if n > 0 && err != nil {
				x.Fail("Read returns %d bytes together with %v", n, err)
			}
			cur = append(cur, buf[:n]...)
			if err == nil {
				continue
			}
			if err != ts.EOP {
				if got != len(units) || len(cur) > 0 || err != io.EOF {
					x.Fail("after %d of %d units and %d bytes: %v", got, len(units), len(cur), errName(err))
				}
				return
			}
			if got >= len(units) {
				x.Fail("end mark %d, but there are only %d units", got+1, len(units))
			}
			if d := diffBytes(cur, units[got]); d != "" {
				x.Fail("unit %d: %s", got, d)
			}
			got, cur = got+1, nil
		}
		x.Fail("the reader does not end")
	},
	"T08": func(x *X, w []fieldPacket, b []byte) {
		var own, rest []int
		for i := range w {
			if w[i].pid == fieldPID {
				own = append(own, i)
			} else {
				rest = append(rest, i)
			}
		}
		fieldDemux(x, w, b, own, "one stream", io.EOF, false, func(ts.TransportStreamControl) {}, false)
		fieldDemux(x, w, b, rest, "all other streams", io.EOF, false, func(ts.TransportStreamControl) {}, true)
	},
	"T10": func(x *X, w []fieldPacket, b []byte) {
		var payloads [][]byte
		for _, f := range w {
			if f.pid == fieldPID {
				payloads = append(payloads, f.ref.payload)
			}
		}
		for k, want := range [][][]byte{payloads, fieldUnits(w)} {
			br := bitreader.NewReader(&source{data: b})
			in := make(chan *ts.Packet, len(w))
			for i := range w {
				p, err := ts.NewPacket(br)
				if err != nil {
					x.Fail("packet %d: %v", i, err)
				}
				if w[i].pid == fieldPID {
					in <- p
				}
			}
			close(in)
			var out <-chan []byte
			if k == 0 {
				out = ts.PacketChannel(in).PayloadOnly()
			} else {
				out = ts.PacketChannel(in).PayloadUnit()
			}
			i := 0
			for u := range out {
				if i >= len(want) {
					x.Fail("%s: %d items, expected %d", []string{"PayloadOnly", "PayloadUnit"}[k], i+1, len(want))
				}
				if d := diffBytes(u, want[i]); d != "" {
					x.Fail("%s, item %d: %s", []string{"PayloadOnly", "PayloadUnit"}[k], i, d)
				}
				i++
			}
			if i != len(want) {
				x.Fail("%s: %d items, expected %d", []string{"PayloadOnly", "PayloadUnit"}[k], i, len(want))
			}
		}
	},
	"T09": func(x *X, w []fieldPacket, b []byte) {
		d := ts.NewDemuxer(&source{data: b})
		c := d.Where(func(*ts.Packet) bool { return true })
		d.Go()
		var all []*ts.Packet
		for p := range c {
			all = append(all, p)
			for i, q := range all {
				if i >= len(w) {
					x.Fail("%d packets, expected %d", len(all), len(w))
				}
				if df := diffTS(q, &w[i].ref); df != "" {
					x.Fail("packet %d, after %d more were received: %s", i, len(all)-1-i, df)
				}
			}
		}
		if len(all) != len(w) {
			x.Fail("%d packets, expected %d", len(all), len(w))
		}
	},
}

// fieldUnits are the payload units of the stream.
func fieldUnits(w []fieldPacket) (units [][]byte) {
	for _, f := range w {
		if f.pid != fieldPID {
			continue
		}
		if f.start {
			units = append(units, []byte{})
		}
		if len(units) > 0 {
			units[len(units)-1] = append(units[len(units)-1], f.ref.payload...)
		}
	}
	return
}

// fieldDemux expects the packets given from a channel for the stream, or for the others.
func fieldDemux(x *X, w []fieldPacket, b []byte, want []int, what string, end error, anyEnd bool, setup func(ts.TransportStreamControl), others bool) {
	d := ts.NewDemuxer(&source{data: b})
	t := ts.IsPID(fieldPID)
	if others {
		t = t.Not()
	}
	c := d.Where(t)
	setup(d)
	done := d.Go()
	i := 0
	for p := range c {
		if i >= len(want) {
			x.Fail("demultiplexer, %s: %d packets, expected %d", what, i+1, len(want))
		}
		if df := diffTS(p, &w[want[i]].ref); df != "" {
			x.Fail("demultiplexer, %s: delivery %d: %s", what, i, df)
		}
		i++
	}
	if i != len(want) {
		x.Fail("demultiplexer, %s: %d packets, expected %d", what, i, len(want))
	}
	<-done
	if !anyEnd && d.Err() != end {
		x.Fail("demultiplexer, %s: error %v, expected %v", what, errName(d.Err()), errName(end))
	}
}
