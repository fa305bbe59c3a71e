# Planted bugs in the transport, elementary and program stream packages.
HELP = '''
func pkt(pid int, start bool, afc, cc int, af []byte, pay []byte) []byte {
	b := make([]byte, 0, 188)
	s := 0
	if start {
		s = 0x40
	}
	b = append(b, 0x47, byte(s|pid>>8), byte(pid), byte(afc<<4|cc))
	if afc&2 != 0 {
		n := 183
		if afc == 3 {
			n = 183 - len(pay)
		}
		b = append(b, byte(n))
		for len(af) < n {
			af = append(af, 0xff)
		}
		b = append(b, af[:n]...)
	}
	if afc&1 != 0 {
		b = append(b, pay...)
	}
	return b
}

func fill(k, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(k*31 + i*7 + i>>8)
	}
	return b
}
'''
TS = "package ts_test\n\nimport (\n%s)\n" + HELP
def imp(*a): return TS % "".join(f'\t"{x}"\n' for x in a)
BR, M = "github.com/32bitkid/bitreader", "github.com/32bitkid/mpeg/ts"
BUGS = [
dict(id="t01-splice-past-countdown", property="T01", pkg="ts",
 needs="an adaptation field with a splice countdown below zero and an extension whose seamless splice has type 15",
 what="the presented DTS of the next access unit loses its low 15 bits",
 edits=[("ts/adaptation_field.go", """		if length+1 > remainLength {
			return nil, 0, ErrInvalidLength
		}
		remainLength -= length + 1
	}

	// skip the remaining bytes""", """		if length+1 > remainLength {
			return nil, 0, ErrInvalidLength
		}
		if ext := af.AdapatationExtension; ext.SpliceType == 15 && af.SpliceCountdown > 127 {
			ext.DTSNextAU &^= 1<<15 - 1
		}
		remainLength -= length + 1
	}

	// skip the remaining bytes""")],
 demo=imp("bytes", "testing", BR, M) + '''
func TestDemo(t *testing.T) {
	for _, c := range []byte{3, 0xfe} {
		af := []byte{0x05, c, 6, 0x20, 0xf1, 0, 1, 0x12, 0x35}
		p, err := ts.NewPacket(bitreader.NewReader(bytes.NewReader(pkt(0x31, true, 3, 1, af, fill(1, 100)))))
		if err != nil {
			t.Fatal(err)
		}
		if got := p.AdaptationField.AdapatationExtension.DTSNextAU; got != 0x12<<7|0x35>>1 {
			t.Fatalf("%x", got)
		}
	}
}
'''),
dict(id="t01-piecewise-exact", property="T01", pkg="ts",
 needs="an adaptation extension of exactly four bytes that carries only a piecewise rate",
 what="the piecewise rate of the extension is reported as zero",
 edits=[("ts/adaptation_field.go", "if remainLength >= 3 && ae.PiecewiseRateFlag", "if remainLength > 3 && ae.PiecewiseRateFlag")],
 demo=imp("bytes", "testing", BR, M) + '''
func TestDemo(t *testing.T) {
	p, err := ts.NewPacket(bitreader.NewReader(bytes.NewReader(pkt(0x31, false, 3, 1, []byte{0x01, 4, 0x5f, 0xd2, 0x34, 0x56}, fill(1, 100)))))
	if err != nil {
		t.Fatal(err)
	}
	if r := p.AdaptationField.AdapatationExtension.PiecewiseRate; r != 0x123456 {
		t.Fatalf("%x", r)
	}
}
'''),
dict(id="t01-pcr-clock", property="T01", pkg="ts",
 needs="a clock reference base of 2^32 or more",
 what="the top bit of the clock reference base is lost",
 edits=[("ts/adaptation_field.go", "return base*300 + extension, nil", "return uint64(uint32(base))*300 + extension, nil")],
 demo=imp("bytes", "testing", BR, M) + '''
func TestDemo(t *testing.T) {
	p, err := ts.NewPacket(bitreader.NewReader(bytes.NewReader(pkt(0x31, false, 3, 1, []byte{0x10, 0x80, 0, 0, 0, 0x7e, 5}, fill(1, 100)))))
	if err != nil {
		t.Fatal(err)
	}
	if p.AdaptationField.PCR != 1<<32*300+5 {
		t.Fatal(p.AdaptationField.PCR)
	}
}
'''),
dict(id="t02-empty-field", property="T02", pkg="ts",
 needs="an adaptation field of length zero in a packet with a payload, followed by another packet",
 what="the packet takes one byte too many, so the next packet is found out of step",
 edits=[("ts/packet.go", "payloadSize -= length + 1", "if payloadSize -= length; length > 0 {\n\t\t\tpayloadSize--\n\t\t}")],
 demo=imp("bytes", "testing", BR, M) + '''
func TestDemo(t *testing.T) {
	s := append(pkt(0x31, false, 3, 1, nil, fill(1, 183)), pkt(0x32, false, 1, 2, nil, fill(2, 184))...)
	br := bitreader.NewReader(bytes.NewReader(append(s, pkt(0x33, false, 1, 2, nil, fill(3, 184))...)))
	for i := 0; i < 3; i++ {
		p, err := ts.NewPacket(br)
		if err != nil || p.PID != uint32(0x31+i) {
			t.Fatal(i, p, err)
		}
	}
}
'''),
dict(id="t03-garbage-187", property="T03", pkg="ts",
 needs="187 bytes of garbage before a sync byte",
 what="one read gives up although fewer than 188 bytes precede the packet",
 edits=[("ts/packet.go", "for i := 0; i < 188; i++ {", "for i := 1; i < 188; i++ {")],
 demo=imp("bytes", "testing", BR, M) + '''
func TestDemo(t *testing.T) {
	s := append(bytes.Repeat([]byte{0xff}, 187), pkt(0x31, false, 1, 1, nil, fill(1, 184))...)
	if _, err := ts.NewPacket(bitreader.NewReader(bytes.NewReader(s))); err != nil {
		t.Fatal(err)
	}
}
'''),
dict(id="t04-cut-private-data", property="T04", pkg="ts",
 needs="a stream that ends right behind the length byte of the private data",
 what="a stream cut inside a packet ends as if it was complete",
 edits=[("ts/adaptation_field.go", '''		_, err = io.ReadFull(br, tpd.data)
		if err == io.EOF {
			return nil, 0, io.ErrUnexpectedEOF
		} else if err != nil {''', '''		_, err = io.ReadFull(br, tpd.data)
		if err != nil {''')],
 demo=imp("bytes", "io", "testing", BR, M) + '''
func TestDemo(t *testing.T) {
	s := pkt(0x31, false, 3, 1, []byte{0x02, 4, 1, 2, 3, 4}, fill(1, 100))
	for n := 1; n < 188; n++ {
		if _, err := ts.NewPacket(bitreader.NewReader(bytes.NewReader(s[:n]))); err != io.ErrUnexpectedEOF {
			t.Fatal(n, err)
		}
	}
}
'''),
dict(id="t05-error-indicator", property="T05", pkg="ts",
 needs="a packet with the transport error indicator set that the tester accepts",
 what="the payload of an accepted packet is dropped",
 edits=[("ts/payload_reader.go", "		if r.where(r.currentPacket) {\n			copied", "		if r.where(r.currentPacket) && !r.currentPacket.TransportErrorIndicator {\n			copied")],
 demo=imp("bytes", "io", "testing", M) + '''
func TestDemo(t *testing.T) {
	s := append(pkt(0x31, false, 1, 4, nil, fill(1, 184)), pkt(0x31, false, 1, 4, nil, fill(2, 184))...)
	s[188+1] |= 0x80
	b, err := io.ReadAll(ts.NewPayloadReader(bytes.NewReader(s), ts.IsPID(0x31)))
	if err != nil || !bytes.Equal(b, append(fill(1, 184), fill(2, 184)...)) {
		t.Fatal(len(b), err)
	}
}
'''),
dict(id="t06-take-of-delivered", property="T06", pkg="ts",
 needs="a packet no channel accepts that the take condition rejects, with wanted packets behind it",
 what="the demultiplexer delivers packets behind the end of the window",
 edits=[("ts/demuxer.go", "				if !takeWhile(p) {\n					return\n				}", "				if !takeWhile(p) && tsd.wanted(p) {\n					return\n				}"),
  ("ts/demuxer.go", "// Retrieve the last error", """func (tsd *Demuxer) wanted(p *Packet) bool {
	for _, item := range tsd.registeredChannels {
		if item.tester(p) {
			return true
		}
	}
	return false
}

// Retrieve the last error""")],
 demo=imp("bytes", "testing", M) + '''
func TestDemo(t *testing.T) {
	var s []byte
	for i, pid := range []int{0x31, 0x31, 0x32, 0x31} {
		s = append(s, pkt(pid, false, 1, i, nil, fill(i, 184))...)
	}
	d := ts.NewDemuxer(bytes.NewReader(s))
	d.TakeWhile(ts.IsPID(0x31))
	c := d.Where(ts.IsPID(0x31))
	done := d.Go()
	n := 0
	for range c {
		n++
	}
	<-done
	if n != 2 || d.Err() != nil {
		t.Fatal(n, d.Err())
	}
}
'''),
dict(id="t06-scrambled-start", property="T06", pkg="ts",
 needs="a packet of the stream inside of the window that is scrambled and starts a payload unit",
 what="the payload reader leaves out the payload of that packet",
 edits=[("ts/payload_reader.go", """		if r.where(r.currentPacket) {
			copied""", """		if c := r.currentPacket; r.where(c) && !(c.TransportScramblingControl == 3 && c.PayloadUnitStartIndicator) {
			copied""")],
 demo=imp("bytes", "io", "testing", M) + '''
func TestDemo(t *testing.T) {
	var s, want []byte
	for i := 0; i < 4; i++ {
		p := pkt(0x31, i%2 == 0, 1, i, nil, fill(i, 184))
		if i > 1 {
			p[3] |= 0xc0
		}
		s = append(s, p...)
		want = append(want, fill(i, 184)...)
	}
	got, err := io.ReadAll(ts.NewPayloadReader(bytes.NewReader(s), ts.IsPID(0x31)))
	if err != nil || !bytes.Equal(got, want) {
		t.Fatal(len(got), err)
	}
}
'''),
dict(id="t07-damaged-start", property="T07", pkg="ts",
 needs="a packet with the error indicator and an adaptation field that starts a payload unit",
 what="the unit before it does not end; both are delivered as one",
 edits=[("ts/payload_unit_reader.go", """		if stream.startIndicator(stream.currentPacket) {
			break""", """		if p := stream.currentPacket; stream.startIndicator(p) && !(p.TransportErrorIndicator && p.AdaptationField != nil) {
			break""")],
 demo=imp("bytes", "io", "testing", M) + '''
func TestDemo(t *testing.T) {
	var s []byte
	for i := 0; i < 3; i++ {
		p := pkt(0x31, i != 1, 3, i, []byte{0}, fill(i, 50+i))
		if i == 2 {
			p[1] |= 0x80
		}
		s = append(s, p...)
	}
	r := ts.NewPayloadUnitReader(bytes.NewReader(s), ts.IsPID(0x31))
	for _, want := range [][]byte{append(fill(0, 50), fill(1, 51)...), fill(2, 52)} {
		var unit []byte
		buf := make([]byte, 100)
		for {
			n, err := r.Read(buf)
			unit = append(unit, buf[:n]...)
			if err == ts.EOP {
				break
			}
			if err != nil {
				t.Fatal(err)
			}
		}
		if !bytes.Equal(unit, want) {
			t.Fatalf("%d bytes, expected %d", len(unit), len(want))
		}
	}
	if _, err := r.Read(make([]byte, 1)); err != io.EOF {
		t.Fatal(err)
	}
}
'''),
dict(id="t10-duplicate-packet", property="T10", pkg="ts",
 needs="two consecutive packets with the same continuity counter and the same payload",
 what="the second packet's payload is missing from the items",
 edits=[("ts/packet_channel.go", """		defer close(output)
		for packet := range input {
			output <- packet.Payload
		}
""", """		defer close(output)
		var last *Packet
		for packet := range input {
			if last == nil || last.ContinuityCounter != packet.ContinuityCounter || !bytes.Equal(last.Payload, packet.Payload) {
				output <- packet.Payload
			}
			last = packet
		}
""")],
 demo=imp("bytes", "testing", BR, M) + '''
func TestDemo(t *testing.T) {
	in := make(chan *ts.Packet, 4)
	for i := 0; i < 4; i++ {
		p, err := ts.NewPacket(bitreader.NewReader(bytes.NewReader(pkt(0x31, false, 1, i/2, nil, fill(i/2, 184)))))
		if err != nil {
			t.Fatal(err)
		}
		in <- p
	}
	close(in)
	n := 0
	for range ts.PacketChannel(in).PayloadOnly() {
		n++
	}
	if n != 4 {
		t.Fatal(n)
	}
}
'''),
dict(id="t07-foreign-start", property="T07", pkg="ts",
 needs="a packet of another PID with the start indicator in the middle of a unit",
 what="the unit is split in two at a packet that does not belong to it",
 edits=[("ts/payload_unit_reader.go", "		if stream.startIndicator(stream.currentPacket) {\n			break", "		if IsPayloadUnitStart(stream.currentPacket) {\n			break")],
 demo=imp("bytes", "testing", M) + '''
func TestDemo(t *testing.T) {
	s := append(pkt(0x31, true, 1, 4, nil, fill(1, 184)), pkt(0x32, true, 1, 4, nil, fill(2, 184))...)
	s = append(s, pkt(0x31, false, 1, 5, nil, fill(3, 184))...)
	r := ts.NewPayloadUnitReader(bytes.NewReader(s), ts.IsPID(0x31))
	n := 0
	for b := make([]byte, 64); ; {
		k, err := r.Read(b)
		n += k
		if err != nil {
			break
		}
	}
	if n != 368 {
		t.Fatal(n)
	}
}
'''),
dict(id="t08-slow-consumer", property="T08", pkg="ts",
 needs="a consumer that does not receive for more than two seconds",
 what="packets for a slow consumer are dropped",
 edits=[("ts/demuxer.go", 'import "io"\n', 'import "io"\nimport "time"\n'),
        ("ts/demuxer.go", "					item.channel <- p\n", "					select {\n					case item.channel <- p:\n					case <-time.After(2 * time.Second): // do not let one consumer stall the others\n					}\n")],
 demo=imp("bytes", "testing", "time", M) + '''
func TestDemo(t *testing.T) {
	s := append(pkt(0x31, true, 1, 4, nil, fill(1, 184)), pkt(0x31, true, 1, 4, nil, fill(2, 184))...)
	d := ts.NewDemuxer(bytes.NewReader(s))
	c := d.Where(ts.IsPID(0x31))
	done := d.Go()
	time.Sleep(3 * time.Second)
	n := 0
	for range c {
		n++
	}
	<-done
	if n != 2 {
		t.Fatal(n)
	}
}
'''),
dict(id="t08-error-after-done", property="T08", pkg="ts",
 needs="asking for the error as soon as completion is signalled",
 what="completion is signalled before the channels are closed and a consumer that waits for it first finds them open",
 edits=[("ts/demuxer.go", '''			for _, item := range tsd.registeredChannels {
				close(item.channel)
			}
			done <- true
''', '''			done <- true
			for _, item := range tsd.registeredChannels {
				close(item.channel)
			}
''')],
 demo=imp("bytes", "testing", "time", M) + '''
func TestDemo(t *testing.T) {
	d := ts.NewDemuxer(bytes.NewReader(pkt(0x31, true, 1, 4, nil, fill(1, 184))))
	c := d.Where(ts.IsPID(0x31))
	done := d.Go()
	ended := make(chan bool)
	go func() {
		for range c {
		}
		<-done
		close(ended)
	}()
	select {
	case <-ended:
	case <-time.After(5 * time.Second):
		t.Fatal("consumer of the packets is stuck")
	}
}
'''),
dict(id="t09-payload-ring", property="T09", pkg="ts",
 needs="a consumer that still holds a packet after 64 further packets have been parsed",
 what="the payload of a packet handed out earlier is overwritten",
 edits=[("ts/packet.go", "	payloadBuffer [MaxPayloadSize]byte\n}\n", "}\n\n// payloads are kept in a ring of buffers to spare the allocation\nvar (\n	payloadRing  [64][MaxPayloadSize]byte\n	payloadIndex uint32\n)\n\nfunc nextPayloadBuffer() []byte {\n	i := atomic.AddUint32(&payloadIndex, 1)\n	return payloadRing[i%uint32(len(payloadRing))][:]\n}\n"),
        ("ts/packet.go", "packet.Payload = packet.payloadBuffer[0:payloadSize]", "packet.Payload = nextPayloadBuffer()[0:payloadSize]"),
        ("ts/packet.go", 'import "fmt"\n', 'import "fmt"\nimport "sync/atomic"\n')],
 demo=imp("bytes", "testing", M) + '''
func TestDemo(t *testing.T) {
	var s []byte
	for i := 0; i < 100; i++ {
		s = append(s, pkt(0x31, true, 1, i&15, nil, fill(i, 184))...)
	}
	d := ts.NewDemuxer(bytes.NewReader(s))
	c := d.Where(ts.IsPID(0x31))
	done := d.Go()
	var all []*ts.Packet
	for p := range c {
		all = append(all, p)
	}
	<-done
	for i, p := range all {
		if !bytes.Equal(p.Payload, fill(i, 184)) {
			t.Fatal(i)
		}
	}
}
'''),
dict(id="t10-unit-aliases-buffer", property="T10", pkg="ts",
 needs="a consumer that still holds a unit while the next one is collected",
 what="a delivered payload unit is overwritten by the next one",
 edits=[("ts/packet_channel.go", '''					data, err := ioutil.ReadAll(&buf)
					if err == nil {
						output <- data
					}
''', '''					data := buf.Bytes()
					buf.Reset()
					output <- data
'''), ("ts/packet_channel.go", 'import "io/ioutil"\n', '')],
 demo=imp("bytes", "testing", M) + '''
func TestDemo(t *testing.T) {
	in := make(chan *ts.Packet)
	go func() {
		for i := 0; i < 3; i++ {
			in <- &ts.Packet{PayloadUnitStartIndicator: true, Payload: fill(i, 20)}
		}
		close(in)
	}()
	var all [][]byte
	for u := range ts.PacketChannel(in).PayloadUnit() {
		all = append(all, u)
	}
	for i, u := range all {
		if !bytes.Equal(u, fill(i, 20)) {
			t.Fatal(i, u)
		}
	}
}
'''),
dict(id="t11-pid-12-bits", property="T11", pkg="ts",
 needs="two PIDs that differ by 0x1000",
 what="a packet of another PID is accepted",
 edits=[("ts/packet_tester.go", "func(p *Packet) bool { return p.PID == pid }", "func(p *Packet) bool { return (p.PID^pid)&0xfff == 0 }")],
 demo=imp("testing", M) + '''
func TestDemo(t *testing.T) {
	if ts.IsPID(0x1031)(&ts.Packet{PID: 0x31}) {
		t.Fatal()
	}
}
'''),
dict(id="t11-or-xor", property="T11", pkg="ts",
 needs="a packet both operands accept",
 what="the disjunction of two testers rejects a packet that both accept",
 edits=[("ts/packet_tester.go", "return pt(p) || other(p)", "return pt(p) != other(p)")],
 demo=imp("testing", M) + '''
func TestDemo(t *testing.T) {
	if !ts.IsPID(0x31).Or(ts.IsPayloadUnitStart)(&ts.Packet{PID: 0x31, PayloadUnitStartIndicator: true}) {
		t.Fatal()
	}
}
'''),
dict(id="p01-stream-type-e", property="P01", pkg="pes",
 needs="a packet of the stream id 0xF7 or 0xF8",
 what="the wrong one of two neighbouring stream ids is taken to have no PES header",
 edits=[("pes/stream_assigments.go", "		streamID != itu_t_rec_h_222_1_type_e\n", "		streamID != itu_t_rec_h_222_1_type_d\n")],
 demo='''package pes_test

import (
	"bytes"
	"testing"

	"github.com/32bitkid/bitreader"
	"github.com/32bitkid/mpeg/pes"
)

func TestDemo(t *testing.T) {
	p, err := pes.NewPacket(bitreader.NewReader(bytes.NewReader([]byte{0, 0, 1, 0xf8, 0, 4, 1, 2, 3, 4})))
	if err != nil || !bytes.Equal(p.Payload, []byte{1, 2, 3, 4}) {
		t.Fatal(err)
	}
}
'''),
dict(id="p02-long-padding", property="P02", pkg="pes",
 needs="a padding packet of 8192 bytes or more followed by another packet",
 what="the padding is not skipped completely",
 edits=[("pes/packet.go", '''		payloadLen := int(packet.PacketLength)
		junk := make([]byte, payloadLen)
		_, err = io.ReadAtLeast(reader, junk, payloadLen)
		if err != nil {''', '''		padding := uint16(packet.PacketLength) * 8
		if err = reader.Skip(uint(padding)); err != nil {''')],
 demo='''package pes_test

import (
	"bytes"
	"testing"

	"github.com/32bitkid/bitreader"
	"github.com/32bitkid/mpeg/pes"
)

func TestDemo(t *testing.T) {
	s := append([]byte{0, 0, 1, 0xbe, 0x20, 4}, bytes.Repeat([]byte{0xff}, 8196)...)
	s = append(s, 0, 0, 1, 0xbf, 0, 2, 7, 8)
	br := bitreader.NewReader(bytes.NewReader(s))
	p, err := pes.NewPacket(br)
	if err == nil {
		err = p.Next(br)
	}
	if err != nil || !bytes.Equal(p.Payload, []byte{7, 8}) {
		t.Fatal(err)
	}
}
'''),
dict(id="p03-stuffing-unchecked", property="P03", pkg="pes",
 needs="a header with stuffing whose last byte is damaged",
 what="damaged stuffing behind the first byte goes unnoticed",
 edits=[("pes/header.go", '''	for i := uint32(0); i < length; i++ {
		val, err := reader.Read32(8)
		if err != nil {
			return 0, err
		}
		if val != 255 {
			return 0, ErrInvalidStuffingByte
		}
	}
	return length, nil''', '''	if length == 0 {
		return 0, nil
	}
	val, err := reader.Read32(8)
	if err != nil {
		return 0, err
	}
	if val != 255 {
		return 0, ErrInvalidStuffingByte
	}
	return length, reader.Skip(uint(length-1) * 8)''')],
 demo='''package pes_test

import (
	"bytes"
	"testing"

	"github.com/32bitkid/bitreader"
	"github.com/32bitkid/mpeg/pes"
)

func TestDemo(t *testing.T) {
	_, err := pes.NewPacket(bitreader.NewReader(bytes.NewReader([]byte{0, 0, 1, 0xe0, 0, 8, 0x80, 0, 3, 0xff, 0xff, 0xfe, 1, 2})))
	if err == nil {
		t.Fatal()
	}
}
'''),
dict(id="p03-dts-marker", property="P03", pkg="pes",
 needs="a decoding time stamp whose prefix is damaged while its presentation time stamp is fine",
 what="the prefix of the decoding time stamp is not checked",
 edits=[("pes/header.go", "	if val != marker || err != nil {", "	if val&marker == 0 || err != nil {")],
 demo='''package pes_test

import (
	"bytes"
	"testing"

	"github.com/32bitkid/bitreader"
	"github.com/32bitkid/mpeg/pes"
)

func TestDemo(t *testing.T) {
	_, err := pes.NewPacket(bitreader.NewReader(bytes.NewReader([]byte{0, 0, 1, 0xe0, 0, 15, 0x80, 0xc0, 10, 0x31, 0, 1, 0, 1, 0x31, 0, 1, 0, 1, 1, 2})))
	if err == nil {
		t.Fatal()
	}
}
'''),
dict(id="p04-exact-fit", property="P04", pkg="pes",
 needs="a read whose buffer ends exactly where the payload in front of a longer one ends, with bytes left over from it before",
 what="left-over bytes of a payload are delivered again",
 edits=[("pes/payload_reader.go", '''	var remainder []byte

	// Fill from packet stream''', '''	remainder := r.currentPacket.Payload

	// Fill from packet stream''')],
 demo='''package pes_test

import (
	"bytes"
	"testing"
	"testing/iotest"
	"io"

	"github.com/32bitkid/mpeg/pes"
)

func TestDemo(t *testing.T) {
	s := []byte{0, 0, 1, 0xbf, 0, 2, 7, 8, 0, 0, 1, 0xbf, 0, 3, 1, 2, 3}
	b, err := io.ReadAll(iotest.OneByteReader(pes.NewPayloadReader(bytes.NewReader(s))))
	if err != nil || !bytes.Equal(b, []byte{7, 8, 1, 2, 3}) {
		t.Fatal(b, err)
	}
}
'''),
dict(id="s01-shared-stream-entry", property="S01", pkg="ps",
 needs="a system header with at least two stream entries",
 what="all stream entries of the header are the last one",
 edits=[("ps/system_header.go", "	for true {\n		if nextbits", "	stream := SystemHeaderStream{}\n\n	for true {\n		if nextbits"),
        ("ps/system_header.go", "		stream := SystemHeaderStream{}\n\n		if sid", "		if sid")],
 demo='''package ps_test

import (
	"bytes"
	"testing"

	"github.com/32bitkid/bitreader"
	"github.com/32bitkid/mpeg/ps"
)

func TestDemo(t *testing.T) {
	h, err := ps.NewPackHeader(bitreader.NewReader(bytes.NewReader([]byte{0, 0, 1, 0xba, 0x44, 0, 4, 0, 4, 1, 0, 0, 7, 0xf8,
		0, 0, 1, 0xbb, 0, 12, 0x80, 0, 3, 4, 0xe1, 0x7f, 0xe0, 0xe0, 1, 0xc0, 0xc0, 2, 0, 0, 1, 0xb9})))
	if err != nil || len(h.Streams) != 2 || h.Streams[0].StreamID != 0xe0 {
		t.Fatal(h, err)
	}
}
'''),
dict(id="s02-no-wait-for-pack", property="S02", pkg="ps",
 needs="the decoder getting ahead of the goroutine that delivers the packets of a pack",
 what="decoder and pack read the source at the same time",
 edits=[("ps/decoder.go", "			<-packComplete\n", "			select {\n			case <-packComplete:\n			case <-time.After(time.Millisecond):\n			}\n"),
        ("ps/decoder.go", 'import "github.com/32bitkid/bitreader"\n', 'import "github.com/32bitkid/bitreader"\nimport "time"\n')],
 demo='''package ps_test

import (
	"bytes"
	"testing"
	"time"

	"github.com/32bitkid/bitreader"
	"github.com/32bitkid/mpeg/ps"
)

func TestDemo(t *testing.T) {
	s := []byte{0, 0, 1, 0xba, 0x44, 0, 4, 0, 4, 1, 0, 0, 7, 0xf8,
		0, 0, 1, 0xbf, 0, 1, 7, 0, 0, 1, 0xbf, 0, 1, 8, 0, 0, 1, 0xbf, 0, 1, 9, 0, 0, 1, 0xb9}
	d := ps.NewDecoder(bitreader.NewReader(bytes.NewReader(s)))
	done := d.Go()
	n := 0
	ended := make(chan bool)
	go func() {
		defer close(ended)
		for p := range d.Packs() {
			for range p.Packets() {
				n++
				time.Sleep(50 * time.Millisecond)
			}
		}
	}()
	ok := <-done
	<-ended
	if !ok || n != 3 {
		t.Fatal(ok, n, d.Err())
	}
}
'''),
dict(id="s03-resync", property="S03", pkg="ps",
 needs="a stream with a damaged packet start code in the middle of it",
 what="a damaged packet is skipped silently and the stream ends as if it was complete",
 edits=[("ps/pack_reader.go", """	if p, err := pes.NewPacket(pr.br); err != nil {
		return n, err
	} else {""", """	if p, err := pes.NewPacket(pr.br); err == pes.ErrStartCodePrefixNotFound {
		// look for the next packet
		if err := pr.br.Skip(8); err != nil {
			return n, err
		}
	} else if err != nil {
		return n, err
	} else {""")],
 demo='''package ps_test

import (
	"bytes"
	"io"
	"testing"

	"github.com/32bitkid/mpeg/ps"
)

func TestDemo(t *testing.T) {
	s := []byte{0, 0, 1, 0xba, 0x44, 0, 4, 0, 4, 1, 0, 0, 7, 0xf8,
		0, 0, 1, 0xbf, 0, 1, 7, 0, 0, 2, 0xbf, 0, 1, 8, 0, 0, 1, 0xbf, 0, 1, 9, 0, 0, 1, 0xb9}
	b, err := io.ReadAll(ps.NewPackReader(bytes.NewReader(s)))
	if err == nil || !bytes.Equal(b, []byte{7}) {
		t.Fatal(b, err)
	}
}
'''),
dict(id="s03-copies-left-out", property="S03", pkg="ps",
 needs="a packet marked as a copy under copyright that also has an extension",
 what="the payload of that packet is missing",
 edits=[("ps/pack_reader.go", """		copied := copy(d, p.Payload)
""", """		if h := p.Header; h != nil && h.Copyright && !h.OrignalOrCopy && h.ExtensionFlag {
			goto STEP
		}
		copied := copy(d, p.Payload)
""")],
 demo='''package ps_test

import (
	"bytes"
	"io"
	"testing"

	"github.com/32bitkid/mpeg/ps"
)

func TestDemo(t *testing.T) {
	s := []byte{0, 0, 1, 0xba, 0x44, 0, 4, 0, 4, 1, 0, 0, 7, 0xf8,
		0, 0, 1, 0xe0, 0, 5, 0x82, 0x01, 1, 0x0e, 9, 0, 0, 1, 0xe0, 0, 4, 0x82, 0, 0, 8, 0, 0, 1, 0xb9}
	got, err := io.ReadAll(ps.NewPackReader(bytes.NewReader(s)))
	if err != nil || !bytes.Equal(got, []byte{9, 8}) {
		t.Fatal(got, err)
	}
}
'''),
dict(id="x01-short-stuffing-read", property="X01", pkg="ts",
 needs="a source that delivers the stuffing of an adaptation field in more than one read",
 what="the rest of the stuffing is taken for the payload",
 edits=[("ts/adaptation_field.go", "		_, err := io.ReadFull(br, af.junk)\n", "		_, err := br.Read(af.junk)\n")],
 demo=imp("bytes", "testing", "testing/iotest", BR, M) + '''
func TestDemo(t *testing.T) {
	p, err := ts.NewPacket(bitreader.NewReader(iotest.OneByteReader(bytes.NewReader(pkt(0x31, false, 3, 1, []byte{0}, fill(1, 100))))))
	if err != nil || !bytes.Equal(p.Payload, fill(1, 100)) {
		t.Fatal(err)
	}
}
'''),
dict(id="x02-shared-stuffing", property="X02", pkg="ts", race=True,
 needs="two transport stream readers on different goroutines, both at an adaptation field with stuffing",
 what="both write the same scratch memory without synchronisation",
 edits=[("ts/adaptation_field.go", "		af.junk = make([]byte, remainLength)\n", "		af.junk = junk[:remainLength]\n"),
        ("ts/adaptation_field.go", "	junk   []byte\n}\n", "	junk   []byte\n}\n\n// nobody looks at the stuffing\nvar junk [256]byte\n")],
 demo=imp("bytes", "testing", "sync", BR, M) + '''
func TestDemo(t *testing.T) {
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 2000; i++ {
				ts.NewPacket(bitreader.NewReader(bytes.NewReader(pkt(0x31, false, 3, 1, []byte{0}, fill(1, 100)))))
			}
		}()
	}
	wg.Wait()
}
'''),
dict(id="x04-padding-then-more", property="X04", pkg="pes",
 needs="a live source that pauses behind a padding packet",
 what="a padding packet is not returned before a byte of what follows it has arrived",
 edits=[("pes/packet.go", """		_, err = io.ReadAtLeast(reader, junk, payloadLen)
		if err != nil {
			return err
		}
""", """		_, err = io.ReadAtLeast(reader, junk, payloadLen)
		if err != nil {
			return err
		}
		// zero bytes may trail the padding
		for {
			trail, err := reader.Peek32(32)
			if err != nil || trail != 0 {
				break
			}
			reader.Skip(8)
		}
""")],
 demo='''package pes_test

import (
	"io"
	"testing"
	"time"

	"github.com/32bitkid/bitreader"
	"github.com/32bitkid/mpeg/pes"
)

func TestDemo(t *testing.T) {
	r, w := io.Pipe()
	defer w.Close()
	go w.Write([]byte{0, 0, 1, 0xbe, 0, 3, 0xff, 0xff, 0xff})
	got := make(chan error, 1)
	go func() {
		_, err := pes.NewPacket(bitreader.NewReader(r))
		got <- err
	}()
	select {
	case err := <-got:
		if err != nil {
			t.Fatal(err)
		}
	case <-time.After(5 * time.Second):
		t.Fatal("the packet is not delivered")
	}
}
'''),
dict(id="x05-units-pile-up", property="X05", pkg="ts",
 needs="a channel of payload units that lives long",
 what="all units ever received stay in the buffer they are cut from",
 edits=[("ts/packet_channel.go", """					data, err := ioutil.ReadAll(&buf)
""", """					data, err := ioutil.ReadAll(bytes.NewReader(buf.Bytes()[sent:]))
					sent = buf.Len()
"""), ("ts/packet_channel.go", """	started := false
	go func() {
""", """	started, sent := false, 0
	go func() {
"""), ("ts/packet_channel.go", """			output <- buf.Bytes()
""", """			output <- buf.Bytes()[sent:]
""")],
 demo=imp("bytes", "testing", "runtime", M) + '''
var _ = bytes.Equal

func TestDemo(t *testing.T) {
	in := make(chan *ts.Packet)
	out := ts.PacketChannel(in).PayloadUnit()
	heap := func() uint64 {
		var m runtime.MemStats
		runtime.GC()
		runtime.GC()
		runtime.ReadMemStats(&m)
		return m.HeapAlloc
	}
	go func() {
		defer close(in)
		for i := 0; i < 30000; i++ {
			in <- &ts.Packet{PayloadUnitStartIndicator: true, Payload: fill(i, 184)}
		}
	}()
	var was uint64
	n := 0
	for range out {
		if n++; n == 2000 {
			was = heap()
		} else if n == 29000 {
			if now := heap(); now > was+1<<20 {
				t.Fatalf("%d bytes, then %d", was, now)
			}
		}
	}
}
'''),
dict(id="p04-unit-ends-early", property="P04", pkg="pes",
 needs="a payload unit that ends inside of the payload of a packet of known length",
 what="the packet is delivered with zero bytes in place of the missing ones",
 edits=[("pes/packet.go", """			_, err = io.ReadAtLeast(reader, packet.Payload, payloadLen)
			if err != nil {
""", """			_, err = io.ReadAtLeast(reader, packet.Payload, payloadLen)
			if err != nil && err != ts.EOP {
""")],
 demo='''package pes_test

import (
	"io"
	"testing"

	"github.com/32bitkid/mpeg/pes"
	"github.com/32bitkid/mpeg/ts"
)

// one unit that ends early
type unit struct {
	b    []byte
	ends int
}

func (u *unit) Read(p []byte) (int, error) {
	if len(u.b) == 0 {
		if u.ends++; u.ends == 1 {
			return 0, ts.EOP
		}
		return 0, io.EOF
	}
	n := copy(p, u.b)
	u.b = u.b[n:]
	return n, nil
}

func TestDemo(t *testing.T) {
	u := &unit{b: []byte{0, 0, 1, 0xe0, 0, 13, 0x80, 0, 0, 1, 2, 3, 4, 5, 6, 7, 8}}
	b, err := io.ReadAll(pes.NewPayloadReader(u))
	if len(b) > 8 || err == nil {
		t.Fatal(b, err)
	}
}
'''),
]
BUGS.append({"id": "v06-entry-point", "property": "V06", "pkg": "video",
 "needs": "decoding that starts at a sequence header whose group is open, with a B picture that refers to the group before",
 "what": "an open group at which decoding starts ends it with an error instead of only spoiling the pictures that need the group before",
 "edits": [("video/motion_compensation.go", "\t\t\tfs.past != nil,\n\t}\n", "\t\t\ti >= 0,\n\t}\n\tif fState.active && fs.past == nil {\n\t\treturn ErrInvalidReference\n\t}\n")],
 "demo": '''package video

import (
	"bytes"
	"encoding/hex"
	"testing"
)

// The stream is cut at the sequence header of an open group: an I picture and a B picture
// that is shown before it.
func TestDemo(t *testing.T) {
	b, err := hex.DecodeString("000001b30100101300fa2000000001b5148a00010000000001b8000000400000010000480000000001b58ffff340800000010133f8380c2d76bb5df99df9f40000010000180003b8000001b582222340800000010133f8c005313626c0000001b7")
	if err != nil {
		t.Fatal(err)
	}
	v := NewVideoSequence(bytes.NewReader(b))
	if err := v.AlignTo(SequenceHeaderStartCode); err != nil {
		t.Fatal(err)
	}
	n := 0
	for ; n < 10; n++ {
		if _, err = v.Next(); err != nil {
			break
		}
	}
	if n == 0 || err != EOS {
		t.Fatalf("%d frames, then %v", n, err)
	}
}
'''})
BUGS.append({"id": "x06-demux-resync", "property": "X06", "pkg": "ts",
 "needs": "more than 188 bytes of garbage between packets, and one route compared with another",
 "what": "the demultiplexer carries on where reading packet by packet, the readers and the units end with the no-sync error",
 "edits": [("ts/demuxer.go", "\t\t\terr := p.Next(tsd.reader)\n", "\t\t\terr := p.Next(tsd.reader)\n\t\t\tfor err == ErrNoSyncByte {\n\t\t\t\terr = p.Next(tsd.reader)\n\t\t\t}\n")],
 "demo": '''package ts

import (
	"bytes"
	"io"
	"testing"
)

// Both routes through a stream with a long damaged stretch deliver the same payload.
func TestDemo(t *testing.T) {
	var b []byte
	for i := 0; i < 3; i++ {
		p := bytes.Repeat([]byte{byte(i)}, 188)
		copy(p, []byte{0x47, 0, 5, 0x10})
		if b = append(b, p...); i == 1 {
			b = append(b, make([]byte, 300)...)
		}
	}
	want, werr := io.ReadAll(NewPayloadReader(bytes.NewReader(b), IsPID(5)))
	d := NewDemuxer(bytes.NewReader(b))
	c := d.Where(IsPID(5)).PayloadOnly()
	done := d.Go()
	var got []byte
	for p := range c {
		got = append(got, p...)
	}
	<-done
	if !bytes.Equal(got, want) || d.Err() != werr {
		t.Fatal(len(got), len(want), d.Err(), werr)
	}
}
'''})
BUGS.append({"id": "t07-unit-limit", "property": "T07", "pkg": "ts",
 "needs": "a payload unit of more than 64 KB",
 "what": "the payload unit reader cuts units at about 64 KB (the longest bounded PES packet), also those of unbounded packets",
 "edits": [("ts/payload_unit_reader.go", "\t\tif stream.where(stream.currentPacket) {\n", "\t\tif n < 6+0xffff && stream.where(stream.currentPacket) {\n")],
 "demo": '''package ts

import (
	"bytes"
	"io"
	"testing"
)

func TestDemo(t *testing.T) {
	var b, want []byte
	for i := 0; i < 500; i++ {
		p := bytes.Repeat([]byte{byte(i)}, 188)
		copy(p, []byte{0x47, 0, 5, 0x10})
		if i == 0 {
			p[1] = 0x40
		}
		b, want = append(b, p...), append(want, p[4:]...)
	}
	got, err := io.ReadAll(NewPayloadUnitReader(bytes.NewReader(b), IsPID(5)))
	if err != EOP || !bytes.Equal(got, want) {
		t.Fatal(len(got), len(want), err)
	}
}
'''})
BUGS.append({"id": "t10-split-unit", "property": "T10", "pkg": "ts",
 "needs": "a payload unit of 64 KB or more that is not the last one of the channel",
 "what": "the rest of a large unit is delivered in front of the next unit",
 "edits": [("ts/packet_channel.go", "import \"bytes\"\n", "import \"bytes\"\nimport \"io\"\n"), ("ts/packet_channel.go", "ioutil.ReadAll(&buf)", "ioutil.ReadAll(io.LimitReader(&buf, 0xffff))")],
 "demo": '''package ts

import (
	"bytes"
	"testing"
)

func TestDemo(t *testing.T) {
	in := make(chan *Packet)
	out := PacketChannel(in).PayloadUnit()
	var want [][]byte
	for u := 0; u < 2; u++ {
		var w []byte
		for i := 0; i < 400; i++ {
			w = append(w, bytes.Repeat([]byte{byte(i + u)}, 184)...)
		}
		want = append(want, w)
	}
	go func() {
		for u := 0; u < 2; u++ {
			for i := 0; i < 400; i++ {
				in <- &Packet{PayloadUnitStartIndicator: i == 0, Payload: bytes.Repeat([]byte{byte(i + u)}, 184)}
			}
		}
		close(in)
	}()
	for u := 0; u < 2; u++ {
		if got := <-out; !bytes.Equal(got, want[u]) {
			t.Fatal(u, len(got), len(want[u]))
		}
	}
}
'''})
BUGS.append({"id": "t06-skip-limit", "property": "T06", "pkg": "ts",
 "needs": "a skip condition that is first met more than 10000 packets into the stream",
 "what": "the payload reader gives up the search and starts to deliver outside of the window",
 "edits": [("ts/payload_reader.go", "func (r *payloadReader) realign() (err error) {\n\tfor {\n", "func (r *payloadReader) realign() (err error) {\n\tfor tries := 0; tries < 10000; tries++ {\n"), ("ts/payload_reader.go", "\t\t\treturn nil\n\t\t}\n\t}\n}", "\t\t\treturn nil\n\t\t}\n\t}\n\treturn nil\n}")],
 "demo": '''package ts

import (
	"bytes"
	"io"
	"testing"
)

func TestDemo(t *testing.T) {
	b := bytes.Repeat(append([]byte{0x47, 0, 5, 0x10}, make([]byte, 184)...), 12000)
	b[11000*188+1] = 0x40
	r := NewPayloadReader(bytes.NewReader(b), IsPID(5))
	r.SkipUntil(IsPayloadUnitStart)
	got, err := io.ReadAll(r)
	if err != nil || len(got) != 1000*184 {
		t.Fatal(len(got), err)
	}
}
'''})
BUGS.append({"id": "v09-long-user-data", "property": "V09", "pkg": "video",
 "needs": "user data of more than 4 KB",
 "what": "decoding ends with an error at long user data",
 "edits": [("video/user_data.go", "\t\tif raw, err := br.Read32(8); err != nil {\n", "\t\tif len(data) == 1<<12 {\n\t\t\treturn nil, ErrUnexpectedStartCode\n\t\t}\n\n\t\tif raw, err := br.Read32(8); err != nil {\n")],
 "demo": '''package video

import (
	"bytes"
	"encoding/hex"
	"testing"
)

func TestDemo(t *testing.T) {
	b, err := hex.DecodeString("000001b30100101300fa2000000001b5148a00010000000001b8000000400000010000480000000001b58ffff340800000010133f8380c2d76bb5df99df9f40000010000180003b8000001b582222340800000010133f8c005313626c0000001b7")
	if err != nil {
		t.Fatal(err)
	}
	i := bytes.Index(b, []byte{0, 0, 1, 0xb8})
	b = append(append(append([]byte{}, b[:i]...), append([]byte{0, 0, 1, 0xb2}, bytes.Repeat([]byte{0x55}, 5000)...)...), b[i:]...)
	v := NewVideoSequence(bytes.NewReader(b))
	if err := v.AlignTo(SequenceHeaderStartCode); err != nil {
		t.Fatal(err)
	}
	n := 0
	for ; n < 10; n++ {
		if _, err = v.Next(); err != nil {
			break
		}
	}
	if n == 0 || err != EOS {
		t.Fatalf("%d frames, then %v", n, err)
	}
}
'''})
BUGS.append({"id": "x02-sixteen-slots", "property": "X02", "pkg": "video",
 "needs": "seventeen or more video sequences with a slice under way at the same time",
 "what": "the DC predictors of a slice come from sixteen shared slots, so a seventeenth decoder uses those of the first",
 "edits": [("video/slice.go", "import \"errors\"\nimport \"image\"\n", "import \"errors\"\nimport \"image\"\nimport \"sync/atomic\"\n\n// predictors of the slices under way\nvar predictors [16]dcDctPredictors\nvar turn uint32\n"),
           ("video/slice.go", "\tvar dcp dcDctPredictors\n", "\tdcp := &predictors[atomic.AddUint32(&turn, 1)%16]\n"), ("video/slice.go", "\t\t\t&dcp, resetDcPredictors,\n", "\t\t\tdcp, resetDcPredictors,\n")],
 "demo": '''package video

import (
	"bytes"
	"encoding/hex"
	"io"
	"testing"
)

// every picture of a row of macroblocks is read in lockstep by n decoders
type turns struct {
	b    []byte
	turn chan bool
	back chan bool
}

func (s *turns) Read(p []byte) (int, error) {
	s.back <- true
	<-s.turn
	if len(s.b) == 0 {
		return 0, io.EOF
	}
	p[0], s.b = s.b[0], s.b[1:]
	return 1, nil
}

func frames(r io.Reader) (out []byte) {
	v := NewVideoSequence(r)
	for {
		f, err := v.Next()
		if err != nil {
			return
		}
		out = append(append(append(out, f.Y...), f.Cb...), f.Cr...)
	}
}

func TestDemo(t *testing.T) {
	b, err := hex.DecodeString("000001b30200201300fa2000000001b5148a00010000000001b8000000400000010000080000000001b58ffff340800000010123ef92b1574ca2692ad25130027bc912b9571140302afb725144abf9200e80a06df53003ec066ed00d8a01c5c701b161b7c6014e013de30054030009e00000010223c8198027bc095c95584a26157dd494015019bf3901316066f5094037009efc4001d14013dd001300c00536e250054559004c59551403702d79e5312a000001b7")
	if err != nil {
		t.Fatal(err)
	}
	want := frames(bytes.NewReader(b))
	if len(want) == 0 {
		t.Fatal("no frames")
	}
	const n = 17
	var all [n]*turns
	var out [n]chan []byte
	for i := range all {
		all[i] = &turns{b: append([]byte{}, b...), turn: make(chan bool), back: make(chan bool)}
		out[i] = make(chan []byte, 1)
		go func(i int) {
			o := frames(all[i])
			out[i] <- o
			close(all[i].back)
		}(i)
	}
	for left := n; left > 0; {
		left = 0
		for i := range all {
			if _, ok := <-all[i].back; ok {
				left++
				all[i].turn <- true
			}
		}
	}
	for i := range all {
		if !bytes.Equal(<-out[i], want) {
			t.Fatal(i)
		}
	}
}
'''})
