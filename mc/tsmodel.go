package mc

import (
	"bytes"
	"fmt"

	"github.com/32bitkid/mpeg/ts"
)

// Reference reading of one transport packet, by bit offsets (ISO/IEC 13818-1, 2.4.3).

type refExt struct {
	ltw, piecewise, seamless bool
	ltwValid                 bool
	ltwOffset                uint64
	rate                     uint64
	spliceType               uint64
	dts                      uint64
}

type refAF struct {
	flags     byte
	pcr, opcr uint64
	splice    uint64
	private   bool
	ext       *refExt
}

type refPacket struct {
	tei, pusi, prio bool
	pid, tsc, afc   uint64
	cc              uint64
	af              *refAF
	payload         []byte
}

type tsClass int

const (
	tsGood    tsClass = iota // well-formed
	tsBadLen                 // a length does not fit its enclosing structure
	tsLenient                // flags ask for more than the length has room for
)

// refTS reads the 188 bytes of b.
func refTS(b []byte) (refPacket, tsClass) {
	p := refPacket{
		tei: b[1]&0x80 != 0, pusi: b[1]&0x40 != 0, prio: b[1]&0x20 != 0,
		pid: uint64(b[1]&0x1f)<<8 | uint64(b[2]),
		tsc: uint64(b[3] >> 6), afc: uint64(b[3] >> 4 & 3), cc: uint64(b[3] & 15),
	}
	at := 4
	if p.afc&2 != 0 {
		l := int(b[4])
		if l > 183 {
			return p, tsBadLen
		}
		af := &refAF{}
		p.af = af
		end := 5 + l
		at = 5
		if l > 0 {
			af.flags = b[5]
			at = 6
			if af.flags&0x10 != 0 {
				if at+6 > end {
					return p, tsLenient
				}
				af.pcr = bits(b, at*8, 33)*300 + bits(b, at*8+39, 9)
				at += 6
			}
			if af.flags&0x08 != 0 {
				if at+6 > end {
					return p, tsLenient
				}
				af.opcr = bits(b, at*8, 33)*300 + bits(b, at*8+39, 9)
				at += 6
			}
			if af.flags&0x04 != 0 {
				if at+1 > end {
					return p, tsLenient
				}
				af.splice = uint64(b[at])
				at++
			}
			if af.flags&0x02 != 0 {
				if at+1 > end {
					return p, tsLenient
				}
				n := int(b[at])
				if at+1+n > end {
					return p, tsBadLen
				}
				af.private = true
				at += 1 + n
			}
			if af.flags&0x01 != 0 {
				if at+1 > end {
					return p, tsLenient
				}
				n := int(b[at])
				if at+1+n > end {
					return p, tsBadLen
				}
				x := &refExt{}
				af.ext = x
				if n == 0 {
					return p, tsLenient
				}
				xe := at + 1 + n
				f := b[at+1]
				at += 2
				x.ltw, x.piecewise, x.seamless = f&0x80 != 0, f&0x40 != 0, f&0x20 != 0
				if x.ltw {
					if at+2 > xe {
						return p, tsLenient
					}
					x.ltwValid = b[at]&0x80 != 0
					x.ltwOffset = bits(b, at*8+1, 15)
					at += 2
				}
				if x.piecewise {
					if at+3 > xe {
						return p, tsLenient
					}
					x.rate = bits(b, at*8+2, 22)
					at += 3
				}
				if x.seamless {
					if at+5 > xe {
						return p, tsLenient
					}
					x.spliceType = bits(b, at*8, 4)
					x.dts = bits(b, at*8+4, 3)<<30 | bits(b, at*8+8, 15)<<15 | bits(b, at*8+24, 15)
					at += 5
				}
				at = xe
			}
		}
		at = end
	}
	if p.afc&1 != 0 {
		p.payload = b[at:188]
	}
	return p, tsGood
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

// diffTS compares a packet with the reference; it returns "" if they agree.
func diffTS(p *ts.Packet, r *refPacket) string {
	type f struct {
		name     string
		got, exp uint64
	}
	fs := [...]f{
		{"transport error indicator", b2u(p.TransportErrorIndicator), b2u(r.tei)},
		{"payload unit start indicator", b2u(p.PayloadUnitStartIndicator), b2u(r.pusi)},
		{"transport priority", b2u(p.TransportPriority), b2u(r.prio)},
		{"PID", uint64(p.PID), r.pid},
		{"scrambling control", uint64(p.TransportScramblingControl), r.tsc},
		{"adaptation field control", uint64(p.AdaptationFieldControl), r.afc},
		{"continuity counter", uint64(p.ContinuityCounter), r.cc},
	}
	for _, f := range fs {
		if f.got != f.exp {
			return fmt.Sprintf("%s is %d, expected %d", f.name, f.got, f.exp)
		}
	}
	if (p.AdaptationField != nil) != (r.af != nil) {
		return fmt.Sprintf("adaptation field present: %v, expected %v", p.AdaptationField != nil, r.af != nil)
	}
	if a := p.AdaptationField; a != nil {
		e := r.af
		var flags byte
		for i, v := range []bool{a.AdaptationFieldExtensionFlag, a.TransportPrivateDataFlag, a.SplicingPointFlag, a.OPCRFlag, a.PCRFlag,
			a.ElementaryStreamPriorityIndicator, a.RandomAccessIndicator, a.DiscontinuityIndicator} {
			if v {
				flags |= 1 << uint(i)
			}
		}
		if flags != e.flags {
			return fmt.Sprintf("adaptation flags are %08b, expected %08b", flags, e.flags)
		}
		if a.PCR != e.pcr {
			return fmt.Sprintf("PCR is %d, expected %d", a.PCR, e.pcr)
		}
		if a.OPCR != e.opcr {
			return fmt.Sprintf("OPCR is %d, expected %d", a.OPCR, e.opcr)
		}
		if uint64(a.SpliceCountdown) != e.splice {
			return fmt.Sprintf("splice countdown is %d, expected %d", a.SpliceCountdown, e.splice)
		}
		if (a.TransportPrivateData != nil) != e.private {
			return fmt.Sprintf("private data present: %v, expected %v", a.TransportPrivateData != nil, e.private)
		}
		if (a.AdapatationExtension != nil) != (e.ext != nil) {
			return fmt.Sprintf("adaptation extension present: %v, expected %v", a.AdapatationExtension != nil, e.ext != nil)
		}
		if x := a.AdapatationExtension; x != nil {
			y := e.ext
			fs := [...]f{
				{"LTW flag", b2u(x.LegalTimeWindowFlag), b2u(y.ltw)},
				{"piecewise rate flag", b2u(x.PiecewiseRateFlag), b2u(y.piecewise)},
				{"seamless splice flag", b2u(x.SeamlessSpliceFlag), b2u(y.seamless)},
				{"LTW valid flag", b2u(x.LTWValidFlag), b2u(y.ltwValid)},
				{"LTW offset", uint64(x.LTWOffset), y.ltwOffset},
				{"piecewise rate", uint64(x.PiecewiseRate), y.rate},
				{"splice type", uint64(x.SpliceType), y.spliceType},
				{"DTS next AU", x.DTSNextAU, y.dts},
			}
			for _, f := range fs {
				if f.got != f.exp {
					return fmt.Sprintf("extension %s is %d, expected %d", f.name, f.got, f.exp)
				}
			}
		}
	}
	if !bytes.Equal(p.Payload, r.payload) {
		return fmt.Sprintf("payload has %d bytes %.40x, expected %d bytes %.40x", len(p.Payload), p.Payload, len(r.payload), r.payload)
	}
	return ""
}

// hashRef is the state hash of a reference packet (payload by length).
func hashRef(r *refPacket) uint64 {
	h := HashInts(b2u(r.tei)|b2u(r.pusi)<<1|b2u(r.prio)<<2, r.pid, r.tsc, r.afc, r.cc, uint64(len(r.payload)), b2u(r.af != nil))
	if r.af != nil {
		h = mix(h, HashInts(uint64(r.af.flags), r.af.pcr, r.af.opcr, r.af.splice))
		if x := r.af.ext; x != nil {
			h = mix(h, HashInts(b2u(x.ltw)|b2u(x.piecewise)<<1|b2u(x.seamless)<<2|b2u(x.ltwValid)<<3, x.ltwOffset, x.rate, x.spliceType, x.dts))
		}
	}
	return h
}

// tsPacket builds packets. afLen < 0 means as long as its content, or all of the room
// if there is no payload.
type tsPacket struct {
	pid     int
	start   bool
	afc     int
	cc      int
	af      []byte // adaptation field after its length byte
	afLen   int
	payload []byte // must fit
	fill    byte   // fills what is left
	marks   int    // error indicator (4), priority (8) and scrambling (bits 0-1)
}

// bytes encodes the packet; the payload is what remains, so afLen is chosen to fit the
// payload exactly when afc has bit 1.
func (t tsPacket) bytes() []byte {
	b := make([]byte, 0, 188)
	b1 := byte(t.pid >> 8 & 0x1f)
	if t.start {
		b1 |= 0x40
	}
	b1 |= byte(t.marks&4<<5 | t.marks&8<<2)
	b = append(b, 0x47, b1, byte(t.pid), byte(t.marks&3<<6|t.afc<<4|t.cc&15))
	if t.afc&2 != 0 {
		l := t.afLen
		if l < 0 {
			l = 183
			if t.afc&1 != 0 {
				l = 183 - len(t.payload)
			}
		}
		b = append(b, byte(l))
		n := len(b)
		b = append(b, t.af...)
		if l > 0 && len(t.af) == 0 {
			b = append(b, 0)
		}
		for len(b) < n+l {
			b = append(b, 0xff)
		}
	}
	if t.afc&1 != 0 {
		b = append(b, t.payload...)
	}
	for len(b) < 188 {
		b = append(b, t.fill)
	}
	if len(b) != 188 {
		panic(fmt.Sprintf("harness: packet of %d bytes", len(b)))
	}
	return b
}

// carry packs payload bytes into one packet, using adaptation stuffing if it is short.
func carry(pid int, start bool, cc int, payload []byte) []byte {
	t := tsPacket{pid: pid, start: start, cc: cc, payload: payload, afc: 1, afLen: -1}
	if len(payload) < 184 {
		t.afc = 3
	}
	return t.bytes()
}

// pattern returns n bytes that identify their position, seeded.
func pattern(seed, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		v := uint32(i)*2654435761 + uint32(seed)*40503 + 12345
		v ^= v >> 13
		b[i] = byte(v>>8 ^ v)
	}
	return b
}
