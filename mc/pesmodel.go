package mc

import (
	"bytes"
	"fmt"

	"github.com/32bitkid/mpeg/pes"
)

// Reference reading of a PES packet by byte offsets (ISO/IEC 13818-1, 2.4.3.6).

type refPES struct {
	id, length uint64
	hdr        bool
	flags1     byte
	flags2     byte
	hdl        int
	pts, dts   uint64
	ext        bool
	extFlags   byte
	private    []byte
	pstd       bool
	scale      uint64
	size       uint64
	payload    []byte
	consumed   int
}

type pesClass int

const (
	pesGood      pesClass = iota
	pesBad                // must be reported as an error
	pesCut                // the input ends inside of the packet
	pesNoStart            // no start code prefix
	pesEnd                // the input ends before the start code prefix
	pesAmbiguous          // syntax the standard forbids, but which may be skipped
)

func pesHeadered(id byte) bool {
	switch id {
	case 0xbc, 0xbe, 0xbf, 0xf0, 0xf1, 0xff, 0xf2, 0xf8:
		return false
	}
	return true
}

func markerTS(b []byte, prefix byte) (uint64, bool) {
	if b[0]>>4 != prefix || b[0]&1 == 0 || b[2]&1 == 0 || b[4]&1 == 0 {
		return 0, false
	}
	return uint64(b[0]>>1&7)<<30 | uint64(b[1])<<22 | uint64(b[2]>>1)<<15 | uint64(b[3])<<7 | uint64(b[4]>>1), true
}

// readPES reads the packet at the start of b, which is all there is.
func readPES(b []byte) (r refPES, class pesClass) {
	if len(b) < 3 {
		return r, pesEnd
	}
	if b[0] != 0 || b[1] != 0 || b[2] != 1 {
		return r, pesNoStart
	}
	if len(b) < 6 {
		return r, pesCut
	}
	r.id = uint64(b[3])
	r.length = uint64(b[4])<<8 | uint64(b[5])
	end := 6 + int(r.length)
	if !pesHeadered(b[3]) {
		if len(b) < end {
			return r, pesCut
		}
		if b[3] != 0xbe {
			r.payload = b[6:end]
		}
		r.consumed = end
		return r, pesGood
	}
	r.hdr = true
	ambiguous := false
	// the header is parsed as far as the input goes
	need := func(n int) bool { return len(b) >= n }
	if !need(7) {
		return r, pesCut
	}
	if b[6]>>6 != 2 {
		return r, pesBad
	}
	if !need(9) {
		return r, pesCut
	}
	r.flags1, r.flags2, r.hdl = b[6], b[7], int(b[8])
	at := 9
	switch r.flags2 >> 6 {
	case 1:
		ambiguous = true
	case 2:
		if !need(at + 5) {
			return r, pesCut
		}
		var ok bool
		if r.pts, ok = markerTS(b[at:], 2); !ok {
			return r, pesBad
		}
		at += 5
	case 3:
		if !need(at + 10) {
			return r, pesCut
		}
		var ok, ok2 bool
		r.pts, ok = markerTS(b[at:], 3)
		r.dts, ok2 = markerTS(b[at+5:], 1)
		if !ok || !ok2 {
			return r, pesBad
		}
		at += 10
	}
	for _, f := range []struct{ bit, n int }{{0x20, 6}, {0x10, 3}, {0x08, 1}, {0x04, 1}, {0x02, 2}} {
		if int(r.flags2)&f.bit != 0 {
			at += f.n
		}
	}
	if !need(at) {
		return r, pesCut
	}
	if r.flags2&1 != 0 {
		if !need(at + 1) {
			return r, pesCut
		}
		r.ext = true
		r.extFlags = b[at] & 0xf1
		at++
		if r.extFlags&0x80 != 0 {
			if !need(at + 16) {
				return r, pesCut
			}
			r.private = b[at : at+16]
			at += 16
		}
		if r.extFlags&0x40 != 0 {
			if !need(at + 1) {
				return r, pesCut
			}
			at += 1 + int(b[at])
		}
		if r.extFlags&0x20 != 0 {
			at += 2
		}
		if !need(at) {
			return r, pesCut
		}
		if r.extFlags&0x10 != 0 {
			if !need(at + 2) {
				return r, pesCut
			}
			if b[at]>>6 != 1 {
				return r, pesBad
			}
			r.pstd = true
			r.scale = uint64(b[at] >> 5 & 1)
			r.size = uint64(b[at]&0x1f)<<8 | uint64(b[at+1])
			at += 2
		}
		if r.extFlags&0x01 != 0 {
			if !need(at + 1) {
				return r, pesCut
			}
			if b[at]&0x80 == 0 {
				ambiguous = true
			}
			at += 1 + int(b[at]&0x7f)
		}
		if !need(at) {
			return r, pesCut
		}
	}
	if at > 9+r.hdl {
		return r, pesBad
	}
	for ; at < 9+r.hdl; at++ {
		if !need(at + 1) {
			return r, pesCut
		}
		if b[at] != 0xff {
			return r, pesBad
		}
	}
	if r.length == 0 {
		r.payload = b[at:]
		r.consumed = len(b)
	} else {
		if at > end {
			return r, pesBad
		}
		if !need(end) {
			return r, pesCut
		}
		r.payload = b[at:end]
		r.consumed = end
	}
	if ambiguous {
		return r, pesAmbiguous
	}
	return r, pesGood
}

// diffPES compares; known is set if all that differs is the 33rd bit of a time stamp.
func diffPES(p *pes.Packet, r *refPES) (diff string, known string) {
	if uint64(p.StreamID) != r.id {
		return fmt.Sprintf("stream id is %#x, expected %#x", p.StreamID, r.id), ""
	}
	if uint64(p.PacketLength) != r.length {
		return fmt.Sprintf("packet length is %d, expected %d", p.PacketLength, r.length), ""
	}
	if (p.Header != nil) != r.hdr {
		return fmt.Sprintf("header present: %v, expected %v", p.Header != nil, r.hdr), ""
	}
	if h := p.Header; h != nil {
		f1 := byte(h.ScramblingControl)<<4 | byte(b2u(h.Priority))<<3 | byte(b2u(h.DataAlignmentIndicator))<<2 | byte(b2u(h.Copyright))<<1 | byte(b2u(h.OrignalOrCopy))
		if f1 != r.flags1&0x3f || h.ScramblingControl > 3 {
			return fmt.Sprintf("scrambling/priority/alignment/copyright/original are %06b, expected %06b", f1, r.flags1&0x3f), ""
		}
		f2 := byte(h.PtsDtsFlags)<<6 | byte(b2u(h.EscrFlag))<<5 | byte(b2u(h.EsRateFlag))<<4 | byte(b2u(h.DsmTrickModeFlag))<<3 |
			byte(b2u(h.AdditionalCopyInfoFlag))<<2 | byte(b2u(h.CrcFlag))<<1 | byte(b2u(h.ExtensionFlag))
		if f2 != r.flags2 || h.PtsDtsFlags > 3 {
			return fmt.Sprintf("flags are %08b, expected %08b", f2, r.flags2), ""
		}
		if int(h.HeaderDataLength) != r.hdl {
			return fmt.Sprintf("header data length is %d, expected %d", h.HeaderDataLength, r.hdl), ""
		}
		if (h.Extension != nil) != r.ext {
			return fmt.Sprintf("extension present: %v, expected %v", h.Extension != nil, r.ext), ""
		}
		if e := h.Extension; e != nil {
			ef := byte(b2u(e.PrivateDataFlag))<<7 | byte(b2u(e.PackHeaderFieldFlag))<<6 | byte(b2u(e.ProgramPacketSequenceCounterFlag))<<5 | byte(b2u(e.P_STD_BufferFlag))<<4 | byte(b2u(e.ExtensionFlag2))
			if ef != r.extFlags {
				return fmt.Sprintf("extension flags are %08b, expected %08b", ef, r.extFlags), ""
			}
			if !bytes.Equal(e.PrivateData, r.private) {
				return fmt.Sprintf("private data is %x, expected %x", e.PrivateData, r.private), ""
			}
			if (e.P_STD_Buffer != nil) != r.pstd {
				return fmt.Sprintf("P-STD buffer present: %v, expected %v", e.P_STD_Buffer != nil, r.pstd), ""
			}
			if r.pstd && (uint64(e.P_STD_Buffer.Scale) != r.scale || uint64(e.P_STD_Buffer.Size) != r.size) {
				return fmt.Sprintf("P-STD buffer is scale %d size %d, expected %d, %d", e.P_STD_Buffer.Scale, e.P_STD_Buffer.Size, r.scale, r.size), ""
			}
		}
		gp, gd := uint64(h.PresentationTimeStamp), uint64(h.DecodingTimeStamp)
		if gp != r.pts {
			if r.pts>>32 == 1 && gp == r.pts&0xffffffff {
				known = "pts-dts-33rd-bit"
			} else {
				return fmt.Sprintf("presentation time stamp is %d, expected %d", gp, r.pts), ""
			}
		}
		if gd != r.dts {
			if r.dts>>32 == 1 && gd == r.dts&0xffffffff {
				known = "pts-dts-33rd-bit"
			} else {
				return fmt.Sprintf("decoding time stamp is %d, expected %d", gd, r.dts), ""
			}
		}
	}
	if !bytes.Equal(p.Payload, r.payload) {
		return "payload: " + diffBytes(p.Payload, r.payload), ""
	}
	return "", known
}

// pesSpec builds PES packets.
type pesSpec struct {
	id       byte
	flags1   byte // low 6 bits
	flags2   byte
	extFlags byte
	phf      int // pack header field length
	ext2     int // second extension length
	stuffing int
	bg       byte // value bits
	pts, dts uint64
	payload  []byte
	unbound  bool
	noHeader bool
}

func putTS(w *BW, prefix, v uint64) {
	w.Put(prefix, 4).Put(v>>30, 3).Put(1, 1).Put(v>>15&0x7fff, 15).Put(1, 1).Put(v&0x7fff, 15).Put(1, 1)
}

func (s pesSpec) bytes() []byte {
	w := &BW{}
	w.Put(1, 24).Put(uint64(s.id), 8)
	if !pesHeadered(s.id) {
		w.Put(uint64(len(s.payload)), 16).Bytes(s.payload...)
		return w.b
	}
	h := &BW{}
	fill := func(n int) {
		for i := 0; i < n; i++ {
			h.Put(uint64(s.bg), 8)
		}
	}
	switch s.flags2 >> 6 {
	case 2:
		putTS(h, 2, s.pts)
	case 3:
		putTS(h, 3, s.pts)
		putTS(h, 1, s.dts)
	}
	for _, f := range []struct{ bit, n int }{{0x20, 6}, {0x10, 3}, {0x08, 1}, {0x04, 1}, {0x02, 2}} {
		if int(s.flags2)&f.bit != 0 {
			fill(f.n)
		}
	}
	if s.flags2&1 != 0 {
		h.Put(uint64(s.extFlags), 8)
		if s.extFlags&0x80 != 0 {
			for i := 0; i < 16; i++ {
				h.Put(uint64(s.bg)^uint64(i), 8)
			}
		}
		if s.extFlags&0x40 != 0 {
			h.Put(uint64(s.phf), 8)
			fill(s.phf)
		}
		if s.extFlags&0x20 != 0 {
			fill(2)
		}
		if s.extFlags&0x10 != 0 {
			h.Put(1, 2).Put(uint64(s.bg), 6).Put(uint64(s.bg), 8)
		}
		if s.extFlags&0x01 != 0 {
			h.Put(1, 1).Put(uint64(s.ext2), 7)
			fill(s.ext2)
		}
	}
	for i := 0; i < s.stuffing; i++ {
		h.Put(0xff, 8)
	}
	n := 3 + len(h.b) + len(s.payload)
	if s.unbound {
		n = 0
	}
	w.Put(uint64(n), 16).Put(2, 2).Put(uint64(s.flags1), 6).Put(uint64(s.flags2), 8).Put(uint64(len(h.b)), 8)
	w.Bytes(h.b...).Bytes(s.payload...)
	return w.b
}

func (s pesSpec) headerLen() int {
	p := s
	p.payload = nil
	return len(p.bytes()) - 9
}
