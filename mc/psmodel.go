package mc

import (
	"fmt"

	"github.com/32bitkid/mpeg/ps"
)

type psStream struct {
	id    byte
	scale int
	size  int
}

type sysHeader struct {
	rate, audio, video             int
	fixed, csps, alock, vlock, prr int
	reserved                       int
	streams                        []psStream
}

type packSpec struct {
	scr, ext uint64
	rate     uint64
	reserved uint64
	stuffing []byte
	sys      *sysHeader
}

func (s packSpec) bytes() []byte {
	w := &BW{}
	w.Put(0x1ba, 32).Put(1, 2).Put(s.scr>>30, 3).Put(1, 1).Put(s.scr>>15&0x7fff, 15).Put(1, 1).Put(s.scr&0x7fff, 15).Put(1, 1)
	w.Put(s.ext, 9).Put(1, 1).Put(s.rate, 22).Put(3, 2).Put(s.reserved, 5).Put(uint64(len(s.stuffing)), 3).Bytes(s.stuffing...)
	if h := s.sys; h != nil {
		w.Put(0x1bb, 32).Put(uint64(6+3*len(h.streams)), 16).Put(1, 1).Put(uint64(h.rate), 22).Put(1, 1).Put(uint64(h.audio), 6)
		w.Put(uint64(h.fixed), 1).Put(uint64(h.csps), 1).Put(uint64(h.alock), 1).Put(uint64(h.vlock), 1).Put(1, 1)
		w.Put(uint64(h.video), 5).Put(uint64(h.prr), 1).Put(uint64(h.reserved), 7)
		for _, t := range h.streams {
			w.Put(uint64(t.id), 8).Put(3, 2).Put(uint64(t.scale), 1).Put(uint64(t.size), 13)
		}
	}
	return w.b
}

// markers are the bit offsets of the pack header's marker bits and fixed '01'.
func (s packSpec) markers() []int {
	m := []int{32, 33, 37, 53, 69, 79, 102, 103}
	if s.sys != nil {
		at := (14 + len(s.stuffing)) * 8
		m = append(m, at+48, at+71, at+48+1+22+1+6+4)
		for i := range s.sys.streams {
			m = append(m, at+96+i*24+8, at+96+i*24+9)
		}
	}
	return m
}

func diffPack(h *ps.PackHeader, s packSpec) (diff, known string) {
	if h == nil {
		return "the pack header is missing", ""
	}
	if uint64(h.SystemClockReferenceBase) != s.scr {
		if s.scr>>32 == 1 && uint64(h.SystemClockReferenceBase) == s.scr&0xffffffff {
			known = "scr-33rd-bit"
		} else {
			return fmt.Sprintf("clock reference base is %d, expected %d", h.SystemClockReferenceBase, s.scr), ""
		}
	}
	if uint64(h.SystemClockReferenceExtension) != s.ext {
		return fmt.Sprintf("clock reference extension is %d, expected %d", h.SystemClockReferenceExtension, s.ext), ""
	}
	if uint64(h.ProgramMuxRate) != s.rate {
		return fmt.Sprintf("mux rate is %d, expected %d", h.ProgramMuxRate, s.rate), ""
	}
	if (h.SystemHeader != nil) != (s.sys != nil) {
		return fmt.Sprintf("system header present: %v, expected %v", h.SystemHeader != nil, s.sys != nil), ""
	}
	if y := h.SystemHeader; y != nil {
		e := s.sys
		fs := [...]struct {
			name     string
			got, exp uint64
		}{
			{"header length", uint64(y.HeaderLength), uint64(6 + 3*len(e.streams))},
			{"rate bound", uint64(y.RateBound), uint64(e.rate)},
			{"audio bound", uint64(y.AudioBound), uint64(e.audio)},
			{"video bound", uint64(y.VideoBound), uint64(e.video)},
			{"fixed flag", b2u(y.Fixed), uint64(e.fixed)},
			{"CSPS flag", b2u(y.CSPS), uint64(e.csps)},
			{"audio lock flag", b2u(y.SystemAudioLock), uint64(e.alock)},
			{"video lock flag", b2u(y.SystemVideoLock), uint64(e.vlock)},
			{"packet rate restriction flag", b2u(y.PacketRateRestriction), uint64(e.prr)},
			{"number of streams", uint64(len(y.Streams)), uint64(len(e.streams))},
		}
		for _, f := range fs {
			if f.got != f.exp {
				return fmt.Sprintf("system header %s is %d, expected %d", f.name, f.got, f.exp), ""
			}
		}
		for i, t := range y.Streams {
			x := e.streams[i]
			if t == nil || t.StreamID != uint32(x.id) || b2u(t.P_STD_BufferBoundScale) != uint64(x.scale) || t.P_STD_BufferSizeBound != uint32(x.size) {
				return fmt.Sprintf("system header stream %d is %+v, expected %+v", i, t, x), ""
			}
		}
	}
	return "", known
}

// readPack reads a pack header at the start of b: bytes consumed, or a class other
// than good.
func readPackRef(b []byte) (int, pesClass) {
	if len(b) < 14 {
		return 0, pesCut // or bad: an error either way
	}
	if bits(b, 32, 2) != 1 || bits(b, 37, 1) != 1 || bits(b, 53, 1) != 1 || bits(b, 69, 1) != 1 || bits(b, 79, 1) != 1 || bits(b, 102, 2) != 3 {
		return 0, pesBad
	}
	at := 14 + int(b[13]&7)
	if len(b) < at+4 {
		return 0, pesCut
	}
	if bits(b, at*8, 32) != 0x1bb {
		return at, pesGood
	}
	if len(b) < at+12 {
		return 0, pesCut
	}
	n := int(bits(b, at*8+32, 16))
	if bits(b, at*8+48, 1) != 1 || bits(b, at*8+71, 1) != 1 || bits(b, at*8+82, 1) != 1 {
		return 0, pesBad
	}
	start := at + 6
	at += 12
	for {
		if len(b) <= at {
			return 0, pesCut
		}
		if b[at]&0x80 == 0 {
			break
		}
		if len(b) < at+3 {
			return 0, pesCut
		}
		if b[at+1]>>6 != 3 {
			return 0, pesBad
		}
		at += 3
	}
	if at-start != n {
		return at, pesAmbiguous
	}
	return at, pesGood
}

// readPS walks a program stream: the payloads of its packets in order and how it ends:
// good means with the program end code.
func readPS(b []byte) (payload []byte, class pesClass) {
	for {
		if len(b) < 4 {
			return payload, pesCut
		}
		switch c := bits(b, 0, 32); {
		case c == 0x1b9:
			return payload, pesGood
		case c == 0x1ba:
			n, cl := readPackRef(b)
			if cl != pesGood {
				return payload, cl
			}
			b = b[n:]
		case c == 0x1bb || c>>8 == 1 && c&0xff < 0xbc:
			return payload, pesAmbiguous // no packet of a program stream
		default:
			r, cl := readPES(b)
			if cl == pesGood && r.hdr && r.length == 0 {
				return payload, pesAmbiguous // not allowed in a program stream
			}
			if cl != pesGood {
				return payload, cl
			}
			payload = append(payload, r.payload...)
			b = b[r.consumed:]
		}
	}
}
