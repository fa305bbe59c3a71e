package mc

import (
	"bytes"
	"fmt"
	"io"

	"github.com/32bitkid/bitreader"
)

// ---------------------------------------------------------------- bits

// BW writes bit fields most significant bit first.
type BW struct {
	b []byte
	n int // bits written
}

func (w *BW) Put(v uint64, n int) *BW {
	for i := n - 1; i >= 0; i-- {
		if w.n%8 == 0 {
			w.b = append(w.b, 0)
		}
		if v>>uint(i)&1 == 1 {
			w.b[w.n/8] |= 0x80 >> uint(w.n%8)
		}
		w.n++
	}
	return w
}

func (w *BW) Bytes(b ...byte) *BW {
	if w.n%8 == 0 {
		w.b = append(w.b, b...)
		w.n += 8 * len(b)
		return w
	}
	for _, c := range b {
		w.Put(uint64(c), 8)
	}
	return w
}

// Align pads with zero bits to a byte boundary.
func (w *BW) Align() *BW {
	w.n = len(w.b) * 8
	return w
}

// bits extracts n bits at bit offset off.
func bits(b []byte, off, n int) (v uint64) {
	for i := 0; i < n; i++ {
		v = v<<1 | uint64(b[(off+i)/8]>>(7-uint(off+i)%8)&1)
	}
	return
}

// ---------------------------------------------------------------- sources

// source is an io.Reader under the control of the explorer.
type source struct {
	data  []byte
	chunk int   // bytes per read, 0 for as many as asked for
	first int   // bytes of the first read, 0 for the default
	end   error // reported, alone, once the data is used up; io.EOF if nil
	// cuts are offsets at which a read ends early
	cuts []int

	pos   int
	reads int
	ends  int
}

const maxEnds = 20000

func (s *source) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if s.pos >= len(s.data) {
		s.ends++
		if s.ends > maxEnds {
			panic(fmt.Sprintf("livelock: the source was read %d times after it reported its end", s.ends))
		}
		if s.end != nil {
			return 0, s.end
		}
		return 0, io.EOF
	}
	n := len(p)
	if s.chunk > 0 && n > s.chunk {
		n = s.chunk
	}
	if s.reads == 0 && s.first > 0 && n > s.first {
		n = s.first
	}
	for _, c := range s.cuts {
		if c > s.pos && c < s.pos+n {
			n = c - s.pos
		}
	}
	s.reads++
	n = copy(p[:n], s.data[s.pos:])
	s.pos += n
	return n, nil
}

// callerBuf is the one buffer that a caller uses for all of its reads: it lies in the middle of
// other data, and is overwritten as soon as a read has been dealt with.
type callerBuf struct{ b []byte }

const guardSize = 16

// get is a buffer for n bytes.
func (c *callerBuf) get(n int) []byte {
	if len(c.b) < n+2*guardSize {
		c.b = bytes.Repeat([]byte{0xee}, n+2*guardSize)
	}
	return c.b[guardSize : guardSize+n]
}

// done gives the buffer back and tells whether its surroundings are as they were.
func (c *callerBuf) done(n int) bool {
	for i := range c.b[guardSize : guardSize+n] {
		c.b[guardSize+i] = 0xee
	}
	for _, g := range [2][]byte{c.b[:guardSize], c.b[guardSize+n : 2*guardSize+n]} {
		for _, v := range g {
			if v != 0xee {
				return false
			}
		}
	}
	return true
}

func newBR(b []byte) bitreader.BitReader {
	return bitreader.NewReader(&source{data: b})
}

// rest drains a bit reader and returns what was not consumed.
func rest(br bitreader.BitReader) []byte {
	var out []byte
	for {
		v, err := br.Read32(8)
		if err != nil {
			return out
		}
		out = append(out, byte(v))
	}
}

func errName(err error) string {
	if err == nil {
		return "nil"
	}
	return err.Error()
}

// errEnd is an error of a source other than the end of file.
type srcError struct{ s string }

func (e *srcError) Error() string { return e.s }

var errSource = &srcError{"injected source error"}

// HashStr hashes a name.
func HashStr(s string) uint64 { return HashBytes(14695981039346656037, []byte(s)) }
