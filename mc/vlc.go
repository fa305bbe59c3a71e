package mc

import (
	"fmt"
	"math"
)

// Code tables of ISO/IEC 13818-2 annex B, written independently of the ones under test
// and validated by selfTestVideo (prefix freeness, completeness sums, a double precision DCT).

type vcode struct {
	v uint64
	n int
}

type runLevel struct{ run, level int }

// coefficient codes without their sign bit, by run and then level
func coefTable(runs [][]vcode) map[runLevel]vcode {
	m := map[runLevel]vcode{}
	for r, l := range runs {
		for i, c := range l {
			m[runLevel{r, i + 1}] = c
		}
	}
	return m
}

func seqDown(from uint64, n, count int) (out []vcode) {
	for i := 0; i < count; i++ {
		out = append(out, vcode{from - uint64(i), n})
	}
	return
}

func cat(ls ...[]vcode) (out []vcode) {
	for _, l := range ls {
		out = append(out, l...)
	}
	return
}

var (
	run0tail = cat(seqDown(0x1f, 14, 16), seqDown(0x18, 15, 9))
	run1tail = cat([]vcode{{0x16, 13}, {0x15, 13}}, seqDown(0x1f, 15, 7), seqDown(0x13, 16, 4))
)

var tableB14 = coefTable(append([][]vcode{
	cat([]vcode{{3, 2}, {4, 4}, {5, 5}, {6, 7}, {0x26, 8}, {0x21, 8}, {0xa, 10}, {0x1d, 12}, {0x18, 12}, {0x13, 12}, {0x10, 12}, {0x1a, 13}, {0x19, 13}, {0x18, 13}, {0x17, 13}}, run0tail),
	cat([]vcode{{3, 3}, {6, 6}, {0x25, 8}, {0xc, 10}, {0x1b, 12}}, run1tail),
	{{5, 4}, {4, 7}, {0xb, 10}, {0x14, 12}, {0x14, 13}},
	{{7, 5}, {0x24, 8}, {0x1c, 12}, {0x13, 13}},
	{{6, 5}, {0xf, 10}, {0x12, 12}},
	{{7, 6}, {9, 10}, {0x12, 13}},
	{{5, 6}, {0x1e, 12}, {0x14, 16}},
	{{4, 6}, {0x15, 12}},
	{{7, 7}, {0x11, 12}},
	{{5, 7}, {0x11, 13}},
	{{0x27, 8}, {0x10, 13}},
	{{0x23, 8}, {0x1a, 16}},
	{{0x22, 8}, {0x19, 16}},
	{{0x20, 8}, {0x18, 16}},
	{{0xe, 10}, {0x17, 16}},
	{{0xd, 10}, {0x16, 16}},
	{{0x8, 10}, {0x15, 16}},
}, longRuns()...))

func longRuns() (out [][]vcode) {
	for _, c := range cat([]vcode{{0x1f, 12}, {0x1a, 12}, {0x19, 12}, {0x17, 12}, {0x16, 12}}, seqDown(0x1f, 13, 5), seqDown(0x1f, 16, 5)) {
		out = append(out, []vcode{c})
	}
	return
}

var tableB15 = coefTable(append([][]vcode{
	cat([]vcode{{2, 2}, {6, 3}, {7, 4}, {0x1c, 5}, {0x1d, 5}, {5, 6}, {4, 6}, {0x7b, 7}, {0x7c, 7}, {0x23, 8}, {0x22, 8}, {0xfa, 8}, {0xfb, 8}, {0xfe, 8}, {0xff, 8}}, run0tail),
	cat([]vcode{{2, 3}, {6, 5}, {0x79, 7}, {0x27, 8}, {0x20, 8}}, run1tail),
	{{5, 5}, {7, 7}, {0xfc, 8}, {0xc, 10}, {0x14, 13}},
	{{7, 5}, {0x26, 8}, {0x1c, 12}, {0x13, 13}},
	{{6, 6}, {0xfd, 8}, {0x12, 12}},
	{{7, 6}, {4, 9}, {0x12, 13}},
	{{6, 7}, {0x1e, 12}, {0x14, 16}},
	{{4, 7}, {0x15, 12}},
	{{5, 7}, {0x11, 12}},
	{{0x78, 7}, {0x11, 13}},
	{{0x7a, 7}, {0x10, 13}},
	{{0x21, 8}, {0x1a, 16}},
	{{0x25, 8}, {0x19, 16}},
	{{0x24, 8}, {0x18, 16}},
	{{5, 9}, {0x17, 16}},
	{{7, 9}, {0x16, 16}},
	{{0xd, 10}, {0x15, 16}},
}, longRuns()...))

var (
	codeEscape = vcode{1, 6}
	codeEOB14  = vcode{2, 2}
	codeEOB15  = vcode{6, 4}
)

// macroblock_address_increment 1..33
var tableB1 = cat([]vcode{{1, 1}, {3, 3}, {2, 3}, {3, 4}, {2, 4}, {3, 5}, {2, 5}, {7, 7}, {6, 7}},
	seqDown(0xb, 8, 6), seqDown(0x17, 10, 6), seqDown(0x23, 11, 12))

var codeAddrEscape = vcode{8, 11}

// motion codes 0..16 without sign
var tableB10 = []vcode{{1, 1}, {1, 2}, {1, 3}, {1, 4}, {3, 6}, {5, 7}, {4, 7}, {3, 7}, {0xb, 9}, {0xa, 9}, {9, 9},
	{0x11, 10}, {0x10, 10}, {0xf, 10}, {0xe, 10}, {0xd, 10}, {0xc, 10}}

// coded_block_pattern 0..63
var tableB9 = []vcode{{1, 9}, {0xb, 5}, {9, 5}, {0xd, 6}, {0xd, 4}, {0x17, 7}, {0x13, 7}, {0x1f, 8},
	{0xc, 4}, {0x16, 7}, {0x12, 7}, {0x1e, 8}, {0x13, 5}, {0x1b, 8}, {0x17, 8}, {0x13, 8},
	{0xb, 4}, {0x15, 7}, {0x11, 7}, {0x1d, 8}, {0x11, 5}, {0x19, 8}, {0x15, 8}, {0x11, 8},
	{0xf, 6}, {0xf, 8}, {0xd, 8}, {3, 9}, {0xf, 5}, {0xb, 8}, {7, 8}, {7, 9},
	{0xa, 4}, {0x14, 7}, {0x10, 7}, {0x1c, 8}, {0xe, 6}, {0xe, 8}, {0xc, 8}, {2, 9},
	{0x10, 5}, {0x18, 8}, {0x14, 8}, {0x10, 8}, {0xe, 5}, {0xa, 8}, {6, 8}, {6, 9},
	{0x12, 5}, {0x1a, 8}, {0x16, 8}, {0x12, 8}, {0xd, 5}, {9, 8}, {5, 8}, {5, 9},
	{0xc, 5}, {8, 8}, {4, 8}, {4, 9}, {7, 3}, {0xa, 5}, {8, 5}, {0xc, 6}}

var tableB12 = []vcode{{4, 3}, {0, 2}, {1, 2}, {5, 3}, {6, 3}, {0xe, 4}, {0x1e, 5}, {0x3e, 6}, {0x7e, 7}, {0xfe, 8}, {0x1fe, 9}, {0x1ff, 9}}
var tableB13 = []vcode{{0, 2}, {1, 2}, {2, 2}, {6, 3}, {0xe, 4}, {0x1e, 5}, {0x3e, 6}, {0x7e, 7}, {0xfe, 8}, {0x1fe, 9}, {0x3fe, 10}, {0x3ff, 10}}

// macroblock types: quant, forward, backward, pattern, intra
type mbType struct {
	quant, fwd, bwd, pattern, intra bool
	fmv                             bool // field vectors; has no part in the code
}

var tableMB = [4]map[mbType]vcode{
	1: {{intra: true}: {1, 1}, {quant: true, intra: true}: {1, 2}},
	2: {
		{fwd: true, pattern: true}:              {1, 1},
		{pattern: true}:                         {1, 2},
		{fwd: true}:                             {1, 3},
		{intra: true}:                           {3, 5},
		{quant: true, fwd: true, pattern: true}: {2, 5},
		{quant: true, pattern: true}:            {1, 5},
		{quant: true, intra: true}:              {1, 6},
	},
	3: {
		{fwd: true, bwd: true}:                {2, 2},
		{fwd: true, bwd: true, pattern: true}: {3, 2},
		{bwd: true}:                           {2, 3},
		{bwd: true, pattern: true}:            {3, 3},
		{fwd: true}:                           {2, 4},
		{fwd: true, pattern: true}:            {3, 4},
		{intra: true}:                         {3, 5},
		{quant: true, fwd: true, bwd: true, pattern: true}: {2, 5},
		{quant: true, fwd: true, pattern: true}:            {3, 6},
		{quant: true, bwd: true, pattern: true}:            {2, 6},
		{quant: true, intra: true}:                         {1, 6},
	},
}

// zigzag and alternate scans: raster position of the n-th transmitted coefficient
var scans = [2][64]int{makeZigzag(), {
	0, 8, 16, 24, 1, 9, 2, 10, 17, 25, 32, 40, 48, 56, 57, 49,
	41, 33, 26, 18, 3, 11, 4, 12, 19, 27, 34, 42, 50, 58, 35, 43,
	51, 59, 20, 28, 5, 13, 6, 14, 21, 29, 36, 44, 52, 60, 37, 45,
	53, 61, 22, 30, 7, 15, 23, 31, 38, 46, 54, 62, 39, 47, 55, 63,
}}

func makeZigzag() (z [64]int) {
	n := 0
	for d := 0; d < 15; d++ {
		for i := 0; i <= d; i++ {
			y, x := i, d-i // going down
			if d%2 == 0 {
				y, x = d-i, i // going up
			}
			if x < 8 && y < 8 {
				z[n] = y*8 + x
				n++
			}
		}
	}
	return
}

func quantScale(qtype, code int) int {
	if qtype == 0 {
		return 2 * code
	}
	switch {
	case code <= 8:
		return code
	case code <= 16:
		return 8 + 2*(code-8)
	case code <= 24:
		return 24 + 4*(code-16)
	}
	return 56 + 8*(code-24)
}

var defaultIntraQ = [64]int{
	8, 16, 19, 22, 26, 27, 29, 34,
	16, 16, 22, 24, 27, 29, 34, 37,
	19, 22, 26, 27, 29, 34, 34, 38,
	22, 22, 26, 27, 29, 34, 37, 40,
	22, 26, 27, 29, 32, 35, 40, 48,
	26, 27, 29, 32, 35, 40, 48, 58,
	26, 27, 29, 34, 38, 46, 56, 69,
	27, 29, 35, 38, 46, 56, 69, 83,
}

func flatQ(v int) (q [64]int) {
	for i := range q {
		q[i] = v
	}
	return
}

// idctRef is the integer transform of the standard's reference decoder.
func idctRef(b *[64]int32) {
	const w1, w2, w3, w5, w6, w7 = 2841, 2676, 2408, 1609, 1108, 565
	for r := 0; r < 64; r += 8 {
		s := b[r : r+8]
		x1, x2, x3, x4, x5, x6, x7 := s[4]<<11, s[6], s[2], s[1], s[7], s[5], s[3]
		if x1|x2|x3|x4|x5|x6|x7 == 0 {
			d := s[0] << 3
			for i := range s {
				s[i] = d
			}
			continue
		}
		x0 := s[0]<<11 + 128
		x8 := w7 * (x4 + x5)
		x4, x5 = x8+(w1-w7)*x4, x8-(w1+w7)*x5
		x8 = w3 * (x6 + x7)
		x6, x7 = x8-(w3-w5)*x6, x8-(w3+w5)*x7
		x8 = x0 + x1
		x0 -= x1
		x1 = w6 * (x3 + x2)
		x2, x3 = x1-(w2+w6)*x2, x1+(w2-w6)*x3
		x1 = x4 + x6
		x4 -= x6
		x6 = x5 + x7
		x5 -= x7
		x7 = x8 + x3
		x8 -= x3
		x3 = x0 + x2
		x0 -= x2
		x2, x4 = (181*(x4+x5)+128)>>8, (181*(x4-x5)+128)>>8
		s[0], s[7] = (x7+x1)>>8, (x7-x1)>>8
		s[1], s[6] = (x3+x2)>>8, (x3-x2)>>8
		s[2], s[5] = (x0+x4)>>8, (x0-x4)>>8
		s[3], s[4] = (x8+x6)>>8, (x8-x6)>>8
	}
	for c := 0; c < 8; c++ {
		x0, x1, x2, x3 := b[c]<<8+8192, b[32+c]<<8, b[48+c], b[16+c]
		x4, x5, x6, x7 := b[8+c], b[56+c], b[40+c], b[24+c]
		x8 := w7*(x4+x5) + 4
		x4, x5 = (x8+(w1-w7)*x4)>>3, (x8-(w1+w7)*x5)>>3
		x8 = w3*(x6+x7) + 4
		x6, x7 = (x8-(w3-w5)*x6)>>3, (x8-(w3+w5)*x7)>>3
		x8 = x0 + x1
		x0 -= x1
		x1 = w6*(x3+x2) + 4
		x2, x3 = (x1-(w2+w6)*x2)>>3, (x1+(w2-w6)*x3)>>3
		x1 = x4 + x6
		x4 -= x6
		x6 = x5 + x7
		x5 -= x7
		x7 = x8 + x3
		x8 -= x3
		x3 = x0 + x2
		x0 -= x2
		x2, x4 = (181*(x4+x5)+128)>>8, (181*(x4-x5)+128)>>8
		b[c], b[56+c] = (x7+x1)>>14, (x7-x1)>>14
		b[8+c], b[48+c] = (x3+x2)>>14, (x3-x2)>>14
		b[16+c], b[40+c] = (x0+x4)>>14, (x0-x4)>>14
		b[24+c], b[32+c] = (x8+x6)>>14, (x8-x6)>>14
	}
}

func idctDouble(in *[64]int32) (out [64]float64) {
	c := func(u int) float64 {
		if u == 0 {
			return math.Sqrt(0.125)
		}
		return 0.5
	}
	for y := 0; y < 8; y++ {
		for x := 0; x < 8; x++ {
			var s float64
			for v := 0; v < 8; v++ {
				for u := 0; u < 8; u++ {
					if in[v*8+u] != 0 {
						s += c(u) * c(v) * float64(in[v*8+u]) * math.Cos(float64(2*x+1)*float64(u)*math.Pi/16) * math.Cos(float64(2*y+1)*float64(v)*math.Pi/16)
					}
				}
			}
			out[y*8+x] = s
		}
	}
	return
}

// prefixFree checks a code set and returns the Kraft sum in units of 2^-20.
func prefixFree(codes []vcode) (int, error) {
	sum := 0
	for i, a := range codes {
		sum += 1 << (20 - a.n)
		for j, b := range codes {
			if i != j && a.n <= b.n && b.v>>uint(b.n-a.n) == a.v {
				return 0, fmt.Errorf("code %b/%d is a prefix of %b/%d", a.v, a.n, b.v, b.n)
			}
		}
	}
	return sum, nil
}

func withSign(m map[runLevel]vcode) (out []vcode) {
	for _, c := range m {
		out = append(out, vcode{c.v << 1, c.n + 1}, vcode{c.v<<1 | 1, c.n + 1})
	}
	return
}

// invalidPrefixes lists the shortest bit strings that no code word starts with and that
// are not themselves extensions of a code word.
func invalidPrefixes(codes []vcode, maxLen int) (out []vcode) {
	var walk func(p vcode)
	walk = func(p vcode) {
		ext := false
		for _, c := range codes {
			if c.n <= p.n && p.v>>uint(p.n-c.n) == c.v {
				return // complete code word
			}
			if c.n > p.n && c.v>>uint(c.n-p.n) == p.v {
				ext = true
			}
		}
		if !ext {
			out = append(out, p)
			return
		}
		if p.n < maxLen {
			walk(vcode{p.v << 1, p.n + 1})
			walk(vcode{p.v<<1 | 1, p.n + 1})
		}
	}
	walk(vcode{0, 0})
	return
}

func codesOf(m map[mbType]vcode) (out []vcode) {
	for _, c := range m {
		out = append(out, c)
	}
	return
}

func selfTestVideo() error {
	type cs struct {
		name  string
		codes []vcode
		holes int // missing part of the code space, in units of 2^-20
	}
	for _, c := range []cs{
		// every table leaves out exactly the short patterns of zeros (and those next to
		// them) that the standard leaves out
		{"B-1", codeSet('a'), 23 << 9},
		{"B-9", tableB9, 1 << 11},
		{"B-10", codeSet('m'), 24 << 9},
		{"B-12", tableB12, 0},
		{"B-13", tableB13, 0},
		{"B-14", codeSet('4'), 16 << 4},
		{"B-14 first", codeSet('0'), 16 << 4},
		{"B-15", codeSet('5'), -1},
		{"B-2", codesOf(tableMB[1]), 1 << 18},
		{"B-3", codesOf(tableMB[2]), 1 << 14},
		{"B-4", codesOf(tableMB[3]), 1 << 14},
	} {
		sum, err := prefixFree(c.codes)
		if err != nil {
			return fmt.Errorf("table %s: %v", c.name, err)
		}
		if c.holes >= 0 && 1<<20-sum != c.holes {
			return fmt.Errorf("table %s leaves %d of the code space unused, expected %d", c.name, 1<<20-sum, c.holes)
		}
	}
	for _, s := range scans {
		var seen [64]bool
		for _, p := range s {
			seen[p] = true
		}
		for i, ok := range seen {
			if !ok {
				return fmt.Errorf("scan misses %d", i)
			}
		}
	}
	for pos := 0; pos < 64; pos++ {
		for _, v := range []int32{1, -1, 100, -255, 1000, 2047, -2048} {
			var b [64]int32
			b[pos] = v
			b[0] += 500
			d := idctDouble(&b)
			idctRef(&b)
			for i := range b {
				if math.Abs(float64(b[i])-d[i]) > 1.0 {
					return fmt.Errorf("inverse DCT of %d at %d: sample %d is %d, expected %f", v, pos, i, b[i], d[i])
				}
			}
		}
	}
	return nil
}
