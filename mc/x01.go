package mc

import (
	"bytes"
	"encoding/hex"
	"errors"
	"fmt"
	"image"
	"io"
	"reflect"
	"strconv"
	"strings"

	"github.com/32bitkid/bitreader"
	"github.com/32bitkid/mpeg/pes"
	"github.com/32bitkid/mpeg/ps"
	"github.com/32bitkid/mpeg/ts"
	"github.com/32bitkid/mpeg/video"
)

func init() {
	register(&Check{
		ID: "X01", Level: "fault_enumeration",
		Rule: "every entry point that takes a source is run on well-formed, cut and damaged streams: with every uniform read size, every first read size, every set of one and two cut points, every subset of cut points of short streams, and with an error of the source in place of its end at every offset; outputs and the final error are compared with those of whole delivery, and of the same bytes followed by the end of file; states are (entry, stream, delivery)",
		Assume: []string{
			"the source returns its error alone, after the last bytes: the bit reader dependency discards bytes that come together with an error",
			"a source that has failed fails again, in the same way, when it is read again: the bit reader dependency and unchecked skips in front of checked reads forget an error that is reported only once",
		},
		Spaces: x01spaces,
	})
}

// outcome is what a user of an entry point sees.
type outcome struct {
	out  []string
	data []byte // byte streams are compared as a whole
	err  error
	// kept are the frames returned, with what they were
	kept []*image.YCbCr
	were []string
}

// changed tells which of the frames is not what it was when it was returned.
func (o *outcome) changed() string {
	for i, img := range o.kept {
		if s := frameString(img); s != o.were[i] {
			return fmt.Sprintf("frame %d has changed from %s to %s after it was returned", i, o.were[i], s)
		}
	}
	return ""
}

func frameString(img *image.YCbCr) string {
	h := HashBytes(HashBytes(HashBytes(uint64(img.Rect.Dx()), img.Y), img.Cb), img.Cr)
	return fmt.Sprintf("frame %v %x", img.Rect, h)
}

func (o *outcome) same(p *outcome) string {
	if !bytes.Equal(o.data, p.data) {
		return "bytes: " + diffBytes(o.data, p.data)
	}
	for i := range max(len(o.out), len(p.out)) {
		if i >= len(o.out) || i >= len(p.out) {
			return fmt.Sprintf("%d outputs, expected %d", len(o.out), len(p.out))
		}
		if o.out[i] != p.out[i] {
			return fmt.Sprintf("output %d is %s, expected %s", i, o.out[i], p.out[i])
		}
	}
	return ""
}

// entry is a way to use the library on a source.
type entry struct {
	name    string
	streams [][]byte
	run     func(src io.Reader) outcome
	// open tells for a stream and n of its bytes where the packet of unknown length begins
	// that the last of them belong to: it is complete at the end of file, but not where the
	// source fails
	open func(stream, n int) int
	// a unit that ends with the source may cut its packet short, which is reported first
	cut bool
}

const sillyReads = 200000

// drain reads with buffers of size n (or a pattern of sizes for 0).
func drain(r io.Reader, n int, units bool) (o outcome) {
	sizes := []int{n}
	if n == 0 {
		sizes = []int{1, 3, 188, 7, 500, 2, 4096}
	}
	idle := 0
	var mine callerBuf
	for i := 0; ; i++ {
		size := sizes[i%len(sizes)]
		p := mine.get(size)
		k, err := r.Read(p)
		o.data = append(o.data, p[:k]...)
		mine.done(size)
		if units && err == ts.EOP {
			o.out = append(o.out, fmt.Sprintf("unit ends at %d", len(o.data)))
			continue
		}
		if err != nil {
			o.err = err
			return
		}
		if k == 0 {
			if idle++; idle > 1000 {
				o.out = append(o.out, "nothing is read 1000 times")
				return
			}
		} else {
			idle = 0
		}
	}
}

func tsPacketString(p *ts.Packet) string { return deep(p) }

func pesPacketString(p *pes.Packet) string { return deep(p) }

// deep prints a value with everything it points to.
func deep(v any) string {
	var b []byte
	b = deepAppend(b, reflect.ValueOf(v))
	return string(b)
}

func deepAppend(b []byte, v reflect.Value) []byte {
	switch v.Kind() {
	case reflect.Pointer, reflect.Interface:
		if v.IsNil() {
			return append(b, "nil"...)
		}
		return deepAppend(b, v.Elem())
	case reflect.Struct:
		b = append(b, '{')
		for i := 0; i < v.NumField(); i++ {
			if f := v.Type().Field(i); !f.IsExported() && !strings.HasSuffix(f.PkgPath, "/video") {
				continue // not published
			}
			b = append(append(b, v.Type().Field(i).Name...), ':')
			b = append(deepAppend(b, v.Field(i)), ' ')
		}
		return append(b, '}')
	case reflect.Slice, reflect.Array:
		if v.Type().Elem().Kind() == reflect.Uint8 && v.Kind() == reflect.Slice {
			return hex.AppendEncode(b, v.Bytes())
		}
		b = append(b, '[')
		for i := 0; i < v.Len(); i++ {
			b = append(deepAppend(b, v.Index(i)), ' ')
		}
		return append(b, ']')
	case reflect.Bool:
		return strconv.AppendBool(b, v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return strconv.AppendInt(b, v.Int(), 10)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return strconv.AppendUint(b, v.Uint(), 10)
	case reflect.String:
		return append(b, v.String()...)
	}
	return append(b, v.Kind().String()...)
}

func frames(v *video.VideoSequence) (o outcome) {
	for len(o.out) < 1000 {
		img, err := v.Next()
		if err == video.EOS {
			o.out = append(o.out, "end of sequence")
			continue
		}
		if err != nil {
			o.err = err
			return
		}
		s := frameString(img)
		o.out = append(o.out, s)
		o.kept, o.were = append(o.kept, img), append(o.were, s)
	}
	return
}

// x01video is a small stream with several kinds of pictures, and one with two sequences.
func x01video() [][]byte {
	e := &vEnc{}
	e.seq(mbSize(2, 2))
	for i, pl := range plan([]vToken("GPB")) {
		if pl.group {
			e.group(vGOP{ext: [][]byte{userData('a', 0, 0, 'b')}})
		}
		e.pic(planPic(e, pl, i, 2, 2))
	}
	one, _ := e.finish()
	e = &vEnc{}
	for k := 0; k < 2; k++ {
		s := mbSize(1, 1)
		s.ext = [][]byte{v09seq[10]}
		e.seq(s)
		e.group(vGOP{})
		e.pic(tiny(vPlan{kind: 1}, k+3))
		if k == 0 {
			p := tiny(vPlan{kind: 2, tref: 1}, 5)
			p.qm = &vQuantExt{m: [4]*[64]int{nil, vMatrix(3), nil, nil}}
			e.pic(p)
		}
		e.end()
	}
	return [][]byte{one, e.b}
}

// inTS carries units of one PID, among other packets.
func inTS(pid int, units [][]byte, noise bool) (b []byte) {
	cc := 0
	for i, u := range units {
		if noise {
			b = append(b, carry(0x99, i%2 == 0, i, pattern(i, 184-i%3))...)
		}
		first := true
		for first || len(u) > 0 {
			n := min(len(u), 184)
			if noise && first && n > 100 {
				n = 100
			}
			b = append(b, carry(pid, first, cc, u[:n])...)
			cc++
			u = u[n:]
			first = false
			if noise && len(u) > 0 && cc%2 == 0 {
				b = append(b, tsPacket{pid: pid, afc: 2, cc: cc, afLen: -1}.bytes()...)
			}
		}
	}
	return
}

// inPES splits a stream into packets at the given offsets.
func inPES(b []byte, unbounded bool, cuts ...int) (out [][]byte) {
	from := 0
	for i, c := range append(cuts, len(b)) {
		s := pesSpec{id: 0xe0, payload: b[from:c]}
		if i%2 == 0 {
			s.flags2, s.pts = 0x80, uint64(i)*1000+77
		}
		p := s.bytes()
		if unbounded {
			p = bytes.Clone(p)
			p[4], p[5] = 0, 0
		}
		out = append(out, p)
		from = c
	}
	return
}

// inPS puts packets into packs.
func inPS(packets [][]byte, perPack int) (b []byte) {
	for i, p := range packets {
		if i%perPack == 0 {
			s := packSpec{scr: uint64(i) * 3000, rate: 900, stuffing: bytes.Repeat([]byte{0xff}, i%4)}
			if i == 0 {
				s.sys = &sysHeader{rate: 900, video: 1, streams: []psStream{{0xe0, 1, 100}}}
			}
			b = append(b, s.bytes()...)
		}
		b = append(b, p...)
		if i%3 == 1 {
			b = append(b, pesSpec{id: 0xbe, payload: bytes.Repeat([]byte{0xff}, i)}.bytes()...)
		}
	}
	return append(b, 0, 0, 1, 0xb9)
}

func entries() []entry {
	vid := x01video()
	p3 := inPES(vid[1], false, 5, 90)
	unb := inPES(vid[1], true, 60)
	tsb, tsu := inTS(0x21, p3, true), inTS(0x21, unb, false)
	garbage := append([]byte{0x11, 0x47, 0, 0x22, 0x47}, tsb...)
	broken := bytes.Clone(tsb)
	broken[188*2] = 0x48
	rich := append(fillAF(3, 0xff, 5, 7, 0, 60, 0x5a), fillAF(2, 0x10, 0, 0, 0, 183, 0xff)...)
	rich = append(rich, fillAF(3, 0x03, 150, 7, 0, 100, 0x11)...) // private data longer than the field
	mine := ts.IsPID(0x21)
	tsStreams := [][]byte{tsb, tsb[:188*2+40], broken}

	pesHead := pesSpec{id: 0xe0, flags2: 0xff, pts: 5, dts: 4, payload: pattern(3, 20)}.bytes()
	pesStream := append(append(pesHead[:len(pesHead):len(pesHead)], pesSpec{id: 0xbe, payload: bytes.Repeat([]byte{0xff}, 11)}.bytes()...), pesSpec{id: 0xbf, payload: pattern(4, 9)}.bytes()...)
	pesStreams := [][]byte{
		append(pesStream[:len(pesStream):len(pesStream)], bytes.Join(p3, nil)...),
		append(pesStream[:len(pesStream):len(pesStream)], unb[0]...),
		append(pesStream[:len(pesStream):len(pesStream)], 0, 0, 2, 0xe0, 9),
		pesStream[:len(pesStream)-4],
	}
	psStream := inPS(append(p3, pesStream), 2)
	psBad := bytes.Clone(psStream)
	psBad[len(psBad)-1] = 0x40
	psStreams := [][]byte{psStream, psStream[:len(psStream)-4], psBad, psStream[:70]}

	var out []entry
	add := func(name string, streams [][]byte, run func(src io.Reader) outcome) {
		out = append(out, entry{name: name, streams: streams, run: run})
	}
	add("ts.Packet", append([][]byte{garbage, rich}, tsStreams[1:]...), func(src io.Reader) (o outcome) {
		br := bitreader.NewReader(src)
		p := &ts.Packet{}
		for {
			if o.err = p.Next(br); o.err != nil {
				return
			}
			o.out = append(o.out, tsPacketString(p))
		}
	})
	for _, n := range []int{0, 1, 1000} {
		add(fmt.Sprintf("ts.NewPayloadReader, buffers of %d", n), tsStreams, func(src io.Reader) outcome {
			return drain(ts.NewPayloadReader(src, mine), n, false)
		})
		add(fmt.Sprintf("ts.NewPayloadReader with conditions, buffers of %d", n), tsStreams[:2], func(src io.Reader) outcome {
			r := ts.NewPayloadReader(src, mine)
			r.SkipUntil(mine.And(ts.IsPayloadUnitStart))
			k := 0
			r.TakeWhile(func(p *ts.Packet) bool { k++; return k < 3 })
			return drain(r, n, false)
		})
		add(fmt.Sprintf("ts.NewPayloadUnitReader, buffers of %d", n), append([][]byte{tsu}, tsStreams...), func(src io.Reader) outcome {
			return drain(ts.NewPayloadUnitReader(src, mine), n, true)
		})
	}
	add("ts.Demuxer", tsStreams, func(src io.Reader) (o outcome) {
		d := ts.NewDemuxer(src)
		c := d.Where(mine)
		done := d.Go()
		for p := range c {
			o.out = append(o.out, tsPacketString(p))
		}
		<-done
		o.err = d.Err()
		return
	})
	add("ts.Demuxer and PayloadUnit", tsStreams[:2], func(src io.Reader) (o outcome) {
		d := ts.NewDemuxer(src)
		c := d.Where(mine).PayloadUnit()
		done := d.Go()
		for p := range c {
			o.out = append(o.out, fmt.Sprintf("%x", p))
		}
		<-done
		o.err = d.Err()
		return
	})
	add("pes.Packet", pesStreams, func(src io.Reader) (o outcome) {
		br := bitreader.NewReader(src)
		p := &pes.Packet{}
		for {
			if o.err = p.Next(br); o.err != nil {
				return
			}
			o.out = append(o.out, pesPacketString(p))
		}
	})
	for _, n := range []int{0, 1, 1000} {
		add(fmt.Sprintf("pes.NewPayloadReader, buffers of %d", n), pesStreams, func(src io.Reader) outcome {
			return drain(pes.NewPayloadReader(src), n, false)
		})
		add(fmt.Sprintf("ps.NewPackReader, buffers of %d", n), psStreams, func(src io.Reader) outcome {
			return drain(ps.NewPackReader(src), n, false)
		})
	}
	add("ps.NewPackHeader", [][]byte{psStream[:60], packSpec{scr: 1 << 32, stuffing: []byte{0xff, 0xff, 0xff}}.bytes()}, func(src io.Reader) (o outcome) {
		h, err := ps.NewPackHeader(bitreader.NewReader(src))
		if err == nil {
			o.out = append(o.out, deep(h))
		}
		o.err = err
		return
	})
	add("ps.NewDecoder", psStreams, func(src io.Reader) (o outcome) {
		d := ps.NewDecoder(bitreader.NewReader(src))
		done := d.Go()
		var ok bool
		fin := make(chan bool)
		go func() { ok = <-done; close(fin) }()
		for k := range d.Packs() {
			o.out = append(o.out, deep(k.PackHeader))
			for p := range k.Packets() {
				o.out = append(o.out, pesPacketString(p))
			}
		}
		<-fin
		o.out = append(o.out, fmt.Sprintf("completed: %v", ok))
		o.err = d.Err()
		return
	})
	add("video.Next", append(vid, vid[0][:len(vid[0])-30], v01broken(vid[0])), func(src io.Reader) outcome {
		return frames(video.NewVideoSequence(src))
	})
	add("video.AlignTo", [][]byte{append([]byte{1, 2, 0, 0, 0, 1, 0xb7, 0, 0, 0}, vid[1]...), pattern(6, 40)}, func(src io.Reader) (o outcome) {
		v := video.NewVideoSequence(src)
		if o.err = v.AlignTo(video.SequenceHeaderStartCode); o.err != nil {
			return
		}
		h, err := video.ReadSequenceHeader(v)
		o.out = append(o.out, deep(h))
		if err != nil {
			o.err = err
			return
		}
		for i := 0; ; i++ {
			if o.err = v.AlignTo(video.GroupStartCode); o.err != nil {
				return
			}
			g, err := video.ReadGOPHeader(v)
			if o.err = err; err != nil {
				return
			}
			o.out = append(o.out, deep(g))
		}
	})
	chain := func(src io.Reader) outcome {
		return frames(video.NewVideoSequence(pes.NewPayloadReader(ts.NewPayloadUnitReader(src, mine))))
	}
	add("units, packets, frames", [][]byte{tsb, tsu, tsb[:188*3+9]}, chain)
	add("payload, packets, frames", [][]byte{tsb, tsb[:188*3+9]}, func(src io.Reader) outcome {
		return frames(video.NewVideoSequence(pes.NewPayloadReader(ts.NewPayloadReader(src, mine))))
	})
	add("packs, frames", [][]byte{inPS(p3, 2), inPS(p3, 1)[:120]}, func(src io.Reader) outcome {
		return frames(video.NewVideoSequence(ps.NewPackReader(src)))
	})
	for i := range out {
		switch {
		case strings.HasPrefix(out[i].name, "pes."):
			out[i].open = func(stream, n int) int {
				if stream == 1 {
					n = min(n, len(pesStream))
				}
				return n
			}
		case out[i].name == "units, packets, frames":
			out[i].cut = true
		}
	}
	return out
}

func v01broken(b []byte) []byte {
	b = bytes.Clone(b)
	b[len(b)-25] = 0
	b[len(b)-24] = 0
	b[len(b)-23] = 0
	return b
}

// guarded makes a panic an output.
func (e *entry) guarded(src io.Reader) (o outcome) {
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(string); ok && strings.HasPrefix(s, "harness") {
				panic(r)
			}
			o.out = append(o.out, fmt.Sprintf("panic: %v", r))
		}
	}()
	return e.run(src)
}

func x01spaces(thorough bool) []*Space {
	ents := entries()
	whole := make([][]outcome, len(ents))
	for i := range ents {
		for _, s := range ents[i].streams {
			whole[i] = append(whole[i], ents[i].guarded(&source{data: s}))
		}
	}
	type pair struct{ e, s int }
	var all []pair
	for i := range ents {
		for k := range ents[i].streams {
			all = append(all, pair{i, k})
		}
	}
	try := func(x *X, p pair, src *source, what func() string) {
		e := &ents[p.e]
		src.data = e.streams[p.s]
		o, w := e.guarded(src), &whole[p.e][p.s]
		d := o.same(w)
		if d == "" && o.err != w.err {
			d = fmt.Sprintf("the error is %s, expected %s", errName(o.err), errName(w.err))
		}
		if d != "" {
			x.Note("stream", "%s", hexs(src.data))
			x.Fail("%s, stream %d, %s: %s", e.name, p.s, what(), d)
		}
		x.Inner(1)
	}
	var out []*Space
	out = append(out, &Space{Name: "uniform reads", Body: func(x *X) {
		p := Pick(x, all)
		n := len(ents[p.e].streams[p.s])
		for k := 1; k <= min(n, 600); k++ {
			try(x, p, &source{chunk: k}, func() string { return fmt.Sprintf("reads of %d bytes", k) })
		}
		for k := 1; k <= n; k++ {
			try(x, p, &source{chunk: 1 + k%2*7, first: k}, func() string { return fmt.Sprintf("a first read of %d bytes", k) })
		}
		x.Visit(HashInts(1, uint64(p.e), uint64(p.s)))
	}})
	out = append(out, &Space{Name: "cut points", Body: func(x *X) {
		p := Pick(x, all)
		n := len(ents[p.e].streams[p.s])
		a := 1 + x.Choose(n)
		near := 40
		if thorough {
			near = n
		}
		try(x, p, &source{cuts: []int{a}}, func() string { return fmt.Sprintf("cut at %d", a) })
		for b := a + 1; b < n; b++ {
			// far apart cuts meet different parts of the stream: every other distance is
			// reached at the start codes and boundaries
			if b-a > near && (a+b)%23 != 0 {
				continue
			}
			try(x, p, &source{cuts: []int{a, b}}, func() string { return fmt.Sprintf("cuts at %d and %d", a, b) })
		}
		x.Visit(HashInts(2, uint64(p.e), uint64(p.s), uint64(a)))
	}})
	// every way to deliver a window of the stream
	window := 8
	if thorough {
		window = 12
	}
	out = append(out, &Space{Name: "every delivery of a window", Body: func(x *X) {
		p := Pick(x, all)
		n := len(ents[p.e].streams[p.s])
		at := x.Choose((n + window - 1) / window)
		for m := 0; m < 1<<uint(window); m++ {
			var cuts []int
			for i := 0; i < window; i++ {
				if m>>uint(i)&1 == 1 {
					cuts = append(cuts, at*window+i)
				}
			}
			try(x, p, &source{cuts: cuts, chunk: []int{0, 8}[m%2]}, func() string { return fmt.Sprintf("cuts %v", cuts) })
		}
		x.Visit(HashInts(3, uint64(p.e), uint64(p.s), uint64(at)))
	}})
	bad := errors.New("the source failed")
	out = append(out, &Space{Name: "errors of the source", Body: func(x *X) {
		p := Pick(x, all)
		e := &ents[p.e]
		s := e.streams[p.s]
		n := x.Choose(len(s) + 1)
		for _, chunk := range []int{0, 1, 3} {
			plain := &source{data: s[:n], chunk: chunk}
			w := e.guarded(plain)
			if e.open != nil {
				if k := e.open(p.s, n); k < n {
					w = e.guarded(&source{data: s[:k], chunk: chunk})
				}
			}
			for _, end := range []error{bad, io.ErrClosedPipe, io.ErrNoProgress} {
				o := e.guarded(&source{data: s[:n], chunk: chunk, end: end})
				d := ""
				switch {
				case plain.ends > 0 && (w.err == io.EOF || w.err == io.ErrUnexpectedEOF):
					if !errors.Is(o.err, end) && !(e.cut && o.err == w.err && o.err == io.ErrUnexpectedEOF) {
						d = fmt.Sprintf("the error is %s, expected that of the source", errName(o.err))
					}
				case o.err != w.err:
					d = fmt.Sprintf("the error is %s, expected %s", errName(o.err), errName(w.err))
				}
				if d == "" {
					d = o.same(&w)
				}
				if d != "" {
					x.Note("stream", "%s", hexs(s[:n]))
					x.Fail("%s, stream %d, failing after %d of %d bytes, reads of %d: %s", e.name, p.s, n, len(s), chunk, d)
				}
				x.Inner(1)
			}
			// what came before the failure is the beginning of the whole output
			full := &whole[p.e][p.s]
			if !bytes.HasPrefix(full.data, w.data) {
				x.Note("stream", "%s", hexs(s[:n]))
				x.Fail("%s, stream %d, the first %d bytes give other data than the whole: %s", e.name, p.s, n, diffBytes(w.data, full.data))
			}
		}
		x.Visit(HashInts(4, uint64(p.e), uint64(p.s), uint64(n)))
	}})
	return out
}
