package mc

import (
	"fmt"
	"io"

	"github.com/32bitkid/bitreader"
	"github.com/32bitkid/mpeg/pes"
	"github.com/32bitkid/mpeg/ps"
)

// The words of fields.go and psfields.go for the properties that are about all of the library.

// fieldPSWord is a word of packs, with the end code.
func fieldPSWord(x *X, packs, pkts int) (w []fieldPack1, b []byte) {
	shape := Pick(x, []int{0, 7, 2})
	for i := 0; i < packs; i++ {
		p := fieldPack1{h: fieldPack(x, i, (shape+i)&1 == 0)}
		var pb []byte
		p.pkts, pb = fieldPESWord(x, pkts, shape>>uint(i))
		w = append(w, p)
		b = append(append(b, p.h.bytes()...), pb...)
	}
	return w, append(b, 0, 0, 1, 0xb9)
}

func fieldHeads(b []byte) string { return hexs(b[:min(len(b), 400)]) }

// fieldKinds run one word each; they are given the word's bytes and what it is.
func crossFieldSpaces(tsRun func(x *X, w []fieldPacket, b []byte), pesRun func(x *X, w []fieldPES1, b []byte), psRun func(x *X, w []fieldPack1, b []byte)) func(thorough bool) []*Space {
	return func(thorough bool) []*Space {
		deep := b2i(thorough)
		return []*Space{
			{Name: "fields of transport packets", Bound: 2, Body: func(x *X) {
				starts := Pick(x, []int{1, 1 | 4, 15})
				w := fieldWord(x, 3+deep, starts)
				b := fieldStream(w)
				x.Note("packets", "%s", describe(w))
				x.Visit(HashBytes(31, b))
				tsRun(x, w, b)
			}},
			{Name: "fields of PES packets", Bound: 2, Body: func(x *X) {
				w, b := fieldPESWord(x, 2+deep, Pick(x, []int{0, 7, 2}))
				x.Note("packets", "%s", fieldHeads(b))
				x.Visit(HashBytes(32, b))
				pesRun(x, w, b)
			}},
			{Name: "fields of packs", Bound: 2, Body: func(x *X) {
				w, b := fieldPSWord(x, 2, 1)
				x.Note("stream", "%s", fieldHeads(b))
				x.Visit(HashBytes(33, b))
				psRun(x, w, b)
			}},
		}
	}
}

// crossFields are the spaces by property.
var crossFields = map[string]func(thorough bool) []*Space{
	"X01": crossFieldSpaces(
		func(x *X, w []fieldPacket, b []byte) { x01fields(x, "ts.", b, 188, 40, 1) },
		func(x *X, w []fieldPES1, b []byte) { x01fields(x, "pes.", b, 1, 3, 9) },
		func(x *X, w []fieldPack1, b []byte) { x01fields(x, "ps.", b, 1, 3, 14) }),
	"X04": crossFieldSpaces(x04fieldsTS, x04fieldsPES, x04fieldsPS),
	"X06": crossFieldSpaces(
		func(x *X, w []fieldPacket, b []byte) {
			tsRoutes(x, b, fieldPID, func() string { return "the word" })
			tsRoutes(x, b[:len(b)-100], fieldPID, func() string { return "the word cut short" })
		},
		func(x *X, w []fieldPES1, b []byte) {
			pesRoutes(x, b, func() string { return "the word" })
			pesRoutes(x, b[:len(b)-1], func() string { return "the word cut short" })
		},
		func(x *X, w []fieldPack1, b []byte) {
			psRoutes(x, b, func() string { return "the word" })
			psRoutes(x, b[:len(b)-5], func() string { return "the word cut short" })
		}),
}

// x01fields runs the entries with the given prefix on a stream; the first chunk is the reference.
func x01fields(x *X, prefix string, b []byte, chunks ...int) {
	for _, e := range fieldEntries() {
		if e.name[:len(prefix)] != prefix {
			continue
		}
		w := e.guarded(&source{data: b})
		for _, c := range chunks {
			o := e.guarded(&source{data: b, chunk: c, first: c/2 + 1})
			d := o.same(&w)
			if d == "" && o.err != w.err {
				d = fmt.Sprintf("the error is %s, expected %s", errName(o.err), errName(w.err))
			}
			if d != "" {
				x.Fail("%s, reads of %d bytes: %s", e.name, c, d)
			}
			x.Inner(1)
		}
	}
}

var fieldEntryList []entry

// fieldEntries are the entries of X01 with one buffer size each.
func fieldEntries() []entry { return fieldEntryList }

func init() {
	for _, e := range entries() {
		switch e.name {
		case "ts.Packet", "ts.NewPayloadReader, buffers of 1000", "ts.NewPayloadUnitReader, buffers of 1000", "ts.Demuxer", "ts.Demuxer and PayloadUnit",
			"pes.Packet", "pes.NewPayloadReader, buffers of 1000", "ps.NewPackReader, buffers of 1000", "ps.NewPackHeader", "ps.NewDecoder":
			fieldEntryList = append(fieldEntryList, e)
		}
	}
	if len(fieldEntryList) != 10 {
		panic("harness: entries of X01 have other names")
	}
}

func x04fieldsTS(x *X, w []fieldPacket, b []byte) {
	v := x04ts{b: b}
	for i, f := range w {
		k := 4
		switch {
		case f.pid == fieldPID && f.start:
			k = 0
		case f.pid == fieldPID:
			k = 1
		case f.pid == fieldPID+1:
			k = 2
		}
		v.kinds, v.ends, v.sizes = append(v.kinds, k), append(v.ends, 188*(i+1)), append(v.sizes, len(f.ref.payload))
	}
	for _, l := range x04tsCases(&v) {
		l.run1(x, 47, 47)
		l.run1(x, 1, 1)
	}
	for _, l := range x04demuxCases(&v) {
		l.run1(x, 188, 188)
	}
}

// run1 is check with one way to read.
func (l *live) run1(x *X, chunk, first int) {
	x.Inner(1)
	if !l.conc && l.once(chunk, first) == "" {
		return
	}
	if bad := l.calm(x, chunk, first); bad != "" {
		x.Fail("reads of %d, then %d bytes: %s", first, chunk, bad)
	}
}

func x04fieldsPES(x *X, w []fieldPES1, b []byte) {
	var ends, payload []int
	at := 0
	for _, p := range w {
		at += len(p.b)
		ends, payload = append(ends, at), append(payload, rep(len(p.ref.payload), at)...)
	}
	l := &live{name: "pes.Packet", stream: b, need: ends, run: func(src io.Reader, emit func(int)) {
		br := bitreader.NewReader(src)
		p := &pes.Packet{}
		for p.Next(br) == nil {
			emit(1)
		}
	}}
	l.run1(x, 1, 1)
	l = &live{name: "pes.NewPayloadReader, buffers of 5", stream: b, need: payload, slack: 4, run: func(src io.Reader, emit func(int)) {
		bytesOut(pes.NewPayloadReader(src), 5, emit)
	}}
	l.run1(x, 1, 1)
}

func x04fieldsPS(x *X, w []fieldPack1, b []byte) {
	var payload, decoded []int
	at := 0
	for _, k := range w {
		at += len(k.h.bytes())
		decoded = append(decoded, at+4)
		for _, p := range k.pkts {
			at += len(p.b)
			payload = append(payload, rep(len(p.ref.payload), at)...)
			decoded = append(decoded, at)
		}
	}
	// the program end code
	payload, decoded = append(payload, len(b)), append(decoded, len(b))
	l := &live{name: "ps.NewPackReader, buffers of 5", stream: b, need: payload, slack: 4, run: func(src io.Reader, emit func(int)) {
		bytesOut(ps.NewPackReader(src), 5, emit)
	}}
	l.run1(x, 1, 1)
	l = &live{name: "ps.NewDecoder", stream: b, need: decoded, conc: true, run: func(src io.Reader, emit func(int)) {
		d := ps.NewDecoder(bitreader.NewReader(src))
		done := d.Go()
		fin := make(chan bool)
		go func() {
			if <-done {
				emit(1)
			}
			close(fin)
		}()
		for k := range d.Packs() {
			emit(1)
			for range k.Packets() {
				emit(1)
			}
		}
		<-fin
	}}
	l.run1(x, 8, 8)
}
