# Planted bugs in the video package and across packages. Streams of the demonstrations are
# written by the encoder of the harness; what is expected of them are the model's frames.
import os, re, subprocess, tempfile, json
ROOT = os.path.realpath(os.path.join(os.path.dirname(os.path.abspath(__import__("sys").argv[0])), ".."))
GEN = {}
def gen(name, code): GEN[name] = code
DEMO = '''package video_test

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"hash/crc32"
	"testing"

	"github.com/32bitkid/mpeg/video"
)

const stream = "%s"

var want = []string{%s}

func TestDemo(t *testing.T) {
	b, _ := hex.DecodeString(stream)
	v := video.NewVideoSequence(bytes.NewReader(b))
	var got []string
	for len(got) < 3000 {
		img, err := v.Next()
		if err != nil {
			got = append(got, err.Error())
			break
		}
		h := crc32.NewIEEE()
		h.Write(img.Y)
		h.Write(img.Cb)
		h.Write(img.Cr)
		got = append(got, fmt.Sprintf("%%08x", h.Sum32()))
	}
	if fmt.Sprint(got) != fmt.Sprint(want) {
		t.Fatalf("%%v, expected %%v", got, want)
	}
}
'''
BUGS = []
def vbug(id, property, needs, what, edits, code, end="end of sequence"):
    GEN[id] = code
    BUGS.append(dict(id=id, property=property, pkg="video", needs=needs, what=what, edits=edits, video=end))
def bug(**k): BUGS.append(k)

vbug("v01-saturated-mismatch", "V01", "an intra block with a saturated coefficient whose excess is odd",
 "mismatch control sums the coefficients before saturation",
 [("video/decode_block.go", "sum = sum + Fp[v][u]", "sum = sum + Fpp[v][u]")], '''
 e := newVid(mbSize(2, 1))
 p := vParams{}.pic(1, 0)
 p.rows(2, 1, 31, func(c, r int) vMB {
	b := texture(p, c, 3)
	for i := range b.blk { b.blk[i].co = []vCoef{{run: i % 3, level: 1200 + 37*i + c}, {run: 3, level: -900 - 31*i}} }
	return b
 })
 e.pic(p)
''')
vbug("v01-alternate-scan-tail", "V01", "alternate scan and a coefficient in one of the last two places of the scan",
 "the last two places of the alternate scan are exchanged",
 [("video/decode_block.go", "{12, 15, 28, 32, 44, 48, 58, 62}", "{12, 15, 28, 32, 44, 48, 58, 63}"), ("video/decode_block.go", "{13, 14, 29, 33, 45, 49, 59, 63}", "{13, 14, 29, 33, 45, 49, 59, 62}")], '''
 e := newVid(mbSize(1, 1))
 p := vParams{alt: 1}.pic(1, 0)
 p.rows(1, 1, 8, func(c, r int) vMB {
	b := texture(p, c, 3)
	b.blk[2].co = []vCoef{{run: 61, level: 90}}
	return b
 })
 e.pic(p)
''')
vbug("v02-dct-type-in-p", "V02", "an intra macroblock with a quantiser of its own in an interlaced picture",
 "the DCT type of requantised intra macroblocks is not read",
 [("video/macroblock.go", "		(mb.macroblock_type.macroblock_intra || mb.macroblock_type.macroblock_pattern) {", "		(mb.macroblock_type.macroblock_pattern || mb.macroblock_type.macroblock_intra && !mb.macroblock_type.macroblock_quant) {")], '''
 s := mbSize(2, 2)
 s.progressive = 0
 e := newVid(s)
 p := vParams{field: 1}.pic(1, 0)
 p.rows(2, 2, 9, func(c, r int) vMB {
	b := texture(p, c, 3, r)
	b.field = c == r
	if c == 1 { b.q = 5 + r }
	return b
 })
 e.pic(p)
''')
vbug("v02-motion-code-tail", "V02", "a motion code of 14 or 15",
 "the code words of the motion codes 14 and 15 are exchanged",
 [("video/motion_vectors.go", '"0000 0011 100":  14,', '"0000 0011 010":  14,'), ("video/motion_vectors.go", '"0000 0011 010":  15,', '"0000 0011 100":  15,')], '''
 e := newVid(mbSize(3, 1))
 e.pic(textured(vParams{}.pic(1, 0), 3, 1, 4, 1))
 p := vParams{}.pic(2, 1)
 p.fcode[0] = [2]int{1, 1}
 p.rows(3, 1, 4, func(c, r int) vMB { return vMB{fwd: true, mv: [2][2]int{{[]int{14, -1, -14}[c], 0}}} })
 e.pic(p)
''')
vbug("v02-long-run-escape", "V02", "an escaped coefficient with a run of 32 or more in a block coded with the second table",
 "the run of the escape is cut to five bits in one of the two tables",
 [("video/dtc_coefficients.go", "				run = int(val)\n", "				run = int(val) & limit\n"),
  ("video/dtc_coefficients.go", "	rest := huffman.NewHuffmanDecoder(tables[1])\n", "	rest := huffman.NewHuffmanDecoder(tables[1])\n	limit := 63\n	if _, zero := tables[0][\"1\"]; !zero {\n		limit = 31\n	}\n")], '''
 e := newVid(mbSize(1, 1))
 p := vParams{vlcfmt: 1}.pic(1, 0)
 p.rows(1, 1, 8, func(c, r int) vMB {
	b := texture(p, c, 3)
	b.blk[2].co = []vCoef{{run: 40, level: 90, esc: true}}
	return b
 })
 e.pic(p)
 p = vParams{}.pic(1, 1)
 p.rows(1, 1, 8, func(c, r int) vMB {
	b := texture(p, c, 3)
	b.blk[2].co = []vCoef{{run: 40, level: 90, esc: true}}
	return b
 })
 e.pic(p)
''')
vbug("v02-address-escape-once", "V02", "two address escapes in a row, in a picture at least 67 macroblocks wide",
 "a second escape in a row does not add its 33 macroblocks",
 [("video/macroblock.go", "			mb.macroblock_address_increment += 33\n", "			mb.macroblock_address_increment = 33\n")], '''
 e := newVid(mbSize(72, 1))
 e.pic(textured(vParams{}.pic(1, 0), 72, 1, 4, 1))
 p := vParams{}.pic(2, 1)
 p.slices = []vSlice{{q: 3, mbs: []vMB{{fwd: true, cbp: 32}, {fwd: true, cbp: 1, skip: 70}}}}
 for i := range p.slices[0].mbs { for k := range p.slices[0].mbs[i].blk { p.slices[0].mbs[i].blk[k].co = []vCoef{{run: k, level: 6}} } }
 e.pic(p)
''')
vbug("v03-vector-at-low-end", "V03", "a vector exactly at the negative end of its range",
 "the lowest vector of the range wraps to the other end",
 [("video/motion_vectors.go", "if vector < low {", "if vector <= low {"), ("video/motion_vectors.go", "	}\n	if vector > high {", "	} else if vector > high {")], '''
 e := newVid(mbSize(4, 1))
 e.pic(textured(vParams{}.pic(1, 0), 4, 1, 4, 1))
 p := vParams{}.pic(2, 1)
 p.fcode[0] = [2]int{1, 1}
 p.rows(4, 1, 4, func(c, r int) vMB { return vMB{fwd: true, mv: [2][2]int{{[]int{0, -16, -15, -16}[c], 0}}} })
 e.pic(p)
''')
vbug("v03-skipped-chroma", "V03", "a run of 32 or more skipped macroblocks in a P picture",
 "the chroma of long runs of skipped macroblocks is copied only in part",
 [("video/copy_macroblocks.go", "w := int(n) * 8", "w := int(uint8(n * 8))")], '''
 e := newVid(mbSize(40, 1))
 e.pic(textured(vParams{}.pic(1, 0), 40, 1, 4, 1))
 p := vParams{}.pic(2, 1)
 p.slices = []vSlice{{q: 3, mbs: []vMB{{fwd: true}, {fwd: true, skip: 38}}}}
 e.pic(p)
''')
vbug("v04-long-skip", "V04", "a run of 64 or more skipped macroblocks in a B picture",
 "long runs of skipped macroblocks are predicted only in part",
 [("video/copy_macroblocks.go", "mb_addr < mb_col+mb_count; mb_addr++ {", "mb_addr < mb_col+mb_count&63; mb_addr++ {")], '''
 e := newVid(mbSize(70, 1))
 e.pic(textured(vParams{}.pic(1, 0), 70, 1, 4, 1))
 e.pic(textured(vParams{}.pic(1, 2), 70, 1, 4, 2))
 p := vParams{}.pic(3, 1)
 p.slices = []vSlice{{q: 3, mbs: []vMB{{fwd: true, bwd: true}, {fwd: true, bwd: true, skip: 68}}}}
 e.pic(p)
''')
vbug("v05-requantised-without-vector", "V05", "in a P picture, a macroblock with vector, then one with a new quantiser and no vector, then one with a vector",
 "the vector predictors survive a requantised macroblock that has no vector",
 [("video/macroblock.go", "		mb.macroblock_type.macroblock_motion_forward == false {", "		!(mb.macroblock_type.macroblock_motion_forward || mb.macroblock_type.macroblock_quant) {")], '''
 e := newVid(mbSize(4, 1))
 e.pic(textured(vParams{}.pic(1, 0), 4, 1, 4, 1))
 p := vParams{}.pic(2, 1)
 p.slices = []vSlice{{q: 3, mbs: []vMB{{fwd: true, mv: [2][2]int{{6, 0}}}, {cbp: 5, q: 9, fwd: false}, {fwd: true, mv: [2][2]int{{-3, 0}}}, {fwd: true}}}}
 for k := range p.slices[0].mbs[1].blk { p.slices[0].mbs[1].blk[k].co = []vCoef{{run: k, level: 6}} }
 e.pic(p)
''')
vbug("v05-dc-after-one-skipped", "V05", "an intra macroblock that follows exactly one skipped macroblock after an intra macroblock",
 "the DC predictors survive a single skipped macroblock",
 [("video/macroblock.go", "	if mb.macroblock_address_increment > 1 {\n		resetDCPredictors()", "	if mb.macroblock_address_increment > 2 {\n		resetDCPredictors()")], '''
 e := newVid(mbSize(3, 1))
 e.pic(textured(vParams{}.pic(1, 0), 3, 1, 4, 1))
 p := vParams{}.pic(2, 1)
 p.slices = []vSlice{{q: 3, mbs: []vMB{texture(p, 5), texture(p, 6)}}}
 p.slices[0].mbs[1].skip = 1
 e.pic(p)
''')
vbug("v06-broken-link", "V06", "a group with the broken link flag after another group",
 "the picture count of a group with a broken link goes on from the group before",
 [("video/frame_provider.go", "			self.frameCounter = 0\n		}\n		if err", "			if !gop.BrokenLink || gop.ClosedGOP {\n				self.frameCounter = 0\n			}\n		}\n		if err")], '''
 e := newVid(mbSize(4, 3))
 for i, pl := range plan([]vToken("IPGIPB")) {
	if pl.group { e.group(vGOP{broken: 1}) }
	e.pic(planPic(e, pl, i, 4, 3))
 }
''')
vbug("v06-reference-behind", "V06", "a group of more than 512 pictures with B pictures",
 "a reference picture that waits for its turn is dropped when its number is 512 or more",
 [("video/video_sequence.go", "vs.frameStore.tryGet(vs.frameCounter); img", "vs.frameStore.tryGet(vs.frameCounter & 0x1ff); img")], '''
 e := newVid(mbSize(1, 1))
 toks := []vToken{'I'}
 for i := 0; i < 300; i++ { toks = append(toks, 'P', 'B') }
 for i, pl := range plan(toks) { e.pic(tiny(pl, i)) }
''')
vbug("v07-default-not-restored", "V07", "a repeated sequence header that brings an intra matrix and no non-intra one, after a non-intra matrix was in force",
 "the non-intra matrix of the sequence before stays in force",
 [("video/sequence_header.go", "	} else {\n		vs.quantisationMatricies[1] = defaultQuantisationMatrices.NonIntra\n		vs.quantisationMatricies[3] = defaultQuantisationMatrices.NonIntra", "	} else if !sh.load_intra_quantiser_matrix || vs.SequenceHeader == nil {\n		vs.quantisationMatricies[1] = defaultQuantisationMatrices.NonIntra\n		vs.quantisationMatricies[3] = defaultQuantisationMatrices.NonIntra")], '''
 s := mbSize(1, 1)
 s.nonIntraQ = vMatrix(3)
 e := newVid(s)
 e.pic(tiny(vPlan{kind: 1}, 1))
 e.pic(tiny(vPlan{kind: 2, tref: 1}, 1))
 s.intraQ, s.nonIntraQ = vMatrix(4), nil
 e.seq(s)
 e.group(vGOP{})
 e.flush()
 e.pic(tiny(vPlan{kind: 1}, 2))
 e.pic(tiny(vPlan{kind: 2, tref: 1}, 2))
''')
vbug("v07-chroma-matrix", "V07", "a quant matrix extension with a chroma intra matrix in a 4:2:0 picture",
 "the chroma intra matrix of an extension also replaces the intra matrix",
 [("video/quant_matrix_extension.go", "		vs.quantisationMatricies[2] = chroma_intra_quantiser_matrix\n", "		vs.quantisationMatricies[2], vs.quantisationMatricies[0] = chroma_intra_quantiser_matrix, chroma_intra_quantiser_matrix\n")], '''
 e := newVid(mbSize(1, 1))
 p := tiny(vPlan{kind: 1}, 1)
 p.qm = &vQuantExt{m: [4]*[64]int{nil, nil, vMatrix(9), nil}}
 e.pic(p)
''')
vbug("v08-lenient-end", "V08", "a stream cut inside the last slice of a picture",
 "a picture whose last slice is cut short is returned as if it were complete",
 [("video/picture_data.go", "		if err := self.slice(frame); err != nil {\n			return nil, err\n		}", "		if err := self.slice(frame); (err == io.EOF || err == io.ErrUnexpectedEOF) && started {\n			return frame, nil\n		} else if err != nil {\n			return nil, err\n		}\n		started = true"),
  ("video/picture_data.go", 'import "image"\n', 'import "image"\nimport "io"\n'), ("video/picture_data.go", "	for {\n", "	started := false\n	for {\n")], '''
 e := newVid(mbSize(2, 2))
 e.pic(textured(vParams{}.pic(1, 0), 2, 2, 4, 1))
 e.pic(textured(vParams{}.pic(1, 1), 2, 2, 4, 1))
 e.flush()
 e.b = e.b[:len(e.b)-9]
 e.out = e.out[:1]
 cut = true
''', end="EOF")
vbug("v09-colour-description", "V09", "a sequence display extension with an unspecified video format and a colour description",
 "the colour description is not skipped, so the stream is rejected",
 [("video/sequence_display_extension.go", "	if sde.colour_description {", "	if sde.colour_description && sde.video_format != 5 {")], '''
 s := mbSize(1, 1)
 w := &BW{}
 w.Put(0x1b5, 32).Put(2, 4).Put(5, 3).Put(1, 1).Put(1, 8).Put(3, 8).Put(7, 8).Put(16, 14).Put(1, 1).Put(16, 14)
 w.Align()
 s.ext = [][]byte{w.b}
 e := newVid(s)
 e.pic(tiny(vPlan{kind: 1}, 1))
''')
vbug("v09-subcarrier-phase", "V09", "a picture with composite display information and a sub-carrier phase",
 "the stream is rejected because the phase is not consumed",
 [("video/picture_coding_extension.go", "pce.sub_carrier_phase, err = br.Read32(8)", "pce.sub_carrier_phase, err = br.Peek32(8)")], '''
 e := newVid(mbSize(1, 1))
 p := tiny(vPlan{kind: 1}, 1)
 p.display = []uint64{1, 3, 1, 77, 200}
 e.pic(p)
''')
bug(id="v10-pictures-over-31", property="V10", pkg="video", needs="a time code with 32 or more pictures, as at 50 or 60 pictures per second",
 what="the picture count of the time code loses its top bit",
 edits=[("video/group_of_pictures_header.go", "Pictures:  (gop.timeCode) & 0x3F", "Pictures:  (gop.timeCode) & 0x1F")], demo='''package video_test

import (
	"bytes"
	"testing"

	"github.com/32bitkid/bitreader"
	"github.com/32bitkid/mpeg/video"
)

func TestDemo(t *testing.T) {
	code := uint32(23<<19 | 59<<13 | 1<<12 | 58<<6 | 49)
	v := code<<7 | 1<<6
	g, err := video.ReadGOPHeader(bitreader.NewReader(bytes.NewReader([]byte{0, 0, 1, 0xb8, byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v), 0, 0, 1, 0})))
	if err != nil || g.TimeCode().String() != "23:59:58:49" || !g.ClosedGOP {
		t.Fatal(g, err)
	}
}
''')
vbug("v11-size-extension", "V11", "a picture at least 4096 samples high",
 "the extension bits of the height are applied to the reported size but not to the frame",
 [("video/picture_data.go", "	frame = createFrameBuffer(w, h, self.SequenceExtension.chroma_format)", "	frame = createFrameBuffer(w, h&(1<<13-1), self.SequenceExtension.chroma_format)"),
  ("video/picture_data.go", "	verticalMacroblocks := (h + 15) >> 4", "	verticalMacroblocks := (h + 15) / 16")], '''
 e := newVid(mbSize(1, 520))
 p := vParams{}.pic(1, 0)
 p.rows(1, 520, 4, func(c, r int) vMB { return texture(p, r&15) })
 e.pic(p)
''')
vbug("v12-recycled-frames", "V12", "a caller that keeps a frame until three reference pictures later",
 "the frame of the reference picture that is no longer needed is used again for a later picture",
 [("video/picture_data.go", "	frame = createFrameBuffer(w, h, self.SequenceExtension.chroma_format)", "	if frame = self.frameStore.spare(self.PictureHeader.picture_coding_type, w, h); frame == nil {\n		frame = createFrameBuffer(w, h, self.SequenceExtension.chroma_format)\n	}"),
  ("video/frame_store.go", "func (fs *frameStore) add(f *image.YCbCr, temporal_reference uint32) {\n", "func (fs *frameStore) spare(t PictureCodingType, w, h int) (f *image.YCbCr) {\n	if f = fs.old; f == nil || t == BFrame || f.Rect.Dx() != w || f.Rect.Dy() != h {\n		return nil\n	}\n	fs.old = nil\n	return\n}\n\nfunc (fs *frameStore) add(f *image.YCbCr, temporal_reference uint32) {\n	fs.old = fs.frames[0].frame\n"),
  ("video/frame_store.go", "	future *image.YCbCr\n}", "	future *image.YCbCr\n	old    *image.YCbCr\n}")], '''
 e := newVid(mbSize(1, 1))
 for i, pl := range plan([]vToken("IPPPPP")) { e.pic(tiny(pl, i)) }
''')
BUGS[-1]["hold"] = True
bug(id="x01-masked-error", property="X01", pkg="pes", needs="a source that fails inside a packet of unknown length",
 what="the failure of the source is swallowed and the packet is taken for complete",
 edits=[("pes/packet.go", "if err != nil && err != ts.EOP {", "if err != nil && err != ts.EOP && len(packet.Payload) == 0 {")], demo='''package pes_test

import (
	"bytes"
	"errors"
	"io"
	"testing"

	"github.com/32bitkid/mpeg/pes"
)

type once struct{ err error }

func (o *once) Read([]byte) (int, error) {
	err := o.err
	o.err = io.EOF
	return 0, err
}

func TestDemo(t *testing.T) {
	bad := errors.New("bad")
	head := append([]byte{0, 0, 1, 0xe0, 0, 0, 0x80, 0, 0}, make([]byte, 100)...)
	_, err := io.ReadAll(pes.NewPayloadReader(io.MultiReader(bytes.NewReader(head), &once{bad})))
	if err != bad {
		t.Fatal(err)
	}
}
''')
SHARED = '''package video_test

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"hash/crc32"
	"sync"
	"testing"

	"github.com/32bitkid/mpeg/video"
)

const stream = "%s"

var want = []string{%s}

func TestDemo(t *testing.T) {
	b, _ := hex.DecodeString(stream)
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < 20; k++ {
				v := video.NewVideoSequence(bytes.NewReader(b))
				var got []string
				for {
					img, err := v.Next()
					if err != nil {
						got = append(got, err.Error())
						break
					}
					h := crc32.NewIEEE()
					h.Write(img.Y)
					h.Write(img.Cb)
					h.Write(img.Cr)
					got = append(got, fmt.Sprintf("%%08x", h.Sum32()))
				}
				if fmt.Sprint(got) != fmt.Sprint(want) {
					t.Errorf("%%v, expected %%v", got, want)
				}
			}
		}()
	}
	wg.Wait()
}
'''
vbug("x02-shared-scratch", "X02", "two sequences decoded on different goroutines",
 "the intermediate blocks of the dequantiser are shared by all sequences",
 [("video/decode_block.go", "	var (\n		QF  intermediaryblock\n		Fpp intermediaryblock\n		Fp  intermediaryblock\n	)\n", ""),
  ("video/decode_block.go", "func signInt32(", "// scratch of decode_block\nvar (\n	QF  intermediaryblock\n	Fpp intermediaryblock\n	Fp  intermediaryblock\n)\n\nfunc signInt32(")], '''
 e := newVid(mbSize(2, 2))
 e.pic(textured(vParams{}.pic(1, 0), 2, 2, 4, 1))
''')
BUGS[-1].update(template=SHARED, race=True)
vbug("x02-shared-predictors", "X02", "two sequences whose pictures are decoded in turns",
 "concealment and prediction state of a slice lives in a variable that all sequences share",
 [("video/slice.go", "	var dcp dcDctPredictors\n	resetDcPredictors", "	dcp := &predictors\n	resetDcPredictors"), ("video/slice.go", "			&dcp, resetDcPredictors,", "			dcp, resetDcPredictors,"),
  ("video/slice.go", "type Slice struct {", "var predictors dcDctPredictors\n\ntype Slice struct {")], '''
 e := newVid(mbSize(2, 2))
 e.pic(textured(vParams{}.pic(1, 0), 2, 2, 4, 1))
''')
BUGS[-1].update(template=SHARED, race=True)
TSHELP = '''
func pkt(pid int, start bool, cc int, af []byte, pay []byte) []byte {
	b := []byte{0x47, byte(pid >> 8), byte(pid), byte(0x30 | cc), byte(183 - len(pay))}
	if start {
		b[1] |= 0x40
	}
	b = append(b, af...)
	for len(b)+len(pay) < 188 {
		b = append(b, 0xff)
	}
	return append(b, pay...)
}
'''
CHAIN = '''package video_test

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"hash/crc32"
	"testing"

	"github.com/32bitkid/mpeg/pes"
	"github.com/32bitkid/mpeg/ts"
	"github.com/32bitkid/mpeg/video"
)

const stream = "%s"

var want = []string{%s}
''' + TSHELP + '''
func TestDemo(t *testing.T) {
	es, _ := hex.DecodeString(stream)
	p := append([]byte{0, 0, 1, 0xe0, byte((len(es) + 3) >> 8), byte(len(es) + 3), 0x80, 0, 0}, es...)
	var b []byte
	for cc := 0; len(p) > 0; cc++ {
		n := len(p)
		if n > 100 {
			n = 100
		}
		af := AF
		b = append(b, pkt(0x21, cc == 0, cc&15, af, p[:n])...)
		p = p[n:]
	}
	v := video.NewVideoSequence(pes.NewPayloadReader(ts.NewPayloadUnitReader(bytes.NewReader(b), ts.IsPID(0x21))))
	var got []string
	for {
		img, err := v.Next()
		if err != nil {
			got = append(got, err.Error())
			break
		}
		h := crc32.NewIEEE()
		h.Write(img.Y)
		h.Write(img.Cb)
		h.Write(img.Cr)
		got = append(got, fmt.Sprintf("%%08x", h.Sum32()))
	}
	if fmt.Sprint(got) != fmt.Sprint(want) {
		t.Fatalf("%%v, expected %%v", got, want)
	}
}
'''
vbug("x03-random-access-unit", "X03", "a transport packet inside a payload unit whose adaptation field has the random access indicator set",
 "the random access indicator inside of a unit is taken for the start of one, so the packet is cut short",
 [("ts/payload_unit_reader.go", "		if stream.startIndicator(stream.currentPacket) {\n			break", "		if af := stream.currentPacket.AdaptationField; stream.startIndicator(stream.currentPacket) || stream.where(stream.currentPacket) && af != nil && af.RandomAccessIndicator {\n			break")], '''
 e := newVid(mbSize(3, 2))
 e.pic(textured(vParams{}.pic(1, 0), 3, 2, 4, 1))
 e.end()
''')
BUGS[-1].update(template=CHAIN.replace("AF\n", "[]byte{byte(cc %% 2 << 6)}\n", 1))

LIVE = '''package video_test

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"testing"
	"time"

	"github.com/32bitkid/mpeg/video"
)

const stream = "%s"

var want = []string{%s}

// live delivers a picture and the start code behind it, and nothing more for now.
type live struct {
	b    []byte
	hang chan bool
}

func (l *live) Read(p []byte) (int, error) {
	if len(l.b) == 0 {
		<-l.hang
		return 0, fmt.Errorf("over")
	}
	n := copy(p, l.b)
	l.b = l.b[n:]
	return n, nil
}

func TestDemo(t *testing.T) {
	b, _ := hex.DecodeString(stream)
	code := []byte{0, 0, 1, 0}
	first := bytes.Index(b, code) + 4
	second := first + bytes.Index(b[first:], code) + 4
	v := video.NewVideoSequence(&live{b[:second], make(chan bool)})
	got := make(chan error)
	go func() {
		_, err := v.Next()
		got <- err
	}()
	select {
	case err := <-got:
		if err != nil {
			t.Fatal(err)
		}
	case <-time.After(5 * time.Second):
		t.Fatal("the first picture is not delivered")
	}
}
'''
vbug("x04-look-past-slice", "X04", "a live source that pauses behind a picture", "the decoder looks past the start code that ends a picture before it delivers it",
 [("video/picture_data.go", "		if nextbits, err := self.Peek32(32); err != nil {\n			return nil, err\n		} else if StartCode(nextbits).IsSlice() == false {",
   "		nextbits, err := self.Peek64(64)\n		if err != nil {\n			code, err := self.Peek32(32)\n			if err != nil {\n				return nil, err\n			}\n			nextbits = uint64(code) << 32\n		}\n		if StartCode(nextbits>>32).IsSlice() == false {")], '''
 e := newVid(mbSize(2, 1))
 e.pic(textured(vParams{}.pic(1, 0), 2, 1, 4, 1))
 e.pic(textured(vParams{}.pic(1, 1), 2, 1, 4, 1))
''')
BUGS[-1].update(template=LIVE)
GROWS = '''package video_test

import (
	"encoding/hex"
	"runtime"
	"testing"

	"github.com/32bitkid/mpeg/video"
)

const stream = "%s"

var want = []string{%s}

type again struct {
	b []byte
	i int
}

func (a *again) Read(p []byte) (int, error) {
	n := copy(p, a.b[a.i:])
	a.i = (a.i + n) %% len(a.b)
	return n, nil
}

func TestDemo(t *testing.T) {
	b, _ := hex.DecodeString(stream)
	v := video.NewVideoSequence(&again{b: b})
	heap := func() uint64 {
		var m runtime.MemStats
		runtime.GC()
		runtime.GC()
		runtime.ReadMemStats(&m)
		return m.HeapAlloc
	}
	var was uint64
	for i := 0; i < 30000; i++ {
		if _, err := v.Next(); err != nil {
			t.Fatal(err)
		}
		if i == 2000 {
			was = heap()
		}
	}
	if now := heap(); now > was+1<<20 {
		t.Fatalf("%%d bytes, then %%d", was, now)
	}
	runtime.KeepAlive(v)
}
'''
vbug("x05-headers-pile-up", "X05", "a sequence that goes on for long", "the headers of all pictures are kept as long as the sequence",
 [("video/video_sequence.go", "	vs.PictureHeader, err = picture_header(vs)\n", "	vs.PictureHeader, err = picture_header(vs)\n	vs.seen = append(vs.seen, vs.PictureHeader)\n"), ("video/video_sequence.go", "	frameCounter uint32\n", "	frameCounter uint32\n	seen         []*PictureHeader\n")], '''
 e := newVid(mbSize(1, 1))
 e.pic(textured(vParams{}.pic(1, 0), 1, 1, 4, 1))
 cut = true
''')
BUGS[-1].update(template=GROWS)

# features that disturb each other
vbug("v06-repeated-header-matrix", "V06", "a sequence header with an intra matrix repeated before a picture without a group header", "the reference pictures are forgotten and the sequence ends early",
 [("video/sequence_header.go", "	vs.SequenceHeader = sh\n", "	if vs.SequenceHeader, sh = sh, vs.SequenceHeader; sh != nil && vs.SequenceHeader.load_intra_quantiser_matrix {\n		// new matrices begin a new part of the video\n		vs.frameStore = frameStore{}\n	}\n")], '''
 e := newVid(mbSize(4, 2))
 toks := []vToken("GPBPB")
 for i, k := range plan(toks) {
 	if i == 1 {
 		s := mbSize(4, 2)
 		s.intraQ = vMatrix(5)
 		e.seq(s)
 	}
 	e.pic(planPic(e, k, i, 4, 2))
 }
''')
vbug("v05-quantiser-with-table-15", "V05", "an intra macroblock of a P or B picture with a quantiser of its own and intra_vlc_format 1", "the new quantiser lasts for that macroblock only",
 [("video/macroblock.go", "	return mb_address, nil\n}\n\nfunc updateFrameSlice", "	if mb.macroblock_type.macroblock_intra && mb.macroblock_type.macroblock_quant && br.PictureCodingExtension.intra_vlc_format == 1 && br.PictureHeader.picture_coding_type != IFrame {\n		*qsc = before\n	}\n\n	return mb_address, nil\n}\n\nfunc updateFrameSlice"), ("video/macroblock.go", "	mb := Macroblock{}\n", "	mb, before := Macroblock{}, *qsc\n")], '''
 e := newVid(mbSize(4, 1))
 e.pic(textured(vParams{}.pic(1, 0), 4, 1, 4, 1))
 p := vParams{vlcfmt: 1}.pic(2, 1)
 m := texture(p, 3, 3)
 m.q = 20
 n := vMB{fwd: true, cbp: 63}
 for i := range n.blk {
 	n.blk[i].co = []vCoef{{run: i, level: 3}}
 }
 p.slices = []vSlice{{q: 3, mbs: []vMB{n, m, n, n}}}
 e.pic(p)
''')
vbug("v07-default-when-interlaced", "V07", "an interlaced sequence whose header is repeated without a matrix it had before", "the non-intra matrix of the former header stays in force",
 [("video/sequence_header.go", "	} else {\n		vs.quantisationMatricies[1] = defaultQuantisationMatrices.NonIntra\n", "	} else if vs.SequenceExtension == nil || vs.SequenceExtension.progressive_sequence == 1 {\n		vs.quantisationMatricies[1] = defaultQuantisationMatrices.NonIntra\n")], '''
 e := newVid(vSeqHdr{w: 64, h: 32, nonIntraQ: vMatrix(7)})
 for i, k := range plan([]vToken("GPPP")) {
 	if i == 2 {
 		e.seq(vSeqHdr{w: 64, h: 32})
 	}
 	e.pic(planPic(e, k, i, 4, 2))
 }
''')

vbug("v05-long-skip-nonlinear", "V05", "more than 33 skipped macroblocks between macroblocks with vectors in a P picture with the non-linear quantiser scale", "the motion vector predictors are not reset",
 [("video/macroblock.go", "		mb.macroblock_address_increment > 1 {\n		mvd.reset()", "		mb.macroblock_address_increment > 1 &&\n		(mb.macroblock_address_increment <= 34 || br.PictureCodingExtension.q_scale_type == 0) {\n		mvd.reset()")], '''
 e := newVid(mbSize(40, 1))
 e.pic(textured(vParams{}.pic(1, 0), 40, 1, 4, 1))
 p := vParams{}.pic(2, 1)
 p.qtype = 1
 p.slices = []vSlice{{row: 0, q: 5, mbs: []vMB{{fwd: true, mv: [2][2]int{{3, 0}}}, {fwd: true, mv: [2][2]int{{5, 0}}}, {skip: 36, fwd: true, mv: [2][2]int{{-3, 0}}}, {fwd: true, mv: [2][2]int{{-4, 0}}}}}}
 e.pic(p)
''')
vbug("v03-second-vector-wrap", "V03", "a second field vector whose horizontal component wraps around above, with a vertical f_code of 1 and a horizontal one of more", "the vector is out of range",
 [("video/motion_vectors.go", "	if vector > high {", "	if vector > high && !(r == 1 && t == 0 && f_code[s][1] == 1) {")], '''
 e := newVid(mbSize(6, 1))
 q := vParams{field: 1}
 e.pic(textured(q.pic(1, 0), 6, 1, 4, 1))
 p := q.pic(2, 1)
 p.fcode[0] = [2]int{2, 1}
 s := vSlice{row: 0, q: 5}
 for c := 0; c < 6; c++ {
 	m := vMB{fwd: true, fmv: true}
 	if c == 2 {
 		m.mv2[0][0] = 31
 	}
 	if c == 3 {
 		m.mv2[0][0] = -32
 	}
 	s.mbs = append(s.mbs, m)
 }
 p.slices = []vSlice{s}
 e.pic(p)
''')
vbug("v09-third-extra-byte", "V09", "at least four bytes of extra slice information, the third of which is zero", "the bytes behind it are taken for macroblocks",
 [("video/slice.go", "				s.extra_information = append(s.extra_information, uint8(data))\n", "				s.extra_information = append(s.extra_information, uint8(data))\n				if len(s.extra_information) == 3 && data == 0 {\n					break\n				}\n")], '''
 e := newVid(mbSize(4, 1))
 p := textured(vParams{}.pic(1, 0), 4, 1, 4, 1)
 p.slices[0].intra, p.slices[0].extra = 1, []byte{1, 2, 0, 4}
 e.pic(p)
''')

# ---- run the generator
def build():
    src = "package mc\n\nimport (\n\t\"fmt\"\n\t\"hash/crc32\"\n\t\"testing\"\n)\n\nfunc TestGen(t *testing.T) {\n\tdump := func(id string, e *vEnc, cut bool) {\n\t\tb, want := e.b, e.out\n\t\tif !cut {\n\t\t\tb, want = e.finish()\n\t\t}\n\t\tfmt.Printf(\"GEN %s %x\", id, b)\n\t\tfor _, f := range want {\n\t\t\th := crc32.NewIEEE()\n\t\t\th.Write(f.y)\n\t\t\th.Write(f.cb)\n\t\t\th.Write(f.cr)\n\t\t\tfmt.Printf(\" %08x\", h.Sum32())\n\t\t}\n\t\tfmt.Println()\n\t}\n"
    for id, code in GEN.items():
        src += "\tfunc() {\n\t\tcut := false\n\t\t_ = cut\n" + code + "\n\t\tdump(%s, e, cut)\n\t}()\n" % json.dumps(id)
    src += "}\n"
    t = tempfile.mkdtemp(prefix="gen.")
    open(t + "/g.go", "w").write(src)
    json.dump({"Replace": {ROOT + "/mc/zz_gen_test.go": t + "/g.go"}}, open(t + "/o.json", "w"))
    r = subprocess.run(f". /opt/vp/env.sh; go test -overlay {t}/o.json -vet=off -count=1 -v -run '^TestGen$' .", cwd=ROOT + "/mc", shell=True, capture_output=True, text=True)
    subprocess.run(["rm", "-rf", t])
    got = {}
    for l in r.stdout.splitlines():
        if l.startswith("GEN "):
            p = l.split(" ")
            got[p[1]] = (p[2], p[3:])
    if len(got) < len(GEN): print("\n".join(l for l in r.stdout.splitlines() if not l.startswith("GEN"))[-3000:], r.stderr[-3000:])
    return got
_g = build()
HOLD = [("\tvar got []string\n", "\tvar got []string\n\tvar kept []*image.YCbCr\n"),
        ("\t\th := crc32.NewIEEE()\n\t\th.Write(img.Y)\n\t\th.Write(img.Cb)\n\t\th.Write(img.Cr)\n\t\tgot = append(got, fmt.Sprintf(\"%%08x\", h.Sum32()))\n\t}\n", "\t\tkept = append(kept, img)\n\t}\n\tfor i, img := range kept {\n\t\th := crc32.NewIEEE()\n\t\th.Write(img.Y)\n\t\th.Write(img.Cb)\n\t\th.Write(img.Cr)\n\t\tgot = append(got[:i], append([]string{fmt.Sprintf(\"%%08x\", h.Sum32())}, got[i:]...)...)\n\t}\n"),
        ('\t"hash/crc32"\n', '\t"hash/crc32"\n\t"image"\n')]
for b in BUGS:
    if "video" in b and b["id"] in _g:
        s, w = _g[b["id"]]
        t = b.get("template", DEMO)
        if b.get("hold"):
            for o, n in HOLD:
                assert o in t, o
                t = t.replace(o, n, 1)
        b["demo"] = t % (s, ", ".join('"%s"' % x for x in w + [b["video"]]))
