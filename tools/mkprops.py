#!/usr/bin/env python3
"""Writes properties.jsonl (one property per line) from the table below."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files, "state": state or [],
        "mechanism": [{"name": n, "where": w} for n, w in mech],
        "observe_at": observe, "hook_needed": None}})

# ---------------------------------------------------------------- transport stream
p("T01", "Transport packets decode to exactly what their bits say",
  "For every well-formed 188-byte transport packet, every published field of the packet, of its adaptation field and of its adaptation extension (flags, PID, counters, PCR/OPCR, splice countdown, LTW, piecewise rate, seamless-splice DTS) equals the value ISO/IEC 13818-1 assigns to those bits, and fields whose flags are clear are zero. The payload is exactly the bytes after the header and adaptation field (none when the packet carries no payload), and the adaptation field is present exactly when the control bits say so.",
  ["inputs"], "all header bit combinations, all adaptation flag bytes, all adaptation/private-data/extension lengths that fit a packet",
  "Tests parse two fixed packets and look at PID, adaptation control and payload length only; no optional adaptation field is ever decoded by a test.",
  ["ts/packet.go", "ts/adaptation_field.go"],
  [("header and payload parse", "ts/packet.go Packet.Next"), ("adaptation field parse", "ts/adaptation_field.go newAdaptationField/newAdaptationExt")],
  ["ts.NewPacket", "ts.Packet.Next"])
p("T02", "Each packet read consumes one 188-byte cell and forgets the previous one",
  "Reading packet after packet into the same packet object yields, for each packet, exactly what a fresh object reading that packet alone would yield: no field, adaptation data or payload byte survives from an earlier packet. Every successful read advances the stream by exactly 188 bytes whatever the adaptation control, so packet boundaries never drift.",
  ["histories", "inputs"], "all sequences of packet shapes (control 0-3, with/without adaptation contents, payload full of sync bytes) up to the bound, reused object versus fresh object",
  "The only multi-packet test reads three payload-only packets and prints PID and counter; reuse with differing shapes is never compared.",
  ["ts/packet.go", "ts/adaptation_field.go"],
  [("per-packet reset and framing", "ts/packet.go Packet.Next")],
  ["ts.Packet.Next"],
  [{"name": "payload buffer and AdaptationField", "meaning": "reused storage inside a Packet", "where": "ts/packet.go Packet"}])
p("T03", "Sync recovery skips garbage and gives up only after 188 bytes",
  "When the reader is not on a sync byte or not byte aligned, reading a packet discards input byte by byte up to the next sync byte and parses the packet there; at most 188 whole bytes are discarded by one read (a partial byte discarded for alignment not counted), after which the documented no-sync error is returned and a later read continues the search. Input that is already aligned on a sync byte is never discarded.",
  ["inputs", "histories"], "every garbage length around the 188-byte limit, every bit misalignment, any number of retries, garbage before and between packets",
  "No test feeds garbage or a misaligned reader.",
  ["ts/packet.go"], [("isAligned/realign", "ts/packet.go")], ["ts.Packet.Next", "ts.ErrNoSyncByte"])
p("T04", "Damaged transport packets give an error, never a crash or a hang",
  "For any bytes at all, reading packets terminates with packets or an error: it does not panic, hang or allocate memory out of proportion to the input. A stream cut exactly between packets ends with the end-of-file error, a stream cut inside a packet ends with the unexpected-end error, and an adaptation field (or private data or extension inside it) whose length does not fit its enclosing structure is rejected with an error. A packet never swallows the stream behind it: reading one takes no more than its 188 bytes and what its damaged length bytes announce.",
  ["inputs", "fault_sequences"], "every truncation point, every value of every length byte, every single-byte corruption of a packet corpus",
  "One test truncates one packet after 4 bytes; no test has an out-of-range length.",
  ["ts/packet.go", "ts/adaptation_field.go"], [("length checks and EOF mapping", "ts/packet.go Packet.Next, ts/adaptation_field.go")], ["ts.NewPacket", "ts.Packet.Next"])
p("T05", "Payload reader delivers exactly the selected payload bytes",
  "The bytes read from a payload reader are the concatenation, in stream order and each exactly once, of the payloads of the packets its tester accepts, whatever sizes of read buffer the caller uses and however the source splits its data. After the last byte the reader reports the stream's own terminating error (end of file at a packet boundary, unexpected end inside a packet), never together with data, and later calls keep failing without data. A read writes into the buffer it is given only, and leaves it alone afterwards.",
  ["inputs", "histories", "fault_sequences"], "all packet sequences over matching/foreign/payload-less/adaptation shapes, all read-size sequences and short-read patterns within the bound",
  "Tests read 2-5 payload-only packets with one big buffer; no payload-less packet, no odd buffer size, no short read.",
  ["ts/payload_reader.go", "ts/packet.go"], [("drain/fill/remainder", "ts/payload_reader.go payloadReader.Read")], ["ts.NewPayloadReader"],
  [{"name": "remainder", "meaning": "payload bytes not yet delivered", "where": "ts/payload_reader.go"}])
p("T06", "Skip-until and take-while select one exact window of packets",
  "For the payload reader and for the demultiplexer, delivery starts with the first packet the skip condition accepts (itself included) and stops just before the first later packet the take condition rejects (a packet the skip condition accepted is itself delivered whatever the take condition says); inside the window only packets accepted by the stream's own tester are delivered, outside it none. The result does not depend on read buffer sizes, and if the skip condition never accepts a packet the stream just ends with the source's error.",
  ["inputs", "histories"], "all packet label sequences, all skip and take conditions over the labels, several read sizes, up to the bound",
  "One demultiplexer test with one range; the payload reader's window control is never tested.",
  ["ts/payload_reader.go", "ts/demuxer.go"], [("skip/take", "ts/payload_reader.go Read, realign; ts/demuxer.go Go")], ["ts.StreamControlReader", "ts.Demuxer"])
p("T07", "Payload unit reader splits the stream into its exact payload units",
  "Reading from a payload unit reader yields the accepted packets' payloads grouped into units, each starting at a packet with the start indicator and running up to the next such packet; payloads before the first start are dropped. Every unit, the last one included, is delivered complete and is followed by one end-of-packet mark that never comes together with data; after the last unit and its mark the stream's own terminating error is reported. A read writes into the buffer it is given only, and leaves it alone afterwards.",
  ["inputs", "histories", "fault_sequences"], "all sequences over start/continuation/foreign/payload-less packets, all read sizes and short-read patterns within the bound",
  "The payload unit reader has no test at all.",
  ["ts/payload_unit_reader.go"], [("fill/drain state machine", "ts/payload_unit_reader.go")], ["ts.NewPayloadUnitReader", "ts.EOP"],
  [{"name": "ready/drained", "meaning": "whether a unit is buffered", "where": "ts/payload_unit_reader.go"}])
p("T08", "Demultiplexer delivers every matching packet once, in order, then closes",
  "Under every interleaving of the demultiplexer, its source and its consumers, each registered channel receives exactly the packets its tester accepts, in stream order and each once, and is closed after the last one; then the completion channel yields one value. When completion is signalled the reported error is the source's terminating error, or none if the take condition ended the stream; nothing deadlocks while consumers keep receiving.",
  ["schedules", "inputs"], "all interleavings of source progress and receives on 1-3 channels with overlapping or disjoint testers, for short packet sequences, within the deviation bound",
  "Tests run one schedule the Go runtime happens to choose, with disjoint testers and prompt consumers.",
  ["ts/demuxer.go"], [("delivery loop and deferred close", "ts/demuxer.go Go")], ["ts.Demuxer.Where", "ts.Demuxer.Go", "ts.Demuxer.Err"])
p("T09", "A packet handed to a consumer never changes afterwards",
  "Once a packet has been received from the demultiplexer its fields, adaptation data and payload bytes stay as they were in the stream, however far the demultiplexer runs on and whatever later packets contain. Consumers may therefore keep packets and read them at any time without a data race.",
  ["schedules", "histories"], "all interleavings of demultiplexer progress with receiving, holding and re-reading packets, within the deviation bound",
  "Tests look at a packet (or only count it) right after receiving it on whatever schedule occurs.",
  ["ts/demuxer.go", "ts/packet.go"], [("one packet object per delivery", "ts/demuxer.go Go")], ["ts.Demuxer.Where"])
p("T10", "Packet channels forward payloads and payload units exactly",
  "Under every interleaving of producer and consumer, the payload-only view of a packet channel yields each packet's payload once, in order, and closes when the input closes. The payload-unit view yields, per unit, the concatenation of payloads from a packet with the start indicator up to the next such packet, drops what precedes the first start, delivers the last unit when the input closes, and then closes; a unit already delivered never changes.",
  ["schedules", "inputs"], "all packet-shape sequences up to the bound and all interleavings of sends and receives, for both packet kinds (transport and elementary)",
  "No test uses the channel transforms.",
  ["ts/packet_channel.go", "pes/packet_channel.go"], [("forwarding goroutines", "ts/packet_channel.go, pes/packet_channel.go")], ["ts.PacketChannel.PayloadOnly", "ts.PacketChannel.PayloadUnit", "pes.PacketChannel.PayloadOnly"])
p("T11", "Packet testers compose as boolean logic",
  "Not, And and Or on packet testers compute the boolean negation, conjunction and disjunction of their operands for every packet and to any nesting depth, IsPID accepts exactly the packets of that PID, and IsPayloadUnitStart exactly those with the start indicator. Building a combined tester never changes the testers it was built from.",
  ["inputs", "programs"], "all tester expressions up to a depth over all PIDs/flags in the alphabet",
  "One And and two PIDs are tested; Not and Or are only used in passing.",
  ["ts/packet_tester.go"], [("closures", "ts/packet_tester.go")], ["ts.PacketTester"])

# ---------------------------------------------------------------- PES
p("P01", "PES packets decode to exactly what their bits say",
  "For every well-formed PES packet, stream id, length, every published header field (flags, presentation and decoding time stamps, header length), the published extension fields (flags, private data, P-STD buffer) and the payload equal what ISO/IEC 13818-1 assigns to the bits. Optional header fields the package does not publish (ESCR, ES rate, trick mode, copy info, CRC, pack header field, sequence counter, second extension) and stuffing are skipped, so the payload always starts right after the header; stream ids without a PES header carry their data bytes as payload and padding carries none.",
  ["inputs"], "all 256 stream ids, all flag bytes, all extension flag combinations, all time-stamp bit patterns by field walk, all stuffing lengths that fit",
  "One fixed packet is parsed and only the presence of its extension is asserted.",
  ["pes/packet.go", "pes/header.go", "pes/extension.go", "pes/stream_assigments.go"], [("header/extension parse", "pes/header.go, pes/extension.go"), ("stream id classes", "pes/stream_assigments.go")], ["pes.NewPacket", "pes.Packet.Next"])
p("P02", "PES packet reads are framed by length and independent of history",
  "Reading packets one after another into the same packet object yields for each the same result as a fresh object reading it alone: no header, extension or payload of an earlier packet remains. A packet with a nonzero length consumes exactly that many bytes after the length field for every stream id; a packet with a PES header and length zero runs to the end of the source or to the end-of-packet mark of a payload unit.",
  ["histories", "inputs"], "all sequences of packet kinds (headered, header-less, padding, unbounded) up to the bound, reused versus fresh object",
  "No test reads two PES packets.",
  ["pes/packet.go"], [("per-packet reset, framing by length", "pes/packet.go Packet.Next")], ["pes.Packet.Next"])
p("P03", "Damaged PES packets give an error, never a crash or a hang",
  "For any bytes at all, reading PES packets terminates with packets or an error: no panic, no hang, no allocation out of proportion to the declared 16-bit length. A missing start code prefix, missing marker bit in the header or a decoded field, non-0xFF stuffing byte, a header longer than its declared length or than its packet, and any truncation inside a packet, by the end of the source or of its payload unit, are each reported as an error (not as end of file or end of unit); a missing start code is reported without consuming input.",
  ["inputs", "fault_sequences"], "every truncation point, every single-byte corruption and every length value of a packet corpus",
  "No test feeds a malformed PES packet.",
  ["pes/packet.go", "pes/header.go", "pes/extension.go"], [("length and marker checks", "pes/header.go, pes/packet.go")], ["pes.NewPacket", "pes.ErrStartCodePrefixNotFound", "pes.ErrMarkerNotFound", "pes.ErrInvalidStuffingByte"])
p("P04", "PES payload reader delivers exactly the concatenated payloads",
  "The bytes read from a PES payload reader are the concatenation, in order and each exactly once, of the payloads of the packets in the source, whatever read sizes the caller uses, however the source splits its data, and also when the source marks payload-unit ends. After the last byte it reports the terminating error (end of file at a packet boundary), never together with data, and a unit end inside of a packet is an error. A read writes into the buffer it is given only, and leaves it alone afterwards.",
  ["inputs", "histories", "fault_sequences"], "all packet-kind sequences, read-size sequences, short-read patterns and unit boundaries within the bound",
  "The PES payload reader has no test.",
  ["pes/payload_reader.go"], [("drain/fill/remainder", "pes/payload_reader.go Read")], ["pes.NewPayloadReader"],
  [{"name": "remainder", "meaning": "payload bytes not yet delivered", "where": "pes/payload_reader.go"}])

# ---------------------------------------------------------------- PS
p("S01", "Pack and system headers decode to exactly what their bits say",
  "For every well-formed pack header, with or without stuffing and system header, the clock reference base and extension, mux rate, and all system header fields (rate, audio and video bounds, flags, and every stream entry with its buffer scale and size) equal the transmitted values. Reading a header consumes exactly the header, so what follows is parsed from the right byte, and a wrong start code or missing marker bit is an error.",
  ["inputs"], "all values by field walk, all stuffing lengths, 0 to several stream entries, each marker bit cleared in turn",
  "The program stream package has no tests at all.",
  ["ps/pack_header.go", "ps/system_header.go", "ps/start_code.go"], [("header parse", "ps/pack_header.go, ps/system_header.go")], ["ps.NewPackHeader", "ps.StartCode"])
p("S02", "Program stream decoder delivers all packs and packets and reports the end",
  "Under every interleaving of decoder and consumer, the decoder delivers every pack in order and, per pack, every packet in order and intact, closing each packet channel when its pack ends and the pack channel at the end of the stream. Completion reports success exactly when the stream ended with the program end code and no packet was lost; otherwise it reports failure and an error is available.",
  ["schedules", "inputs", "fault_sequences"], "all pack/packet sequences up to the bound, all interleavings of source progress and receives within the deviation bound, truncation at every byte, one damaged packet at every position",
  "The program stream package has no tests at all.",
  ["ps/decoder.go", "ps/pack.go"], [("decoder and pack goroutines", "ps/decoder.go Go, ps/pack.go readPack")], ["ps.NewDecoder", "ps.Pack.Packets"])
p("S03", "Pack reader delivers exactly the concatenated payloads and always ends",
  "The bytes read from a pack reader are the concatenation, in order and each exactly once, of the payloads of all packets in all packs, whatever read sizes are used and however the source splits its data. It reports end of file after the program end code; a stream that is truncated, damaged or lacks the end code yields the bytes before the damage and then an error, never an endless run of empty reads, a crash or silently missing bytes. A read writes into the buffer it is given only, and leaves it alone afterwards.",
  ["inputs", "histories", "fault_sequences"], "all pack/packet sequences, read sizes and short-read patterns within the bound; every truncation point; single-byte corruption",
  "The program stream package has no tests at all.",
  ["ps/pack_reader.go"], [("drain/step loop", "ps/pack_reader.go Read")], ["ps.NewPackReader"],
  [{"name": "remainder", "meaning": "payload bytes not yet delivered", "where": "ps/pack_reader.go"}])

# ---------------------------------------------------------------- video
p("V01", "Intra pictures reconstruct to the standard's samples",
  "Every sample of an intra-coded 4:2:0 frame picture equals what ISO/IEC 13818-2 defines for the transmitted coefficients: DC prediction and precision, inverse scan (zigzag and alternate), inverse quantisation with linear and non-linear scale and the matrices in force, saturation, mismatch control, inverse DCT (as in the reference decoder's integer transform), clipping, and frame or field DCT line placement. It holds for every macroblock position, any slice partition of a row and any picture size.",
  ["inputs", "configurations"], "all combinations of precision, scan, scale type, VLC table, DCT type; all quantiser codes; all coefficient positions with representative levels; all DC differentials; coefficient pairs",
  "The video tests parse one sequence header; no picture is ever decoded by a test.",
  ["video/block.go", "video/decode_block.go", "video/idct.go", "video/macroblock.go", "video/slice.go", "video/quantiser_scale_table.go", "video/dc_dct_predictors.go", "video/picture_data.go"],
  [("block decode pipeline", "video/block.go read, video/decode_block.go, video/idct.go"), ("placement", "video/macroblock.go updateFrameSlice")], ["video.VideoSequence.Next"])
p("V02", "Every variable-length code decodes to its meaning, every non-code is an error",
  "Each code word of the macroblock address increment (with escapes), macroblock type, coded block pattern, motion code, DC size and both DCT coefficient tables (with escape, end of block and first-coefficient forms) decodes to the value the standard's tables assign and consumes exactly its own bits. A bit pattern that is no code word where one is required makes decoding fail with an error instead of being skipped or guessed.",
  ["inputs"], "all code words of all tables, all escape levels, all invalid prefixes",
  "No VLC is exercised by a test.",
  ["video/dtc_coefficients.go", "video/macroblock_addressing.go", "video/macroblock_type.go", "video/coding_block_pattern.go", "video/motion_vectors.go"],
  [("Huffman tables", "video/dtc_coefficients.go etc.")], ["video.VideoSequence.Next"])
p("V03", "Predicted pictures reconstruct to the standard's samples",
  "Every sample of a P frame picture (4:2:0) equals the motion-compensated prediction from the most recent reference picture plus the decoded residual, clipped: full- and half-sample luma interpolation with the standard's rounding, chroma vectors halved toward zero, frame prediction as well as field prediction with either field of the reference for either field of the macroblock, vector decoding with every f_code including wrap-around, zero-vector and skipped macroblocks copying the co-located samples, uncoded blocks adding nothing.",
  ["inputs", "configurations"], "all frame and field vectors that stay inside small pictures from every macroblock position, all (predictor, code, residual) combinations per f_code in range, all coded block patterns, both DCT types",
  "No predicted picture is decoded by a test.",
  ["video/motion_compensation.go", "video/motion_vectors.go", "video/motion_vector_info.go", "video/copy_macroblocks.go", "video/macroblock.go"],
  [("vector update and prediction", "video/motion_vectors.go update_actual, video/motion_compensation.go")], ["video.VideoSequence.Next"])
p("V04", "Bidirectional pictures use the right references and average correctly",
  "Every sample of a B frame picture equals the forward prediction from the preceding reference in display order, the backward prediction from the following one, or their average rounded up, plus residual, clipped, with frame as well as field prediction; skipped macroblocks repeat the previous macroblock's vectors and directions. This holds across groups of pictures (closed, open, several in a row), and B pictures never become references.",
  ["inputs", "histories"], "all prediction modes with all small forward x backward vector pairs and half-sample phases; all reference histories of I/P/B pictures and group boundaries up to the bound",
  "No bidirectional picture is decoded by a test.",
  ["video/motion_compensation.go", "video/copy_macroblocks.go", "video/frame_store.go", "video/frame_provider.go"],
  [("reference selection", "video/frame_store.go set/add"), ("averaging", "video/motion_compensation.go")], ["video.VideoSequence.Next"])
p("V05", "Predictors carry and reset across macroblocks exactly as specified",
  "DC predictors, motion vector predictors, the quantiser scale and the last prediction direction carry over and reset between consecutive macroblocks exactly as ISO/IEC 13818-2 prescribes, for every sequence of macroblock kinds (intra with or without concealment vectors, coded with frame or field vectors, uncoded, no-vector, skipped, requantised) and slice breaks in I, P and B pictures. Nothing carries from one slice, picture or sequence into the next except the reference pictures and header state.",
  ["histories"], "all sequences of macroblock kinds up to the bound depth in every picture type, slice breaks anywhere",
  "No macroblock is decoded by a test.",
  ["video/macroblock.go", "video/slice.go", "video/motion_vectors.go", "video/dc_dct_predictors.go"],
  [("resets", "video/macroblock.go macroblock, video/slice.go slice")], ["video.VideoSequence.Next"],
  [{"name": "dcDctPredictors / motionVectorData / quantiser_scale_code", "meaning": "slice-local predictor state", "where": "video/slice.go"}])
p("V06", "Frames come out once each, in display order",
  "For every well-formed sequence of frame pictures with fewer than 1024 B pictures in a row, successive calls for the next frame return each coded picture exactly once and in display order, group of pictures after group of pictures, whatever the arrangement of I, P and B pictures, open or closed groups, groups longer than the 1024-value temporal counter, long runs of B pictures, and repeated sequence headers. After the last picture the end-of-sequence error is returned, no picture being lost, and a following sequence in the same stream then decodes as if it stood alone. Decoding that starts at a repeated sequence header in front of a group gives the same frames, from that group's first reference picture on.",
  ["histories"], "all group structures up to the picture bound, several groups, optional repeated sequence headers, concatenated sequences, a group past the counter wrap",
  "No frame is decoded by a test.",
  ["video/video_sequence.go", "video/frame_provider.go", "video/frame_store.go"],
  [("reordering", "video/video_sequence.go Next, video/frame_store.go tryGet")], ["video.VideoSequence.Next", "video.EOS"],
  [{"name": "frameCounter", "meaning": "next display index", "where": "video/video_sequence.go"}])
p("V07", "Quantiser matrices in force are the last ones transmitted or the defaults",
  "At every picture, intra and non-intra blocks are dequantised with the matrix most recently set by a sequence header or a quant matrix extension, transmitted values being taken in zigzag order; a sequence header without a matrix restores the standard's default. Matrices set for one kind of block never affect the other, and chroma matrices of an extension do not affect 4:2:0 pictures.",
  ["histories", "inputs"], "all sequences of header/extension matrix events up to the bound; every matrix element position",
  "A test parses one sequence header and compares the raw matrix; its use in decoding is never tested.",
  ["video/sequence_header.go", "video/quant_matrix_extension.go", "video/quantisation_matrix.go", "video/decode_block.go"],
  [("matrix loading", "video/sequence_header.go sequence_header, video/quant_matrix_extension.go")], ["video.VideoSequence.Next"],
  [{"name": "quantisationMatricies", "meaning": "matrices in force", "where": "video/video_sequence.go"}])
p("V08", "Damaged or truncated video gives an error, never a crash or a hang",
  "For any bytes at all, repeatedly asking for the next frame terminates in an error after finitely many frames, without panicking, looping, or reading a stream cut short as complete. Unsupported syntax (MPEG-1 streams, chroma formats other than 4:2:0, scalable extensions, field pictures, dual-prime) is reported as an error, and a stream that is cut inside a picture never yields that picture.",
  ["inputs", "fault_sequences"], "every truncation point, every single-bit flip, and every byte overwritten by extreme values, over a corpus of small streams covering all macroblock kinds and headers",
  "No test feeds damaged video.",
  ["video/slice.go", "video/macroblock.go", "video/block.go", "video/frame_provider.go", "video/motion_compensation.go", "video/copy_macroblocks.go", "video/extension_and_user_data.go"],
  [("bounds checks and error returns", "video/*.go")], ["video.VideoSequence.Next"])
p("V09", "Optional headers, user data and extra bits are skipped without effect",
  "User data, sequence display extensions, picture display, copyright and temporal-scalable extensions, extensions with reserved identifiers, extra picture and slice information bytes, zero stuffing before start codes, and group headers' time codes change nothing in the decoded frames wherever the syntax permits them. Aligning to a start code discards bytes up to the first byte-aligned occurrence of that code and leaves it unread, and checking for a start code or extension id never consumes bits while asserting consumes them only on a match.",
  ["inputs", "programs"], "all subsets and orders of optional elements at every permitted place up to the bound; all contents over a small byte alphabet for scanning",
  "No test decodes optional elements; AlignTo, Check and Assert are untested.",
  ["video/extension_and_user_data.go", "video/user_data.go", "video/next_start_code.go", "video/start_codes.go", "video/extension_id.go", "video/video_sequence.go", "video/sequence_display_extension.go", "video/picture_header.go", "video/slice.go"],
  [("optional element skipping", "video/extension_and_user_data.go"), ("scanning", "video/video_sequence.go AlignTo, video/next_start_code.go")], ["video.VideoSequence.Next", "video.VideoSequence.AlignTo", "video.StartCode", "video.ExtensionID"])
p("V10", "Time codes decode and print correctly for every 25-bit value",
  "For every group of pictures header, the drop-frame flag, hours, minutes, seconds and pictures of its time code, and its closed and broken flags, are the transmitted bits; the printed form is hours:minutes:seconds:pictures with two-digit fields and a semicolon before the pictures when drop-frame is set. Reading the header consumes exactly the header and its stuffing.",
  ["inputs"], "all 2^25 time codes and both flags",
  "Untested.",
  ["video/group_of_pictures_header.go"], [("bit slicing", "video/group_of_pictures_header.go TimeCode, String")], ["video.ReadGOPHeader", "video.TimeCode"])
p("V11", "Picture geometry follows the sequence header",
  "The reported size is unknown before the first sequence header and afterwards the transmitted width and height including their extension bits; every returned frame covers the whole picture rounded up to whole macroblocks (to macroblock pairs vertically when the sequence is interlaced) with 4:2:0 chroma planes. Slices land on the macroblock row their start code names, also in pictures so tall that the row number needs the slice extension bits, and a later sequence header takes effect for the pictures after it.",
  ["inputs", "configurations", "histories"], "all small sizes, all extension-bit combinations, interlaced/progressive, size changes between sequences, tall pictures",
  "One test reads 12-bit sizes from one header.",
  ["video/video_sequence.go", "video/picture_data.go", "video/slice.go", "video/sequence_header.go", "video/sequence_extension.go"],
  [("Size, frame allocation, slice row", "video/video_sequence.go Size, video/picture_data.go, video/slice.go")], ["video.VideoSequence.Size", "video.VideoSequence.Next"])
p("V12", "A returned frame never changes afterwards",
  "A frame returned to the caller keeps its dimensions and every sample value however many further frames are decoded, including when it serves as a reference, when later pictures skip macroblocks, and across groups and sequences. Two returned frames never share sample storage.",
  ["histories"], "all picture-type histories up to the bound, all frames held and compared after every later step",
  "No frame is decoded by a test.",
  ["video/picture_data.go", "video/frame_store.go", "video/copy_macroblocks.go"],
  [("fresh frame buffer per picture", "video/picture_data.go createFrameBuffer")], ["video.VideoSequence.Next"])

# ---------------------------------------------------------------- cross-cutting
p("X01", "Results do not depend on how the source delivers its bytes",
  "Every reader, parser and decoder of the library produces the same output and the same final error for a given byte stream however the source splits it into reads, as long as each read returns either at least one byte or an error (not both: the bit reader underneath drops bytes that come with an error). A source error other than end of file surfaces to the caller, after exactly the output that the bytes before it determine.",
  ["fault_sequences", "inputs"], "all chunkings with up to the bounded number of cut points, uniform chunk sizes 1..N, and an injected error at every byte offset, for every entry point",
  "Tests read from in-memory readers that return everything asked for.",
  ["ts/packet.go", "ts/payload_reader.go", "ts/payload_unit_reader.go", "pes/packet.go", "pes/payload_reader.go", "ps/pack_reader.go", "ps/decoder.go", "video/video_sequence.go"],
  [("full reads", "io.ReadFull/ReadAtLeast and bit reader use throughout")], ["all constructors taking an io.Reader or bit reader"])
p("X02", "Independent instances never influence each other",
  "Any number of readers, demultiplexers and decoders working on different sources produce exactly what each would produce alone, under every interleaving of their operations and when run on different goroutines without synchronisation. There is no data race on shared state inside the library.",
  ["schedules"], "all interleavings, at source-read granularity and within the preemption bound, of two or three instances of each kind and of mixed kinds; plus a race-detector run",
  "Tests run one instance at a time.",
  ["video/dtc_coefficients.go", "video/macroblock_type.go", "video/quantisation_matrix.go", "video/macroblock.go", "ts/packet.go", "pes/packet.go"],
  [("no mutable package state", "all packages")], ["all public constructors"])
p("X03", "The documented pipelines are lossless end to end",
  "Video carried in a transport stream (bounded PES packets read through the payload unit reader or the payload reader, unbounded ones through the payload unit reader) or in a program stream (read through the pack reader) decodes through the documented chain of readers to exactly the frames, in order, and the end-of-sequence result, that decoding the bare elementary stream gives. This holds for every way of splitting the video into PES packets and those into transport packets, with other PIDs, payload-less packets, adaptation stuffing and padding in between. Damaged video gives, through the chains, the frames and the error that the bare damaged stream gives.",
  ["inputs", "configurations"], "all split points and interleavings of foreign/padding/adaptation packets within the bound, for each pipeline",
  "No test connects two packages.",
  ["ts/payload_unit_reader.go", "ts/payload_reader.go", "pes/payload_reader.go", "ps/pack_reader.go", "video/video_sequence.go"],
  [("reader composition", "README pipeline")], ["ts.NewPayloadUnitReader", "pes.NewPayloadReader", "ps.NewPackReader", "video.NewVideoSequence"])

p("X04", "Output is delivered without waiting for input that it does not need",
  "A stream that arrives live is decoded as it arrives: whenever the source has not yet supplied more, everything that is complete has already been delivered. A transport packet is complete with its 188th byte, a PES packet of known length and its payload with its last byte, a payload unit with the packet that starts the next one, a pack header with the start code after it, the end of a program stream or of a video sequence with its end code, and a frame with the start code that follows the last picture that it and the frames shown before it need. Conditions end a stream with the packet that fails them. A reader asked for several bytes may wait for as many, and each reader of a chain may look ahead by the seven bytes its bit reader fetches at most.",
  ["inputs", "schedules"], "all words of packets, packs and pictures up to the bound through every entry point, the source standing still at every byte offset, several read sizes",
  "Tests read complete in-memory streams, where waiting cannot be told from delivering.",
  ["ts/packet.go", "ts/payload_reader.go", "ts/payload_unit_reader.go", "ts/demuxer.go", "ts/packet_channel.go", "pes/packet.go", "pes/payload_reader.go", "ps/pack.go", "ps/pack_header.go", "ps/pack_reader.go", "ps/decoder.go", "video/video_sequence.go", "video/picture_data.go"],
  [("reads that precede a delivery", "Read, Next and Go of all packages")], ["ts.Packet.Next", "ts.NewPayloadReader", "ts.NewPayloadUnitReader", "ts.Demuxer", "pes.Packet.Next", "pes.NewPayloadReader", "ps.NewPackReader", "ps.NewDecoder", "video.VideoSequence.Next"])
p("X05", "Memory and goroutines do not grow with the length of the stream",
  "However long a stream has been running, the memory that a reader, demultiplexer, channel transform, decoder or video sequence keeps, the memory it allocates for a further packet, unit or picture, and the number of goroutines it runs depend on the packets and pictures at hand alone and not on how many have gone by, provided the caller lets go of what it received. When a stream has ended and the outputs have been received, no goroutine of the library is left.",
  ["histories"], "all words of packets, packs, headers and pictures up to the bound as the period of streams of thousands of periods, through every entry point",
  "The longest stream of a test has a few packets.",
  ["ts/demuxer.go", "ts/packet_channel.go", "ts/payload_reader.go", "ts/payload_unit_reader.go", "pes/payload_reader.go", "ps/pack.go", "ps/decoder.go", "ps/pack_reader.go", "video/frame_store.go", "video/video_sequence.go"],
  [("retained state", "reader, decoder and sequence types")], ["ts.Demuxer", "ts.NewPayloadReader", "ts.NewPayloadUnitReader", "pes.NewPayloadReader", "ps.NewPackReader", "ps.NewDecoder", "video.VideoSequence.Next"],
  [{"name": "remainder / buffer / frames / registeredChannels", "meaning": "what is kept between deliveries", "where": "ts/payload_reader.go, ts/payload_unit_reader.go, video/frame_store.go"}])
p("X06", "All routes through a stream agree, also when it is damaged",
  "Whatever the bytes, well-formed or damaged: reading transport packets one by one into one object or into new ones, the payload reader, the payload unit reader, the demultiplexer and its channels of payloads and units all see the same packets in front of the first error, with the same payloads and units, and end with the same error. So do PES packets read one by one into one object or new ones, the PES payload reader and the channel of PES payloads. The program stream decoder and the pack reader deliver the same payloads of a stream that begins with a pack start code, and the one completes successfully exactly when the other ends with end of file. A packet that was read into a new object does not change while others are read.",
  ["inputs"], "every value of every byte, cuts, removals, insertions, pairs of damaged bytes and exchanged segments of corpus streams, and all short byte strings over an alphabet, through every route",
  "Tests read undamaged streams, each by one route only.",
  ["ts/packet.go", "ts/payload_reader.go", "ts/payload_unit_reader.go", "ts/demuxer.go", "ts/packet_channel.go", "pes/packet.go", "pes/payload_reader.go", "pes/packet_channel.go", "ps/decoder.go", "ps/pack.go", "ps/pack_reader.go"],
  [("error and payload propagation", "Read, Next and Go of each route")], ["ts.NewPacket", "ts.Packet.Next", "ts.NewPayloadReader", "ts.NewPayloadUnitReader", "ts.Demuxer", "ts.PacketChannel", "pes.NewPacket", "pes.Packet.Next", "pes.NewPayloadReader", "pes.PacketChannel", "ps.NewDecoder", "ps.NewPackReader"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
