From faebc8ca88ecb8c8f7f6e3c3d428009a7d7d4d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:53 +0000
Subject: [PATCH 01/50] fix: ts: a reused Packet keeps the adaptation field and
 payload of the previous packet

---
 ts/packet.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ts/packet.go b/ts/packet.go
index 1cbcf92..1f9905b 100644
--- a/ts/packet.go
+++ b/ts/packet.go
@@ -75,6 +75,10 @@ func (packet *Packet) Next(br bitreader.BitReader) (err error) {
 		return
 	}
 
+	// forget the adaptation field and payload of the previous packet
+	packet.AdaptationField = nil
+	packet.Payload = nil
+
 	packet.TransportErrorIndicator, err = br.Read1()
 	if err != nil {
 		return
-- 
2.43.0


From 23b485a780804826529ba79126c592c3fd59e430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:04 +0000
Subject: [PATCH 02/50] fix: ts: an adaptation field longer than the packet
 crashes Packet.Next

---
 ts/packet.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ts/packet.go b/ts/packet.go
index 1f9905b..f7ea9fc 100644
--- a/ts/packet.go
+++ b/ts/packet.go
@@ -15,6 +15,10 @@ const MaxPayloadSize = 184
 // ErrNoSyncByte is the error returned if a sync byte cannot be located in the bitstream.
 var ErrNoSyncByte = errors.New("no sync byte")
 
+// ErrInvalidLength is the error returned if an adaptation field, or a section inside
+// of it, is longer than the structure that contains it.
+var ErrInvalidLength = errors.New("invalid length")
+
 // Packet is a parsed Transport Stream packet from the bit stream.
 //
 //                   ┌────────────────┬──────────────────────────────────────────────────────────────────────┐
@@ -125,6 +129,9 @@ func (packet *Packet) Next(br bitreader.BitReader) (err error) {
 		if err != nil {
 			return
 		}
+		if length+1 > payloadSize {
+			return ErrInvalidLength
+		}
 		payloadSize -= length + 1
 	}
 
-- 
2.43.0


From b49eed6e8a481d1fd35a908b49060aca34122087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:15 +0000
Subject: [PATCH 03/50] fix: ts: private data or an extension longer than its
 adaptation field underflows the length

---
 ts/adaptation_field.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ts/adaptation_field.go b/ts/adaptation_field.go
index 80430d5..3eafd82 100644
--- a/ts/adaptation_field.go
+++ b/ts/adaptation_field.go
@@ -223,14 +223,20 @@ func newAdaptationField(br bitreader.BitReader) (*AdaptationField, uint32, error
 		if af.TransportPrivateData, length, err = newTransportPrivateData(br); err != nil {
 			return nil, 0, err
 		}
+		if length+1 > remainLength {
+			return nil, 0, ErrInvalidLength
+		}
 		remainLength -= length + 1
 	}
 
-	if remainLength >= 2 && af.AdaptationFieldExtensionFlag {
+	if remainLength >= 1 && af.AdaptationFieldExtensionFlag {
 		var length uint32
 		if af.AdapatationExtension, length, err = newAdaptationExt(br); err != nil {
 			return nil, 0, err
 		}
+		if length+1 > remainLength {
+			return nil, 0, ErrInvalidLength
+		}
 		remainLength -= length + 1
 	}
 
-- 
2.43.0


From e9e36fe7bc33319479df2e10726daf8a031dcf32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:26 +0000
Subject: [PATCH 04/50] fix: ts: reserved bytes at the end of an adaptation
 extension are taken for the payload

---
 ts/adaptation_field.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ts/adaptation_field.go b/ts/adaptation_field.go
index 3eafd82..71e06b6 100644
--- a/ts/adaptation_field.go
+++ b/ts/adaptation_field.go
@@ -117,6 +117,13 @@ func newAdaptationExt(br bitreader.BitReader) (*AdaptationExt, uint32, error) {
 			return nil, 0, err
 		}
 		ae.DTSNextAU += v
+		br.Skip(1)
+		remainLength -= 5
+	}
+
+	// skip the reserved bytes
+	if err = br.Skip(uint(remainLength) * 8); err != nil {
+		return nil, 0, err
 	}
 
 	return &ae, ae.length, nil
-- 
2.43.0


From 62431e8e64d3ff85ca8244699f8e794989a46f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:26 +0000
Subject: [PATCH 05/50] fix: ts: a packet without payload is not read to the
 end of its 188 bytes

---
 ts/packet.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ts/packet.go b/ts/packet.go
index f7ea9fc..98c37a1 100644
--- a/ts/packet.go
+++ b/ts/packet.go
@@ -144,6 +144,9 @@ func (packet *Packet) Next(br bitreader.BitReader) (err error) {
 		} else if err != nil {
 			return
 		}
+	} else if err = br.Skip(uint(payloadSize) * 8); err != nil {
+		// without a payload, the rest of the packet is unused
+		return
 	}
 
 	return nil
-- 
2.43.0


From 7425acabc24bc46fde6dfe4b78a76a2581a27f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:27 +0000
Subject: [PATCH 06/50] fix: ts: payload reader loops forever if the stream
 ends before SkipUntil accepts a packet

---
 ts/payload_reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ts/payload_reader.go b/ts/payload_reader.go
index 6391af9..8dcec95 100644
--- a/ts/payload_reader.go
+++ b/ts/payload_reader.go
@@ -96,7 +96,7 @@ func (r *payloadReader) next() error {
 
 func (r *payloadReader) realign() (err error) {
 	for {
-		r.next()
+		err = r.next()
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 6bbc757b4a840860457a48525cf32d80bf2d7421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:43 +0000
Subject: [PATCH 07/50] fix: ts: SkipUntil delivers the payload of a packet the
 payload reader does not select

---
 ts/payload_reader.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ts/payload_reader.go b/ts/payload_reader.go
index 8dcec95..b11141d 100644
--- a/ts/payload_reader.go
+++ b/ts/payload_reader.go
@@ -45,6 +45,7 @@ func (r *payloadReader) Read(p []byte) (n int, err error) {
 		if r.skipUntil != nil {
 			err = r.realign()
 			if err != nil {
+				r.currentPacket = nil // not found yet, keep looking
 				return
 			}
 
@@ -102,7 +103,9 @@ func (r *payloadReader) realign() (err error) {
 		}
 		done := r.skipUntil(r.currentPacket)
 		if done {
-			r.remainder.Write(r.currentPacket.Payload)
+			if r.where(r.currentPacket) {
+				r.remainder.Write(r.currentPacket.Payload)
+			}
 			return nil
 		}
 	}
-- 
2.43.0


From ebe34a1be0b7e1b74bda7206db2a8cd05ca29457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:44 +0000
Subject: [PATCH 08/50] fix: ts: TakeWhile delivers a part of the payload of
 the packet it rejects

---
 ts/payload_reader.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/ts/payload_reader.go b/ts/payload_reader.go
index b11141d..21d9a7b 100644
--- a/ts/payload_reader.go
+++ b/ts/payload_reader.go
@@ -73,18 +73,18 @@ func (r *payloadReader) Read(p []byte) (n int, err error) {
 			return
 		}
 
+		cont := r.takeWhile(r.currentPacket)
+		if cont == false {
+			r.closed = true
+			return n, io.EOF
+		}
+
 		if r.where(r.currentPacket) {
 			copied := copy(p, r.currentPacket.Payload)
 			n = n + copied
 			p = p[copied:]
 			remainder = r.currentPacket.Payload[copied:]
 		}
-
-		cont := r.takeWhile(r.currentPacket)
-		if cont == false {
-			r.closed = true
-			return n, io.EOF
-		}
 	}
 
 	_, err = r.remainder.Write(remainder)
-- 
2.43.0


From 61b7faf79c996e360dbca51740aa77c9f91466f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:44 +0000
Subject: [PATCH 09/50] fix: ts: payload reader returns its last bytes together
 with the error, where a bit reader loses them

---
 ts/payload_reader.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/ts/payload_reader.go b/ts/payload_reader.go
index 21d9a7b..1d9f628 100644
--- a/ts/payload_reader.go
+++ b/ts/payload_reader.go
@@ -24,6 +24,7 @@ type payloadReader struct {
 	takeWhile     PacketTester
 	remainder     bytes.Buffer
 	closed        bool
+	pending       error // to be returned by the next Read
 }
 
 func (r *payloadReader) SkipUntil(skipUntil PacketTester) {
@@ -36,6 +37,19 @@ func (r *payloadReader) TakeWhile(takeWhile PacketTester) {
 
 func (r *payloadReader) Read(p []byte) (n int, err error) {
 
+	// an error is never returned together with data, because a bit reader
+	// discards such data
+	if r.pending != nil {
+		err, r.pending = r.pending, nil
+		return 0, err
+	}
+
+	defer func() {
+		if n > 0 && err != nil {
+			r.pending, err = err, nil
+		}
+	}()
+
 	if r.closed == true {
 		return 0, io.EOF
 	}
-- 
2.43.0


From d969dfe50ccf041cd6c0444929cc552c9ce6ca97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:03 +0000
Subject: [PATCH 10/50] fix: ts: payload unit reader loses the last unit of the
 stream

---
 ts/payload_unit_reader.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ts/payload_unit_reader.go b/ts/payload_unit_reader.go
index 6409600..767366b 100644
--- a/ts/payload_unit_reader.go
+++ b/ts/payload_unit_reader.go
@@ -36,10 +36,15 @@ type payloadUnitBuffer struct {
 	where          PacketTester
 	startIndicator PacketTester
 	state          streamState
+	err            error // ends the stream after the buffered unit
 }
 
 func (stream *payloadUnitBuffer) Read(p []byte) (n int, err error) {
 	if stream.state == drained {
+		if stream.err != nil {
+			err, stream.err, stream.currentPacket = stream.err, nil, nil
+			return 0, err
+		}
 		_, ferr := stream.fill()
 		if ferr != nil {
 			return 0, ferr
@@ -77,6 +82,7 @@ func (stream *payloadUnitBuffer) fill() (n int, err error) {
 			}
 			err = stream.next()
 			if err != nil {
+				stream.currentPacket = nil // not found yet, keep looking
 				return
 			}
 		}
@@ -92,8 +98,8 @@ func (stream *payloadUnitBuffer) fill() (n int, err error) {
 			}
 		}
 
-		err = stream.next()
-		if err != nil {
+		stream.err = stream.next()
+		if stream.err != nil {
 			break
 		}
 
-- 
2.43.0


From 9378c8b773c446c7a7a390a8726a30afde60815b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:04 +0000
Subject: [PATCH 11/50] fix: ts: payload unit reader returns EOP together with
 the last bytes, where a bit reader loses them

---
 ts/payload_unit_reader.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ts/payload_unit_reader.go b/ts/payload_unit_reader.go
index 767366b..3069096 100644
--- a/ts/payload_unit_reader.go
+++ b/ts/payload_unit_reader.go
@@ -58,6 +58,11 @@ func (stream *payloadUnitBuffer) Read(p []byte) (n int, err error) {
 		p = p[rn:]
 
 		if rerr == io.EOF {
+			// EOP is never returned together with data, because a bit reader
+			// discards such data
+			if n > 0 {
+				return n, nil
+			}
 			stream.state = drained
 			return n, EOP
 		} else if rerr != nil {
-- 
2.43.0


From f4e88f6b4488a90bad8ff168fc9e678f8d7c0537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:04 +0000
Subject: [PATCH 12/50] fix: ts: Demuxer overwrites packets it already
 delivered

---
 ts/demuxer.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ts/demuxer.go b/ts/demuxer.go
index c9d0a05..d03866b 100644
--- a/ts/demuxer.go
+++ b/ts/demuxer.go
@@ -69,6 +69,8 @@ func (tsd *Demuxer) Go() <-chan bool {
 		}()
 
 		for {
+			// consumers keep the packets delivered to them
+			p = &Packet{}
 			err := p.Next(tsd.reader)
 
 			if err != nil {
-- 
2.43.0


From 4a7b6c0da1ad379c9cb4826a3322c7b38662209d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:05 +0000
Subject: [PATCH 13/50] fix: ts: PacketChannel.PayloadUnit never delivers a
 unit

---
 ts/packet_channel.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/ts/packet_channel.go b/ts/packet_channel.go
index caafc69..c8b3739 100644
--- a/ts/packet_channel.go
+++ b/ts/packet_channel.go
@@ -25,18 +25,23 @@ func (input PacketChannel) PayloadUnit() <-chan []byte {
 	go func() {
 		defer close(output)
 		for packet := range input {
-			buf.Write(packet.Payload)
-
 			if packet.PayloadUnitStartIndicator {
 				if started {
 					data, err := ioutil.ReadAll(&buf)
-					if err != nil {
+					if err == nil {
 						output <- data
 					}
 				} else {
 					started = true
 				}
 			}
+
+			if started {
+				buf.Write(packet.Payload)
+			}
+		}
+		if started {
+			output <- buf.Bytes()
 		}
 	}()
 	return output
-- 
2.43.0


From 12d90c397d0c86ad2538d51d893cde2ce0b49468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:42 +0000
Subject: [PATCH 14/50] fix: pes: a reused Packet keeps the header and payload
 of the previous packet

---
 pes/packet.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pes/packet.go b/pes/packet.go
index 67ca412..c38b912 100644
--- a/pes/packet.go
+++ b/pes/packet.go
@@ -66,6 +66,10 @@ func (packet *Packet) Next(reader bitreader.BitReader) error {
 
 	reader.Skip(24)
 
+	// forget the header and payload of the previous packet
+	packet.Header = nil
+	packet.Payload = nil
+
 	packet.StreamID, err = reader.Read32(8)
 	if err != nil {
 		return err
-- 
2.43.0


From 6bf3dd39e3163081833d6ad243e59a4db5410484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:42 +0000
Subject: [PATCH 15/50] fix: pes: data bytes of streams without a PES header
 are not read

---
 pes/packet.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pes/packet.go b/pes/packet.go
index c38b912..3aa9bcc 100644
--- a/pes/packet.go
+++ b/pes/packet.go
@@ -110,6 +110,13 @@ func (packet *Packet) Next(reader bitreader.BitReader) error {
 		if err != nil {
 			return err
 		}
+	default:
+		// the data bytes follow the packet length directly
+		packet.Payload = make([]byte, int(packet.PacketLength))
+		_, err = io.ReadFull(reader, packet.Payload)
+		if err != nil {
+			return err
+		}
 	}
 
 	return nil
-- 
2.43.0


From bda63819605603d640bb71553d1a63ab2ba49295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:42 +0000
Subject: [PATCH 16/50] fix: pes: a header longer than its declared length or
 its packet underflows the payload length

---
 pes/header.go | 4 ++++
 pes/packet.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/pes/header.go b/pes/header.go
index 243a9e0..cfbaff4 100644
--- a/pes/header.go
+++ b/pes/header.go
@@ -166,6 +166,10 @@ func readHeader(reader bitreader.BitReader) (*Header, uint32, error) {
 		bytesRead += len
 	}
 
+	if header.HeaderDataLength < bytesRead-minimumHeaderSize {
+		return nil, 0, ErrInvalidHeaderLength
+	}
+
 	stuffingLength, err := readStuffingBytes(reader, header.HeaderDataLength-(bytesRead-minimumHeaderSize))
 	if err != nil {
 		return nil, 0, err
diff --git a/pes/packet.go b/pes/packet.go
index 3aa9bcc..c266b20 100644
--- a/pes/packet.go
+++ b/pes/packet.go
@@ -13,6 +13,7 @@ var (
 	ErrStartCodePrefixNotFound = errors.New("start code prefix not found")
 	ErrMarkerNotFound          = errors.New("marker not found")
 	ErrInvalidStuffingByte     = errors.New("invalid stuffing byte")
+	ErrInvalidHeaderLength     = errors.New("invalid header length")
 )
 
 // Packet is a parsed PES packet from a bitstream. A PES packet consists,
@@ -89,6 +90,9 @@ func (packet *Packet) Next(reader bitreader.BitReader) error {
 		}
 
 		if packet.PacketLength > 0 {
+			if headerLen > packet.PacketLength {
+				return ErrInvalidHeaderLength
+			}
 			var payloadLen = int(packet.PacketLength - headerLen)
 			packet.Payload = make([]byte, payloadLen)
 			_, err = io.ReadAtLeast(reader, packet.Payload, payloadLen)
-- 
2.43.0


From 8b8d8618d9403383a5d8f8346cc4e35b409ca655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:56 +0000
Subject: [PATCH 17/50] fix: pes: a packet cut off before its payload looks
 like the end of the stream

---
 pes/packet.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pes/packet.go b/pes/packet.go
index c266b20..b0e1822 100644
--- a/pes/packet.go
+++ b/pes/packet.go
@@ -48,7 +48,7 @@ func NewPacket(br bitreader.BitReader) (packet *Packet, err error) {
 }
 
 // Next reads the next packet from the bitstream
-func (packet *Packet) Next(reader bitreader.BitReader) error {
+func (packet *Packet) Next(reader bitreader.BitReader) (result error) {
 
 	var (
 		val uint32
@@ -67,6 +67,13 @@ func (packet *Packet) Next(reader bitreader.BitReader) error {
 
 	reader.Skip(24)
 
+	// from here on, the source must not end before the packet does
+	defer func() {
+		if result == io.EOF || result == ts.EOP {
+			result = io.ErrUnexpectedEOF
+		}
+	}()
+
 	// forget the header and payload of the previous packet
 	packet.Header = nil
 	packet.Payload = nil
-- 
2.43.0


From 31c39ac4364c9bb0a7d83717ad883ad5d1624fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:57 +0000
Subject: [PATCH 18/50] fix: pes: an error of the source at a marker is
 reported as a missing marker

---
 pes/extension.go |  4 +++-
 pes/header.go    | 15 +++++++++++++++
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/pes/extension.go b/pes/extension.go
index 4689133..21aef0a 100644
--- a/pes/extension.go
+++ b/pes/extension.go
@@ -66,7 +66,9 @@ func readExtension(r bitreader.BitReader) (*Extension, uint32, error) {
 	}
 
 	if extension.P_STD_BufferFlag {
-		if v, err := r.Read32(2); v != 1 || err != nil {
+		if v, err := r.Read32(2); err != nil {
+			return nil, 0, err
+		} else if v != 1 {
 			return nil, 0, ErrMarkerNotFound
 		}
 
diff --git a/pes/header.go b/pes/header.go
index cfbaff4..54b750e 100644
--- a/pes/header.go
+++ b/pes/header.go
@@ -31,6 +31,9 @@ type Header struct {
 func readHeader(reader bitreader.BitReader) (*Header, uint32, error) {
 
 	val, err := reader.Read32(2)
+	if err != nil {
+		return nil, 0, err
+	}
 	if val != 2 || err != nil {
 		return nil, 0, ErrMarkerNotFound
 	}
@@ -202,6 +205,9 @@ func readTimeStamp(marker uint32, reader bitreader.BitReader) (uint32, uint32, e
 	)
 
 	val, err = reader.Read32(4)
+	if err != nil {
+		return 0, 0, err
+	}
 	if val != marker || err != nil {
 		return 0, 0, ErrMarkerNotFound
 	}
@@ -214,6 +220,9 @@ func readTimeStamp(marker uint32, reader bitreader.BitReader) (uint32, uint32, e
 	timeStamp = timeStamp | (val << 30)
 
 	val, err = reader.Read32(1)
+	if err != nil {
+		return 0, 0, err
+	}
 	if val != 1 || err != nil {
 		return 0, 0, ErrMarkerNotFound
 	}
@@ -226,6 +235,9 @@ func readTimeStamp(marker uint32, reader bitreader.BitReader) (uint32, uint32, e
 	timeStamp = timeStamp | (val << 15)
 
 	val, err = reader.Read32(1)
+	if err != nil {
+		return 0, 0, err
+	}
 	if val != 1 || err != nil {
 		return 0, 0, ErrMarkerNotFound
 	}
@@ -238,6 +250,9 @@ func readTimeStamp(marker uint32, reader bitreader.BitReader) (uint32, uint32, e
 	timeStamp = timeStamp | val
 
 	val, err = reader.Read32(1)
+	if err != nil {
+		return 0, 0, err
+	}
 	if val != 1 || err != nil {
 		return 0, 0, ErrMarkerNotFound
 	}
-- 
2.43.0


From 9c5f512a74e4027dbc4efc2f70a841ca1a035113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:19 +0000
Subject: [PATCH 19/50] fix: pes: optional header fields that are not decoded
 crash the parser

---
 pes/extension.go | 24 +++++++++++++++++++++---
 pes/header.go    | 25 ++++++++++++++++++++-----
 2 files changed, 41 insertions(+), 8 deletions(-)

diff --git a/pes/extension.go b/pes/extension.go
index 21aef0a..b968df6 100644
--- a/pes/extension.go
+++ b/pes/extension.go
@@ -58,11 +58,21 @@ func readExtension(r bitreader.BitReader) (*Extension, uint32, error) {
 	}
 
 	if extension.PackHeaderFieldFlag {
-		panic("pack header field")
+		length, err := r.Read32(8)
+		if err != nil {
+			return nil, 0, err
+		}
+		if err = r.Skip(uint(length) * 8); err != nil {
+			return nil, 0, err
+		}
+		bytesRead += 1 + length
 	}
 
 	if extension.ProgramPacketSequenceCounterFlag {
-		panic("program packet sequence counter")
+		if err = r.Skip(2 * 8); err != nil {
+			return nil, 0, err
+		}
+		bytesRead += 2
 	}
 
 	if extension.P_STD_BufferFlag {
@@ -85,7 +95,15 @@ func readExtension(r bitreader.BitReader) (*Extension, uint32, error) {
 	}
 
 	if extension.ExtensionFlag2 {
-		panic("extension 2")
+		length, err := r.Read32(8)
+		if err != nil {
+			return nil, 0, err
+		}
+		length &= 0x7f // after the marker bit
+		if err = r.Skip(uint(length) * 8); err != nil {
+			return nil, 0, err
+		}
+		bytesRead += 1 + length
 	}
 
 	return &extension, bytesRead, nil
diff --git a/pes/header.go b/pes/header.go
index 54b750e..da83a90 100644
--- a/pes/header.go
+++ b/pes/header.go
@@ -139,23 +139,38 @@ func readHeader(reader bitreader.BitReader) (*Header, uint32, error) {
 	}
 
 	if header.EscrFlag {
-		panic("escr")
+		if err = reader.Skip(6 * 8); err != nil {
+			return nil, 0, err
+		}
+		bytesRead += 6
 	}
 
 	if header.EsRateFlag {
-		panic("es rate")
+		if err = reader.Skip(3 * 8); err != nil {
+			return nil, 0, err
+		}
+		bytesRead += 3
 	}
 
 	if header.DsmTrickModeFlag {
-		panic("dsm trick mode")
+		if err = reader.Skip(1 * 8); err != nil {
+			return nil, 0, err
+		}
+		bytesRead += 1
 	}
 
 	if header.AdditionalCopyInfoFlag {
-		panic("additional copy info")
+		if err = reader.Skip(1 * 8); err != nil {
+			return nil, 0, err
+		}
+		bytesRead += 1
 	}
 
 	if header.CrcFlag {
-		panic("crc flag")
+		if err = reader.Skip(2 * 8); err != nil {
+			return nil, 0, err
+		}
+		bytesRead += 2
 	}
 
 	if header.ExtensionFlag {
-- 
2.43.0


From f3fe99de8a95774b50f2905a09bc016cf9b53865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:20 +0000
Subject: [PATCH 20/50] fix: pes: payload reader returns its last bytes
 together with the error, where a bit reader loses them

---
 pes/payload_reader.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/pes/payload_reader.go b/pes/payload_reader.go
index ac2fec2..2790553 100644
--- a/pes/payload_reader.go
+++ b/pes/payload_reader.go
@@ -16,9 +16,23 @@ type payloadReader struct {
 	br            bitreader.BitReader
 	currentPacket *Packet
 	remainder     bytes.Buffer
+	pending       error // to be returned by the next Read
 }
 
 func (r *payloadReader) Read(p []byte) (n int, err error) {
+	// an error is never returned together with data, because a bit reader
+	// discards such data
+	if r.pending != nil {
+		err, r.pending = r.pending, nil
+		return 0, err
+	}
+
+	defer func() {
+		if n > 0 && err != nil {
+			r.pending, err = err, nil
+		}
+	}()
+
 	// Drain remainder
 	for len(p) > 0 {
 		cn, err := r.remainder.Read(p)
-- 
2.43.0


From 1d41366b7fda80a815e47f1582d7a60f75214c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:20 +0000
Subject: [PATCH 21/50] fix: pes: payload reader stops at the end of the first
 payload unit

---
 pes/payload_reader.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pes/payload_reader.go b/pes/payload_reader.go
index 2790553..53d550b 100644
--- a/pes/payload_reader.go
+++ b/pes/payload_reader.go
@@ -3,6 +3,7 @@ package pes
 import "io"
 import "bytes"
 import "github.com/32bitkid/bitreader"
+import "github.com/32bitkid/mpeg/ts"
 
 // NewPayloadReader creates a new reader that provides only Payload bytes from the source PES stream
 func NewPayloadReader(source io.Reader) io.Reader {
@@ -51,6 +52,9 @@ func (r *payloadReader) Read(p []byte) (n int, err error) {
 	// Fill from packet stream
 	for len(p) > 0 {
 		err := r.currentPacket.Next(r.br)
+		if err == ts.EOP {
+			continue // end of a payload unit, between packets
+		}
 		if err != nil {
 			return n, err
 		}
-- 
2.43.0


From 8024dd4e1fd999f75b5eb867debdec058f14a9da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:03 +0000
Subject: [PATCH 22/50] fix: ps: the video bound of a system header overwrites
 its audio bound

---
 ps/system_header.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ps/system_header.go b/ps/system_header.go
index 7a50789..811f6e4 100644
--- a/ps/system_header.go
+++ b/ps/system_header.go
@@ -89,10 +89,10 @@ func readSystemHeader(r bitreader.BitReader) (*SystemHeader, error) {
 		return nil, ErrMarkerNotFound
 	}
 
-	if ab, err := r.Read32(5); err != nil {
+	if vb, err := r.Read32(5); err != nil {
 		return nil, err
 	} else {
-		systemHeader.AudioBound = ab
+		systemHeader.VideoBound = vb
 	}
 
 	if prr, err := r.Read1(); err != nil {
-- 
2.43.0


From 20730cbde1d74e3fb6013cd4ccc43bea54b1c53c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:04 +0000
Subject: [PATCH 23/50] fix: ps: an error of the source in the pack stuffing is
 ignored

---
 ps/pack_header.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ps/pack_header.go b/ps/pack_header.go
index d34cc29..424e2b6 100644
--- a/ps/pack_header.go
+++ b/ps/pack_header.go
@@ -97,7 +97,9 @@ func NewPackHeader(r bitreader.BitReader) (*PackHeader, error) {
 		return nil, err
 	} else {
 		for pack_stuffing_length > 0 {
-			r.Skip(8) // stuffing_byte
+			if err := r.Skip(8); err != nil { // stuffing_byte
+				return nil, err
+			}
 			pack_stuffing_length--
 		}
 	}
-- 
2.43.0


From a589e896c6dd5f8d1051eb6ad9c5dcbe7eb2ae6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:04 +0000
Subject: [PATCH 24/50] fix: ps: pack reader loses data and never ends on a
 damaged or truncated stream

---
 ps/pack_reader.go | 35 +++++++++++++++++++++++++++++------
 1 file changed, 29 insertions(+), 6 deletions(-)

diff --git a/ps/pack_reader.go b/ps/pack_reader.go
index a1ddcc8..a109141 100644
--- a/ps/pack_reader.go
+++ b/ps/pack_reader.go
@@ -13,6 +13,7 @@ import (
 type packreader struct {
 	br        bitreader.BitReader
 	remainder *bytes.Buffer
+	err       error // ends the stream
 }
 
 func NewPackReader(r io.Reader) io.Reader {
@@ -22,7 +23,25 @@ func NewPackReader(r io.Reader) io.Reader {
 	}
 }
 
-func (pr packreader) Read(d []byte) (int, error) {
+func (pr *packreader) Read(d []byte) (int, error) {
+	if pr.err != nil {
+		return 0, pr.err
+	}
+
+	n, err := pr.read(d)
+	if err != nil {
+		pr.err = err
+	}
+
+	// an error is never returned together with data, because a bit reader
+	// discards such data
+	if n > 0 {
+		err = nil
+	}
+	return n, err
+}
+
+func (pr *packreader) read(d []byte) (int, error) {
 	n := 0
 
 	// DRAIN buffer
@@ -40,8 +59,10 @@ func (pr packreader) Read(d []byte) (int, error) {
 	}
 
 STEP:
-	if nextbits, err := pr.br.Peek32(32); err != nil {
-		return 0, nil
+	if nextbits, err := pr.br.Peek32(32); err == io.EOF {
+		return n, io.ErrUnexpectedEOF
+	} else if err != nil {
+		return n, err
 	} else if StartCode(nextbits) == ProgramEndCode {
 		goto PROGRAM_END
 	} else if StartCode(nextbits) == PackStartCode {
@@ -51,14 +72,16 @@ STEP:
 	}
 
 PACK:
-	if _, err := NewPackHeader(pr.br); err != nil {
-		return 0, err
+	if _, err := NewPackHeader(pr.br); err == io.EOF {
+		return n, io.ErrUnexpectedEOF
+	} else if err != nil {
+		return n, err
 	}
 
 MORE_PACKETS:
 
 	if p, err := pes.NewPacket(pr.br); err != nil {
-		return 0, nil
+		return n, err
 	} else {
 		copied := copy(d, p.Payload)
 		n += copied
-- 
2.43.0


From 59191d352306aed8088591ee4f1cfbf31d92a470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:04 +0000
Subject: [PATCH 25/50] fix: ps: pack reader takes the start code after an
 empty pack for a packet

---
 ps/pack_reader.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ps/pack_reader.go b/ps/pack_reader.go
index a109141..6bf1733 100644
--- a/ps/pack_reader.go
+++ b/ps/pack_reader.go
@@ -77,6 +77,7 @@ PACK:
 	} else if err != nil {
 		return n, err
 	}
+	goto STEP // a pack may have no packets
 
 MORE_PACKETS:
 
-- 
2.43.0


From 950d670847956f98ece18ca3da2ee536a0171a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:05 +0000
Subject: [PATCH 26/50] fix: ps: decoder reports success after losing a damaged
 packet

---
 ps/decoder.go | 5 +++++
 ps/pack.go    | 2 ++
 2 files changed, 7 insertions(+)

diff --git a/ps/decoder.go b/ps/decoder.go
index 1f7aeb5..80664bd 100644
--- a/ps/decoder.go
+++ b/ps/decoder.go
@@ -33,6 +33,11 @@ func (d *decoder) Go() <-chan bool {
 
 			<-packComplete
 
+			if pack.err != nil {
+				d.err = pack.err
+				return
+			}
+
 			if nextbits, err := d.r.Peek32(32); err != nil {
 				d.err = err
 				return
diff --git a/ps/pack.go b/ps/pack.go
index a5c9945..8429f84 100644
--- a/ps/pack.go
+++ b/ps/pack.go
@@ -6,6 +6,7 @@ import "github.com/32bitkid/mpeg/pes"
 type Pack struct {
 	*PackHeader
 	packs chan *pes.Packet
+	err   error // set before the pack completes
 }
 
 func (p *Pack) Packets() pes.PacketChannel {
@@ -47,6 +48,7 @@ func readPack(r bitreader.BitReader) (*Pack, <-chan bool, error) {
 			}
 
 			if packet, err := pes.NewPacket(r); err != nil {
+				pack.err = err
 				return
 			} else {
 				pack.packs <- packet
-- 
2.43.0


From 555df6aa6ea098732572513fc0e53f35cf1ecbed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:37 +0000
Subject: [PATCH 27/50] fix: video: half-sample and bidirectional predictions
 are not rounded

---
 video/motion_compensation.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/video/motion_compensation.go b/video/motion_compensation.go
index 57225a2..94e3e06 100644
--- a/video/motion_compensation.go
+++ b/video/motion_compensation.go
@@ -116,15 +116,15 @@ func (b *block) motion_compensation(motionVectors motionVectorData, i, mb_row, m
 
 				case fState.h_half && !fState.v_half:
 					pel += (int32(fState.channel[i]) +
-						int32(fState.channel[i+1])) / 2
+						int32(fState.channel[i+1]) + 1) / 2
 
 				case !fState.h_half && fState.v_half:
 					pel += (int32(fState.channel[i]) +
-						int32(fState.channel[i+fState.stride])) / 2
+						int32(fState.channel[i+fState.stride]) + 1) / 2
 
 				case fState.h_half && fState.v_half:
 					pel += (int32(fState.channel[i]) +
-						int32(fState.channel[i+1]) + int32(fState.channel[i+fState.stride]) + int32(fState.channel[i+fState.stride+1])) / 4
+						int32(fState.channel[i+1]) + int32(fState.channel[i+fState.stride]) + int32(fState.channel[i+fState.stride+1]) + 2) / 4
 				}
 			}
 			if bState.active {
@@ -136,19 +136,22 @@ func (b *block) motion_compensation(motionVectors motionVectorData, i, mb_row, m
 
 				case bState.h_half && !bState.v_half:
 					pel += (int32(bState.channel[i]) +
-						int32(bState.channel[i+1])) / 2
+						int32(bState.channel[i+1]) + 1) / 2
 
 				case !bState.h_half && bState.v_half:
 					pel += (int32(bState.channel[i]) +
-						int32(bState.channel[i+bState.stride])) / 2
+						int32(bState.channel[i+bState.stride]) + 1) / 2
 
 				case bState.h_half && bState.v_half:
 					pel += (int32(bState.channel[i]) +
 						int32(bState.channel[i+1]) +
 						int32(bState.channel[i+bState.stride]) +
-						int32(bState.channel[i+bState.stride+1])) / 4
+						int32(bState.channel[i+bState.stride+1]) + 2) / 4
 				}
 			}
+			if samples == 2 {
+				pel++ // the average of two predictions is rounded up (7.6.7.1)
+			}
 			b[v*8+u] += pel >> (samples - 1)
 		}
 	}
-- 
2.43.0


From 7585af984381973bf36702987fe2e4c086b589b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:37 +0000
Subject: [PATCH 28/50] fix: video: negative chrominance vectors are rounded
 away from zero

---
 video/motion_compensation.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/video/motion_compensation.go b/video/motion_compensation.go
index 94e3e06..6503a52 100644
--- a/video/motion_compensation.go
+++ b/video/motion_compensation.go
@@ -27,8 +27,8 @@ func (b *block) motion_compensation(motionVectors motionVectorData, i, mb_row, m
 		// Scale Cb/Cr vectors
 		switch i {
 		case 4, 5:
-			horizontal >>= 1
-			vertical >>= 1
+			horizontal /= 2 // toward zero (7.6.3.7)
+			vertical /= 2
 		}
 
 		// is half pel?
@@ -69,8 +69,8 @@ func (b *block) motion_compensation(motionVectors motionVectorData, i, mb_row, m
 		// Scale Cb/Cr vectors
 		switch i {
 		case 4, 5:
-			horizontal >>= 1
-			vertical >>= 1
+			horizontal /= 2 // toward zero (7.6.3.7)
+			vertical /= 2
 		}
 
 		// is half pel?
-- 
2.43.0


From aaaf8181e93a2f5e9952a52f2df6bea5262e34c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:38 +0000
Subject: [PATCH 29/50] fix: video: transmitted quantiser matrices are not put
 into coefficient order

---
 video/quant_matrix_extension.go |  4 ++++
 video/quantisation_matrix.go    | 12 ++++++++++++
 video/sequence_header.go        |  8 ++++----
 3 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/video/quant_matrix_extension.go b/video/quant_matrix_extension.go
index 9f22d07..6f77c75 100644
--- a/video/quant_matrix_extension.go
+++ b/video/quant_matrix_extension.go
@@ -34,6 +34,7 @@ func (vs *VideoSequence) quant_matrix_extension() error {
 				}
 			}
 		}
+		intra_quantiser_matrix = intra_quantiser_matrix.inverseScan()
 		vs.quantisationMatricies[0] = intra_quantiser_matrix
 		vs.quantisationMatricies[2] = intra_quantiser_matrix
 	}
@@ -51,6 +52,7 @@ func (vs *VideoSequence) quant_matrix_extension() error {
 				}
 			}
 		}
+		non_intra_quantiser_matrix = non_intra_quantiser_matrix.inverseScan()
 		vs.quantisationMatricies[1] = non_intra_quantiser_matrix
 		vs.quantisationMatricies[3] = non_intra_quantiser_matrix
 	}
@@ -68,6 +70,7 @@ func (vs *VideoSequence) quant_matrix_extension() error {
 				}
 			}
 		}
+		chroma_intra_quantiser_matrix = chroma_intra_quantiser_matrix.inverseScan()
 		vs.quantisationMatricies[2] = chroma_intra_quantiser_matrix
 	}
 
@@ -84,6 +87,7 @@ func (vs *VideoSequence) quant_matrix_extension() error {
 				}
 			}
 		}
+		chroma_non_intra_quantiser_matrix = chroma_non_intra_quantiser_matrix.inverseScan()
 		vs.quantisationMatricies[3] = chroma_non_intra_quantiser_matrix
 	}
 
diff --git a/video/quantisation_matrix.go b/video/quantisation_matrix.go
index c844061..e57245b 100644
--- a/video/quantisation_matrix.go
+++ b/video/quantisation_matrix.go
@@ -2,6 +2,18 @@ package video
 
 type quantisationMatrix [8][8]uint8
 
+// inverseScan puts a transmitted matrix, which always arrives in zigzag order, into
+// the order of the coefficients (7.3.1).
+func (W quantisationMatrix) inverseScan() (matrix quantisationMatrix) {
+	for v := 0; v < 8; v++ {
+		for u := 0; u < 8; u++ {
+			n := scan[0][v][u]
+			matrix[v][u] = W[n/8][n%8]
+		}
+	}
+	return
+}
+
 var defaultQuantisationMatrices = struct {
 	Intra    quantisationMatrix
 	NonIntra quantisationMatrix
diff --git a/video/sequence_header.go b/video/sequence_header.go
index 705c68f..73f129b 100644
--- a/video/sequence_header.go
+++ b/video/sequence_header.go
@@ -108,16 +108,16 @@ func (vs *VideoSequence) sequence_header() (err error) {
 	}
 
 	if sh.load_intra_quantiser_matrix {
-		vs.quantisationMatricies[0] = sh.intra_quantiser_matrix
-		vs.quantisationMatricies[2] = sh.intra_quantiser_matrix
+		vs.quantisationMatricies[0] = sh.intra_quantiser_matrix.inverseScan()
+		vs.quantisationMatricies[2] = sh.intra_quantiser_matrix.inverseScan()
 	} else {
 		vs.quantisationMatricies[0] = defaultQuantisationMatrices.Intra
 		vs.quantisationMatricies[2] = defaultQuantisationMatrices.Intra
 	}
 
 	if sh.load_non_intra_quantiser_matrix {
-		vs.quantisationMatricies[1] = sh.non_intra_quantiser_matrix
-		vs.quantisationMatricies[3] = sh.non_intra_quantiser_matrix
+		vs.quantisationMatricies[1] = sh.non_intra_quantiser_matrix.inverseScan()
+		vs.quantisationMatricies[3] = sh.non_intra_quantiser_matrix.inverseScan()
 	} else {
 		vs.quantisationMatricies[1] = defaultQuantisationMatrices.NonIntra
 		vs.quantisationMatricies[3] = defaultQuantisationMatrices.NonIntra
-- 
2.43.0


From fc09000c690250e7a4b2fabfc548115ed5c84545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:04 +0000
Subject: [PATCH 30/50] fix: video: an invalid coded block pattern is not
 reported

---
 video/macroblock.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/video/macroblock.go b/video/macroblock.go
index d08b6c3..75050ae 100644
--- a/video/macroblock.go
+++ b/video/macroblock.go
@@ -125,7 +125,7 @@ func (br *VideoSequence) macroblock(
 
 	if mb.macroblock_type.macroblock_pattern {
 		if cbp, err := coded_block_pattern(br, br.SequenceExtension.chroma_format); err != nil {
-			return 0, nil
+			return 0, err
 		} else {
 			mb.cbp = cbp
 		}
-- 
2.43.0


From 2fc76037fed45254a68c03c3b3ef41eaf274d3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:05 +0000
Subject: [PATCH 31/50] fix: video: an extension after a group of pictures
 header loops forever

---
 video/extension_and_user_data.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/video/extension_and_user_data.go b/video/extension_and_user_data.go
index 5eae100..b220d71 100644
--- a/video/extension_and_user_data.go
+++ b/video/extension_and_user_data.go
@@ -14,6 +14,8 @@ func (br *VideoSequence) extension_and_user_data(i int) error {
 			if _, err := br.user_data(); err != nil {
 				return err
 			}
+		} else {
+			return ErrUnexpectedStartCode
 		}
 	}
 
-- 
2.43.0


From 92c705a54c4abda8fab6cddf3eeb9abe5bf82087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:06 +0000
Subject: [PATCH 32/50] fix: video: copyright, picture display and scalable
 extensions crash the decoder

---
 video/extension_and_user_data.go     | 36 ++++++++++++++++++----------
 video/sequence_scalable_extension.go |  4 +---
 2 files changed, 24 insertions(+), 16 deletions(-)

diff --git a/video/extension_and_user_data.go b/video/extension_and_user_data.go
index b220d71..700428e 100644
--- a/video/extension_and_user_data.go
+++ b/video/extension_and_user_data.go
@@ -1,5 +1,10 @@
 package video
 
+import "errors"
+
+// ErrUnsupportedScalableExtension is the error returned for scalable video streams.
+var ErrUnsupportedScalableExtension = errors.New("unsupported: scalable extension")
+
 func (br *VideoSequence) extension_and_user_data(i int) error {
 	for {
 		if nextbits, err := br.Peek32(32); err != nil {
@@ -65,11 +70,15 @@ func (br *VideoSequence) extension_data(i int) error {
 					return err
 				}
 			case CopyrightExtensionID:
-				copyright_extension()
+				if err := br.skip_extension(); err != nil {
+					return err
+				}
 			case PictureDisplayExtensionID:
-				picture_display_extension()
+				if err := br.skip_extension(); err != nil {
+					return err
+				}
 			case PictureSpatialScalableExtensionID:
-				picture_spatial_scalable_extension()
+				return ErrUnsupportedScalableExtension
 			default:
 				if _, err := picture_temporal_scalable_extension(br); err != nil {
 					return err
@@ -81,14 +90,15 @@ func (br *VideoSequence) extension_data(i int) error {
 	return nil
 }
 
-func copyright_extension() {
-	panic("unsupported: copyright_extension")
-}
-
-func picture_display_extension() {
-	panic("unsupported: picture_display_extension")
-}
-
-func picture_spatial_scalable_extension() {
-	panic("unsupported: picture_spatial_scalable_extension")
+// skip_extension discards an extension that does not affect the decoded frames.
+func (br *VideoSequence) skip_extension() error {
+	for {
+		if peek, err := br.Peek32(24); err != nil {
+			return err
+		} else if peek == StartCodePrefix {
+			return nil
+		} else if err := br.Skip(8); err != nil {
+			return err
+		}
+	}
 }
diff --git a/video/sequence_scalable_extension.go b/video/sequence_scalable_extension.go
index 4837787..2c80d39 100644
--- a/video/sequence_scalable_extension.go
+++ b/video/sequence_scalable_extension.go
@@ -49,7 +49,7 @@ func sequence_scalable_extension(br bitreader.BitReader) (*SequenceScalableExten
 		return nil, err
 	}
 
-	panic(sse.scalable_mode)
+	return nil, ErrUnsupportedScalableExtension
 
 	/*
 		scalable_mode 2 uimsbf
@@ -71,6 +71,4 @@ func sequence_scalable_extension(br bitreader.BitReader) (*SequenceScalableExten
 		picture_mux_factor 3 uimsbf
 		}
 	*/
-	next_start_code(br)
-	panic("unsupported: sequence_scalable_extension")
 }
-- 
2.43.0


From 7c720eecd6d0e536e3a41b8edada82ce1a34fba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:29 +0000
Subject: [PATCH 33/50] fix: video: chroma formats other than 4:2:0 and
 pictures without sequence extension crash the decoder

---
 video/frame_provider.go | 1 +
 video/picture_data.go   | 4 ++++
 video/video_sequence.go | 3 +++
 3 files changed, 8 insertions(+)

diff --git a/video/frame_provider.go b/video/frame_provider.go
index a861a8f..cb5d886 100644
--- a/video/frame_provider.go
+++ b/video/frame_provider.go
@@ -4,6 +4,7 @@ import "errors"
 import "image"
 
 var EOS = errors.New("end of sequence")
+var ErrUnsupportedChromaFormat = errors.New("unsupported chroma format")
 var ErrUnsupportedVideoStream_ISO_IEC_11172_2 = errors.New("unsupported video stream ISO/IEC 11172-2")
 
 // step() will return the next frame of video decoded from the video stream.
diff --git a/video/picture_data.go b/video/picture_data.go
index e0845b7..42ed6c3 100644
--- a/video/picture_data.go
+++ b/video/picture_data.go
@@ -24,6 +24,10 @@ func createFrameBuffer(w, h int, cf ChromaFormat) *image.YCbCr {
 
 func (self *VideoSequence) picture_data() (frame *image.YCbCr, err error) {
 
+	if self.SequenceExtension == nil {
+		return nil, ErrUnsupportedVideoStream_ISO_IEC_11172_2
+	}
+
 	w, h := self.Size()
 	frame = createFrameBuffer(w, h, self.SequenceExtension.chroma_format)
 
diff --git a/video/video_sequence.go b/video/video_sequence.go
index 1881464..038cb65 100644
--- a/video/video_sequence.go
+++ b/video/video_sequence.go
@@ -53,6 +53,9 @@ func (br *VideoSequence) AlignTo(startCode StartCode) error {
 
 func (vs *VideoSequence) sequence_extension() (err error) {
 	vs.SequenceExtension, err = sequence_extension(vs)
+	if err == nil && vs.SequenceExtension.chroma_format != ChromaFormat420 {
+		vs.SequenceExtension, err = nil, ErrUnsupportedChromaFormat
+	}
 	return
 }
 
-- 
2.43.0


From 9bdd638c2b9198cf893d2e8d81979d47d65a1355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:29 +0000
Subject: [PATCH 34/50] fix: video: an invalid picture coding type crashes the
 decoder

---
 video/macroblock.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/video/macroblock.go b/video/macroblock.go
index 75050ae..ff2d39a 100644
--- a/video/macroblock.go
+++ b/video/macroblock.go
@@ -1,6 +1,10 @@
 package video
 
 import "image"
+import "errors"
+
+// ErrInvalidPictureCodingType is the error returned for pictures that are not I, P or B pictures.
+var ErrInvalidPictureCodingType = errors.New("invalid picture coding type")
 
 var color_channel = [12]int{0, 0, 0, 0, 1, 2, 1, 2, 1, 2, 1, 2}
 
@@ -254,7 +258,7 @@ func (br *VideoSequence) macroblock_mode(mb *Macroblock) (err error) {
 	case BFrame:
 		typeDecoder = macroblockTypeDecoder.BFrame
 	default:
-		panic("not implemented: macroblock type decoder")
+		return ErrInvalidPictureCodingType
 	}
 
 	mb.macroblock_type, err = typeDecoder(br)
-- 
2.43.0


From 35183e1cf02326fcf449a55da46b5105001cd65b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:30 +0000
Subject: [PATCH 35/50] fix: video: concealment vectors, dual-prime and
 reserved motion types crash the decoder

---
 video/motion_vector_info.go |  8 +++++++-
 video/motion_vectors.go     | 10 +++++++---
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/video/motion_vector_info.go b/video/motion_vector_info.go
index 1c40173..33a3f8c 100644
--- a/video/motion_vector_info.go
+++ b/video/motion_vector_info.go
@@ -19,6 +19,12 @@ func mv_info(fp *VideoSequence, mb *Macroblock) motionVectorInfo {
 		return motionVectorInfo{1, motionVectorFormat_Frame, 0}
 	}
 
+	// concealment motion vectors of a frame picture
+	if mb.macroblock_type.macroblock_intra &&
+		fp.PictureCodingExtension.picture_structure == PictureStructure_FramePicture {
+		return motionVectorInfo{1, motionVectorFormat_Frame, 0}
+	}
+
 	switch mb.frame_motion_type {
 	case 1:
 		return motionVectorInfo{2, motionVectorFormat_Field, 0}
@@ -37,5 +43,5 @@ func mv_info(fp *VideoSequence, mb *Macroblock) motionVectorInfo {
 		return motionVectorInfo{1, motionVectorFormat_Field, 1}
 	}
 
-	panic("invalid motion vector state")
+	return motionVectorInfo{} // reserved motion type
 }
diff --git a/video/motion_vectors.go b/video/motion_vectors.go
index 3910ce0..ed8ed93 100644
--- a/video/motion_vectors.go
+++ b/video/motion_vectors.go
@@ -1,8 +1,12 @@
 package video
 
+import "errors"
 import "github.com/32bitkid/huffman"
 import "github.com/32bitkid/bitreader"
 
+// ErrUnsupportedMotionType is the error returned for dual-prime and reserved motion types.
+var ErrUnsupportedMotionType = errors.New("unsupported motion type")
+
 type motionVectors [2][2][2]int
 type motionVectorPredictions motionVectors
 
@@ -124,6 +128,9 @@ func (fp *VideoSequence) motion_vectors(s int, mb *Macroblock, mvd *motionVector
 	f_code := fp.PictureCodingExtension.f_code
 
 	mvd.info = mv_info(fp, mb)
+	if mvd.info.motion_vector_count == 0 || mvd.info.dmv == 1 {
+		return ErrUnsupportedMotionType
+	}
 
 	motion_vector_part := func(r, s, t int) error {
 		if code, err := decodeMotionCode(fp); err != nil {
@@ -140,9 +147,6 @@ func (fp *VideoSequence) motion_vectors(s int, mb *Macroblock, mvd *motionVector
 				mvd.residual[r][s][t] = int(code)
 			}
 		}
-		if mvd.info.dmv == 1 {
-			panic("unsupported: dmv[]")
-		}
 
 		mvd.update_actual(r, s, t, f_code, mvd.info.motion_vector_format, fp.PictureCodingExtension.picture_structure)
 
-- 
2.43.0


From 1d24406adeba17d0cc4cbd2a84d72112137965c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:51 +0000
Subject: [PATCH 36/50] fix: video: a slice or macroblock outside of the
 picture crashes the decoder

---
 video/macroblock.go | 4 ++++
 video/slice.go      | 7 +++++++
 2 files changed, 11 insertions(+)

diff --git a/video/macroblock.go b/video/macroblock.go
index ff2d39a..7819b94 100644
--- a/video/macroblock.go
+++ b/video/macroblock.go
@@ -47,6 +47,10 @@ func (br *VideoSequence) macroblock(
 		mb.macroblock_address_increment += incr
 	}
 
+	if (mb_address+mb.macroblock_address_increment)*16 >= frameSlice.Rect.Dx() {
+		return 0, ErrInvalidMacroblockPosition
+	}
+
 	// Copy skipped macroblocks for PFrames and BFrames
 	if mb_address != -1 && mb.macroblock_address_increment > 1 {
 		switch br.PictureHeader.picture_coding_type {
diff --git a/video/slice.go b/video/slice.go
index 0dbff54..7f6c09e 100644
--- a/video/slice.go
+++ b/video/slice.go
@@ -5,6 +5,9 @@ import "image"
 
 var ErrInvalidReservedBits = errors.New("invalid reserved bits")
 
+// ErrInvalidMacroblockPosition is the error returned for macroblocks outside of the picture.
+var ErrInvalidMacroblockPosition = errors.New("invalid macroblock position")
+
 type Slice struct {
 	slice_start_code                  StartCode // 32 bslbf
 	slice_vertical_position_extension uint32    // 3 uimsbf
@@ -39,6 +42,10 @@ func (br *VideoSequence) slice(frame *image.YCbCr) error {
 
 	mb_row := int((code & 0xFF) - 1)
 
+	if mb_row*16 >= frame.Rect.Dy() {
+		return ErrInvalidMacroblockPosition
+	}
+
 	frameSlice := &image.YCbCr{
 		Y:       frame.Y[16*mb_row*frame.YStride:],
 		Cb:      frame.Cb[8*mb_row*frame.CStride:],
-- 
2.43.0


From ca3036bba40d30f96816209b918f52ea3683dcd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:52 +0000
Subject: [PATCH 37/50] fix: video: a coefficient run past the end of its block
 crashes the decoder

---
 video/block.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/video/block.go b/video/block.go
index 03d2100..3080f87 100644
--- a/video/block.go
+++ b/video/block.go
@@ -1,7 +1,11 @@
 package video
 
+import "errors"
 import "github.com/32bitkid/bitreader"
 
+// ErrInvalidCoefficientRun is the error returned for a block with more than 64 coefficients.
+var ErrInvalidCoefficientRun = errors.New("invalid coefficient run")
+
 const (
 	blockSide = 8
 	blockSize = blockSide * blockSide
@@ -94,6 +98,9 @@ func (QFS *block) read(br bitreader.BitReader, dcDctPredictors *dcDctPredictors,
 				n = n + 1
 			}
 		} else {
+			if n+run >= blockSize {
+				return ErrInvalidCoefficientRun
+			}
 			for m := 0; m < run; m++ {
 				QFS[n] = 0
 				n = n + 1
-- 
2.43.0


From 4d15cb9e83160747b62ccf9bbd82f5a846895fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:52 +0000
Subject: [PATCH 38/50] fix: video: slice position extension of tall pictures
 is not applied

---
 video/slice.go | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/video/slice.go b/video/slice.go
index 7f6c09e..ca4c1b4 100644
--- a/video/slice.go
+++ b/video/slice.go
@@ -42,6 +42,16 @@ func (br *VideoSequence) slice(frame *image.YCbCr) error {
 
 	mb_row := int((code & 0xFF) - 1)
 
+	_, height := br.Size()
+
+	if height > 2800 {
+		s.slice_vertical_position_extension, err = br.Read32(3)
+		if err != nil {
+			return err
+		}
+		mb_row += int(s.slice_vertical_position_extension) << 7
+	}
+
 	if mb_row*16 >= frame.Rect.Dy() {
 		return ErrInvalidMacroblockPosition
 	}
@@ -55,13 +65,6 @@ func (br *VideoSequence) slice(frame *image.YCbCr) error {
 		Rect:    image.Rect(frame.Rect.Min.X, mb_row*16, frame.Rect.Max.X, mb_row*16+16),
 	}
 
-	if br.SequenceHeader.vertical_size_value > 2800 {
-		s.slice_vertical_position_extension, err = br.Read32(3)
-		if err != nil {
-			return err
-		}
-	}
-
 	// TODO(jh): sequence_scalable support
 	if false /* (<sequence_scalable_extension() is present in the bitstream>) */ {
 		if false /* (scalable_mode == “data partitioning” ) */ {
-- 
2.43.0


From 8ff279e91995e9079893e04263d7885dabdba11f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:27 +0000
Subject: [PATCH 39/50] fix: video: predictions from missing frames or from
 outside of a frame crash the decoder

---
 video/copy_macroblocks.go    |  8 ++++++--
 video/macroblock.go          | 15 ++++++++++++---
 video/motion_compensation.go | 26 +++++++++++++++++++++++++-
 3 files changed, 43 insertions(+), 6 deletions(-)

diff --git a/video/copy_macroblocks.go b/video/copy_macroblocks.go
index 1e4de42..d52c7d0 100644
--- a/video/copy_macroblocks.go
+++ b/video/copy_macroblocks.go
@@ -31,16 +31,20 @@ func pframe_copy_macroblocks(row, col, n int, dest, src *image.YCbCr) {
 	}
 }
 
-func bframe_copy_macroblocks(mb_row, mb_col, mb_count int, mvd motionVectorData, fs frameStore, dest *image.YCbCr) {
+func bframe_copy_macroblocks(mb_row, mb_col, mb_count int, mvd motionVectorData, fs frameStore, dest *image.YCbCr) error {
 	var b block
 	var cb clampedblock
 
 	for mb_addr := mb_col; mb_addr < mb_col+mb_count; mb_addr++ {
 		for i := 0; i < 6; i++ {
 			b.zero()
-			b.motion_compensation(mvd, i, mb_row, mb_addr, fs)
+			if err := b.motion_compensation(mvd, i, mb_row, mb_addr, fs); err != nil {
+				return err
+			}
 			b.clamp(&cb)
 			updateFrameSlice(i, mb_addr, false, dest, &cb)
 		}
 	}
+
+	return nil
 }
diff --git a/video/macroblock.go b/video/macroblock.go
index 7819b94..b6d1276 100644
--- a/video/macroblock.go
+++ b/video/macroblock.go
@@ -55,17 +55,24 @@ func (br *VideoSequence) macroblock(
 	if mb_address != -1 && mb.macroblock_address_increment > 1 {
 		switch br.PictureHeader.picture_coding_type {
 		case PFrame:
+			if past := br.frameStore.past; past == nil ||
+				past.Rect.Dx() != frameSlice.Rect.Dx() ||
+				past.Rect.Max.Y < frameSlice.Rect.Max.Y {
+				return 0, ErrInvalidReference
+			}
 			pframe_copy_macroblocks(
 				mb_row, mb_address+1,
 				mb.macroblock_address_increment-1,
 				frameSlice, br.frameStore.past)
 		case BFrame:
-			bframe_copy_macroblocks(
+			if err := bframe_copy_macroblocks(
 				mb_row, mb_address+1,
 				mb.macroblock_address_increment-1,
 				*mvd,
 				br.frameStore,
-				frameSlice)
+				frameSlice); err != nil {
+				return 0, err
+			}
 		}
 	}
 
@@ -168,7 +175,9 @@ func (br *VideoSequence) macroblock(
 			b.zero()
 		}
 
-		b.motion_compensation(*mvd, i, mb_row, mb_address, br.frameStore)
+		if err := b.motion_compensation(*mvd, i, mb_row, mb_address, br.frameStore); err != nil {
+			return 0, err
+		}
 		b.clamp(&cb)
 		updateFrameSlice(i, mb_address, mb.dct_type, frameSlice, &cb)
 	}
diff --git a/video/motion_compensation.go b/video/motion_compensation.go
index 6503a52..b9e338d 100644
--- a/video/motion_compensation.go
+++ b/video/motion_compensation.go
@@ -1,5 +1,11 @@
 package video
 
+import "errors"
+
+// ErrInvalidReference is the error returned for a prediction from a frame, or from a place in a
+// frame, that does not exist.
+var ErrInvalidReference = errors.New("invalid reference")
+
 type motionCompensationState struct {
 	active  bool
 	i       int
@@ -9,7 +15,19 @@ type motionCompensationState struct {
 	v_half  bool
 }
 
-func (b *block) motion_compensation(motionVectors motionVectorData, i, mb_row, mb_addr int, fs frameStore) {
+// inside tests if all samples of the prediction exist.
+func (s *motionCompensationState) inside() bool {
+	last := s.i + 7*s.stride + 7
+	if s.h_half {
+		last++
+	}
+	if s.v_half {
+		last += s.stride
+	}
+	return s.i >= 0 && last < len(s.channel)
+}
+
+func (b *block) motion_compensation(motionVectors motionVectorData, i, mb_row, mb_addr int, fs frameStore) error {
 
 	bState := motionCompensationState{
 		active: ((motionVectors.previous & motionVectorsFormed_FrameBackward) == motionVectorsFormed_FrameBackward) &&
@@ -103,6 +121,10 @@ func (b *block) motion_compensation(motionVectors motionVectorData, i, mb_row, m
 		fState.i += horizontal
 	}
 
+	if (bState.active && !bState.inside()) || (fState.active && !fState.inside()) {
+		return ErrInvalidReference
+	}
+
 	for v := 0; v < 8; v++ {
 		for u := 0; u < 8; u++ {
 			var pel int32 = 0
@@ -155,4 +177,6 @@ func (b *block) motion_compensation(motionVectors motionVectorData, i, mb_row, m
 			b[v*8+u] += pel >> (samples - 1)
 		}
 	}
+
+	return nil
 }
-- 
2.43.0


From f08a38f6588deb3772c8308c6c15d26453f291c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:41 +0000
Subject: [PATCH 40/50] fix: video: prediction of field coded macroblocks is
 placed on the wrong lines

---
 video/copy_macroblocks.go    |  2 +-
 video/macroblock.go          |  2 +-
 video/motion_compensation.go | 23 +++++++++++++++++++----
 3 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/video/copy_macroblocks.go b/video/copy_macroblocks.go
index d52c7d0..fac7077 100644
--- a/video/copy_macroblocks.go
+++ b/video/copy_macroblocks.go
@@ -38,7 +38,7 @@ func bframe_copy_macroblocks(mb_row, mb_col, mb_count int, mvd motionVectorData,
 	for mb_addr := mb_col; mb_addr < mb_col+mb_count; mb_addr++ {
 		for i := 0; i < 6; i++ {
 			b.zero()
-			if err := b.motion_compensation(mvd, i, mb_row, mb_addr, fs); err != nil {
+			if err := b.motion_compensation(mvd, i, mb_row, mb_addr, false, fs); err != nil {
 				return err
 			}
 			b.clamp(&cb)
diff --git a/video/macroblock.go b/video/macroblock.go
index b6d1276..91dc7dd 100644
--- a/video/macroblock.go
+++ b/video/macroblock.go
@@ -175,7 +175,7 @@ func (br *VideoSequence) macroblock(
 			b.zero()
 		}
 
-		if err := b.motion_compensation(*mvd, i, mb_row, mb_address, br.frameStore); err != nil {
+		if err := b.motion_compensation(*mvd, i, mb_row, mb_address, mb.dct_type, br.frameStore); err != nil {
 			return 0, err
 		}
 		b.clamp(&cb)
diff --git a/video/motion_compensation.go b/video/motion_compensation.go
index b9e338d..a8a6a51 100644
--- a/video/motion_compensation.go
+++ b/video/motion_compensation.go
@@ -11,13 +11,14 @@ type motionCompensationState struct {
 	i       int
 	channel []uint8
 	stride  int
+	line    int // distance between the lines of the block
 	h_half  bool
 	v_half  bool
 }
 
 // inside tests if all samples of the prediction exist.
 func (s *motionCompensationState) inside() bool {
-	last := s.i + 7*s.stride + 7
+	last := s.i + 7*s.line + 7
 	if s.h_half {
 		last++
 	}
@@ -27,7 +28,7 @@ func (s *motionCompensationState) inside() bool {
 	return s.i >= 0 && last < len(s.channel)
 }
 
-func (b *block) motion_compensation(motionVectors motionVectorData, i, mb_row, mb_addr int, fs frameStore) error {
+func (b *block) motion_compensation(motionVectors motionVectorData, i, mb_row, mb_addr int, interlaced bool, fs frameStore) error {
 
 	bState := motionCompensationState{
 		active: ((motionVectors.previous & motionVectorsFormed_FrameBackward) == motionVectorsFormed_FrameBackward) &&
@@ -76,6 +77,13 @@ func (b *block) motion_compensation(motionVectors motionVectorData, i, mb_row, m
 			bState.i = (mb_row * 8 * bState.stride) + (mb_addr * 8)
 		}
 
+		bState.line = bState.stride
+		if interlaced && i < 4 {
+			// the lines of the blocks alternate: see updateFrameSlice
+			bState.i -= (i & 2) >> 1 * 7 * bState.stride
+			bState.line *= 2
+		}
+
 		bState.i += vertical * bState.stride
 		bState.i += horizontal
 	}
@@ -117,6 +125,13 @@ func (b *block) motion_compensation(motionVectors motionVectorData, i, mb_row, m
 			fState.i = (mb_row * 8 * fState.stride) + (mb_addr * 8)
 		}
 
+		fState.line = fState.stride
+		if interlaced && i < 4 {
+			// the lines of the blocks alternate: see updateFrameSlice
+			fState.i -= (i & 2) >> 1 * 7 * fState.stride
+			fState.line *= 2
+		}
+
 		fState.i += vertical * fState.stride
 		fState.i += horizontal
 	}
@@ -130,7 +145,7 @@ func (b *block) motion_compensation(motionVectors motionVectorData, i, mb_row, m
 			var pel int32 = 0
 			var samples uint = 0
 			if fState.active {
-				i := fState.i + (v * fState.stride) + u
+				i := fState.i + (v * fState.line) + u
 				samples++
 				switch {
 				case !fState.h_half && !fState.v_half:
@@ -150,7 +165,7 @@ func (b *block) motion_compensation(motionVectors motionVectorData, i, mb_row, m
 				}
 			}
 			if bState.active {
-				i := bState.i + (v * bState.stride) + u
+				i := bState.i + (v * bState.line) + u
 				samples++
 				switch {
 				case !bState.h_half && !bState.v_half:
-- 
2.43.0


From 01cf63aad18fd8c7e44681b5b2bf65418246d251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:41 +0000
Subject: [PATCH 41/50] fix: video: frames of interlaced sequences lack a
 macroblock row

---
 video/picture_data.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/video/picture_data.go b/video/picture_data.go
index 42ed6c3..7caa045 100644
--- a/video/picture_data.go
+++ b/video/picture_data.go
@@ -29,6 +29,9 @@ func (self *VideoSequence) picture_data() (frame *image.YCbCr, err error) {
 	}
 
 	w, h := self.Size()
+	if self.SequenceExtension.progressive_sequence == 0 {
+		h = (h + 31) &^ 31 // whole macroblocks in each field (6.3.3)
+	}
 	frame = createFrameBuffer(w, h, self.SequenceExtension.chroma_format)
 
 	for {
-- 
2.43.0


From 1cc14871b199bd43f8eb4f7017759ccf442e97da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:42 +0000
Subject: [PATCH 42/50] fix: video: groups of more than 1024 pictures stall

---
 video/frame_store.go    | 7 ++++++-
 video/video_sequence.go | 2 ++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/video/frame_store.go b/video/frame_store.go
index 8c4bf37..145fc22 100644
--- a/video/frame_store.go
+++ b/video/frame_store.go
@@ -2,6 +2,9 @@ package video
 
 import "image"
 
+// temporalReferenceMask limits display indices to the 10 bits of a temporal reference.
+const temporalReferenceMask = 1<<10 - 1
+
 type referenceFrame struct {
 	frame              *image.YCbCr
 	temporal_reference uint32
@@ -22,8 +25,10 @@ func (fs *frameStore) gop() {
 func (fs *frameStore) set(current_temporal_reference uint32) {
 	for _, ref := range fs.frames {
 		if ref.frame != nil {
+			// the 10 bits wrap around: the sign of the distance tells past from future
+			distance := (current_temporal_reference - ref.temporal_reference) & temporalReferenceMask
 			if ref.previous_gop == true ||
-				ref.temporal_reference < current_temporal_reference {
+				(distance > 0 && distance <= temporalReferenceMask>>1) {
 				fs.past = ref.frame
 			} else {
 				fs.future = ref.frame
diff --git a/video/video_sequence.go b/video/video_sequence.go
index 038cb65..54e11c2 100644
--- a/video/video_sequence.go
+++ b/video/video_sequence.go
@@ -87,6 +87,7 @@ func (vs *VideoSequence) Next() (*image.YCbCr, error) {
 	// Try to get a previously decoded frame out of the frameStore.
 	if img := vs.frameStore.tryGet(vs.frameCounter); img != nil {
 		vs.frameCounter++
+		vs.frameCounter &= temporalReferenceMask
 		return img, nil
 	}
 
@@ -96,6 +97,7 @@ func (vs *VideoSequence) Next() (*image.YCbCr, error) {
 			return nil, err
 		} else if vs.PictureHeader.temporal_reference == vs.frameCounter {
 			vs.frameCounter++
+			vs.frameCounter &= temporalReferenceMask
 			return img, nil
 		}
 	}
-- 
2.43.0


From 199091f62a1ca737c78f9fbc0b2dcf7c4fee635e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:58 +0000
Subject: [PATCH 43/50] fix: video: hours of a time code are not printed with
 two digits

---
 video/group_of_pictures_header.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/video/group_of_pictures_header.go b/video/group_of_pictures_header.go
index a1cb029..69bf3a6 100644
--- a/video/group_of_pictures_header.go
+++ b/video/group_of_pictures_header.go
@@ -74,5 +74,5 @@ func (tc TimeCode) String() string {
 	if tc.DropFrame {
 		secondsFramesSep = ";"
 	}
-	return fmt.Sprintf("%d:%02d:%02d%s%02d", tc.Hours, tc.Minutes, tc.Seconds, secondsFramesSep, tc.Pictures)
+	return fmt.Sprintf("%02d:%02d:%02d%s%02d", tc.Hours, tc.Minutes, tc.Seconds, secondsFramesSep, tc.Pictures)
 }
-- 
2.43.0


From d4e50b6b27e77f66319646c6e245f3833a7530e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:25 +0000
Subject: [PATCH 44/50] fix: start afresh after the end of a video sequence

A sequence without a group of pictures header that followed another one in the
same stream was matched against the display counter and the reference frames
of the first one, so its pictures were dropped.
---
 video/frame_provider.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/video/frame_provider.go b/video/frame_provider.go
index cb5d886..62b45a6 100644
--- a/video/frame_provider.go
+++ b/video/frame_provider.go
@@ -117,5 +117,8 @@ RESUME:
 	goto CONTINUE
 
 END_OF_STREAM:
+	// what follows is a sequence of its own
+	self.frameStore = frameStore{}
+	self.frameCounter = 0
 	return nil, EOS
 }
-- 
2.43.0


From ee76c82da9900f3d5eb831084e89cf0965c75023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:49 +0000
Subject: [PATCH 45/50] fix: accept zero bytes between video sequences

Zero stuffing after a sequence end code was taken for a wrong start code.
---
 video/frame_provider.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/video/frame_provider.go b/video/frame_provider.go
index 62b45a6..3af1092 100644
--- a/video/frame_provider.go
+++ b/video/frame_provider.go
@@ -88,6 +88,11 @@ MORE_FRAMES:
 
 RESUME:
 
+	// zero bytes may separate sequences
+	if err := next_start_code(self); err != nil {
+		return nil, err
+	}
+
 	if nextbits, err := self.Peek32(32); err != nil {
 		return nil, err
 	} else if StartCode(nextbits) == PictureStartCode {
-- 
2.43.0


From dcf0c2d2efef169b50a6b79144f4519baca9ba78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:16 +0000
Subject: [PATCH 46/50] fix: extension id 11 is reserved

---
 video/extension_id.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/video/extension_id.go b/video/extension_id.go
index 83b2f52..21c1c8b 100644
--- a/video/extension_id.go
+++ b/video/extension_id.go
@@ -32,7 +32,7 @@ var ErrUnexpectedExtensionID = errors.New("unexpected sequence extension id")
 func (id ExtensionID) IsReserved() bool {
 	return id == ExtensionID(0) ||
 		id == ExtensionID(6) ||
-		id > ExtensionID(11)
+		id > PictureTemporalScalableExtensionID
 }
 
 // Check() returns true if the following bits in the bitstream match the expected extension id.
-- 
2.43.0


From 230ae0e8359b5e39c867fd6c1b7e91c9872c058b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:27 +0000
Subject: [PATCH 47/50] fix: discard extensions with reserved identifiers

---
 video/extension_and_user_data.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/video/extension_and_user_data.go b/video/extension_and_user_data.go
index 700428e..c554610 100644
--- a/video/extension_and_user_data.go
+++ b/video/extension_and_user_data.go
@@ -50,7 +50,11 @@ func (br *VideoSequence) extension_data(i int) error {
 					return err
 				}
 			default:
-				if _, err := sequence_scalable_extension(br); err != nil {
+				if ExtensionID(nextbits).IsReserved() {
+					if err := br.skip_extension(); err != nil {
+						return err
+					}
+				} else if _, err := sequence_scalable_extension(br); err != nil {
 					return err
 				}
 			}
@@ -80,7 +84,11 @@ func (br *VideoSequence) extension_data(i int) error {
 			case PictureSpatialScalableExtensionID:
 				return ErrUnsupportedScalableExtension
 			default:
-				if _, err := picture_temporal_scalable_extension(br); err != nil {
+				if ExtensionID(nextbits).IsReserved() {
+					if err := br.skip_extension(); err != nil {
+						return err
+					}
+				} else if _, err := picture_temporal_scalable_extension(br); err != nil {
 					return err
 				}
 			}
-- 
2.43.0


From e07420d52c3958b089ecf86b3ab072a1915f2f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:56 +0000
Subject: [PATCH 48/50] fix: predict macroblocks with field vectors in frame
 pictures from the fields of the references

---
 video/copy_macroblocks.go    |  4 ++
 video/motion_compensation.go | 85 ++++++++++++++++++++++++++++++++++++
 video/motion_vectors.go      |  5 ++-
 3 files changed, 93 insertions(+), 1 deletion(-)

diff --git a/video/copy_macroblocks.go b/video/copy_macroblocks.go
index fac7077..3503032 100644
--- a/video/copy_macroblocks.go
+++ b/video/copy_macroblocks.go
@@ -35,6 +35,10 @@ func bframe_copy_macroblocks(mb_row, mb_col, mb_count int, mvd motionVectorData,
 	var b block
 	var cb clampedblock
 
+	// skipped macroblocks use frame prediction with the predicted vectors (7.6.6.4)
+	mvd.info = motionVectorInfo{1, motionVectorFormat_Frame, 0}
+	mvd.actual[0] = mvd.predictions[0]
+
 	for mb_addr := mb_col; mb_addr < mb_col+mb_count; mb_addr++ {
 		for i := 0; i < 6; i++ {
 			b.zero()
diff --git a/video/motion_compensation.go b/video/motion_compensation.go
index a8a6a51..6ee059a 100644
--- a/video/motion_compensation.go
+++ b/video/motion_compensation.go
@@ -1,6 +1,7 @@
 package video
 
 import "errors"
+import "image"
 
 // ErrInvalidReference is the error returned for a prediction from a frame, or from a place in a
 // frame, that does not exist.
@@ -30,6 +31,10 @@ func (s *motionCompensationState) inside() bool {
 
 func (b *block) motion_compensation(motionVectors motionVectorData, i, mb_row, mb_addr int, interlaced bool, fs frameStore) error {
 
+	if motionVectors.info.motion_vector_format == motionVectorFormat_Field {
+		return b.field_motion_compensation(motionVectors, i, mb_row, mb_addr, interlaced, fs)
+	}
+
 	bState := motionCompensationState{
 		active: ((motionVectors.previous & motionVectorsFormed_FrameBackward) == motionVectorsFormed_FrameBackward) &&
 			fs.future != nil,
@@ -195,3 +200,83 @@ func (b *block) motion_compensation(motionVectors motionVectorData, i, mb_row, m
 
 	return nil
 }
+
+// field_motion_compensation predicts the lines of a block in a frame picture from the fields of
+// the references: the even lines with the first vector and the odd lines with the second (7.6.4).
+func (b *block) field_motion_compensation(motionVectors motionVectorData, i, mb_row, mb_addr int, interlaced bool, fs frameStore) error {
+	var pels [64]int32
+	var samples uint = 0
+
+	for s, image := range []*image.YCbCr{fs.past, fs.future} {
+		formed := motionVectorsFormed_FrameForward
+		if s == 1 {
+			formed = motionVectorsFormed_FrameBackward
+		}
+		if motionVectors.previous&formed == 0 || image == nil {
+			continue
+		}
+		samples++
+
+		for v := 0; v < 8; v++ {
+			state := motionCompensationState{channel: image.Y, stride: image.YStride}
+			x, y := mb_addr*16+(i&1)<<3, mb_row*16+(i&2)<<2+v
+			switch {
+			case i == 4:
+				state.channel = image.Cb
+			case i == 5:
+				state.channel = image.Cr
+			case interlaced:
+				y = mb_row*16 + (i&2)>>1 + v*2
+			}
+			if i >= 4 {
+				state.stride = image.CStride
+				x, y = mb_addr*8, mb_row*8+v
+			}
+
+			r := y & 1
+			horizontal, vertical := motionVectors.actual[r][s][0], motionVectors.actual[r][s][1]
+			if i >= 4 {
+				horizontal /= 2 // toward zero (7.6.3.7)
+				vertical /= 2
+			}
+
+			line := (y>>1+vertical>>1)*2 + int(motionVectors.vertical_field_select[r][s])
+			state.i = line*state.stride + x + horizontal>>1
+			state.stride *= 2 // from line to line of a field
+			state.h_half, state.v_half = (horizontal&1) == 1, (vertical&1) == 1
+
+			if !state.inside() {
+				return ErrInvalidReference
+			}
+
+			for u := 0; u < 8; u++ {
+				pels[v*8+u] += state.sample(state.i + u)
+			}
+		}
+	}
+
+	for i := range pels {
+		switch samples {
+		case 1:
+			b[i] += pels[i]
+		case 2:
+			b[i] += (pels[i] + 1) >> 1
+		}
+	}
+
+	return nil
+}
+
+// sample interpolates the sample at i.
+func (s *motionCompensationState) sample(i int) int32 {
+	switch {
+	case s.h_half && s.v_half:
+		return (int32(s.channel[i]) + int32(s.channel[i+1]) +
+			int32(s.channel[i+s.stride]) + int32(s.channel[i+s.stride+1]) + 2) / 4
+	case s.h_half:
+		return (int32(s.channel[i]) + int32(s.channel[i+1]) + 1) / 2
+	case s.v_half:
+		return (int32(s.channel[i]) + int32(s.channel[i+s.stride]) + 1) / 2
+	}
+	return int32(s.channel[i])
+}
diff --git a/video/motion_vectors.go b/video/motion_vectors.go
index ed8ed93..fe6c606 100644
--- a/video/motion_vectors.go
+++ b/video/motion_vectors.go
@@ -111,6 +111,7 @@ func (mvd *motionVectorData) reset() {
 	mvd.predictions[1][1][1] = 0
 	mvd.clear_actual(0)
 	mvd.clear_actual(1)
+	mvd.info = motionVectorInfo{1, motionVectorFormat_Frame, 0}
 }
 
 func (mvd *motionVectorData) clear_actual(s int) {
@@ -171,7 +172,9 @@ func (fp *VideoSequence) motion_vectors(s int, mb *Macroblock, mvd *motionVector
 				mvd.vertical_field_select[0][s] = val
 			}
 		}
-		return motion_vector(0, s)
+		err := motion_vector(0, s)
+		mvd.predictions[1][s] = mvd.predictions[0][s] // (7.6.3.3)
+		return err
 	} else {
 		if val, err := fp.Read32(1); err != nil {
 			return err
-- 
2.43.0


From 996accf832fabf66ae53053a4623e5ecf10661ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:22 +0000
Subject: [PATCH 49/50] fix: refuse field pictures instead of decoding them as
 frames

---
 video/picture_coding_extension.go | 4 ++++
 video/picture_structure.go        | 5 +++++
 2 files changed, 9 insertions(+)

diff --git a/video/picture_coding_extension.go b/video/picture_coding_extension.go
index b8244e1..8311ed6 100644
--- a/video/picture_coding_extension.go
+++ b/video/picture_coding_extension.go
@@ -68,6 +68,10 @@ func picture_coding_extension(br bitreader.BitReader) (*PictureCodingExtension,
 		pce.picture_structure = PictureStructure(picture_structure)
 	}
 
+	if pce.picture_structure != PictureStructure_FramePicture {
+		return nil, ErrUnsupportedPictureStructure
+	}
+
 	pce.top_field_first, err = br.Read1()
 	if err != nil {
 		return nil, err
diff --git a/video/picture_structure.go b/video/picture_structure.go
index 29a7aac..e982fe3 100644
--- a/video/picture_structure.go
+++ b/video/picture_structure.go
@@ -1,5 +1,10 @@
 package video
 
+import "errors"
+
+// ErrUnsupportedPictureStructure is the error returned for field pictures.
+var ErrUnsupportedPictureStructure = errors.New("unsupported picture structure")
+
 type PictureStructure uint32
 
 const (
-- 
2.43.0


From 513553a3f07c6f101bdbbf588e94e022a44fda29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:09 +0000
Subject: [PATCH 50/50] fix: choose the references of a picture by coding
 order, also in long runs of B pictures

---
 video/frame_provider.go |  2 +-
 video/frame_store.go    | 25 +++++++++----------------
 2 files changed, 10 insertions(+), 17 deletions(-)

diff --git a/video/frame_provider.go b/video/frame_provider.go
index 3af1092..53bdaf7 100644
--- a/video/frame_provider.go
+++ b/video/frame_provider.go
@@ -74,7 +74,7 @@ MORE_FRAMES:
 		return nil, err
 	}
 
-	self.frameStore.set(self.PictureHeader.temporal_reference)
+	self.frameStore.set(self.PictureHeader.picture_coding_type)
 
 	if frame, err := self.picture_data(); err != nil {
 		return nil, err
diff --git a/video/frame_store.go b/video/frame_store.go
index 145fc22..abce321 100644
--- a/video/frame_store.go
+++ b/video/frame_store.go
@@ -22,18 +22,11 @@ func (fs *frameStore) gop() {
 	fs.frames[1].previous_gop = true
 }
 
-func (fs *frameStore) set(current_temporal_reference uint32) {
-	for _, ref := range fs.frames {
-		if ref.frame != nil {
-			// the 10 bits wrap around: the sign of the distance tells past from future
-			distance := (current_temporal_reference - ref.temporal_reference) & temporalReferenceMask
-			if ref.previous_gop == true ||
-				(distance > 0 && distance <= temporalReferenceMask>>1) {
-				fs.past = ref.frame
-			} else {
-				fs.future = ref.frame
-			}
-		}
+// set selects the references of a picture, which follow from the coding order alone (6.1.1.11).
+func (fs *frameStore) set(pct PictureCodingType) {
+	fs.past, fs.future = fs.frames[1].frame, nil
+	if pct == BFrame {
+		fs.past, fs.future = fs.frames[0].frame, fs.frames[1].frame
 	}
 }
 
@@ -43,10 +36,10 @@ func (fs *frameStore) add(f *image.YCbCr, temporal_reference uint32) {
 }
 
 func (fs *frameStore) tryGet(temporal_reference uint32) *image.YCbCr {
-	for _, ref := range fs.frames {
-		if ref.frame != nil && ref.previous_gop == false && ref.temporal_reference == temporal_reference {
-			return ref.frame
-		}
+	// only the last reference can still be waiting to be shown
+	ref := fs.frames[1]
+	if ref.frame != nil && ref.previous_gop == false && ref.temporal_reference == temporal_reference {
+		return ref.frame
 	}
 	return nil
 }
-- 
2.43.0

