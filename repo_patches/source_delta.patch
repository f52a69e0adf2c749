From 2202ded96ca896c74c06b4e6d465b5f250cb58f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:25:33 +0000
Subject: [PATCH 01/54] fix: decode null, empty and malformed fields of a
 record correctly

A record (or header) whose key or value is null was returned like an empty
one or made the decoder panic, and a record whose inner lengths do not fit
its own length crashed the process.
---
 record.go | 66 ++++++++++++++++++++++++++++++++++++++-----------------
 1 file changed, 46 insertions(+), 20 deletions(-)

diff --git a/record.go b/record.go
index 3dfdb3d..ca09ffe 100644
--- a/record.go
+++ b/record.go
@@ -3,6 +3,7 @@ package healer
 import (
 	"bytes"
 	"encoding/binary"
+	"errors"
 	"hash/crc32"
 )
 
@@ -14,17 +15,32 @@ type RecordHeader struct {
 	Value []byte
 }
 
-func decodeHeader(payload []byte) (header RecordHeader, offset int) {
-	keyLength, o := binary.Varint(payload[offset:])
+var errMalformedRecord = errors.New("malformed record")
+
+// decodeVarintBytes decodes a varint length and the bytes following it. It returns nil if the length is negative, which means null
+func decodeVarintBytes(payload []byte) (value []byte, offset int, err error) {
+	length, offset := binary.Varint(payload)
+	if offset <= 0 || length > int64(len(payload)-offset) {
+		return nil, 0, errMalformedRecord
+	}
+	if length >= 0 {
+		value = make([]byte, length)
+		offset += copy(value, payload[offset:offset+int(length)])
+	}
+	return value, offset, nil
+}
+
+func decodeHeader(payload []byte) (header RecordHeader, offset int, err error) {
+	key, o, err := decodeVarintBytes(payload)
+	if err != nil {
+		return header, offset, err
+	}
+	header.Key = string(key)
 	offset += o
-	header.Key = string(payload[offset : offset+int(keyLength)])
-	offset += int(keyLength)
 
-	valueLength, o := binary.Varint(payload[offset:])
+	header.Value, o, err = decodeVarintBytes(payload[offset:])
 	offset += o
-	header.Value = make([]byte, valueLength)
-	offset += copy(header.Value, payload[offset:offset+int(valueLength)])
-	return
+	return header, offset, err
 }
 
 // Record is one message in fetch response with magic byte 2
@@ -136,42 +152,52 @@ func (r *Record) Encode(version uint16) (payload []byte, err error) {
 // DecodeToRecord decodes the struct Record from the given payload.
 func DecodeToRecord(payload []byte) (record Record, offset int, err error) {
 	length, o := binary.Varint(payload)
-	if length == 0 || len(payload[o:]) < int(length) {
+	if o < 0 || length < 0 {
+		return record, 0, errMalformedRecord
+	}
+	if length == 0 || int64(len(payload[o:])) < length {
 		return record, o, errUncompleteRecord
 	}
 	offset += o
+	payload = payload[:offset+int(length)]
 
 	record.attributes = int8(payload[offset])
 	offset++
 
 	timestampDelta, o := binary.Varint(payload[offset:])
+	if o <= 0 {
+		return record, offset, errMalformedRecord
+	}
 	record.timestampDelta = int64(timestampDelta)
 	offset += o
 
 	offsetDelta, o := binary.Varint(payload[offset:])
+	if o <= 0 {
+		return record, offset, errMalformedRecord
+	}
 	record.offsetDelta = int32(offsetDelta)
 	offset += o
 
-	keyLength, o := binary.Varint(payload[offset:])
+	if record.key, o, err = decodeVarintBytes(payload[offset:]); err != nil {
+		return record, offset, err
+	}
 	offset += o
 
-	if keyLength > 0 {
-		record.key = make([]byte, keyLength)
-		offset += copy(record.key, payload[offset:offset+int(keyLength)])
+	if record.value, o, err = decodeVarintBytes(payload[offset:]); err != nil {
+		return record, offset, err
 	}
-
-	valueLen, o := binary.Varint(payload[offset:])
 	offset += o
-	if valueLen > 0 {
-		record.value = make([]byte, valueLen)
-		offset += copy(record.value, payload[offset:offset+int(valueLen)])
-	}
 
 	headerCount, o := binary.Varint(payload[offset:])
+	if o <= 0 || headerCount < 0 || headerCount > int64(len(payload)-offset) {
+		return record, offset, errMalformedRecord
+	}
 	offset += o
 	record.Headers = make([]RecordHeader, headerCount)
 	for i := range record.Headers {
-		record.Headers[i], o = decodeHeader(payload[offset:])
+		if record.Headers[i], o, err = decodeHeader(payload[offset:]); err != nil {
+			return record, offset, err
+		}
 		offset += o
 	}
 
-- 
2.43.0


From 641ecb0a2fe35eac0de9c13447b1c6902d946054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:27 +0000
Subject: [PATCH 02/54] fix: decompress message sets of magic 0 and 1

Compressed messages were compressed once more instead of decompressed, so
decoding them panicked; offsets in a compressed magic 1 message are relative
to the wrapper; an unknown codec was treated as an empty record batch.
---
 fetch_response.go |  4 ++-
 message.go        | 67 +++++++++++++++++++++++++++++++----------------
 2 files changed, 47 insertions(+), 24 deletions(-)

diff --git a/fetch_response.go b/fetch_response.go
index fef9dfa..85f9cb3 100644
--- a/fetch_response.go
+++ b/fetch_response.go
@@ -123,6 +123,8 @@ func uncompress(compress int8, reader io.Reader) (uncompressedBytes []byte, err
 		if err != nil {
 			return nil, fmt.Errorf("uncompress lz4 records error: %w", err)
 		}
+	default:
+		return nil, fmt.Errorf("unknown compression type %d", compress)
 	}
 	return uncompressedBytes, nil
 }
@@ -223,7 +225,7 @@ func (streamDecoder *fetchResponseStreamDecoder) decodeRecordsMagic2(topicName s
 	// magic := buf[16]
 	// crc := binary.BigEndian.Uint32(buf[17:])
 	attributes := binary.BigEndian.Uint16(buf[21:])
-	compress := attributes & 0b11
+	compress := attributes & 0b111
 	// lastOffsetDelta := binary.BigEndian.Uint32(buf[23:])
 	baseTimestamp := binary.BigEndian.Uint64(buf[27:])
 	// maxTimestamp := binary.BigEndian.Uint64(buf[35:])
diff --git a/message.go b/message.go
index 5d1c319..b2d6484 100644
--- a/message.go
+++ b/message.go
@@ -1,9 +1,9 @@
 package healer
 
 import (
+	"bytes"
 	"encoding/binary"
 	"errors"
-	"fmt"
 	"hash/crc32"
 )
 
@@ -34,16 +34,30 @@ type Message struct {
 	Headers []RecordHeader
 }
 
+var errMalformedMessage = errors.New("malformed message")
+
+// decodeMessageBytes decodes a 4-byte length and the bytes following it. It returns nil if the length is -1, which means null
+func decodeMessageBytes(payload []byte) (value []byte, offset int, err error) {
+	if len(payload) < 4 {
+		return nil, 0, errMalformedMessage
+	}
+	length := int(int32(binary.BigEndian.Uint32(payload)))
+	if length == -1 {
+		return nil, 4, nil
+	}
+	if length < 0 || length > len(payload)-4 {
+		return nil, 0, errMalformedMessage
+	}
+	value = make([]byte, length)
+	copy(value, payload[4:])
+	return value, 4 + length, nil
+}
+
 // MessageSet is a batch of messages
 type MessageSet []*Message
 
 func (message *Message) decompress() ([]byte, error) {
-	compression := CompressType(message.Attributes & 0b11)
-	compressor := NewCompressor(compression.String())
-	if compressor == nil {
-		return nil, fmt.Errorf("unknown Compression Type %s", compression)
-	}
-	return compressor.Compress(message.Value)
+	return uncompress(message.Attributes&0x07, bytes.NewReader(message.Value))
 }
 
 func (messageSet *MessageSet) Length() int {
@@ -121,6 +135,9 @@ func DecodeToMessageSet(payload []byte) (MessageSet, error) {
 
 		message := &Message{}
 
+		if len(payload)-offset < 18 {
+			return messageSet, errMalformedMessage
+		}
 		message.Offset = int64(binary.BigEndian.Uint64(payload[offset:]))
 		offset += 8
 
@@ -137,29 +154,23 @@ func DecodeToMessageSet(payload []byte) (MessageSet, error) {
 		offset++
 
 		if message.MagicByte == 1 {
+			if len(payload)-offset < 8 {
+				return messageSet, errMalformedMessage
+			}
 			message.Timestamp = binary.BigEndian.Uint64(payload[offset:])
 			offset += 8
 		}
 
-		keyLength := int32(binary.BigEndian.Uint32(payload[offset:]))
-		offset += 4
-		if keyLength == -1 {
-			message.Key = nil
-		} else {
-			message.Key = make([]byte, keyLength)
-			copy(message.Key, payload[offset:offset+int(keyLength)])
-			offset += int(keyLength)
+		var n int
+		if message.Key, n, err = decodeMessageBytes(payload[offset:]); err != nil {
+			return messageSet, err
 		}
+		offset += n
 
-		valueLength := int32(binary.BigEndian.Uint32(payload[offset:]))
-		offset += 4
-		if valueLength == -1 {
-			message.Value = nil
-		} else {
-			message.Value = make([]byte, valueLength)
-			copy(message.Value, payload[offset:offset+int(valueLength)])
-			offset += int(valueLength)
+		if message.Value, n, err = decodeMessageBytes(payload[offset:]); err != nil {
+			return messageSet, err
 		}
+		offset += n
 		compression := CompressType(message.Attributes & 0x07)
 		if compression != CompressionNone {
 			message.Value, err = message.decompress()
@@ -175,6 +186,16 @@ func DecodeToMessageSet(payload []byte) (MessageSet, error) {
 				// TODO go on to next message in the messageSet?
 				return messageSet, err
 			}
+			if message.MagicByte == 1 && len(_messageSet) > 0 {
+				// offsets of inner messages are relative, the wrapper has the offset of the last one
+				base := message.Offset - _messageSet[len(_messageSet)-1].Offset
+				for _, m := range _messageSet {
+					m.Offset += base
+					if message.Attributes&0x08 != 0 { // LogAppendTime
+						m.Timestamp = message.Timestamp
+					}
+				}
+			}
 			messageSet = append(messageSet, _messageSet...)
 		} else {
 			messageSet = append(messageSet, message)
-- 
2.43.0


From 0a95c7760a72a065712e1ef3bc7c914fe7e3d1f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:36 +0000
Subject: [PATCH 03/54] fix: decode every layout of record batches in fetch
 responses

- a batch without records (compacted, control) is skipped instead of fetching
  it again and again with doubled fetch.max.bytes
- control records are not delivered; LogAppendTime timestamps are honoured
- message sets may mix magics
- a field split over several packets is read completely
- a truncated last batch is told from a connection broken in the middle
- the top level error of fetch response is handled
- the response is read completely before the connection is used again
---
 fetch_response.go  | 250 +++++++++++++++++++++------------------------
 simple_consumer.go |  21 +++-
 2 files changed, 133 insertions(+), 138 deletions(-)

diff --git a/fetch_response.go b/fetch_response.go
index 85f9cb3..1192907 100644
--- a/fetch_response.go
+++ b/fetch_response.go
@@ -55,6 +55,10 @@ type fetchResponseStreamDecoder struct {
 	startOffset int64
 
 	hasOneMessage bool
+
+	nextOffset int64 // the offset next to the last batch which has been decoded completely
+	complete   bool  // the whole response has been decoded without any error
+	broken     bool  // bytes of the response are left on the connection, it must not be used any more
 }
 
 var errShortRead = errors.New("short read")
@@ -129,85 +133,44 @@ func uncompress(compress int8, reader io.Reader) (uncompressedBytes []byte, err
 	return uncompressedBytes, nil
 }
 
-func (streamDecoder *fetchResponseStreamDecoder) decodeMessageSetMagic0or1(topicName string, partitionID int32, magic int, header17 []byte) (offset int, err error) {
-	firstMessageSet := true
-	// value is the bytes of whole record consists of (offset(int64) message_size(int32) message)
-	var value []byte
-	for {
-		if firstMessageSet {
-			firstMessageSet = false
-
-			// messageSize doesn't include the size of messageSize itself.
-			messageSize := int(binary.BigEndian.Uint32(header17[8:]))
-			if messageSize < 6 {
-				return
-			}
-
-			// 12 is the size of offset(int64) & message_size(int32) in header17
-			value = make([]byte, 12+messageSize)
-			n, e := streamDecoder.Read(value[17:])
-			offset += n
-			if e != nil {
-				return offset, e
-			}
-
-			// remaining bytes is incomplete
-			if n < len(value)-17 {
-				return offset, err
-			}
-			copy(value, header17)
-		} else {
-			buf, n, err := streamDecoder.read(12)
-			offset += n
-			if err != nil {
-				return offset, err
-			}
-			if n < 12 {
-				return offset, err
-			}
-			messageSize := int(binary.BigEndian.Uint32(buf[8:]))
-			value = make([]byte, 12+messageSize)
-			n, err = streamDecoder.Read(value[12:])
-			offset += n
-			if err != nil {
-				return offset, err
-			}
+// decode one message(it may be a wrapper of some compressed messages), header17 is the first 17 bytes of it
+func (streamDecoder *fetchResponseStreamDecoder) decodeMessageSetMagic0or1(topicName string, partitionID int32, header17 []byte) (offset int, err error) {
+	// messageSize doesn't include the size of messageSize itself.
+	messageSize := int(int32(binary.BigEndian.Uint32(header17[8:])))
+	if messageSize < 14 {
+		return offset, errMalformedMessage
+	}
 
-			// remaining bytes is incomplete
-			if n < len(value)-17 {
-				return offset, err
-			}
-			copy(value, buf)
-		}
+	// value is the bytes of whole record consists of (offset(int64) message_size(int32) message)
+	// 12 is the size of offset(int64) & message_size(int32) in header17
+	value := make([]byte, 12+messageSize)
+	offset, err = io.ReadFull(streamDecoder, value[17:])
+	if err != nil {
+		return offset, err
+	}
+	copy(value, header17)
 
-		messageSet, err := DecodeToMessageSet(value)
+	messageSet, err := DecodeToMessageSet(value)
+	if err != nil {
+		return offset, err
+	}
 
-		if err != nil {
+	// TODO send each message to the channel directly?
+	for i := range messageSet {
+		if err = streamDecoder.filterAndPutMessage(messageSet[i], topicName, partitionID); err != nil {
 			return offset, err
 		}
-
-		if len(messageSet) == 0 {
-			return offset, nil
-		}
-
-		// TODO send each message to the channel directly?
-		for i := range messageSet {
-			if err = streamDecoder.filterAndPutMessage(messageSet[i], topicName, partitionID); err != nil {
-				return offset, err
-			}
-		}
 	}
+	streamDecoder.nextOffset = int64(binary.BigEndian.Uint64(header17)) + 1
+	return offset, nil
 }
 
 // decode one recordBatch which consists of multiple records
 // offset returned equals to batchLength + 12
-func (streamDecoder *fetchResponseStreamDecoder) decodeRecordsMagic2(topicName string, partitionID int32, header17 []byte) (offset int, err error) {
+func (streamDecoder *fetchResponseStreamDecoder) decodeRecordsMagic2(topicName string, partitionID int32, header17 []byte, truncated bool) (offset int, err error) {
 	bytesBeforeRecordsLength := 44 // (magic, records count]
 	bytesBeforeRecords, n, err := streamDecoder.read(bytesBeforeRecordsLength)
 	if err != nil {
-		if err == io.ErrUnexpectedEOF {
-			return n, nil
-		}
 		return n, err
 	}
 
@@ -220,15 +183,15 @@ func (streamDecoder *fetchResponseStreamDecoder) decodeRecordsMagic2(topicName s
 	copy(buf[len(header17):], bytesBeforeRecords)
 
 	baseOffset := int64(binary.BigEndian.Uint64(buf))
-	batchLength := binary.BigEndian.Uint32(buf[8:])
+	batchLength := int32(binary.BigEndian.Uint32(buf[8:]))
 	// partitionLeaderEpoch := binary.BigEndian.Uint32(buf[12:])
 	// magic := buf[16]
 	// crc := binary.BigEndian.Uint32(buf[17:])
 	attributes := binary.BigEndian.Uint16(buf[21:])
 	compress := attributes & 0b111
-	// lastOffsetDelta := binary.BigEndian.Uint32(buf[23:])
+	lastOffsetDelta := int32(binary.BigEndian.Uint32(buf[23:]))
 	baseTimestamp := binary.BigEndian.Uint64(buf[27:])
-	// maxTimestamp := binary.BigEndian.Uint64(buf[35:])
+	maxTimestamp := binary.BigEndian.Uint64(buf[35:])
 	// producerID := binary.BigEndian.Uint64(buf[43:])
 	// producerEpoch := binary.BigEndian.Uint16(buf[51:])
 	// baseSequence := binary.BigEndian.Uint32(buf[53:])
@@ -241,19 +204,28 @@ func (streamDecoder *fetchResponseStreamDecoder) decodeRecordsMagic2(topicName s
 	// 	"baseTimestamp", baseTimestamp, "maxTimestamp", maxTimestamp, "producerID", producerID, "producerEpoch",
 	// 	producerEpoch, "baseSequence", baseSequence, "count", count)
 
-	if count <= 0 {
-		return
+	if batchLength < 49 {
+		return offset, errMalformedRecord
 	}
 
 	r := io.LimitReader(streamDecoder, int64(batchLength)-49)
 	// set offset immediately because we have to skip the data even if uncompress error
 	offset += int(batchLength) - 49
+	if truncated && compress != 0 {
+		return offset, nil
+	}
+	if attributes&0x20 != 0 { // control batch, it is not for applications
+		count = 0
+	}
+	if count <= 0 {
+		if _, err = io.Copy(io.Discard, r); err == nil && !truncated {
+			streamDecoder.nextOffset = baseOffset + int64(lastOffsetDelta) + 1
+		}
+		return offset, err
+	}
 	uncompressedBytes, err := uncompress(int8(compress), r)
 	if err != nil {
 		io.ReadAll(r) // read all remaining compressed bytes, since lz4 reader may not read all bytes before raise error
-		if streamDecoder.end() && streamDecoder.hasOneMessage {
-			return offset, nil
-		}
 		return offset, fmt.Errorf("uncompress records bytes error: %w", err)
 	}
 
@@ -261,7 +233,7 @@ func (streamDecoder *fetchResponseStreamDecoder) decodeRecordsMagic2(topicName s
 	for i := 0; i < count; i++ {
 		record, o, err := DecodeToRecord(uncompressedBytes[uncompressedBytesOffset:])
 		if err != nil {
-			if err == errUncompleteRecord {
+			if err == errUncompleteRecord && truncated {
 				err = nil
 			}
 			return offset, err
@@ -276,11 +248,17 @@ func (streamDecoder *fetchResponseStreamDecoder) decodeRecordsMagic2(topicName s
 			Value:      record.value,
 			Headers:    record.Headers,
 		}
+		if attributes&0x08 != 0 { // LogAppendTime
+			message.Timestamp = maxTimestamp
+		}
 		if err = streamDecoder.filterAndPutMessage(message, topicName, partitionID); err != nil {
 			return offset, err
 		}
 	}
 
+	if !truncated {
+		streamDecoder.nextOffset = baseOffset + int64(lastOffsetDelta) + 1
+	}
 	return offset, nil
 }
 
@@ -318,12 +296,7 @@ func (streamDecoder *fetchResponseStreamDecoder) putMessage(msg *FullMessage) er
 // that is, `Record Batch`,`Record Batch`,`Record Batch`...
 func (streamDecoder *fetchResponseStreamDecoder) decodeMessageSet(topicName string, partitionID int32, messageSetSizeBytes int32, version uint16) (err error) {
 	defer func() {
-		if errors.Is(err, io.EOF) || errors.Is(err, io.ErrUnexpectedEOF) || err == &maxBytesTooSmall {
-			if streamDecoder.hasOneMessage {
-				err = nil
-			}
-		}
-		if !streamDecoder.hasOneMessage && err == nil {
+		if err == nil && !streamDecoder.hasOneMessage && streamDecoder.nextOffset <= streamDecoder.startOffset {
 			err = &maxBytesTooSmall
 		}
 	}()
@@ -333,32 +306,38 @@ func (streamDecoder *fetchResponseStreamDecoder) decodeMessageSet(topicName stri
 		o      int
 	)
 	for offset < int(messageSetSizeBytes) {
-		// payload before magic: [BaseOffset: Magic]
-		header17, n, e := streamDecoder.read(17)
-		if e != nil {
-			if e == io.ErrUnexpectedEOF {
-				return nil
-			}
-			return e
+		// the broker may truncate the last batch
+		remaining := int(messageSetSizeBytes) - offset
+		if remaining > streamDecoder.totalLength-streamDecoder.offset {
+			remaining = streamDecoder.totalLength - streamDecoder.offset
 		}
-		if n < 17 {
-			return
+		if remaining < 17 {
+			return nil
+		}
+
+		// payload before magic: [BaseOffset: Magic]
+		header17, n, err := streamDecoder.read(17)
+		if err != nil {
+			return err
 		}
 		offset += n
 
 		magic := header17[16]
+		truncated := int(int32(binary.BigEndian.Uint32(header17[8:]))) > remaining-12
 
 		if magic < 2 {
-			o, err = streamDecoder.decodeMessageSetMagic0or1(topicName, partitionID, int(magic), header17)
+			if truncated {
+				return nil
+			}
+			o, err = streamDecoder.decodeMessageSetMagic0or1(topicName, partitionID, header17)
 		} else {
-			o, err = streamDecoder.decodeRecordsMagic2(topicName, partitionID, header17)
+			if truncated && remaining < 17+44 {
+				return nil
+			}
+			o, err = streamDecoder.decodeRecordsMagic2(topicName, partitionID, header17, truncated)
 		}
 		offset += o
-		if err != nil {
-			// if err == errUncompleteRecord {
-			// 	hasAtLeastOneMessage = true
-			// 	return nil
-			// }
+		if err != nil || truncated {
 			return err
 		}
 	}
@@ -372,17 +351,17 @@ func (streamDecoder *fetchResponseStreamDecoder) decodePartitionResponse(topicNa
 	)
 
 	defer func() {
-		if errors.Is(err, io.EOF) {
+		if errors.Is(err, io.EOF) && streamDecoder.end() {
 			err = &maxBytesTooSmall
 		}
 	}()
 
-	if _, err = streamDecoder.Read(buf[:4]); err != nil {
+	if _, err = io.ReadFull(streamDecoder, buf[:4]); err != nil {
 		return err
 	}
 	p.PartitionID = int32(binary.BigEndian.Uint32(buf))
 
-	if _, err = streamDecoder.Read(buf[:2]); err != nil {
+	if _, err = io.ReadFull(streamDecoder, buf[:2]); err != nil {
 		return err
 	}
 	p.ErrorCode = int16(binary.BigEndian.Uint16(buf))
@@ -390,24 +369,24 @@ func (streamDecoder *fetchResponseStreamDecoder) decodePartitionResponse(topicNa
 		return KafkaError(p.ErrorCode)
 	}
 
-	if _, err = streamDecoder.Read(buf[:8]); err != nil {
+	if _, err = io.ReadFull(streamDecoder, buf[:8]); err != nil {
 		return err
 	}
 	// p.HighWatermark = int64(binary.BigEndian.Uint64(buf))
 
 	switch version {
 	case 7, 10:
-		if _, err = streamDecoder.Read(buf[:8]); err != nil {
+		if _, err = io.ReadFull(streamDecoder, buf[:8]); err != nil {
 			return err
 		}
 		// p.LastStableOffset = int64(binary.BigEndian.Uint64(buf))
 
-		if _, err = streamDecoder.Read(buf[:8]); err != nil {
+		if _, err = io.ReadFull(streamDecoder, buf[:8]); err != nil {
 			return err
 		}
 		// p.LogStartOffset = int64(binary.BigEndian.Uint64(buf))
 
-		if _, err = streamDecoder.Read(buf[:4]); err != nil {
+		if _, err = io.ReadFull(streamDecoder, buf[:4]); err != nil {
 			return err
 		}
 		abortedTransactionsCount := int32(binary.BigEndian.Uint32(buf))
@@ -417,12 +396,12 @@ func (streamDecoder *fetchResponseStreamDecoder) decodePartitionResponse(topicNa
 				FirstOffset int64
 			}, abortedTransactionsCount)
 			for i := 0; i < int(abortedTransactionsCount); i++ {
-				if _, err = streamDecoder.Read(buf[:8]); err != nil {
+				if _, err = io.ReadFull(streamDecoder, buf[:8]); err != nil {
 					return err
 				}
 				p.AbortedTransactions[i].ProducerID = int64(binary.BigEndian.Uint64(buf))
 
-				if _, err = streamDecoder.Read(buf[:8]); err != nil {
+				if _, err = io.ReadFull(streamDecoder, buf[:8]); err != nil {
 					return err
 				}
 				p.AbortedTransactions[i].FirstOffset = int64(binary.BigEndian.Uint64(buf))
@@ -430,7 +409,7 @@ func (streamDecoder *fetchResponseStreamDecoder) decodePartitionResponse(topicNa
 		}
 	}
 
-	if _, err = streamDecoder.Read(buf[:4]); err != nil {
+	if _, err = io.ReadFull(streamDecoder, buf[:4]); err != nil {
 		return err
 	}
 	p.RecordBatchesSize = int32(binary.BigEndian.Uint32(buf))
@@ -505,6 +484,11 @@ func (streamDecoder *fetchResponseStreamDecoder) decodeHeader(version uint16) er
 
 	streamDecoder.correlationID = int32(binary.BigEndian.Uint32(buffer))
 	streamDecoder.responsesCount = int(binary.BigEndian.Uint32(buffer[countOffset:]))
+	if version >= 7 {
+		if errorCode := int16(binary.BigEndian.Uint16(buffer[8:])); errorCode != 0 {
+			return KafkaError(errorCode)
+		}
+	}
 	return nil
 }
 
@@ -513,41 +497,35 @@ func (streamDecoder *fetchResponseStreamDecoder) streamDecode(ctx context.Contex
 	streamDecoder.startOffset = startOffset
 	streamDecoder.hasOneMessage = false
 
-	if err := streamDecoder.decodeHeader(streamDecoder.version); err != nil {
-		return err
-	}
-	defer func() {
-		// 将 LimitedReader 中的剩余数据读取完毕
-		streamDecoder.readAll()
-
-		logger.V(5).Info("decode fetch response done", "correlationID", streamDecoder.correlationID)
-	}()
+	err := streamDecoder.decodeHeader(streamDecoder.version)
+	logger.V(5).Info("decode fetch response", "correlationID", streamDecoder.correlationID, "responsesCount", streamDecoder.responsesCount)
 
-	if streamDecoder.responsesCount == 0 {
-		return nil
+	for i := 0; err == nil && i < streamDecoder.responsesCount; i++ {
+		err = streamDecoder.decodeResponses(streamDecoder.version)
 	}
 
-	logger.V(5).Info("decode fetch response", "correlationID", streamDecoder.correlationID, "responsesCount", streamDecoder.responsesCount)
+	// 将 LimitedReader 中的剩余数据读取完毕. it must be done before the error is sent, because the connection may be used to handle the error
+	_, e := streamDecoder.readAll()
+	streamDecoder.broken = e != nil || !streamDecoder.end()
+	logger.V(5).Info("decode fetch response done", "correlationID", streamDecoder.correlationID)
 
-	for i := 0; i < streamDecoder.responsesCount; i++ {
-		err := streamDecoder.decodeResponses(streamDecoder.version)
-		if err != nil {
-			msg := &FullMessage{
-				TopicName:   "",
-				PartitionID: -1,
-				Error:       err,
-				Message:     nil,
-			}
-			select {
-			case <-ctx.Done():
-				return ctx.Err()
-			case <-streamDecoder.ctx.Done():
-				return streamDecoder.ctx.Err()
-			case streamDecoder.messages <- msg:
-				return nil
-			}
+	if err != nil {
+		msg := &FullMessage{
+			TopicName:   "",
+			PartitionID: -1,
+			Error:       err,
+			Message:     nil,
+		}
+		select {
+		case <-ctx.Done():
+			return ctx.Err()
+		case <-streamDecoder.ctx.Done():
+			return streamDecoder.ctx.Err()
+		case streamDecoder.messages <- msg:
+			return nil
 		}
 	}
 
+	streamDecoder.complete = true
 	return nil
 }
diff --git a/simple_consumer.go b/simple_consumer.go
index 273af5b..92880ff 100644
--- a/simple_consumer.go
+++ b/simple_consumer.go
@@ -412,7 +412,8 @@ func (c *SimpleConsumer) consumeLoop(messages chan *FullMessage) {
 		r := NewFetchRequest(c.config.ClientID, c.config.FetchMaxWaitMS, c.config.FetchMinBytes)
 		r.addPartition(c.topic, c.partitionID, c.offset, c.config.FetchMaxBytes, c.partition.LeaderEpoch)
 
-		reader, responseLength, err := c.leaderBroker.requestFetchStreamingly(r)
+		leaderBroker := c.leaderBroker
+		reader, responseLength, err := leaderBroker.requestFetchStreamingly(r)
 		if err != nil {
 			if err == context.Canceled {
 				return
@@ -428,11 +429,13 @@ func (c *SimpleConsumer) consumeLoop(messages chan *FullMessage) {
 			buffers:     reader,
 			messages:    innerMessages,
 			totalLength: int(responseLength),
-			version:     c.leaderBroker.getHighestAvailableAPIVersion(API_FetchRequest),
+			version:     leaderBroker.getHighestAvailableAPIVersion(API_FetchRequest),
 		}
 
 		ctx, cancel := context.WithCancel(context.Background())
+		decoded := make(chan struct{})
 		go func() {
+			defer close(decoded)
 			if err := frsd.streamDecode(ctx, c.offset); err != nil {
 				if err == context.Canceled {
 					return
@@ -450,6 +453,20 @@ func (c *SimpleConsumer) consumeLoop(messages chan *FullMessage) {
 			wg.Done()
 		}()
 		wg.Wait()
+
+		// the connection is not available until the whole response has been read
+		select {
+		case <-decoded:
+		case <-c.ctx.Done():
+			return
+		}
+		if frsd.broken {
+			leaderBroker.Close()
+		}
+		// go over the offsets which have no message, such as those removed by compaction
+		if frsd.complete && frsd.nextOffset > c.offset && c.ctx.Err() == nil {
+			c.offset = frsd.nextOffset
+		}
 	}
 }
 
-- 
2.43.0


From 1ccec5e20d16a5b72e3a3a8cbf307795a9827d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:36 +0000
Subject: [PATCH 04/54] fix: do not use a connection whose initialization
 failed, and do not dead lock in sasl

ensureOpen took a connection on which api versions or sasl had failed for a
usable one. Reconnecting with sasl dead locked, because RequestAndGet was
called with the lock held. A failed leave group request panicked.
---
 broker.go | 36 ++++++++++++++++++++++++------------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/broker.go b/broker.go
index 4f44682..0fc68cf 100644
--- a/broker.go
+++ b/broker.go
@@ -76,10 +76,16 @@ func (broker *Broker) createConn() error {
 }
 
 // create a new connection to the broker, and then do the sasl authenticate if needed
-func (broker *Broker) createConnAndAuth() error {
-	if err := broker.createConn(); err != nil {
+func (broker *Broker) createConnAndAuth() (err error) {
+	if err = broker.createConn(); err != nil {
 		return err
 	}
+	// a connection which is not ready must not be used
+	defer func() {
+		if err != nil {
+			broker.Close()
+		}
+	}()
 
 	clientID := "healer-init"
 	apiVersionsResponse, err := broker.requestAPIVersions(clientID)
@@ -164,24 +170,27 @@ func (broker *Broker) sendSaslAuthenticate() error {
 	)
 
 	saslHandShakeRequest := NewSaslHandShakeRequest(clientID, mechanism)
-	resp, err := broker.RequestAndGet(saslHandShakeRequest)
-	if err != nil {
+	if err := broker.requestInInit(saslHandShakeRequest); err != nil {
 		return err
 	}
-	if resp.Error() != nil {
-		return resp.Error()
-	}
 
 	// authenticate
 	saslAuthenticateRequest := NewSaslAuthenticateRequest(clientID, user, password, mechanism)
-	resp, err = broker.RequestAndGet(saslAuthenticateRequest)
+	return broker.requestInInit(saslAuthenticateRequest)
+}
+
+// used in broker init and reopen after close.
+// not use RequestAndGet to avoid dead lock
+func (broker *Broker) requestInInit(r Request) error {
+	rp, err := broker.Request(r)
 	if err != nil {
 		return err
 	}
-	if resp.Error() != nil {
-		return resp.Error()
+	resp, err := rp.ReadAndParse()
+	if err != nil {
+		return err
 	}
-	return nil
+	return resp.Error()
 }
 
 // GetAddress returns the broker address
@@ -438,5 +447,8 @@ func (broker *Broker) requestHeartbeat(clientID, groupID string, generationID in
 func (broker *Broker) requestLeaveGroup(clientID, groupID string, memberID string) (r LeaveGroupResponse, err error) {
 	leaveReq := NewLeaveGroupRequest(clientID, groupID, memberID)
 	resp, err := broker.RequestAndGet(leaveReq)
-	return resp.(LeaveGroupResponse), err
+	if v, ok := resp.(LeaveGroupResponse); ok {
+		return v, err
+	}
+	return r, err
 }
-- 
2.43.0


From 61fcb7c962502208b3db3b670c2e95cffa3636ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:33 +0000
Subject: [PATCH 05/54] fix: never reuse a connection on which a request failed

- a request which failed in any way left its response on the connection, and
  the next request got it; responses are matched by correlation id now
- closing a broker while a request is in flight panicked
- length of a fetch response may be split into packets
- fetch had no timeout if the one of the api is 0
---
 broker.go   | 65 ++++++++++++++++++++++++++++++++++-------------------
 response.go | 31 ++++++++++++++++++++-----
 2 files changed, 68 insertions(+), 28 deletions(-)

diff --git a/broker.go b/broker.go
index 0fc68cf..a78b171 100644
--- a/broker.go
+++ b/broker.go
@@ -11,7 +11,6 @@ import (
 	"net"
 	"os"
 	"sync"
-	"syscall"
 	"time"
 )
 
@@ -70,6 +69,8 @@ func (broker *Broker) createConn() error {
 	if conn, err := newConn(broker.GetAddress(), broker.config); err != nil {
 		return err
 	} else {
+		broker.closeLock.Lock()
+		defer broker.closeLock.Unlock()
 		broker.conn = conn
 		return nil
 	}
@@ -214,8 +215,20 @@ func (broker *Broker) Close() {
 		broker.conn = nil
 	}
 }
+
+// getConn returns the current connection. it may be closed by other go-routine at any time
+func (broker *Broker) getConn() (net.Conn, error) {
+	broker.closeLock.Lock()
+	defer broker.closeLock.Unlock()
+
+	if broker.conn == nil {
+		return nil, net.ErrClosed
+	}
+	return broker.conn, nil
+}
+
 func (broker *Broker) ensureOpen() (err error) {
-	if broker.conn != nil {
+	if _, err = broker.getConn(); err == nil {
 		return nil
 	}
 	return broker.createConnAndAuth()
@@ -240,6 +253,7 @@ func (broker *Broker) Request(r Request) (ReadParser, error) {
 	}
 	rp.version = version
 	rp.api = r.API()
+	rp.correlationID = broker.correlationID
 
 	return rp, err
 }
@@ -253,32 +267,33 @@ func (broker *Broker) RequestAndGet(r Request) (resp Response, err error) {
 		return nil, err
 	}
 
-	defer func() {
-		if os.IsTimeout(err) || errors.Is(err, io.EOF) || errors.Is(err, syscall.EPIPE) {
-			broker.Close()
-		}
-	}()
-
+	// the connection is not usable any more if the response has not been read completely
 	rp, err := broker.Request(r)
 	if err != nil {
+		broker.Close()
 		return nil, err
 	}
 
 	resp, err = rp.ReadAndParse()
 	if err != nil {
+		broker.Close()
 		return nil, err
 	}
 	return resp, resp.Error()
 }
 
 func (broker *Broker) request(payload []byte, timeout int) (defaultReadParser, error) {
-	logger.V(5).Info("send request", "src", broker.conn.LocalAddr(), "dst", broker.conn.RemoteAddr())
+	conn, err := broker.getConn()
+	if err != nil {
+		return defaultReadParser{}, err
+	}
+	logger.V(5).Info("send request", "src", conn.LocalAddr(), "dst", conn.RemoteAddr())
 	api := ApiKey(binary.BigEndian.Uint16(payload[4:]))
 	apiVersion := binary.BigEndian.Uint16(payload[6:])
 	correlationID := binary.BigEndian.Uint32(payload[8:])
 	logger.V(5).Info("request info", "length", len(payload), "api", api, "apiVersion", apiVersion, "correlationID", correlationID, "timeout", timeout)
 
-	if _, err := io.Copy(broker.conn, bytes.NewBuffer(payload)); err != nil {
+	if _, err := io.Copy(conn, bytes.NewBuffer(payload)); err != nil {
 		return defaultReadParser{}, err
 	}
 
@@ -296,31 +311,33 @@ func (broker *Broker) requestStreamingly(payload []byte, timeout int) (r io.Read
 		}
 	}()
 
-	logger.V(5).Info("send request", "src", broker.conn.LocalAddr(), "dst", broker.conn.RemoteAddr())
+	conn, err := broker.getConn()
+	if err != nil {
+		return nil, responseLength, err
+	}
+	logger.V(5).Info("send request", "src", conn.LocalAddr(), "dst", conn.RemoteAddr())
 	api := ApiKey(binary.BigEndian.Uint16(payload[4:]))
 	apiVersion := binary.BigEndian.Uint16(payload[6:])
 	correlationID := binary.BigEndian.Uint32(payload[8:])
 	logger.V(5).Info("request info", "length", len(payload), "api", api, "apiVersion", apiVersion, "correlationID", correlationID, "timeout", timeout)
 
-	io.Copy(broker.conn, bytes.NewBuffer(payload))
+	if _, err = io.Copy(conn, bytes.NewBuffer(payload)); err != nil {
+		return nil, responseLength, err
+	}
 
 	responseLengthBuf := make([]byte, 4)
 	if timeout > 0 {
-		broker.conn.SetReadDeadline(time.Now().Add(time.Duration(timeout) * time.Millisecond))
+		conn.SetReadDeadline(time.Now().Add(time.Duration(timeout) * time.Millisecond))
 	}
-	n, err := broker.conn.Read(responseLengthBuf)
-	if err != nil {
+	if _, err = io.ReadFull(conn, responseLengthBuf); err != nil {
 		return nil, responseLength, err
 	}
-	if n != 4 {
-		return nil, responseLength, errShortRead
-	}
 
 	responseLength = binary.BigEndian.Uint32(responseLengthBuf)
 	logger.V(5).Info("got responseLength", "responseLength", responseLength)
 
 	reader := &io.LimitedReader{
-		R: broker.conn,
+		R: conn,
 		N: int64(responseLength),
 	}
 	return reader, responseLength, nil
@@ -377,13 +394,13 @@ func (broker *Broker) requestOffsets(clientID, topic string, partitionIDs []int3
 }
 
 func (broker *Broker) requestFetchStreamingly(fetchRequest *FetchRequest) (r io.Reader, responseLength uint32, err error) {
+	broker.mux.Lock()
+	defer broker.mux.Unlock()
+
 	if err := broker.ensureOpen(); err != nil {
 		return nil, 0, err
 	}
 
-	broker.mux.Lock()
-	defer broker.mux.Unlock()
-
 	broker.correlationID++
 
 	fetchRequest.SetCorrelationID(broker.correlationID)
@@ -391,7 +408,9 @@ func (broker *Broker) requestFetchStreamingly(fetchRequest *FetchRequest) (r io.
 
 	timeout := broker.config.Net.TimeoutMS
 	if len(broker.config.Net.TimeoutMSForEachAPI) > int(fetchRequest.API()) {
-		timeout = broker.config.Net.TimeoutMSForEachAPI[fetchRequest.API()]
+		if broker.config.Net.TimeoutMSForEachAPI[fetchRequest.API()] > 0 {
+			timeout = broker.config.Net.TimeoutMSForEachAPI[fetchRequest.API()]
+		}
 	}
 
 	return broker.requestStreamingly(payload, timeout)
diff --git a/response.go b/response.go
index df43f67..08f2e45 100644
--- a/response.go
+++ b/response.go
@@ -25,8 +25,15 @@ type defaultReadParser struct {
 	api     uint16
 	version uint16
 	timeout int
+
+	correlationID uint32
 }
 
+var (
+	errResponseLength        = errors.New("invalid response length")
+	errResponseCorrelationID = errors.New("correlation id in the response does not match the request")
+)
+
 // ReadAndParse read a whole response data from broker and parse it
 func (p defaultReadParser) ReadAndParse() (Response, error) {
 	data, err := p.Read()
@@ -34,6 +41,13 @@ func (p defaultReadParser) ReadAndParse() (Response, error) {
 		return nil, fmt.Errorf("read response of %d(%d) from %s error: %w", p.api, p.version, p.broker.GetAddress(), err)
 	}
 
+	// api versions is the first request on a connection, there is no other response which it could get
+	if p.api != API_ApiVersions && len(data) >= 8 {
+		if correlationID := binary.BigEndian.Uint32(data[4:]); correlationID != p.correlationID {
+			return nil, fmt.Errorf("read response of %d(%d) from %s error: %w: %d != %d", p.api, p.version, p.broker.GetAddress(), errResponseCorrelationID, correlationID, p.correlationID)
+		}
+	}
+
 	resp, err := p.Parse(data)
 	if err != nil {
 		return nil, fmt.Errorf("parse response of %d(%d) from %s error: %w", p.api, p.version, p.broker.GetAddress(), err)
@@ -44,13 +58,17 @@ func (p defaultReadParser) ReadAndParse() (Response, error) {
 // Read read a whole response data from broker. it firstly read length of the response data, then read the whole response data
 func (p defaultReadParser) Read() ([]byte, error) {
 	//TODO use LimitedReader
+	conn, err := p.broker.getConn()
+	if err != nil {
+		return nil, err
+	}
 	l := 0
 	responseLengthBuf := make([]byte, 4)
 	for {
 		if p.timeout > 0 {
-			p.broker.conn.SetReadDeadline(time.Now().Add(time.Duration(p.timeout) * time.Millisecond))
+			conn.SetReadDeadline(time.Now().Add(time.Duration(p.timeout) * time.Millisecond))
 		}
-		length, err := p.broker.conn.Read(responseLengthBuf[l:])
+		length, err := conn.Read(responseLengthBuf[l:])
 		if err != nil {
 			return nil, err
 		}
@@ -60,15 +78,18 @@ func (p defaultReadParser) Read() ([]byte, error) {
 		}
 		l += length
 	}
-	responseLength := int(binary.BigEndian.Uint32(responseLengthBuf))
+	responseLength := int(int32(binary.BigEndian.Uint32(responseLengthBuf)))
+	if responseLength < 4 {
+		return nil, errResponseLength
+	}
 	resp := make([]byte, 4+responseLength)
 
 	readLength := 0
 	for {
 		if p.timeout > 0 {
-			p.broker.conn.SetReadDeadline(time.Now().Add(time.Duration(p.timeout) * time.Millisecond))
+			conn.SetReadDeadline(time.Now().Add(time.Duration(p.timeout) * time.Millisecond))
 		}
-		length, err := p.broker.conn.Read(resp[4+readLength:])
+		length, err := conn.Read(resp[4+readLength:])
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 649a381743233c4bec0f685171a8e696fd0db78c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:23 +0000
Subject: [PATCH 06/54] fix: simple consumer recovers from a leader that is
 gone and from an offset out of range

- it fetched from the same broker for ever if the leader had died
- out of range always went to the latest offset unless the start offset had
  been fetched with -1/-2, and to -1 if the latest offset could not be got
- fetch.max.bytes overflowed; errors were retried without back off
---
 simple_consumer.go | 47 ++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 39 insertions(+), 8 deletions(-)

diff --git a/simple_consumer.go b/simple_consumer.go
index 92880ff..43af726 100644
--- a/simple_consumer.go
+++ b/simple_consumer.go
@@ -5,6 +5,7 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"math"
 	"os"
 	"sync"
 	"syscall"
@@ -168,7 +169,7 @@ func (c *SimpleConsumer) getLeaderBroker() error {
 	leaderBroker, err = c.brokers.NewBroker(leaderID)
 	if err != nil {
 		// FIXME refresh metadata
-		logger.Error(err, "could not create broker. maybe should refresh metadata.", "leaderID", leaderID, "leaderAddress", c.brokers.brokers[leaderID].address)
+		logger.Error(err, "could not create broker. maybe should refresh metadata.", "leaderID", leaderID)
 		return err
 	}
 
@@ -177,6 +178,18 @@ func (c *SimpleConsumer) getLeaderBroker() error {
 	return nil
 }
 
+// the leader may have moved to other broker, keep the current one if it could not be found
+func (c *SimpleConsumer) refindLeader() {
+	leaderBroker := c.leaderBroker
+	if err := c.getLeaderBroker(); err != nil {
+		logger.Error(err, "failed to find leader", "topic", c.topic, "partitionID", c.partitionID)
+		return
+	}
+	if leaderBroker != nil && leaderBroker != c.leaderBroker {
+		leaderBroker.Close()
+	}
+}
+
 // init offset based on fromBeginning if not got commited offset
 func (c *SimpleConsumer) initOffset() {
 	logger.V(1).Info("init offset", "topic", c.topic, "partitionID", c.partitionID, "offset", c.offset)
@@ -196,6 +209,7 @@ func (c *SimpleConsumer) initOffset() {
 		if c.offset, err = c.getOffset(c.fromBeginning); err != nil {
 			logger.Error(err, "could not get offset", "topic", c.topic, "partitionID", c.partitionID)
 			time.Sleep(time.Millisecond * time.Duration(c.config.RetryBackOffMS))
+			c.refindLeader()
 		} else {
 			logger.Info("fetched offset", "topic", c.topic, "partitionID", c.partitionID, "offset", c.offset)
 			break
@@ -218,7 +232,12 @@ func (c *SimpleConsumer) getOffset(fromBeginning bool) (int64, error) {
 	if err := offsetsResponse.Error(); err != nil {
 		return -1, err
 	}
-	return int64(offsetsResponse.TopicPartitionOffsets[c.topic][0].GetOffset()), nil
+	for _, p := range offsetsResponse.TopicPartitionOffsets[c.topic] {
+		if p.Partition == c.partitionID {
+			return int64(p.GetOffset()), nil
+		}
+	}
+	return -1, errors.New("partition not found in offsets response")
 }
 
 func (c *SimpleConsumer) getCommitedOffet() error {
@@ -350,6 +369,8 @@ func (c *SimpleConsumer) Consume(offset int64, messageChan chan *FullMessage) (<
 	c.messages = messages
 
 	c.offset = offset
+	// it decides where to go on if the offset is out of range
+	c.fromBeginning = offset == -2 || (offset != -1 && c.config.FromBeginning)
 
 	logger.V(5).Info("start consume from offset (before fetch offset)", "topic", c.topic, "partitionID", c.partitionID, "offset", c.offset)
 
@@ -420,6 +441,7 @@ func (c *SimpleConsumer) consumeLoop(messages chan *FullMessage) {
 			}
 			logger.Error(err, "failed to fetch")
 			time.Sleep(time.Millisecond * time.Duration(c.config.RetryBackOffMS))
+			c.refindLeader()
 			continue
 		}
 
@@ -487,15 +509,21 @@ func (c *SimpleConsumer) consumeMessages(innerMessages chan *FullMessage, messag
 			if os.IsTimeout(message.Error) || errors.Is(message.Error, io.EOF) || errors.Is(message.Error, syscall.EPIPE) {
 				c.leaderBroker.Close()
 			} else if message.Error == &maxBytesTooSmall {
-				c.config.FetchMaxBytes *= 2
+				if c.config.FetchMaxBytes > math.MaxInt32/2 {
+					c.config.FetchMaxBytes = math.MaxInt32
+				} else {
+					c.config.FetchMaxBytes *= 2
+				}
 				logger.Info("fetch.max.bytes is too small, double it", "new FetchMaxBytes", c.config.FetchMaxBytes)
 			}
 			if errors.Is(message.Error, KafkaError(1)) {
-				c.offset, err = c.getOffset(c.fromBeginning)
-				if err != nil {
-					logger.Error(err, "failed to get offset", "topic", c.topic, "partitionID", c.partitionID)
+				if offset, e := c.getOffset(c.fromBeginning); e != nil {
+					logger.Error(e, "failed to get offset", "topic", c.topic, "partitionID", c.partitionID)
+					time.Sleep(time.Millisecond * time.Duration(c.config.RetryBackOffMS))
+				} else {
+					c.offset = offset
 				}
-			} else if errors.Is(message.Error, KafkaError(6)) {
+			} else if errors.Is(message.Error, KafkaError(6)) || errors.Is(message.Error, KafkaError(3)) || errors.Is(message.Error, KafkaError(5)) {
 				c.leaderBroker.Close()
 				c.leaderBroker = nil
 				for !c.stop {
@@ -506,8 +534,11 @@ func (c *SimpleConsumer) consumeMessages(innerMessages chan *FullMessage, messag
 						break
 					}
 				}
-			} else if errors.Is(message.Error, KafkaError(74)) {
+			} else if errors.Is(message.Error, KafkaError(74)) || errors.Is(message.Error, KafkaError(75)) {
 				c.refreshPartiton()
+				time.Sleep(time.Millisecond * time.Duration(c.config.RetryBackOffMS))
+			} else if message.Error != &maxBytesTooSmall {
+				time.Sleep(time.Millisecond * time.Duration(c.config.RetryBackOffMS))
 			}
 			return
 		} else {
-- 
2.43.0


From 0c2c42750df15a18983c1840f619dbb214d77f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:06 +0000
Subject: [PATCH 07/54] fix: close brokers for good, do not leak their
 connections

- Brokers.Close panicked if called twice or at the same time as GetBroker,
  and a closed broker was opened again by the next request
- connections used to refresh metadata, and to a bootstrap server with other
  address, were never closed
- the controller was not updated; metadata without topic panicked
---
 broker.go  | 14 ++++++++++++++
 brokers.go | 51 ++++++++++++++++++++++++++++++++++++++++++++++-----
 2 files changed, 60 insertions(+), 5 deletions(-)

diff --git a/broker.go b/broker.go
index a78b171..8d2a818 100644
--- a/broker.go
+++ b/broker.go
@@ -26,6 +26,7 @@ type Broker struct {
 
 	mux       sync.Mutex
 	closeLock sync.Mutex
+	closed    bool // closed for ever by shutdown
 }
 
 var (
@@ -71,6 +72,10 @@ func (broker *Broker) createConn() error {
 	} else {
 		broker.closeLock.Lock()
 		defer broker.closeLock.Unlock()
+		if broker.closed {
+			conn.Close()
+			return net.ErrClosed
+		}
 		broker.conn = conn
 		return nil
 	}
@@ -216,6 +221,15 @@ func (broker *Broker) Close() {
 	}
 }
 
+// shutdown closes the connection and never opens it again
+func (broker *Broker) shutdown() {
+	broker.closeLock.Lock()
+	broker.closed = true
+	broker.closeLock.Unlock()
+
+	broker.Close()
+}
+
 // getConn returns the current connection. it may be closed by other go-routine at any time
 func (broker *Broker) getConn() (net.Conn, error) {
 	broker.closeLock.Lock()
diff --git a/brokers.go b/brokers.go
index 94e993f..4ca686c 100644
--- a/brokers.go
+++ b/brokers.go
@@ -20,14 +20,29 @@ type Brokers struct {
 
 	mutex sync.Locker
 
+	closeOnce sync.Once
 	closeChan chan struct{}
 }
 
-// Close close all brokers
+var errBrokersClosed = errors.New("brokers closed")
+
+// Close close all brokers. no connection is created after that
 func (brokers *Brokers) Close() {
-	close(brokers.closeChan)
+	brokers.closeOnce.Do(func() { close(brokers.closeChan) })
+
+	brokers.mutex.Lock()
+	defer brokers.mutex.Unlock()
 	for _, broker := range brokers.brokers {
-		broker.Close()
+		broker.shutdown()
+	}
+}
+
+func (brokers *Brokers) closed() bool {
+	select {
+	case <-brokers.closeChan:
+		return true
+	default:
+		return false
 	}
 }
 
@@ -50,6 +65,7 @@ func NewBrokersWithConfig(bootstrapServers string, config *BrokerConfig) (*Broke
 			brokers, err := newBrokersFromOne(broker, clientID, config)
 			if err != nil {
 				logger.Error(err, "could not create broker list", "address", broker)
+				broker.Close()
 			} else {
 				brokers.bootstrapServers = bootstrapServers
 				return brokers, nil
@@ -87,12 +103,17 @@ func newBrokersFromOne(broker *Broker, clientID string, config *BrokerConfig) (*
 	brokers.mutex.Lock()
 	defer brokers.mutex.Unlock()
 	brokers.controllerID = metadataResponse.ControllerID
+	used := false
 	for _, brokerInfo := range metadataResponse.Brokers {
 		brokers.brokersInfo[brokerInfo.NodeID] = brokerInfo
 		if broker.GetAddress() == brokerInfo.NetAddress() {
 			brokers.brokers[brokerInfo.NodeID] = broker
+			used = true
 		}
 	}
+	if !used {
+		broker.Close()
+	}
 
 	for nodeID, broker := range brokers.brokersInfo {
 		logger.V(3).Info("brokers in cluster", "nodeID", nodeID, "host", broker.Host, "port", broker.Port)
@@ -123,9 +144,9 @@ func (brokers *Brokers) refreshMetadata() bool {
 		}
 
 		metadataResponse, err := broker.requestMetaData(clientID, topics)
+		broker.Close()
 		if len(metadataResponse.Brokers) == 0 {
 			logger.Info("no broker returned from metadata response")
-			broker.Close()
 			continue
 		}
 
@@ -134,6 +155,7 @@ func (brokers *Brokers) refreshMetadata() bool {
 			brokersInfo[brokerInfo.NodeID] = brokerInfo
 		}
 		brokers.brokersInfo = brokersInfo
+		brokers.controllerID = metadataResponse.ControllerID
 
 		for nodeID, broker := range brokers.brokersInfo {
 			logger.V(3).Info("brokers in cluster", "nodeID", nodeID, "host", broker.Host, "port", broker.Port)
@@ -151,6 +173,7 @@ func (brokers *Brokers) refreshMetadata() bool {
 		}
 
 		metadataResponse, err := broker.requestMetaData(clientID, topics)
+		broker.Close()
 		if len(metadataResponse.Brokers) == 0 {
 			logger.Info("no broker returned from metadata response")
 			continue
@@ -161,6 +184,7 @@ func (brokers *Brokers) refreshMetadata() bool {
 			brokersInfo[brokerInfo.NodeID] = brokerInfo
 		}
 		brokers.brokersInfo = brokersInfo
+		brokers.controllerID = metadataResponse.ControllerID
 
 		for nodeID, broker := range brokers.brokersInfo {
 			logger.V(3).Info("brokers in cluster", "nodeID", nodeID, "host", broker.Host, "port", broker.Port)
@@ -172,6 +196,10 @@ func (brokers *Brokers) refreshMetadata() bool {
 
 // TODO merge with GetBroker
 func (brokers *Brokers) NewBroker(nodeID int32) (*Broker, error) {
+	if brokers.closed() {
+		return nil, errBrokersClosed
+	}
+
 	if _, ok := brokers.brokersInfo[nodeID]; !ok {
 		logger.Info("could not get broker from cache, referesh medadata", "nodeID", nodeID)
 		if !brokers.refreshMetadata() {
@@ -196,6 +224,10 @@ func (brokers *Brokers) GetBroker(nodeID int32) (*Broker, error) {
 	brokers.mutex.Lock()
 	defer brokers.mutex.Unlock()
 
+	if brokers.closed() {
+		return nil, errBrokersClosed
+	}
+
 	if broker, ok := brokers.brokers[nodeID]; ok {
 		return broker, nil
 	}
@@ -254,6 +286,9 @@ func (brokers *Brokers) RequestOffsets(clientID, topic string, partitionID int32
 	}
 
 	// TODO only one topic
+	if len(metadataResponse.TopicMetadatas) == 0 {
+		return nil, fmt.Errorf("could not get metadata of topic[%s]", topic)
+	}
 	topicMetadata := metadataResponse.TopicMetadatas[0]
 
 	if partitionID >= 0 {
@@ -301,6 +336,9 @@ func (brokers *Brokers) findLeader(clientID, topic string, partitionID int32) (i
 		return -1, fmt.Errorf("could not get metadata of topic %s: %w", topic, err)
 	}
 
+	if len(metadataResponse.TopicMetadatas) == 0 {
+		return -1, fmt.Errorf("could not get metadata of topic %s", topic)
+	}
 	partitionMetadatas := metadataResponse.TopicMetadatas[0].PartitionMetadatas
 	for _, partitionMetadata := range partitionMetadatas {
 		if partitionMetadata.PartitionID == partitionID {
@@ -327,7 +365,10 @@ func (brokers *Brokers) FindCoordinator(clientID, groupID string) (r FindCoordin
 		}
 	}
 
-	return FindCoordinatorResponse{}, fmt.Errorf("could not find coordinator from all brokers")
+	if err == nil {
+		err = &noAvaliableBrokers
+	}
+	return FindCoordinatorResponse{}, fmt.Errorf("could not find coordinator from all brokers: %w", err)
 }
 
 // AlterPartitionReassignments requests AlterPartitionReassignments from controller and returns response
-- 
2.43.0


From 0b571d1f6adfb2d24ab03f8e7ef745377f24432c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:15 +0000
Subject: [PATCH 08/54] fix: stop simple consumer completely and commit what
 has been delivered

- Stop did not wait for the last commit, which might not include the last
  messages, nor for a consume loop about to start, whose connection leaked
- an offset not known yet (-1, -2) could be committed
- a coordinator which had moved was never looked for again
- Stop could be called only once
---
 simple_consumer.go | 66 +++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 56 insertions(+), 10 deletions(-)

diff --git a/simple_consumer.go b/simple_consumer.go
index 43af726..074bf9f 100644
--- a/simple_consumer.go
+++ b/simple_consumer.go
@@ -27,6 +27,7 @@ type SimpleConsumer struct {
 	ctx           context.Context
 	cancel        context.CancelFunc
 	stop          bool
+	stopLock      sync.Mutex // no go-routine is started after stop
 	consumeLoopWg sync.WaitGroup
 
 	fromBeginning  bool
@@ -61,6 +62,7 @@ func NewSimpleConsumerWithBrokers(topic string, partitionID int32, config Consum
 
 	go func() {
 		ticker := time.NewTicker(time.Second * 60 * 1)
+		defer ticker.Stop()
 		for {
 			select {
 			case <-ticker.C:
@@ -79,6 +81,9 @@ func NewSimpleConsumerWithBrokers(topic string, partitionID int32, config Consum
 			err = c.getCoordinator()
 			if err != nil {
 				logger.Error(err, "failed to get coordinator")
+				if brokers.closed() {
+					break
+				}
 				time.Sleep(time.Millisecond * time.Duration(c.config.RetryBackOffMS))
 				continue
 			}
@@ -258,17 +263,18 @@ func (c *SimpleConsumer) getCommitedOffet() error {
 		coordinator *Broker
 	)
 
-	if c.belongTO != nil {
-		coordinator = c.belongTO.coordinator
-	} else {
-		coordinator = c.coordinator
-	}
+	for !c.stop {
+		if c.belongTO != nil {
+			coordinator = c.belongTO.coordinator
+		} else {
+			coordinator = c.coordinator
+		}
 
-	for {
 		resp, err := coordinator.RequestAndGet(r)
 		if err != nil {
 			logger.Error(err, "failed to request fetch offset, sleep 500 ms", "topic", c.topic, "partitionID", c.partitionID)
 			time.Sleep(500 * time.Millisecond)
+			c.refindCoordinator()
 			continue
 		}
 
@@ -292,12 +298,28 @@ func (c *SimpleConsumer) getCommitedOffet() error {
 	return nil
 }
 
+// the coordinator may have moved to other broker. GroupConsumer refreshes its coordinator by itself
+func (c *SimpleConsumer) refindCoordinator() {
+	if c.belongTO != nil {
+		return
+	}
+	if err := c.getCoordinator(); err != nil {
+		logger.Error(err, "failed to get coordinator")
+	}
+}
+
 // Stop the consumer and wait for all relating go-routines to exit
 func (c *SimpleConsumer) Stop() {
 	logger.Info("stopping simple consumer", "topic", c.topic, "partitionID", c.partitionID)
-	c.cancel()
-
+	c.stopLock.Lock()
+	if c.stop {
+		c.stopLock.Unlock()
+		return
+	}
 	c.stop = true
+	c.stopLock.Unlock()
+
+	c.cancel()
 
 	c.consumeLoopWg.Wait()
 
@@ -333,6 +355,7 @@ func (c *SimpleConsumer) commitOffset() bool {
 		return true
 	}
 	logger.Error(err, "commit offset failed", "GroupID", c.config.GroupID, "topic", c.topic, "partitionID", c.partitionID, "offset", c.offset)
+	c.refindCoordinator()
 	return false
 }
 
@@ -340,6 +363,10 @@ func (c *SimpleConsumer) commitOffset() bool {
 // if simpleConsumer belong to a GroupConsumer, it uses groupconsumer to commit
 // else if it has GroupId, it use its own coordinator to commit
 func (c *SimpleConsumer) CommitOffset() {
+	if c.offset < 0 {
+		logger.V(3).Info("offset is not known yet, skip committing", "offset", c.offset, "topic", c.topic, "partitionID", c.partitionID)
+		return
+	}
 	if c.offset == c.offsetCommited {
 		logger.V(3).Info("current offset does not change, skip committing", "offset", c.offset, "topic", c.topic, "partitionID", c.partitionID)
 		return
@@ -384,6 +411,9 @@ func (c *SimpleConsumer) Consume(offset int64, messageChan chan *FullMessage) (<
 	}
 
 	if c.stop {
+		if c.leaderBroker != nil {
+			c.leaderBroker.Close()
+		}
 		return messages, nil
 	}
 
@@ -397,8 +427,20 @@ func (c *SimpleConsumer) Consume(offset int64, messageChan chan *FullMessage) (<
 		logger.V(3).Info("offset after init offset", "topic", c.topic, "partitionID", c.partitionID, "offset", c.offset)
 	}
 
+	c.stopLock.Lock()
+	defer c.stopLock.Unlock()
+	if c.stop {
+		if c.leaderBroker != nil {
+			c.leaderBroker.Close()
+		}
+		return messages, nil
+	}
+
+	loopDone := make(chan struct{})
 	if c.config.AutoCommit && c.config.GroupID != "" {
+		c.consumeLoopWg.Add(1)
 		go func() {
+			defer c.consumeLoopWg.Done()
 			ticker := time.NewTicker(time.Millisecond * time.Duration(c.config.AutoCommitIntervalMS))
 			defer ticker.Stop()
 			for {
@@ -406,6 +448,7 @@ func (c *SimpleConsumer) Consume(offset int64, messageChan chan *FullMessage) (<
 				case <-ticker.C:
 					c.CommitOffset()
 				case <-c.ctx.Done():
+					<-loopDone // commit all that have been delivered
 					c.CommitOffset()
 					return
 				}
@@ -413,13 +456,16 @@ func (c *SimpleConsumer) Consume(offset int64, messageChan chan *FullMessage) (<
 		}()
 	}
 
-	go c.consumeLoop(messages)
+	c.consumeLoopWg.Add(1)
+	go func() {
+		defer close(loopDone)
+		c.consumeLoop(messages)
+	}()
 
 	return messages, nil
 }
 
 func (c *SimpleConsumer) consumeLoop(messages chan *FullMessage) {
-	c.consumeLoopWg.Add(1)
 	defer c.consumeLoopWg.Done()
 
 	defer logger.Info("consume loop exit", "topic", c.topic, "partitionID", c.partitionID)
-- 
2.43.0


From de58ec708622cf06879ec2a51a3819c38c1644e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:21 +0000
Subject: [PATCH 09/54] fix: close group consumer at any time

- Close panicked with negative WaitGroup counter if the consumer was joining,
  and blocked for ever when called the second time
- it did not return after the timeout if a consumer could not be stopped
- Close during a rebalance did not leave the group
- any connection error makes it look for the coordinator again
---
 group_consumer.go | 67 +++++++++++++++++++++++++++++++----------------
 1 file changed, 44 insertions(+), 23 deletions(-)

diff --git a/group_consumer.go b/group_consumer.go
index 98c927a..e89c71f 100644
--- a/group_consumer.go
+++ b/group_consumer.go
@@ -7,7 +7,6 @@ import (
 	"io"
 	"os"
 	"strconv"
-	"strings"
 	"sync"
 	"time"
 )
@@ -32,6 +31,7 @@ type GroupConsumer struct {
 	joined               bool
 	closed               bool
 	closeChan            chan bool
+	closeOnce            sync.Once
 	coordinatorAvailable bool
 	topics               []string
 	partitionAssignments []*PartitionAssignment
@@ -153,17 +153,26 @@ func (c *GroupConsumer) parseGroupAssignments(memberAssignmentPayload []byte) er
 	b, _ := json.Marshal(memberAssignment)
 	logger.Info("parse memeber assignment", "assignment", b)
 	c.partitionAssignments = memberAssignment.PartitionAssignments
-	c.simpleConsumers = make([]*SimpleConsumer, 0)
+	simpleConsumers := make([]*SimpleConsumer, 0)
 
 	for _, partitionAssignment := range c.partitionAssignments {
 		for _, partitionID := range partitionAssignment.Partitions {
 			simpleConsumer := NewSimpleConsumerWithBrokers(partitionAssignment.Topic, partitionID, c.config, c.brokers)
 			simpleConsumer.belongTO = c
-			simpleConsumer.wg = &c.wg
-			c.simpleConsumers = append(c.simpleConsumers, simpleConsumer)
+			simpleConsumers = append(simpleConsumers, simpleConsumer)
 		}
 	}
 
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
+	if c.closed {
+		for _, simpleConsumer := range simpleConsumers {
+			simpleConsumer.Stop()
+		}
+		return nil
+	}
+	c.simpleConsumers = simpleConsumers
+
 	return nil
 }
 
@@ -195,14 +204,7 @@ func (c *GroupConsumer) join() error {
 			c.coordinatorAvailable = false
 		}
 
-		if strings.Contains(err.Error(), "connection refused") {
-			c.coordinatorAvailable = false
-		}
-
-		if strings.Contains(err.Error(), "network is unreachable") {
-			c.coordinatorAvailable = false
-		}
-		if strings.Contains(err.Error(), "i/o timeout") {
+		if !isKafkaError(err) { // could not connect to the coordinator
 			c.coordinatorAvailable = false
 		}
 
@@ -223,6 +225,11 @@ func (c *GroupConsumer) join() error {
 	return nil
 }
 
+func isKafkaError(err error) bool {
+	var e KafkaError
+	return errors.As(err, &e)
+}
+
 func (c *GroupConsumer) sync() error {
 	logger.Info("try to sync group", "groupId", c.config.GroupID)
 	var groupAssignment GroupAssignment
@@ -242,7 +249,7 @@ func (c *GroupConsumer) sync() error {
 
 	if err != nil {
 		logger.Error(err, "sync failed", "groupId", c.config.GroupID)
-		if errors.Is(err, KafkaError(15)) || errors.Is(err, KafkaError(16)) {
+		if errors.Is(err, KafkaError(15)) || errors.Is(err, KafkaError(16)) || !isKafkaError(err) {
 			c.coordinatorAvailable = false
 		}
 		if errors.Is(err, KafkaError(25)) {
@@ -386,7 +393,7 @@ func (c *GroupConsumer) stop() {
 }
 
 func (c *GroupConsumer) leave() {
-	if !c.joined {
+	if !c.joined && c.memberID == "" {
 		logger.Info("not joined yet, leave directly")
 		return
 	}
@@ -412,13 +419,11 @@ func (c *GroupConsumer) AwaitClose(timeout time.Duration) {
 	defer c.brokers.Close()
 
 	c.closed = true
-	c.closeChan <- true
-
-	c.stop()
+	c.closeOnce.Do(func() { close(c.closeChan) })
 
-	done := make(chan bool)
+	done := make(chan bool, 1)
 	go func() {
-		c.wg.Wait()
+		c.stop()
 		done <- true
 	}()
 
@@ -437,7 +442,13 @@ func (c *GroupConsumer) refreshMeta() {
 	var (
 		ticker *time.Ticker = time.NewTicker(time.Millisecond * time.Duration(c.config.MetadataMaxAgeMS))
 	)
-	for range ticker.C {
+	defer ticker.Stop()
+	for {
+		select {
+		case <-ticker.C:
+		case <-c.closeChan:
+			return
+		}
 		if c.closed {
 			return
 		}
@@ -464,8 +475,6 @@ func (c *GroupConsumer) refreshMeta() {
 // Consume will join group and then cosumes messages from kafka.
 // it return a chan, and client could get messages from the chan
 func (c *GroupConsumer) Consume(messages chan *FullMessage) (<-chan *FullMessage, error) {
-	c.closed = false
-
 	if messages == nil {
 		messages = make(chan *FullMessage, 100)
 	}
@@ -474,7 +483,13 @@ func (c *GroupConsumer) Consume(messages chan *FullMessage) (<-chan *FullMessage
 	// go heartbeat
 	ticker := time.NewTicker(time.Millisecond * time.Duration(c.config.SessionTimeoutMS) / 10)
 	go func() {
-		for range ticker.C {
+		defer ticker.Stop()
+		for {
+			select {
+			case <-ticker.C:
+			case <-c.closeChan:
+				return
+			}
 			if c.closed {
 				return
 			}
@@ -520,6 +535,11 @@ func (c *GroupConsumer) consumeWithoutHeartBeat(fromBeginning bool) (chan *FullM
 	case <-joinedChan:
 	}
 
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
+	if c.closed {
+		return c.messages, nil
+	}
 	c.joined = true
 
 	// consume
@@ -532,6 +552,7 @@ func (c *GroupConsumer) consumeWithoutHeartBeat(fromBeginning bool) (chan *FullM
 		}
 
 		c.wg.Add(1)
+		simpleConsumer.wg = &c.wg
 
 		go simpleConsumer.Consume(offset, c.messages)
 	}
-- 
2.43.0


From 702b5f1771668c93aff72726c5a4df480a551f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:52 +0000
Subject: [PATCH 10/54] fix: multi partition consumer without group, and
 closing it at any time

- Consume never returned without group.id, because it looked for a coordinator
- closing it while Consume was starting panicked or left consumers running
- AwaitClose did not return after the timeout if a consumer could not be stopped
---
 consumer.go       | 64 +++++++++++++++++++++--------------------------
 group_consumer.go |  6 ++---
 2 files changed, 30 insertions(+), 40 deletions(-)

diff --git a/consumer.go b/consumer.go
index 9b72442..b163c73 100644
--- a/consumer.go
+++ b/consumer.go
@@ -14,7 +14,7 @@ type Consumer struct {
 	closed  bool
 
 	simpleConsumers []*SimpleConsumer
-	wg              sync.WaitGroup // wg is used to tell if all consumer has already stopped
+	mutex           sync.Mutex // protects closed and simpleConsumers
 }
 
 // NewConsumer creates a new consumer instance
@@ -90,7 +90,7 @@ func (c *Consumer) Consume(messageChan chan *FullMessage) (<-chan *FullMessage,
 		return nil, nil
 	}
 
-	c.simpleConsumers = make([]*SimpleConsumer, 0)
+	simpleConsumers := make([]*SimpleConsumer, 0)
 
 	for _, topicMetadatas := range metadataResponse.TopicMetadatas {
 		topicName := topicMetadatas.TopicName
@@ -105,21 +105,19 @@ func (c *Consumer) Consume(messageChan chan *FullMessage) (<-chan *FullMessage,
 
 		for _, p := range partitions {
 			simpleConsumer := NewSimpleConsumerWithBrokers(topicName, int32(p), c.config, c.brokers)
-			simpleConsumer.wg = &c.wg
-
-			for {
-				err := simpleConsumer.getCoordinator()
-				if err != nil {
-					logger.Error(err, "get coordinator failed")
-					time.Sleep(time.Millisecond * time.Duration(c.config.RetryBackOffMS))
-					continue
-				}
-				break
-			}
-			c.simpleConsumers = append(c.simpleConsumers, simpleConsumer)
+			simpleConsumers = append(simpleConsumers, simpleConsumer)
 		}
 	}
 
+	c.mutex.Lock()
+	c.simpleConsumers = simpleConsumers
+	closed := c.closed
+	c.mutex.Unlock()
+	if closed {
+		c.stop()
+		return nil, nil
+	}
+
 	logger.V(4).Info("create simple consumers", "simpleConsumerCount", len(c.simpleConsumers), "consumers", c.simpleConsumers)
 
 	var offset int64
@@ -129,8 +127,7 @@ func (c *Consumer) Consume(messageChan chan *FullMessage) (<-chan *FullMessage,
 		offset = -1
 	}
 
-	for _, simpleConsumer := range c.simpleConsumers {
-		c.wg.Add(1)
+	for _, simpleConsumer := range simpleConsumers {
 		simpleConsumer.Consume(offset, messages)
 	}
 
@@ -138,32 +135,27 @@ func (c *Consumer) Consume(messageChan chan *FullMessage) (<-chan *FullMessage,
 }
 
 func (c *Consumer) stop() {
+	c.mutex.Lock()
 	c.closed = true
-	if c.simpleConsumers != nil {
-		for _, simpleConsumer := range c.simpleConsumers {
-			simpleConsumer.Stop()
-		}
+	simpleConsumers := c.simpleConsumers
+	c.mutex.Unlock()
+	for _, simpleConsumer := range simpleConsumers {
+		simpleConsumer.Stop()
 	}
 }
 
 func (consumer *Consumer) AwaitClose(timeout time.Duration) {
-	c := make(chan bool)
-	defer func() {
-		select {
-		case <-c:
-			logger.Info("all simple consumers stopped. return")
-			return
-		case <-time.After(timeout):
-			logger.Info("consumer await timeout. return")
-			return
-		}
-	}()
-
-	consumer.stop()
-
+	c := make(chan bool, 1)
 	go func() {
-		consumer.wg.Wait()
-		consumer.brokers.Close()
+		consumer.stop()
 		c <- true
 	}()
+
+	select {
+	case <-c:
+		logger.Info("all simple consumers stopped. return")
+	case <-time.After(timeout):
+		logger.Info("consumer await timeout. return")
+	}
+	consumer.brokers.Close()
 }
diff --git a/group_consumer.go b/group_consumer.go
index e89c71f..c9e44a1 100644
--- a/group_consumer.go
+++ b/group_consumer.go
@@ -424,18 +424,16 @@ func (c *GroupConsumer) AwaitClose(timeout time.Duration) {
 	done := make(chan bool, 1)
 	go func() {
 		c.stop()
+		logger.Info("all simple consumers stopped. leave and return")
+		c.leave()
 		done <- true
 	}()
 
 	select {
 	case <-done:
-		logger.Info("all simple consumers stopped. leave and return")
 	case <-time.After(timeout):
 		logger.Info("group consumer await timeout. return")
-		return
 	}
-
-	c.leave()
 }
 
 func (c *GroupConsumer) refreshMeta() {
-- 
2.43.0


From 94cee16794a3ced5f2888585b08793e6ac953bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:59 +0000
Subject: [PATCH 11/54] fix: encode null keys and values, and offsets of the
 records in a batch

- all records of a batch had offset delta 0
- length of a null key was taken from whatever was encoded before
- a null value was sent as empty one; the key was not copied
---
 record.go          |  8 ++++++--
 simple_producer.go | 10 ++++------
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/record.go b/record.go
index ca09ffe..d985d89 100644
--- a/record.go
+++ b/record.go
@@ -81,7 +81,7 @@ func (r *Record) Encode(version uint16) (payload []byte, err error) {
 
 	keyLenBuf := make([]byte, binary.MaxVarintLen64)
 	if r.key == nil {
-		binary.PutVarint(keyLenBuf, -1)
+		n = binary.PutVarint(keyLenBuf, -1)
 	} else {
 		n = binary.PutVarint(keyLenBuf, int64(len(r.key)))
 	}
@@ -90,7 +90,11 @@ func (r *Record) Encode(version uint16) (payload []byte, err error) {
 
 	// Encode value
 	valueLenBuf := make([]byte, binary.MaxVarintLen64)
-	n = binary.PutVarint(valueLenBuf, int64(len(r.value)))
+	if r.value == nil {
+		n = binary.PutVarint(valueLenBuf, -1)
+	} else {
+		n = binary.PutVarint(valueLenBuf, int64(len(r.value)))
+	}
 	buf.Write(valueLenBuf[:n])
 	buf.Write(r.value)
 
diff --git a/simple_producer.go b/simple_producer.go
index d304dc7..54e070f 100644
--- a/simple_producer.go
+++ b/simple_producer.go
@@ -1,6 +1,7 @@
 package healer
 
 import (
+	"bytes"
 	"context"
 	"fmt"
 	"sync"
@@ -136,16 +137,13 @@ func (p *SimpleProducer) AddMessage(key []byte, value []byte) error {
 		return ErrProducerClosed
 	}
 
-	valueCopy := make([]byte, len(value))
-	copy(valueCopy, value)
-
 	record := Record{
 		attributes:     0x00, // compress in upper message set level
 		timestampDelta: 0,
-		offsetDelta:    0,
+		offsetDelta:    int32(len(p.records)),
 
-		key:   key,
-		value: valueCopy,
+		key:   bytes.Clone(key),
+		value: bytes.Clone(value),
 	}
 
 	p.records = append(p.records, &record)
-- 
2.43.0


From c96eb901e4e3c3e0e618c5e33850c43f0401c247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:42 +0000
Subject: [PATCH 12/54] fix: simple producer reports failed batches and follows
 the leader

- AddMessage did not return the error of the batch it had sent
- it waited for a response which brokers never send if acks is 0
- it produced to the same broker for ever if the leader had moved
- a partition without leader made it panic; its connections leaked
---
 broker.go          | 16 ++++++++++++++
 simple_producer.go | 54 +++++++++++++++++++++++++++++++++++++---------
 2 files changed, 60 insertions(+), 10 deletions(-)

diff --git a/broker.go b/broker.go
index 8d2a818..2497153 100644
--- a/broker.go
+++ b/broker.go
@@ -296,6 +296,22 @@ func (broker *Broker) RequestAndGet(r Request) (resp Response, err error) {
 	return resp, resp.Error()
 }
 
+// requestWithoutResponse sends a request to which the broker does not response
+func (broker *Broker) requestWithoutResponse(r Request) error {
+	broker.mux.Lock()
+	defer broker.mux.Unlock()
+
+	if err := broker.ensureOpen(); err != nil {
+		return err
+	}
+
+	if _, err := broker.Request(r); err != nil {
+		broker.Close()
+		return err
+	}
+	return nil
+}
+
 func (broker *Broker) request(payload []byte, timeout int) (defaultReadParser, error) {
 	conn, err := broker.getConn()
 	if err != nil {
diff --git a/simple_producer.go b/simple_producer.go
index 54e070f..0382dc2 100644
--- a/simple_producer.go
+++ b/simple_producer.go
@@ -3,6 +3,7 @@ package healer
 import (
 	"bytes"
 	"context"
+	"errors"
 	"fmt"
 	"sync"
 	"time"
@@ -19,6 +20,8 @@ type SimpleProducer struct {
 	leader  *Broker
 	parent  *Producer
 
+	ownLeader bool // leader is not shared with parent
+
 	topic     string
 	partition int32
 
@@ -47,7 +50,10 @@ func (p *SimpleProducer) createLeader() (*Broker, error) {
 	}
 
 	leaderID, err := p.brokers.findLeader(p.config.ClientID, p.topic, p.partition)
-	if err != nil || leaderID == -1 {
+	if err == nil && leaderID == -1 {
+		err = errNoLeader
+	}
+	if err != nil {
 		logger.Error(err, "could not get leader", "topic", p.topic, "partitionID", p.partition)
 		return nil, err
 	}
@@ -104,6 +110,9 @@ func NewSimpleProducer(ctx context.Context, topic string, partition int32, confi
 	} else {
 		p.leader, err = p.createLeader()
 		if err != nil {
+			if p.brokers != nil {
+				p.brokers.Close()
+			}
 			return nil, fmt.Errorf("create producer leader error: %w", err)
 		}
 	}
@@ -111,11 +120,13 @@ func NewSimpleProducer(ctx context.Context, topic string, partition int32, confi
 	parent := ctx.Value(parentProducerKey)
 	if parent != nil {
 		p.parent = parent.(*Producer)
+		p.brokers = p.parent.brokers
 	}
 
 	// TODO wait to the next ticker to see if messageSet changes
 	go func() {
 		ticker := time.NewTicker(time.Duration(p.config.FlushIntervalMS) * time.Millisecond)
+		defer ticker.Stop()
 		for {
 			select {
 			case <-ticker.C:
@@ -150,7 +161,7 @@ func (p *SimpleProducer) AddMessage(key []byte, value []byte) error {
 	if len(p.records) >= p.config.MessageMaxCount {
 		records := p.records
 		p.records = make([]*Record, 0, p.config.MessageMaxCount)
-		p.flush(records)
+		return p.flush(records)
 	}
 	return nil
 }
@@ -211,17 +222,42 @@ func (p *SimpleProducer) flush(records []*Record) error {
 		p.createRecordBatch(records),
 	}
 
-	rp, err := p.leader.RequestAndGet(produceRequest)
-	if err == nil {
-		err = rp.Error()
+	var err error
+	if p.config.Acks == 0 { // broker does not send response
+		err = p.leader.requestWithoutResponse(produceRequest)
+	} else {
+		_, err = p.leader.RequestAndGet(produceRequest)
 	}
 	if err != nil {
 		logger.Error(err, "failed to produce request")
+		p.refreshLeader(err)
 		return err
 	}
 	return err
 }
 
+// the leader may have moved to other broker. go on with the current one if it could not be found
+func (p *SimpleProducer) refreshLeader(err error) {
+	if isKafkaError(err) && !errors.Is(err, KafkaError(6)) && !errors.Is(err, KafkaError(5)) && !errors.Is(err, KafkaError(3)) {
+		return
+	}
+	leader, err := p.createLeader()
+	if err != nil {
+		logger.Error(err, "failed to find leader", "topic", p.topic, "partitionID", p.partition)
+		return
+	}
+	p.closeLeader()
+	p.leader = leader
+	p.ownLeader = true
+}
+
+// the connection may be shared by all simple producers of parent, which closes it in this case
+func (p *SimpleProducer) closeLeader() {
+	if p.parent == nil || p.ownLeader {
+		p.leader.Close()
+	}
+}
+
 // Close closes the producer
 func (p *SimpleProducer) Close() {
 	p.once.Do(func() {
@@ -233,11 +269,9 @@ func (p *SimpleProducer) Close() {
 			p.flush(p.records)
 		}
 
-		if p.parent == nil {
-			logger.Info("close connection to leader")
-			p.leader.Close()
-		} else {
-			logger.Info("connection not closed here, parent will close it")
+		p.closeLeader()
+		if p.parent == nil && p.brokers != nil {
+			p.brokers.Close()
 		}
 
 		close(p.closeChan)
-- 
2.43.0


From b895af56c04da4a9637581bc97a0bf238ac41763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:47 +0000
Subject: [PATCH 13/54] fix: producer does not drop messages silently, and is
 safe to use concurrently

- AddMessage returned nil without sending the message after 3 retries
- AddMessage with key, the metadata refresh and Close raced on the same maps
- a topic without any usable partition made it panic
- Close left the refresh go-routine and connections
---
 producer.go | 46 ++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 38 insertions(+), 8 deletions(-)

diff --git a/producer.go b/producer.go
index a8cf18c..2275e62 100644
--- a/producer.go
+++ b/producer.go
@@ -26,8 +26,10 @@ type Producer struct {
 	leaderBrokersMapping map[int32]*Broker
 	currentProducer      *SimpleProducer
 	lock                 sync.Mutex
+	closed               bool
 
-	ctx context.Context
+	ctx    context.Context
+	cancel context.CancelFunc
 }
 
 // NewProducer creates a new console producer.
@@ -63,11 +65,19 @@ func NewProducer(topic string, config interface{}) (*Producer, error) {
 		}
 	}
 
-	ctx := context.Background()
+	ctx, cancel := context.WithCancel(context.Background())
 	p.ctx = context.WithValue(ctx, parentProducerKey, p)
+	p.cancel = cancel
 
 	go func() {
-		for range time.NewTicker(time.Duration(cfg.MetadataMaxAgeMS) * time.Millisecond).C {
+		ticker := time.NewTicker(time.Duration(cfg.MetadataMaxAgeMS) * time.Millisecond)
+		defer ticker.Stop()
+		for {
+			select {
+			case <-ticker.C:
+			case <-ctx.Done():
+				return
+			}
 			err := p.updateCurrentSimpleProducer()
 			if err != nil {
 				logger.Error(err, "refresh simple producer failed", "topic", p.topic)
@@ -87,14 +97,20 @@ func (p *Producer) updateCurrentSimpleProducer() error {
 	if err != nil {
 		return fmt.Errorf("get metadata of %s error: %w", p.topic, err)
 	}
-	p.topicMeta = metadataResponse.TopicMetadatas[0]
+	if len(metadataResponse.TopicMetadatas) == 0 {
+		return fmt.Errorf("get metadata of %s error: topic not found", p.topic)
+	}
+	topicMeta := metadataResponse.TopicMetadatas[0]
 
 	validPartitionID := make([]int32, 0)
-	for _, partition := range p.topicMeta.PartitionMetadatas {
+	for _, partition := range topicMeta.PartitionMetadatas {
 		if partition.PartitionErrorCode == 0 {
 			validPartitionID = append(validPartitionID, partition.PartitionID)
 		}
 	}
+	if len(validPartitionID) == 0 {
+		return fmt.Errorf("no valid partition of %s", p.topic)
+	}
 	partitionID := validPartitionID[rand.Int31n(int32(len(validPartitionID)))]
 	sp, err := NewSimpleProducer(context.Background(), p.topic, partitionID, p.config)
 	if err != nil {
@@ -103,6 +119,11 @@ func (p *Producer) updateCurrentSimpleProducer() error {
 
 	p.lock.Lock()
 	defer p.lock.Unlock()
+	if p.closed {
+		sp.Close()
+		return ErrProducerClosed
+	}
+	p.topicMeta = topicMeta
 	if p.currentProducer == nil {
 		logger.Info("init current simple producer", "leader", sp.leader)
 		p.currentProducer = sp
@@ -131,9 +152,12 @@ func (p *Producer) getLeaderID(pid int32) (int32, error) {
 
 // getSimpleProducer return the simple producer. if key is nil, return the current simple producer
 func (p *Producer) getSimpleProducer(key []byte) (*SimpleProducer, error) {
+	p.lock.Lock()
+	defer p.lock.Unlock()
+	if p.closed {
+		return nil, ErrProducerClosed
+	}
 	if key == nil {
-		p.lock.Lock()
-		defer p.lock.Unlock()
 		return p.currentProducer, nil
 	}
 
@@ -181,11 +205,16 @@ func (p *Producer) AddMessage(key []byte, value []byte) error {
 		}
 		return err
 	}
-	return nil
+	return ErrProducerClosed
 }
 
 // Close close all simple producers in the console producer
 func (p *Producer) Close() {
+	p.lock.Lock()
+	defer p.lock.Unlock()
+	p.closed = true
+	p.cancel()
+
 	if p.currentProducer != nil {
 		p.currentProducer.Close()
 	}
@@ -196,4 +225,5 @@ func (p *Producer) Close() {
 	for _, broker := range p.leaderBrokersMapping {
 		broker.Close()
 	}
+	p.brokers.Close()
 }
-- 
2.43.0


From 6d670f02932f25964663b0c6203e6bd92c734951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:14 +0000
Subject: [PATCH 14/54] fix: producer uses the healthy partitions when other
 partitions have no leader

---
 producer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/producer.go b/producer.go
index 2275e62..ca57a3f 100644
--- a/producer.go
+++ b/producer.go
@@ -94,7 +94,8 @@ func (p *Producer) updateCurrentSimpleProducer() error {
 	if err == nil {
 		err = metadataResponse.Error()
 	}
-	if err != nil {
+	// go on with the healthy partitions if only some of the partitions have error
+	if err != nil && (!isKafkaError(err) || len(metadataResponse.TopicMetadatas) == 0 || metadataResponse.TopicMetadatas[0].TopicErrorCode != 0) {
 		return fmt.Errorf("get metadata of %s error: %w", p.topic, err)
 	}
 	if len(metadataResponse.TopicMetadatas) == 0 {
-- 
2.43.0


From 7b52113c1ebe1887ba6691fff5782c77b7b6ea6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:03 +0000
Subject: [PATCH 15/54] fix: a flush after close does not send the last batch
 again

---
 simple_producer.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/simple_producer.go b/simple_producer.go
index 0382dc2..55207ea 100644
--- a/simple_producer.go
+++ b/simple_producer.go
@@ -267,6 +267,7 @@ func (p *SimpleProducer) Close() {
 		logger.Info("flush before SimpleProducer close")
 		if len(p.records) > 0 {
 			p.flush(p.records)
+			p.records = nil // do not send them again in Flush
 		}
 
 		p.closeLeader()
-- 
2.43.0


From 46d8d3bf21123b98ab942e480278f5118c015bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:56 +0000
Subject: [PATCH 16/54] fix: notice a refused sasl handshake, and refuse sasl
 mechanisms which are not supported

---
 broker.go                  | 6 +++++-
 sasl_handshake_response.go | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/broker.go b/broker.go
index 2497153..48e4b1b 100644
--- a/broker.go
+++ b/broker.go
@@ -175,13 +175,17 @@ func (broker *Broker) sendSaslAuthenticate() error {
 		password  = broker.config.Sasl.Password
 	)
 
+	saslAuthenticateRequest := NewSaslAuthenticateRequest(clientID, user, password, mechanism)
+	if saslAuthenticateRequest.RequestHeader == nil {
+		return fmt.Errorf("sasl mechanism %s is not supported", mechanism)
+	}
+
 	saslHandShakeRequest := NewSaslHandShakeRequest(clientID, mechanism)
 	if err := broker.requestInInit(saslHandShakeRequest); err != nil {
 		return err
 	}
 
 	// authenticate
-	saslAuthenticateRequest := NewSaslAuthenticateRequest(clientID, user, password, mechanism)
 	return broker.requestInInit(saslAuthenticateRequest)
 }
 
diff --git a/sasl_handshake_response.go b/sasl_handshake_response.go
index ad222f8..97a3f2d 100644
--- a/sasl_handshake_response.go
+++ b/sasl_handshake_response.go
@@ -32,7 +32,7 @@ func NewSaslHandshakeResponse(payload []byte) (r SaslHandshakeResponse, err erro
 	r.CorrelationID = uint32(binary.BigEndian.Uint32(payload[offset:]))
 	offset += 4
 
-	r.ErrorCode = int16(uint16(binary.BigEndian.Uint32(payload[offset:])))
+	r.ErrorCode = int16(binary.BigEndian.Uint16(payload[offset:]))
 	offset += 2
 	if r.ErrorCode != 0 {
 		err = KafkaError(r.ErrorCode)
-- 
2.43.0


From 0943a504b240b610e1976d195b1daa8c4fc710d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:38 +0000
Subject: [PATCH 17/54] fix: encode acl, produce, create partitions, create
 topics and reassignment requests as specified

---
 alter_partition_reassignments_request.go |  6 +++++-
 create_acls_request.go                   | 20 ++++++++++++++------
 create_partitions_request.go             |  6 +++++-
 create_topics_request.go                 |  8 ++++----
 describe_acls_request.go                 |  4 +++-
 produce_request.go                       |  4 ++--
 6 files changed, 33 insertions(+), 15 deletions(-)

diff --git a/alter_partition_reassignments_request.go b/alter_partition_reassignments_request.go
index ba87d0f..d4f1098 100644
--- a/alter_partition_reassignments_request.go
+++ b/alter_partition_reassignments_request.go
@@ -134,7 +134,11 @@ func (r *AlterPartitionReassignmentsPartition) encode(payload []byte) (offset in
 	binary.BigEndian.PutUint32(payload[offset:], uint32(r.PartitionID))
 	offset += 4
 
-	offset += copy(payload[offset:], encodeCompactArrayLength(len(r.Replicas)))
+	if r.Replicas == nil { // cancel a pending reassignment
+		offset += copy(payload[offset:], encodeCompactArrayLength(-1))
+	} else {
+		offset += copy(payload[offset:], encodeCompactArrayLength(len(r.Replicas)))
+	}
 
 	for _, replica := range r.Replicas {
 		binary.BigEndian.PutUint32(payload[offset:], uint32(replica))
diff --git a/create_acls_request.go b/create_acls_request.go
index 180bef2..621b84c 100644
--- a/create_acls_request.go
+++ b/create_acls_request.go
@@ -60,7 +60,9 @@ func (a *AclCreation) encodeTo(payload []byte, version uint16, headerVersion uin
 	offset++
 	payload[offset] = uint8(a.PermissionType)
 	offset++
-	offset += copy(payload[offset:], a.TaggedFields.Encode())
+	if headerVersion >= 2 {
+		offset += copy(payload[offset:], a.TaggedFields.Encode())
+	}
 
 	return
 }
@@ -103,7 +105,9 @@ func (r *CreateAclsRequest) Encode(version uint16) (payload []byte) {
 	}
 
 	// Write the tag buffer
-	offset += copy(payload[offset:], r.TaggedFields.Encode())
+	if headerVersion >= 2 {
+		offset += copy(payload[offset:], r.TaggedFields.Encode())
+	}
 
 	return payload
 }
@@ -173,15 +177,19 @@ func DecodeCreateAclsRequest(payload []byte) (r CreateAclsRequest, err error) {
 		creation.PermissionType = AclsPermissionType(payload[offset])
 		offset++
 
-		creation.TaggedFields, o = DecodeTaggedFields(payload[offset:])
-		offset += o
+		if headerVersion >= 2 {
+			creation.TaggedFields, o = DecodeTaggedFields(payload[offset:])
+			offset += o
+		}
 
 		r.Creations[i] = *creation
 	}
 
 	// Decode TaggedFields
-	r.TaggedFields, o = DecodeTaggedFields(payload[offset:])
-	offset += o
+	if headerVersion >= 2 {
+		r.TaggedFields, o = DecodeTaggedFields(payload[offset:])
+		offset += o
+	}
 
 	return r, nil
 }
diff --git a/create_partitions_request.go b/create_partitions_request.go
index 2a522c0..56e1a2e 100644
--- a/create_partitions_request.go
+++ b/create_partitions_request.go
@@ -84,7 +84,11 @@ func (r *createPartitionsRequestTopicBlock) encode(payload []byte, version uint1
 			offset += binary.PutUvarint(payload[offset:], 1+uint64(len(r.Assignments)))
 		}
 	case 0:
-		binary.BigEndian.PutUint32(payload[offset:], uint32(len(r.Assignments)))
+		if r.Assignments == nil {
+			binary.BigEndian.PutUint32(payload[offset:], 0xffffffff)
+		} else {
+			binary.BigEndian.PutUint32(payload[offset:], uint32(len(r.Assignments)))
+		}
 		offset += 4
 	}
 	for _, assignment := range r.Assignments {
diff --git a/create_topics_request.go b/create_topics_request.go
index ee854e9..8b69bab 100644
--- a/create_topics_request.go
+++ b/create_topics_request.go
@@ -183,12 +183,12 @@ func (r *CreateTopicsRequest) AddReplicaAssignment(topic string, pid int32, repl
 		return errorTopicNotFound
 	}
 
+	if pid < 0 {
+		return errorPidOutOfRange
+	}
+
 	found = false
 	for _, ra := range rr.ReplicaAssignments {
-		if ra.Partition >= pid {
-			return errorPidOutOfRange
-		}
-
 		if ra.Partition == pid {
 			found = true
 			ra.Replicas = replicas
diff --git a/describe_acls_request.go b/describe_acls_request.go
index 2fa0509..b77b6c5 100644
--- a/describe_acls_request.go
+++ b/describe_acls_request.go
@@ -58,7 +58,9 @@ func (r *DescribeAclsRequest) Encode(version uint16) (rst []byte) {
 
 	binary.Write(buf, binary.BigEndian, r.PermissionType)
 
-	buf.Write(r.DescribeAclsRequestBody.TaggedFields.Encode())
+	if version >= 2 {
+		buf.Write(r.DescribeAclsRequestBody.TaggedFields.Encode())
+	}
 
 	return buf.Bytes()
 }
diff --git a/produce_request.go b/produce_request.go
index 8b8f9bb..65aa5c6 100644
--- a/produce_request.go
+++ b/produce_request.go
@@ -119,7 +119,7 @@ func (r *ProduceRequest) Encode(version uint16) (payload []byte) {
 		return nil
 	}
 
-	if r.APIVersion >= tags["StatesFilter"] {
+	if r.APIVersion >= tags["transactionalID"] {
 		if isFlexible {
 			_, err = writeCompactNullableString(buf, r.transactionalID)
 		} else {
@@ -169,7 +169,7 @@ func (r *ProduceRequest) Decode(data []byte, version uint16) error {
 	isFlexible := r.IsFlexible()
 
 	// Decode transactionalID if applicable
-	if r.APIVersion >= r.tags()["StatesFilter"] {
+	if r.APIVersion >= r.tags()["transactionalID"] {
 		if isFlexible {
 			r.transactionalID, o = compactNullableString(data[offset:])
 		} else {
-- 
2.43.0


From 5d17f3a014ac7473ec230aa1907609d59d061a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:54 +0000
Subject: [PATCH 18/54] fix: fetch request of several partitions of one topic
 does not panic

---
 fetch_request.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fetch_request.go b/fetch_request.go
index 3855996..b994244 100644
--- a/fetch_request.go
+++ b/fetch_request.go
@@ -67,14 +67,14 @@ func (fetchRequest *FetchRequest) addPartition(topic string, partitionID int32,
 func (fetchRequest *FetchRequest) length(version uint16) int {
 	length := 4 + fetchRequest.RequestHeader.length()
 	length += 25 + 4 + 4
-	for topicname := range fetchRequest.Topics {
-		length += 2 + len(topicname) + 28
+	for topicname, partitionBlocks := range fetchRequest.Topics {
+		length += 2 + len(topicname) + 4 + len(partitionBlocks)*28
 	}
 	for topicname, partitionIDs := range fetchRequest.ForgottenTopicsDatas {
 		length += 2 + len(topicname) + 4 + len(partitionIDs)*4
 	}
 
-	return length * 2
+	return length
 }
 
 // Encode encodes request to []byte
-- 
2.43.0


From 9195e4bdd75b716bf3fb3fd710de53a76594dee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:03:48 +0000
Subject: [PATCH 19/54] fix: header version of a reused request follows its
 version

---
 request.go | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/request.go b/request.go
index 7a94b44..5d15274 100644
--- a/request.go
+++ b/request.go
@@ -60,7 +60,6 @@ var availableVersions map[uint16][]uint16 = map[uint16][]uint16{
 
 // RequestHeader is the request header, which is used in all requests. It contains apiKey, apiVersion, correlationID, clientID
 type RequestHeader struct {
-	hv            *uint16 // header version
 	APIKey        uint16
 	APIVersion    uint16
 	CorrelationID uint32
@@ -216,13 +215,6 @@ func (h *RequestHeader) IsFlexible() bool {
 // The new serialization types start with compact.
 // For example COMPACT_STRING is a more efficient form of STRING.
 func (h *RequestHeader) headerVersion() (r uint16) {
-	if h.hv != nil {
-		return *h.hv
-	}
-	defer func() {
-		h.hv = &r
-	}()
-
 	_version := h.APIVersion
 	switch h.APIKey {
 	case 0: // Produce
-- 
2.43.0


From 450c32815e2069f975e699eccf291217793e71b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:03:50 +0000
Subject: [PATCH 20/54] fix: decode cluster id in metadata response

---
 metadata_response.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/metadata_response.go b/metadata_response.go
index 46b7e8a..976ce73 100644
--- a/metadata_response.go
+++ b/metadata_response.go
@@ -176,9 +176,11 @@ func NewMetadataResponse(payload []byte, version uint16) (r MetadataResponse, er
 	}
 
 	if version >= 4 {
-		l := int(binary.BigEndian.Uint16(payload[offset:]))
-		r.ClusterID = string(payload[offset : offset+l])
-		offset += 2 + l
+		clusterID, o := nullableString(payload[offset:])
+		if clusterID != nil {
+			r.ClusterID = *clusterID
+		}
+		offset += o
 	}
 	// ControllerID
 	r.ControllerID = int32(binary.BigEndian.Uint32(payload[offset:]))
-- 
2.43.0


From 2d7e149c2172cbc7954056b82c1ebc81c03b3dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:03:52 +0000
Subject: [PATCH 21/54] fix: decode v1 describe acls response

---
 desscribe_acls_response.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/desscribe_acls_response.go b/desscribe_acls_response.go
index e8a9c3d..6daf381 100644
--- a/desscribe_acls_response.go
+++ b/desscribe_acls_response.go
@@ -3,6 +3,7 @@ package healer
 import (
 	"bytes"
 	"encoding/binary"
+	"fmt"
 )
 
 type DescribeAclsResponse struct {
@@ -42,13 +43,16 @@ func NewDescribeAclsResponse(payload []byte, version uint16) (response DescribeA
 	var o int
 	offset := 0
 
-	// Skip message size
+	responseLength := int(binary.BigEndian.Uint32(payload))
+	if responseLength+4 != len(payload) {
+		return response, fmt.Errorf("DescribeAclsResponse length did not match: %d!=%d", responseLength+4, len(payload))
+	}
 	offset += 4
 
 	response.CorrelationID = binary.BigEndian.Uint32(payload[offset:])
 	offset += 4
 
-	if version >= 1 {
+	if version >= 2 {
 		_, o = DecodeTaggedFields(payload[offset:])
 		offset += o
 	}
@@ -181,7 +185,7 @@ func (r *DescribeAclsResponse) Encode(version uint16) (rst []byte, err error) {
 	binary.Write(buf, binary.BigEndian, uint32(0))
 
 	binary.Write(buf, binary.BigEndian, r.CorrelationID)
-	if version >= 1 {
+	if version >= 2 {
 		buf.Write(r.TaggedFields.Encode())
 	}
 	binary.Write(buf, binary.BigEndian, r.ThrottleTimeMs)
-- 
2.43.0


From 02bb264df0210037b371fe582da0274ae88a1dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:03:54 +0000
Subject: [PATCH 22/54] fix: throttle time in offsets response

---
 offset_response.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/offset_response.go b/offset_response.go
index bf92db7..0c5bc39 100644
--- a/offset_response.go
+++ b/offset_response.go
@@ -52,8 +52,9 @@ func NewOffsetsResponse(payload []byte, version uint16) (r OffsetsResponse, err
 	r.CorrelationID = uint32(binary.BigEndian.Uint32(payload[offset:]))
 	offset += 4
 
-	if version > 0 {
+	if version >= 2 {
 		r.ThrottleTimeMs = int32(binary.BigEndian.Uint32(payload[offset:]))
+		offset += 4
 	}
 
 	topicLenght := int(binary.BigEndian.Uint32(payload[offset:]))
-- 
2.43.0


From 9cda33cca63fb5428fdca0e8af371b4a86bba105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:03:56 +0000
Subject: [PATCH 23/54] fix: decode produce response of all versions and
 several partitions

---
 produce_response.go | 37 ++++++++++++++++++++++++++++---------
 1 file changed, 28 insertions(+), 9 deletions(-)

diff --git a/produce_response.go b/produce_response.go
index 4d79488..74f298a 100644
--- a/produce_response.go
+++ b/produce_response.go
@@ -17,7 +17,7 @@ type produceResponseP struct {
 	ErrorCode   int16
 	BaseOffset  int64
 
-	LogAppendTimeMs int64 `healer:"minVersion:3"`
+	LogAppendTimeMs int64 `healer:"minVersion:2"`
 	LogStartOffset  int64 `healer:"minVersion:5"`
 
 	RecordErrors []produceResponseRecordErrors `healer:"minVersion:8"`
@@ -50,7 +50,7 @@ func (p *produceResponseP) decode(payload []byte, version uint16, isFlexible boo
 	offset += 8
 
 	tags := p.tags()
-	if version >= tags["GroupState"] {
+	if version >= tags["LogAppendTimeMs"] {
 		p.LogAppendTimeMs = int64(binary.BigEndian.Uint64(payload[offset:]))
 		offset += 8
 	}
@@ -84,8 +84,10 @@ func (p *produceResponseP) decode(payload []byte, version uint16, isFlexible boo
 				offset += o
 			}
 
-			r.TaggedField, o = DecodeTaggedFields(payload[offset:])
-			offset += o
+			if isFlexible {
+				r.TaggedField, o = DecodeTaggedFields(payload[offset:])
+				offset += o
+			}
 		}
 	}
 
@@ -98,6 +100,11 @@ func (p *produceResponseP) decode(payload []byte, version uint16, isFlexible boo
 		offset += o
 	}
 
+	if isFlexible {
+		p.TaggedField, o = DecodeTaggedFields(payload[offset:])
+		offset += o
+	}
+
 	return
 }
 
@@ -126,11 +133,13 @@ func (t *produceResponseT) decode(payload []byte, version uint16, isFlexible boo
 	}
 	for j := range t.Partitions {
 		p := &t.Partitions[j]
-		p.decode(payload[offset:], version, isFlexible)
+		offset += p.decode(payload[offset:], version, isFlexible)
 	}
 
-	t.TaggedField, o = DecodeTaggedFields(payload[offset:])
-	offset += o
+	if isFlexible {
+		t.TaggedField, o = DecodeTaggedFields(payload[offset:])
+		offset += o
+	}
 
 	return
 }
@@ -139,7 +148,7 @@ type ProduceResponse struct {
 	ResponseHeader
 	ProduceResponses []produceResponseT
 
-	ThrottleTimeMs int32        `healer:"minVersion:3"`
+	ThrottleTimeMs int32        `healer:"minVersion:1"`
 	TaggedField    TaggedFields `json:"tagged_fields"`
 }
 
@@ -165,7 +174,7 @@ func NewProduceResponse(payload []byte, version uint16) (r ProduceResponse, err
 	}
 	offset += 4
 
-	r.ResponseHeader, o = DecodeResponseHeader(payload[offset:], API_DeleteAcls, version)
+	r.ResponseHeader, o = DecodeResponseHeader(payload[offset:], API_ProduceRequest, version)
 	offset += o
 
 	isFlexible := r.ResponseHeader.IsFlexible()
@@ -184,5 +193,15 @@ func NewProduceResponse(payload []byte, version uint16) (r ProduceResponse, err
 		offset += r.ProduceResponses[i].decode(payload[offset:], version, isFlexible)
 	}
 
+	if version >= 1 {
+		r.ThrottleTimeMs = int32(binary.BigEndian.Uint32(payload[offset:]))
+		offset += 4
+	}
+
+	if isFlexible {
+		r.TaggedField, o = DecodeTaggedFields(payload[offset:])
+		offset += o
+	}
+
 	return r, err
 }
-- 
2.43.0


From 2a7026d8033b71a388f365bd0653833bc3432747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:03:59 +0000
Subject: [PATCH 24/54] fix: decode create acls and delete acls responses as
 specified

---
 create_acls_response.go | 18 +++++++++++++++---
 delete_acls_response.go | 20 ++++++++++++++------
 2 files changed, 29 insertions(+), 9 deletions(-)

diff --git a/create_acls_response.go b/create_acls_response.go
index e7752fb..6bf416c 100644
--- a/create_acls_response.go
+++ b/create_acls_response.go
@@ -7,8 +7,9 @@ import (
 
 type CreateAclsResponse struct {
 	ResponseHeader
-	Results      []AclCreationResult
-	TaggedFields TaggedFields
+	ThrottleTimeMs int32
+	Results        []AclCreationResult
+	TaggedFields   TaggedFields
 }
 
 type AclCreationResult struct {
@@ -42,6 +43,9 @@ func DecodeCreateAclsResponse(payload []byte, version uint16) (*CreateAclsRespon
 	r.ResponseHeader, o = DecodeResponseHeader(payload[offset:], API_CreateAcls, version)
 	offset += o
 
+	r.ThrottleTimeMs = int32(binary.BigEndian.Uint32(payload[offset:]))
+	offset += 4
+
 	var resultCount int32
 	if r.ResponseHeader.IsFlexible() {
 		resultCount, o = compactArrayLength(payload[offset:])
@@ -84,7 +88,9 @@ func DecodeCreateAclsResponse(payload []byte, version uint16) (*CreateAclsRespon
 }
 
 func (r *CreateAclsResponse) length() (n int) {
+	n += 4 // length
 	n += r.ResponseHeader.length()
+	n += 4 // throttle time
 	n += 4 // results count
 	for _, result := range r.Results {
 		n += 2 // error code
@@ -92,7 +98,9 @@ func (r *CreateAclsResponse) length() (n int) {
 		if result.ErrorMessage != nil {
 			n += len(*result.ErrorMessage) + 2
 		}
+		n += result.TaggedFields.length()
 	}
+	n += r.TaggedFields.length()
 	return n
 }
 
@@ -109,6 +117,10 @@ func (r *CreateAclsResponse) Encode() (payload []byte) {
 	}()
 
 	offset += r.ResponseHeader.EncodeTo(payload[offset:])
+
+	binary.BigEndian.PutUint32(payload[offset:], uint32(r.ThrottleTimeMs))
+	offset += 4
+
 	if r.ResponseHeader.IsFlexible() {
 		offset += copy(payload[offset:], encodeCompactArrayLength(len(r.Results)))
 	} else {
@@ -127,7 +139,7 @@ func (r *CreateAclsResponse) Encode() (payload []byte) {
 		}
 
 		if r.ResponseHeader.IsFlexible() {
-			offset += r.TaggedFields.EncodeTo(payload[offset:])
+			offset += result.TaggedFields.EncodeTo(payload[offset:])
 		}
 	}
 
diff --git a/delete_acls_response.go b/delete_acls_response.go
index 3eb39ca..46fbceb 100644
--- a/delete_acls_response.go
+++ b/delete_acls_response.go
@@ -195,12 +195,16 @@ func DecodeDeleteAclsResponse(payload []byte, version uint16) (*DeleteAclsRespon
 			offset += o
 		}
 
-		r.FilterResults[i].TaggedFields, o = DecodeTaggedFields(payload[offset:])
-		offset += o
+		if r.ResponseHeader.IsFlexible() {
+			r.FilterResults[i].TaggedFields, o = DecodeTaggedFields(payload[offset:])
+			offset += o
+		}
 	}
 
-	r.TaggedFields, o = DecodeTaggedFields(payload[offset:])
-	offset += o
+	if r.ResponseHeader.IsFlexible() {
+		r.TaggedFields, o = DecodeTaggedFields(payload[offset:])
+		offset += o
+	}
 
 	return r, nil
 }
@@ -243,9 +247,13 @@ func (r *DeleteAclsResponse) Encode() (payload []byte) {
 			buf.Write(m.encode(r.ResponseHeader.apiVersion, r.ResponseHeader.IsFlexible()))
 		}
 
-		buf.Write(fr.TaggedFields.Encode())
+		if r.ResponseHeader.IsFlexible() {
+			buf.Write(fr.TaggedFields.Encode())
+		}
 	}
 
-	buf.Write(r.TaggedFields.Encode())
+	if r.ResponseHeader.IsFlexible() {
+		buf.Write(r.TaggedFields.Encode())
+	}
 	return buf.Bytes()
 }
-- 
2.43.0


From 8052504af6982f2bae3b7005f41aead282def512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:04:01 +0000
Subject: [PATCH 25/54] fix: decode tag buffers in create partitions and list
 partition reassignments responses

---
 create_partitions_response.go            | 18 +++++++++++-------
 list_partition_reassignments_response.go | 14 ++++++--------
 2 files changed, 17 insertions(+), 15 deletions(-)

diff --git a/create_partitions_response.go b/create_partitions_response.go
index 4861514..65a7d2d 100644
--- a/create_partitions_response.go
+++ b/create_partitions_response.go
@@ -44,9 +44,9 @@ func NewCreatePartitionsResponse(payload []byte, version uint16) (r CreatePartit
 
 	r.CorrelationID = binary.BigEndian.Uint32(payload[offset:])
 	offset += 4
-	if version == 2 {
-		// TAG_BUFFER
-		offset++
+	if version >= 2 {
+		_, o := DecodeTaggedFields(payload[offset:])
+		offset += o
 	}
 
 	r.ThrottleTimeMS = int32(binary.BigEndian.Uint32(payload[offset:]))
@@ -89,11 +89,15 @@ func NewCreatePartitionsResponse(payload []byte, version uint16) (r CreatePartit
 			offset += o
 			r.Results[i].ErrorMessage = msg
 		}
-		// TAG_BUFFER
-		offset++
+		if version >= 2 {
+			_, o := DecodeTaggedFields(payload[offset:])
+			offset += o
+		}
+	}
+	if version >= 2 {
+		_, o := DecodeTaggedFields(payload[offset:])
+		offset += o
 	}
-	// TAG_BUFFER
-	offset++
 
 	return
 }
diff --git a/list_partition_reassignments_response.go b/list_partition_reassignments_response.go
index de1e77a..9a57d42 100644
--- a/list_partition_reassignments_response.go
+++ b/list_partition_reassignments_response.go
@@ -37,7 +37,7 @@ func decodeToListPartitionReassignmentsTopicBlock(payload []byte) (r listPartiti
 		}
 	}
 
-	_, o = binary.Uvarint(payload[offset:]) // TAG_BUFFER
+	_, o = DecodeTaggedFields(payload[offset:])
 	offset += o
 
 	return
@@ -85,7 +85,7 @@ func decodeToListPartitionReassignmentsPartitionBlock(payload []byte) (r listPar
 			offset += 4
 		}
 	}
-	_, o = binary.Uvarint(payload[offset:]) // TAG_BUFFER
+	_, o = DecodeTaggedFields(payload[offset:])
 	offset += o
 	return
 }
@@ -105,8 +105,9 @@ func NewListPartitionReassignmentsResponse(payload []byte, version uint16) (r *L
 	}
 	offset += 4
 
-	r.CorrelationID = uint32(binary.BigEndian.Uint32(payload[offset:]))
-	offset += 4
+	header, o := DecodeResponseHeader(payload[offset:], API_ListPartitionReassignments, version)
+	r.CorrelationID = header.CorrelationID
+	offset += o
 
 	r.ThrottleTimeMS = int32(binary.BigEndian.Uint32(payload[offset:]))
 	offset += 4
@@ -114,9 +115,6 @@ func NewListPartitionReassignmentsResponse(payload []byte, version uint16) (r *L
 	r.ErrorCode = int16(binary.BigEndian.Uint16(payload[offset:]))
 	offset += 2
 
-	offset++ // I do not know what this byte means, always 0x01 , additonal byte after ErrorMessage and before Topics
-
-	var o int
 	r.ErrorMessage, o = compactNullableString(payload[offset:])
 	offset += o
 
@@ -132,7 +130,7 @@ func NewListPartitionReassignmentsResponse(payload []byte, version uint16) (r *L
 		}
 	}
 
-	_, o = binary.Uvarint(payload[offset:]) // TAG_BUFFER
+	_, o = DecodeTaggedFields(payload[offset:])
 	offset += o
 
 	return r, err
-- 
2.43.0


From d4181cea1622504cdc09ec9c5f2d2ab9717dce77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:04:03 +0000
Subject: [PATCH 26/54] fix: decode alter configs and describe configs
 responses with several resources and null messages

---
 alter_config_response.go             | 10 ++++++----
 describe_configs_response.go         | 14 +++++---------
 incremental_alter_config_response.go |  2 +-
 3 files changed, 12 insertions(+), 14 deletions(-)

diff --git a/alter_config_response.go b/alter_config_response.go
index 69d3167..b5464f5 100644
--- a/alter_config_response.go
+++ b/alter_config_response.go
@@ -32,10 +32,12 @@ func (r *AlterConfigsResponseResource) decode(payload []byte) (resourceLength in
 	r.ErrorCode = int16(binary.BigEndian.Uint16(payload[offset:]))
 	offset += 2
 
-	l := int(binary.BigEndian.Uint16(payload[offset:]))
+	l := int(int16(binary.BigEndian.Uint16(payload[offset:])))
 	offset += 2
-	r.ErrorMessage = string(payload[offset : offset+l])
-	offset += l
+	if l > 0 {
+		r.ErrorMessage = string(payload[offset : offset+l])
+		offset += l
+	}
 
 	r.ResourceType = payload[offset]
 	offset++
@@ -44,7 +46,7 @@ func (r *AlterConfigsResponseResource) decode(payload []byte) (resourceLength in
 	offset += 2
 	r.ResourceName = string(payload[offset : offset+l])
 	offset += l
-	return
+	return offset
 }
 
 func NewAlterConfigsResponse(payload []byte) (r AlterConfigsResponse, err error) {
diff --git a/describe_configs_response.go b/describe_configs_response.go
index dbd4db5..4adb49d 100644
--- a/describe_configs_response.go
+++ b/describe_configs_response.go
@@ -35,15 +35,11 @@ func decodeToDescribeConfigsResponseResource(payload []byte) (r describeConfigsR
 	r.ErrorCode = int16(binary.BigEndian.Uint16(payload[offset:]))
 	offset += 2
 
-	if r.ErrorCode != 0 {
-		l = int(int16(binary.BigEndian.Uint16(payload[offset:])))
-		offset += 2
-		if l > 0 {
-			r.ErrorMessage = string(payload[offset : offset+l])
-			offset += l
-		}
-	} else {
-		offset += 2
+	l = int(int16(binary.BigEndian.Uint16(payload[offset:])))
+	offset += 2
+	if l > 0 {
+		r.ErrorMessage = string(payload[offset : offset+l])
+		offset += l
 	}
 
 	r.ResourceType = uint8(payload[offset])
diff --git a/incremental_alter_config_response.go b/incremental_alter_config_response.go
index c78f3c0..2defbb8 100644
--- a/incremental_alter_config_response.go
+++ b/incremental_alter_config_response.go
@@ -50,7 +50,7 @@ func decodeToIncrementalAlterConfigsResponseResource(payload []byte, version uin
 		r.ResourceName = string(payload[offset : offset+int(l)])
 		offset += int(l)
 	}
-	return
+	return r, offset
 }
 
 // NewIncrementalAlterConfigsResponse create a new IncrementalAlterConfigsResponse.
-- 
2.43.0


From fcf8551edb61740a64640602d02bb8715bbfb8aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:04:05 +0000
Subject: [PATCH 27/54] fix: decode describe groups, describe log dirs and
 offset fetch responses

---
 describe_groups_response.go  | 11 ++++++++++-
 describe_logdirs_response.go |  2 +-
 offset_fetch_response.go     |  9 +++++----
 3 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/describe_groups_response.go b/describe_groups_response.go
index 3398e07..1cef73b 100644
--- a/describe_groups_response.go
+++ b/describe_groups_response.go
@@ -109,6 +109,7 @@ func NewDescribeGroupsResponse(payload []byte) (r DescribeGroupsResponse, err er
 
 			l = int(binary.BigEndian.Uint32(payload[offset:]))
 			offset += 4
+			group.Members[i].MemberMetadata = make([]byte, l)
 			copy(group.Members[i].MemberMetadata, payload[offset:offset+l])
 			offset += l
 
@@ -116,8 +117,16 @@ func NewDescribeGroupsResponse(payload []byte) (r DescribeGroupsResponse, err er
 			offset += 4
 			group.Members[i].RawMemberAssignment = make([]byte, l)
 			copy(group.Members[i].RawMemberAssignment, payload[offset:offset+l])
-			group.Members[i].MemberAssignment, err = NewMemberAssignment(group.Members[i].RawMemberAssignment)
 			offset += l
+
+			// a member has no assignment until the rebalance is completed
+			if l > 0 {
+				var assignmentErr error
+				group.Members[i].MemberAssignment, assignmentErr = NewMemberAssignment(group.Members[i].RawMemberAssignment)
+				if err == nil {
+					err = assignmentErr
+				}
+			}
 		}
 
 		r.Groups[i] = group
diff --git a/describe_logdirs_response.go b/describe_logdirs_response.go
index b30bdf3..286f1ad 100644
--- a/describe_logdirs_response.go
+++ b/describe_logdirs_response.go
@@ -95,7 +95,7 @@ func NewDescribeLogDirsResponse(payload []byte, version uint16) (r DescribeLogDi
 	}
 	offset += 4
 
-	r.CoordinatorID = binary.BigEndian.Uint32(payload)
+	r.CoordinatorID = binary.BigEndian.Uint32(payload[offset:])
 	offset += 4
 
 	r.ThrottleTimeMS = int32(binary.BigEndian.Uint32(payload[offset:]))
diff --git a/offset_fetch_response.go b/offset_fetch_response.go
index ba09b09..e554243 100644
--- a/offset_fetch_response.go
+++ b/offset_fetch_response.go
@@ -72,10 +72,11 @@ func NewOffsetFetchResponse(payload []byte) (r OffsetFetchResponse, err error) {
 			offset += 4
 			p.Offset = int64(binary.BigEndian.Uint64(payload[offset:]))
 			offset += 8
-			l = int(binary.BigEndian.Uint16(payload[offset:]))
-			offset += 2
-			p.Metadata = string(payload[offset : offset+l])
-			offset += l
+			metadata, o := nullableString(payload[offset:])
+			if metadata != nil {
+				p.Metadata = *metadata
+			}
+			offset += o
 			p.ErrorCode = int16(binary.BigEndian.Uint16(payload[offset:]))
 			offset += 2
 
-- 
2.43.0


From 5fe1ff435da27fcffd62f75695a2fd78f4eb184d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:04:10 +0000
Subject: [PATCH 28/54] fix: error codes of responses reach the caller

---
 alter_partition_reassignments_response.go |  4 ++--
 create_partitions_response.go             |  2 +-
 delete_acls_response.go                   |  5 ++---
 delete_groups_response.go                 |  2 +-
 delete_topics_response.go                 |  5 +++--
 describe_configs_response.go              |  2 +-
 errorcode.go                              | 12 ++++++++----
 list_groups_response.go                   |  2 +-
 list_partition_reassignments_response.go  |  6 ++++--
 9 files changed, 23 insertions(+), 17 deletions(-)

diff --git a/alter_partition_reassignments_response.go b/alter_partition_reassignments_response.go
index 42162fe..c4b754f 100644
--- a/alter_partition_reassignments_response.go
+++ b/alter_partition_reassignments_response.go
@@ -19,12 +19,12 @@ type AlterPartitionReassignmentsResponse struct {
 
 func (r *AlterPartitionReassignmentsResponse) Error() error {
 	if r.ErrorCode != 0 {
-		return fmt.Errorf("%w: %s", KafkaError(r.ErrorCode), *r.ErrorMsg)
+		return errorWithMessage(r.ErrorCode, r.ErrorMsg)
 	}
 	for _, t := range r.Responses {
 		for _, p := range t.Partitions {
 			if p.ErrorCode != 0 {
-				return fmt.Errorf("%w: %s", KafkaError(p.ErrorCode), *p.ErrorMsg)
+				return errorWithMessage(p.ErrorCode, p.ErrorMsg)
 			}
 		}
 	}
diff --git a/create_partitions_response.go b/create_partitions_response.go
index 65a7d2d..294c986 100644
--- a/create_partitions_response.go
+++ b/create_partitions_response.go
@@ -24,7 +24,7 @@ type createPartitionsResponseResultBlock struct {
 func (r CreatePartitionsResponse) Error() error {
 	for _, result := range r.Results {
 		if result.ErrorCode != 0 {
-			return fmt.Errorf("create partitions error(%d): %s: %w", result.ErrorCode, *result.ErrorMessage, KafkaError(result.ErrorCode))
+			return fmt.Errorf("create partitions error(%d): %w", result.ErrorCode, errorWithMessage(result.ErrorCode, result.ErrorMessage))
 		}
 	}
 	return nil
diff --git a/delete_acls_response.go b/delete_acls_response.go
index 46fbceb..cdddf68 100644
--- a/delete_acls_response.go
+++ b/delete_acls_response.go
@@ -126,12 +126,11 @@ type DeleteAclsResponse struct {
 func (r *DeleteAclsResponse) Error() (err error) {
 	for i := range r.FilterResults {
 		if r.FilterResults[i].ErrorCode != 0 {
-			return fmt.Errorf("%w: %s", KafkaError(r.FilterResults[i].ErrorCode), *r.FilterResults[i].ErrorMessage)
+			return errorWithMessage(r.FilterResults[i].ErrorCode, r.FilterResults[i].ErrorMessage)
 		}
 		for j := range r.FilterResults[i].MatchingAcls {
 			if r.FilterResults[i].MatchingAcls[j].ErrorCode != 0 {
-				return fmt.Errorf("%w: %s", KafkaError(r.FilterResults[i].MatchingAcls[j].ErrorCode),
-					*r.FilterResults[i].MatchingAcls[j].ErrorMessage)
+				return errorWithMessage(r.FilterResults[i].MatchingAcls[j].ErrorCode, r.FilterResults[i].MatchingAcls[j].ErrorMessage)
 			}
 		}
 	}
diff --git a/delete_groups_response.go b/delete_groups_response.go
index df9b6d6..1987eb0 100644
--- a/delete_groups_response.go
+++ b/delete_groups_response.go
@@ -19,7 +19,7 @@ type DeleteGroupsResponse struct {
 func (r DeleteGroupsResponse) Error() error {
 	for _, result := range r.Results {
 		if result.ErrorCode != 0 {
-			return fmt.Errorf("delete group[%s] failed: %s", result.GroupID, KafkaError(result.ErrorCode))
+			return fmt.Errorf("delete group[%s] failed: %w", result.GroupID, KafkaError(result.ErrorCode))
 		}
 	}
 	return nil
diff --git a/delete_topics_response.go b/delete_topics_response.go
index b73a2d3..cab41c3 100644
--- a/delete_topics_response.go
+++ b/delete_topics_response.go
@@ -2,6 +2,7 @@ package healer
 
 import (
 	"encoding/binary"
+	"errors"
 	"fmt"
 )
 
@@ -20,12 +21,12 @@ func (r DeleteTopicsResponse) Error() error {
 	for _, result := range r.Results {
 		if result.ErrorCode != 0 {
 			allErrors = append(allErrors,
-				fmt.Errorf("delete topic[%s] failed: %s",
+				fmt.Errorf("delete topic[%s] failed: %w",
 					result.TopicName, KafkaError(result.ErrorCode)))
 		}
 	}
 	if (len(allErrors)) > 0 {
-		return fmt.Errorf("delete topics failed: %v", allErrors)
+		return fmt.Errorf("delete topics failed: %w", errors.Join(allErrors...))
 	}
 	return nil
 }
diff --git a/describe_configs_response.go b/describe_configs_response.go
index 4adb49d..36502e7 100644
--- a/describe_configs_response.go
+++ b/describe_configs_response.go
@@ -15,7 +15,7 @@ type DescribeConfigsResponse struct {
 func (r DescribeConfigsResponse) Error() error {
 	for _, resource := range r.Resources {
 		if resource.ErrorCode != 0 {
-			return fmt.Errorf("describe configs failed: %s", KafkaError(resource.ErrorCode))
+			return fmt.Errorf("describe configs failed: %w", KafkaError(resource.ErrorCode))
 		}
 	}
 	return nil
diff --git a/errorcode.go b/errorcode.go
index d17df81..132ec12 100644
--- a/errorcode.go
+++ b/errorcode.go
@@ -35,11 +35,15 @@ func getErrorFromErrorCode(errorcode int16) error {
 		return nil
 	}
 
-	if _, ok := AllError[errorcode]; ok {
+	return KafkaError(errorcode)
+}
+
+// errorWithMessage adds the message, which may be null in the response, to the error of the code
+func errorWithMessage(errorcode int16, message *string) error {
+	if message == nil {
 		return KafkaError(errorcode)
 	}
-
-	return fmt.Errorf("unknown error code:%d", errorcode)
+	return fmt.Errorf("%w: %s", KafkaError(errorcode), *message)
 }
 
 func init() {
@@ -758,7 +762,7 @@ func init() {
 		Retriable: false,
 		ErrorDesc: "Client sent a push telemetry request larger than the maximum size the broker will accept.",
 	}
-	AllError[118] = &Error{
+	AllError[119] = &Error{
 		ErrorMsg:  "INVALID_REGISTRATION",
 		ErrorCode: 119,
 		Retriable: false,
diff --git a/list_groups_response.go b/list_groups_response.go
index 000ad86..5c03adb 100644
--- a/list_groups_response.go
+++ b/list_groups_response.go
@@ -25,7 +25,7 @@ type ListGroupsResponse struct {
 }
 
 func (r *ListGroupsResponse) Error() error {
-	return nil
+	return getErrorFromErrorCode(int16(r.ErrorCode))
 }
 
 func (g *Group) tags() (fieldsVersions map[string]uint16) {
diff --git a/list_partition_reassignments_response.go b/list_partition_reassignments_response.go
index 9a57d42..6c560cb 100644
--- a/list_partition_reassignments_response.go
+++ b/list_partition_reassignments_response.go
@@ -90,9 +90,11 @@ func decodeToListPartitionReassignmentsPartitionBlock(payload []byte) (r listPar
 	return
 }
 
-// FIXME: add error message too
 func (r *ListPartitionReassignmentsResponse) Error() error {
-	return getErrorFromErrorCode(r.ErrorCode)
+	if r.ErrorCode == 0 {
+		return nil
+	}
+	return errorWithMessage(r.ErrorCode, r.ErrorMessage)
 }
 
 // NewListPartitionReassignmentsResponse decode byte array to ListPartitionReassignmentsResponse instance
-- 
2.43.0


From 1b79757b8d1a207a7654a8e38e39208249cd4a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:25 +0000
Subject: [PATCH 29/54] fix: give up sending a request within the timeout

---
 broker.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/broker.go b/broker.go
index 48e4b1b..11dbcfe 100644
--- a/broker.go
+++ b/broker.go
@@ -327,6 +327,9 @@ func (broker *Broker) request(payload []byte, timeout int) (defaultReadParser, e
 	correlationID := binary.BigEndian.Uint32(payload[8:])
 	logger.V(5).Info("request info", "length", len(payload), "api", api, "apiVersion", apiVersion, "correlationID", correlationID, "timeout", timeout)
 
+	if timeout > 0 {
+		conn.SetWriteDeadline(time.Now().Add(time.Duration(timeout) * time.Millisecond))
+	}
 	if _, err := io.Copy(conn, bytes.NewBuffer(payload)); err != nil {
 		return defaultReadParser{}, err
 	}
@@ -355,6 +358,9 @@ func (broker *Broker) requestStreamingly(payload []byte, timeout int) (r io.Read
 	correlationID := binary.BigEndian.Uint32(payload[8:])
 	logger.V(5).Info("request info", "length", len(payload), "api", api, "apiVersion", apiVersion, "correlationID", correlationID, "timeout", timeout)
 
+	if timeout > 0 {
+		conn.SetWriteDeadline(time.Now().Add(time.Duration(timeout) * time.Millisecond))
+	}
 	if _, err = io.Copy(conn, bytes.NewBuffer(payload)); err != nil {
 		return nil, responseLength, err
 	}
-- 
2.43.0


From df4d9bf10b21433f9e1dd7f187d9911e6633f3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:23:20 +0000
Subject: [PATCH 30/54] fix: list groups of the bootstrap broker under its node
 id

---
 client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client.go b/client.go
index 3619d2d..64122dd 100644
--- a/client.go
+++ b/client.go
@@ -56,7 +56,7 @@ func (c *Client) ListGroups() (groups map[int32][]*Group, err error) {
 			return groups, err
 		}
 		if len(response.Groups) > 0 {
-			groups[broker.nodeID] = response.Groups
+			groups[brokerinfo.NodeID] = response.Groups
 		}
 	}
 	return groups, nil
-- 
2.43.0


From 8f6f2f427eccb82962c109c75c98aa8307684e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:23:26 +0000
Subject: [PATCH 31/54] fix: describe logdirs returns errors, and all topics if
 none is given

---
 client.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/client.go b/client.go
index 64122dd..a07732d 100644
--- a/client.go
+++ b/client.go
@@ -113,7 +113,7 @@ func (c *Client) DescribeLogDirs(topics []string) (map[int32]DescribeLogDirsResp
 		resp, err := broker.RequestAndGet(req)
 		if err != nil {
 			c.logger.Error(err, "describe logdirs failed", "broker", broker.String())
-			continue
+			return nil, err
 		}
 
 		topicSet := make(map[string]struct{})
@@ -126,7 +126,7 @@ func (c *Client) DescribeLogDirs(topics []string) (map[int32]DescribeLogDirsResp
 			theTopics := rs[i].Topics
 			filterdTopics := make([]DescribeLogDirsResponseTopic, 0)
 			for i := range theTopics {
-				if _, ok := topicSet[theTopics[i].TopicName]; ok {
+				if _, ok := topicSet[theTopics[i].TopicName]; ok || len(topics) == 0 {
 					filterdTopics = append(filterdTopics, theTopics[i])
 				}
 			}
-- 
2.43.0


From ed41d33d7ba68fef7af8903d969fe24285340c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:23:31 +0000
Subject: [PATCH 32/54] fix: delete topics does not panic if the request failed

---
 client.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/client.go b/client.go
index a07732d..1bda0a3 100644
--- a/client.go
+++ b/client.go
@@ -157,7 +157,10 @@ func (c *Client) DeleteTopics(topics []string, timeoutMs int32) (r DeleteTopicsR
 	}
 
 	resp, err := controller.RequestAndGet(req)
-	return resp.(DeleteTopicsResponse), err
+	if err != nil {
+		return r, err
+	}
+	return resp.(DeleteTopicsResponse), nil
 }
 
 // CreateTopic creates a single topic with specified parameters
-- 
2.43.0


From df13d108bbaca68b1f3e511de5599d3869aa6294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:20 +0000
Subject: [PATCH 33/54] fix: configs of consumers do not affect each other,
 keep given api timeouts, refuse intervals which are not positive

---
 config.go          | 65 +++++++++++++++++++++++++++++++---------------
 consumer.go        |  4 +++
 producer.go        |  3 +++
 simple_consumer.go |  3 +++
 4 files changed, 54 insertions(+), 21 deletions(-)

diff --git a/config.go b/config.go
index 1e0cc76..bde7a50 100644
--- a/config.go
+++ b/config.go
@@ -106,11 +106,11 @@ type ConsumerConfig struct {
 }
 
 func DefaultConsumerConfig() ConsumerConfig {
-	c := ConsumerConfig{
+	return ConsumerConfig{
 		Net: NetConfig{
 			ConnectTimeoutMS:    30000,
 			TimeoutMS:           30000,
-			TimeoutMSForEachAPI: make([]int, 0),
+			TimeoutMSForEachAPI: make([]int, 68),
 			KeepAliveMS:         7200000,
 		},
 		ClientID:             "healer",
@@ -126,25 +126,28 @@ func DefaultConsumerConfig() ConsumerConfig {
 		AutoCommitIntervalMS: 5000,
 		OffsetsStorage:       1,
 	}
-
-	c.resetTimeoutMSForEachAPI()
-
-	return c
 }
 
+// resetTimeoutMSForEachAPI sets the timeouts of the APIs for which no timeout is given.
+// it makes a new slice because the old one may be shared with other configs
 func (c *ConsumerConfig) resetTimeoutMSForEachAPI() {
-	if len(c.Net.TimeoutMSForEachAPI) == 0 {
-		c.Net.TimeoutMSForEachAPI = make([]int, 68)
+	given := c.Net.TimeoutMSForEachAPI
+	timeouts := make([]int, max(68, len(given)))
+	for i := range timeouts {
+		timeouts[i] = c.Net.TimeoutMS
 	}
-	for i := range c.Net.TimeoutMSForEachAPI {
-		c.Net.TimeoutMSForEachAPI[i] = c.Net.TimeoutMS
+	timeouts[API_JoinGroup] = int(c.SessionTimeoutMS) + 5000
+	timeouts[API_OffsetCommitRequest] = int(c.SessionTimeoutMS) / 2
+	timeouts[API_FetchRequest] = c.Net.TimeoutMS + int(c.FetchMaxWaitMS)
+	for i, timeout := range given {
+		if timeout > 0 {
+			timeouts[i] = timeout
+		}
 	}
-	c.Net.TimeoutMSForEachAPI[API_JoinGroup] = int(c.SessionTimeoutMS) + 5000
-	c.Net.TimeoutMSForEachAPI[API_OffsetCommitRequest] = int(c.SessionTimeoutMS) / 2
-	c.Net.TimeoutMSForEachAPI[API_FetchRequest] = c.Net.TimeoutMS + int(c.FetchMaxWaitMS)
+	c.Net.TimeoutMSForEachAPI = timeouts
 }
 
-var defaultConsumerConfig = DefaultConsumerConfig()
+var defaultConsumerConfig, _ = createConsumerConfig(nil)
 
 // create ConsumerConfig from map or return directly if config is ConsumerConfig
 // return defaultConsumerConfig if config is nil
@@ -155,11 +158,11 @@ func createConsumerConfig(config interface{}) (c ConsumerConfig, err error) {
 
 	switch config := config.(type) {
 	case nil:
-		return defaultConsumerConfig, nil
+		return DefaultConsumerConfig(), nil
 	case map[string]interface{}:
-		c = defaultConsumerConfig
+		c = DefaultConsumerConfig()
 		if err := mapstructure.WeakDecode(config, &c); err != nil {
-			return defaultConsumerConfig, fmt.Errorf("decode consumer config error: %w", err)
+			return DefaultConsumerConfig(), fmt.Errorf("decode consumer config error: %w", err)
 		}
 	case ConsumerConfig:
 		return config, nil
@@ -172,17 +175,37 @@ func createConsumerConfig(config interface{}) (c ConsumerConfig, err error) {
 var (
 	errEmptyGroupID                 = errors.New("group.id is empty")
 	errInvallidOffsetsStorageConfig = errors.New("offsets.storage must be 0 or 1")
+	errAutoCommitIntervalMS         = errors.New("auto.commit.interval.ms must > 0")
+	errSessionTimeoutMS             = errors.New("session.timeout.ms must > 0")
+	errMetadataMaxAgeMS             = errors.New("metadata.max.age.ms must > 0")
 )
 
-func (config *ConsumerConfig) checkValid() error {
+// checkValidWithoutGroup checks the options which consumers without a group use as well
+func (config *ConsumerConfig) checkValidWithoutGroup() error {
 	if config.BootstrapServers == "" {
 		return errBootstrapServersNotSet
 	}
+	if config.OffsetsStorage != 0 && config.OffsetsStorage != 1 {
+		return errInvallidOffsetsStorageConfig
+	}
+	if config.AutoCommit && config.GroupID != "" && config.AutoCommitIntervalMS <= 0 {
+		return errAutoCommitIntervalMS
+	}
+	return nil
+}
+
+func (config *ConsumerConfig) checkValid() error {
+	if err := config.checkValidWithoutGroup(); err != nil {
+		return err
+	}
 	if config.GroupID == "" {
 		return errEmptyGroupID
 	}
-	if config.OffsetsStorage != 0 && config.OffsetsStorage != 1 {
-		return errInvallidOffsetsStorageConfig
+	if config.SessionTimeoutMS <= 0 {
+		return errSessionTimeoutMS
+	}
+	if config.MetadataMaxAgeMS <= 0 {
+		return errMetadataMaxAgeMS
 	}
 	return nil
 }
@@ -265,7 +288,7 @@ func createProducerConfig(config interface{}) (c ProducerConfig, err error) {
 
 	switch v := config.(type) {
 	case nil:
-		return defaultProducerConfig, nil
+		c = defaultProducerConfig
 	case map[string]interface{}:
 		c = defaultProducerConfig
 		if err := mapstructure.WeakDecode(config, &c); err != nil {
diff --git a/consumer.go b/consumer.go
index b163c73..9cbaf53 100644
--- a/consumer.go
+++ b/consumer.go
@@ -24,6 +24,10 @@ func NewConsumer(config interface{}, topics ...string) (*Consumer, error) {
 	if err != nil {
 		return nil, err
 	}
+	if err := cfg.checkValidWithoutGroup(); err != nil {
+		return nil, err
+	}
+
 	brokerConfig := getBrokerConfigFromConsumerConfig(cfg)
 	brokers, err := NewBrokersWithConfig(cfg.BootstrapServers, brokerConfig)
 	if err != nil {
diff --git a/producer.go b/producer.go
index ca57a3f..a6a7ba3 100644
--- a/producer.go
+++ b/producer.go
@@ -41,6 +41,9 @@ func NewProducer(topic string, config interface{}) (*Producer, error) {
 	if err != nil {
 		return nil, err
 	}
+	if cfg.MetadataMaxAgeMS <= 0 {
+		return nil, errMetadataMaxAgeMS
+	}
 
 	p := &Producer{
 		config:               cfg,
diff --git a/simple_consumer.go b/simple_consumer.go
index 074bf9f..4ee452b 100644
--- a/simple_consumer.go
+++ b/simple_consumer.go
@@ -103,6 +103,9 @@ func NewSimpleConsumer(topic string, partitionID int32, config interface{}) (*Si
 	if err != nil {
 		return nil, err
 	}
+	if err := cfg.checkValidWithoutGroup(); err != nil {
+		return nil, err
+	}
 
 	brokerConfig := getBrokerConfigFromConsumerConfig(cfg)
 
-- 
2.43.0


From 67dd17ad87f50e993ac45a3d53b81459032209bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:00 +0000
Subject: [PATCH 34/54] fix: truncated or malformed responses cause errors
 instead of panics

---
 alter_config_response.go                  |  2 +-
 alter_partition_reassignments_response.go |  6 ++---
 apiversions_response.go                   |  2 +-
 assign.go                                 |  4 +++
 create_acls_response.go                   |  2 +-
 create_partitions_response.go             |  2 +-
 create_topics_response.go                 |  2 +-
 delete_acls_response.go                   |  8 +++---
 delete_groups_response.go                 |  2 +-
 delete_topics_response.go                 |  2 +-
 describe_configs_response.go              |  4 +--
 describe_groups_response.go               |  8 +++---
 describe_logdirs_response.go              |  6 ++---
 desscribe_acls_response.go                |  4 +--
 elect_leaders_response.go                 |  4 +--
 fetch_response.go                         |  3 +++
 group.go                                  | 33 ++++++++++++++---------
 incremental_alter_config_response.go      |  2 +-
 joingroup_response.go                     |  4 +--
 list_groups_response.go                   |  2 +-
 list_partition_reassignments_response.go  | 10 +++----
 metadata_response.go                      | 12 ++++-----
 offset_commit_response.go                 |  4 +--
 offset_fetch_response.go                  |  4 +--
 offset_response.go                        |  7 ++---
 primitive_types_decode.go                 | 28 ++++++++++++++++---
 produce_response.go                       | 12 ++++-----
 response.go                               |  4 ++-
 sasl_authenticate_response.go             |  2 +-
 sasl_handshake_response.go                |  2 +-
 sync_group_response.go                    |  2 +-
 tagged_fields.go                          |  1 +
 32 files changed, 114 insertions(+), 76 deletions(-)

diff --git a/alter_config_response.go b/alter_config_response.go
index b5464f5..d8fac3b 100644
--- a/alter_config_response.go
+++ b/alter_config_response.go
@@ -68,7 +68,7 @@ func NewAlterConfigsResponse(payload []byte) (r AlterConfigsResponse, err error)
 	count := binary.BigEndian.Uint32(payload[offset:])
 	offset += 4
 
-	r.Resources = make([]AlterConfigsResponseResource, count)
+	r.Resources = make([]AlterConfigsResponseResource, arrayLength(int(count), payload[offset:]))
 	for i := range r.Resources {
 		rr := &r.Resources[i]
 		offset += rr.decode(payload[offset:])
diff --git a/alter_partition_reassignments_response.go b/alter_partition_reassignments_response.go
index c4b754f..88b49f8 100644
--- a/alter_partition_reassignments_response.go
+++ b/alter_partition_reassignments_response.go
@@ -142,7 +142,7 @@ func NewAlterPartitionReassignmentsResponse(payload []byte, version uint16) (*Al
 	if responseCount < 0 { // actually it should be -1
 		r.Responses = nil
 	} else {
-		r.Responses = make([]*alterPartitionReassignmentsResponseTopic, responseCount)
+		r.Responses = make([]*alterPartitionReassignmentsResponseTopic, arrayLength(int(responseCount), payload[offset:]))
 		for i := 0; i < int(responseCount); i++ {
 			topic := &alterPartitionReassignmentsResponseTopic{}
 			r.Responses[i] = topic
@@ -153,10 +153,10 @@ func NewAlterPartitionReassignmentsResponse(payload []byte, version uint16) (*Al
 			partitionCount, o := compactArrayLength(payload[offset:])
 			offset += o
 			if partitionCount <= 0 {
-				topic.Partitions = nil
+				partitionCount = 0
 			}
 
-			topic.Partitions = make([]*alterPartitionReassignmentsResponseTopicPartition, partitionCount)
+			topic.Partitions = make([]*alterPartitionReassignmentsResponseTopicPartition, arrayLength(int(partitionCount), payload[offset:]))
 			for j := 0; j < int(partitionCount); j++ {
 				topic.Partitions[j], o = decodeToAlterPartitionReassignmentsResponseTopicPartition(payload[offset:], version)
 				offset += o
diff --git a/apiversions_response.go b/apiversions_response.go
index 8ff46f2..80b27d8 100644
--- a/apiversions_response.go
+++ b/apiversions_response.go
@@ -170,7 +170,7 @@ func newAPIVersionsResponse(payload []byte) (r APIVersionsResponse, err error) {
 
 	apiVersionsCount := binary.BigEndian.Uint32(payload[offset:])
 	offset += 4
-	r.APIVersions = make([]APIVersion, apiVersionsCount)
+	r.APIVersions = make([]APIVersion, arrayLength(int(apiVersionsCount), payload[offset:]))
 
 	for i := uint32(0); i < apiVersionsCount; i++ {
 		apiVersion := APIVersion{}
diff --git a/assign.go b/assign.go
index d043cd1..9395fb7 100644
--- a/assign.go
+++ b/assign.go
@@ -16,6 +16,10 @@ type rangeAssignmentStrategy struct {
 // partitions in one topic
 // XXX (3,5)=>[(0,2),(2,2),(4,1)]  (5,10)=>[(0,2), (2,2), (4,2), (6,2), (8,2)]
 func (r *rangeAssignmentStrategy) assignPartitions(members []string, partitions []int32) map[string][]int32 {
+	if len(members) == 0 {
+		return nil
+	}
+
 	var (
 		rst       = make(map[string][]int32)
 		watershed = len(partitions) % len(members)
diff --git a/create_acls_response.go b/create_acls_response.go
index 6bf416c..db1a28b 100644
--- a/create_acls_response.go
+++ b/create_acls_response.go
@@ -58,7 +58,7 @@ func DecodeCreateAclsResponse(payload []byte, version uint16) (*CreateAclsRespon
 	if resultCount < 0 {
 		r.Results = nil
 	} else {
-		r.Results = make([]AclCreationResult, resultCount)
+		r.Results = make([]AclCreationResult, arrayLength(int(resultCount), payload[offset:]))
 		for i := int32(0); i < resultCount; i++ {
 			result := &AclCreationResult{}
 			result.ErrorCode = binary.BigEndian.Uint16(payload[offset:])
diff --git a/create_partitions_response.go b/create_partitions_response.go
index 294c986..b2b361a 100644
--- a/create_partitions_response.go
+++ b/create_partitions_response.go
@@ -62,7 +62,7 @@ func NewCreatePartitionsResponse(payload []byte, version uint16) (r CreatePartit
 		offset += 4
 	}
 
-	r.Results = make([]createPartitionsResponseResultBlock, blockCount)
+	r.Results = make([]createPartitionsResponseResultBlock, arrayLength(int(blockCount), payload[offset:]))
 	for i := 0; i < blockCount; i++ {
 		r.Results[i] = createPartitionsResponseResultBlock{}
 
diff --git a/create_topics_response.go b/create_topics_response.go
index 8c1c4d8..b697804 100644
--- a/create_topics_response.go
+++ b/create_topics_response.go
@@ -44,7 +44,7 @@ func NewCreateTopicsResponse(payload []byte) (r CreateTopicsResponse, err error)
 	count := int32(binary.BigEndian.Uint32(payload[offset:]))
 	offset += 4
 
-	r.TopicErrors = make([]TopicError, count)
+	r.TopicErrors = make([]TopicError, arrayLength(int(count), payload[offset:]))
 	for i := range r.TopicErrors {
 		e := TopicError{}
 
diff --git a/delete_acls_response.go b/delete_acls_response.go
index cdddf68..b1afdd9 100644
--- a/delete_acls_response.go
+++ b/delete_acls_response.go
@@ -159,11 +159,11 @@ func DecodeDeleteAclsResponse(payload []byte, version uint16) (*DeleteAclsRespon
 	if r.ResponseHeader.IsFlexible() {
 		filterCount, o := compactArrayLength(payload[offset:])
 		offset += o
-		r.FilterResults = make([]DeleteAclsFilterResult, filterCount)
+		r.FilterResults = make([]DeleteAclsFilterResult, arrayLength(int(filterCount), payload[offset:]))
 	} else {
 		filterCount := int32(binary.BigEndian.Uint32(payload[offset:]))
 		offset += 4
-		r.FilterResults = make([]DeleteAclsFilterResult, filterCount)
+		r.FilterResults = make([]DeleteAclsFilterResult, arrayLength(int(filterCount), payload[offset:]))
 	}
 
 	for i := range r.FilterResults {
@@ -181,11 +181,11 @@ func DecodeDeleteAclsResponse(payload []byte, version uint16) (*DeleteAclsRespon
 		if r.ResponseHeader.IsFlexible() {
 			matchingAclCount, o := compactArrayLength(payload[offset:])
 			offset += o
-			r.FilterResults[i].MatchingAcls = make([]DeleteAclsMatchingAcl, matchingAclCount)
+			r.FilterResults[i].MatchingAcls = make([]DeleteAclsMatchingAcl, arrayLength(int(matchingAclCount), payload[offset:]))
 		} else {
 			matchingAclCount := int32(binary.BigEndian.Uint32(payload[offset:]))
 			offset += 4
-			r.FilterResults[i].MatchingAcls = make([]DeleteAclsMatchingAcl, matchingAclCount)
+			r.FilterResults[i].MatchingAcls = make([]DeleteAclsMatchingAcl, arrayLength(int(matchingAclCount), payload[offset:]))
 		}
 
 		for j := range r.FilterResults[i].MatchingAcls {
diff --git a/delete_groups_response.go b/delete_groups_response.go
index 1987eb0..3317195 100644
--- a/delete_groups_response.go
+++ b/delete_groups_response.go
@@ -44,7 +44,7 @@ func NewDeleteGroupsResponse(payload []byte) (r DeleteGroupsResponse, err error)
 	r.Results = make([]struct {
 		GroupID   string `json:"group_id"`
 		ErrorCode int16  `json:"error_code"`
-	}, count)
+	}, arrayLength(int(count), payload[offset:]))
 	offset += 4
 
 	for i := uint32(0); i < count; i++ {
diff --git a/delete_topics_response.go b/delete_topics_response.go
index cab41c3..e7ba746 100644
--- a/delete_topics_response.go
+++ b/delete_topics_response.go
@@ -47,7 +47,7 @@ func NewDeleteTopicsResponse(payload []byte, version uint16) (r DeleteTopicsResp
 	r.Results = make([]struct {
 		TopicName string `json:"topic_name"`
 		ErrorCode int16  `json:"error_code"`
-	}, count)
+	}, arrayLength(int(count), payload[offset:]))
 	offset += 4
 
 	for i := uint32(0); i < count; i++ {
diff --git a/describe_configs_response.go b/describe_configs_response.go
index 36502e7..eac0ef6 100644
--- a/describe_configs_response.go
+++ b/describe_configs_response.go
@@ -55,7 +55,7 @@ func decodeToDescribeConfigsResponseResource(payload []byte) (r describeConfigsR
 	count := int(binary.BigEndian.Uint32(payload[offset:]))
 	offset += 4
 
-	r.ConfigEntries = make([]describeConfigsResponseConfigEntry, count)
+	r.ConfigEntries = make([]describeConfigsResponseConfigEntry, arrayLength(int(count), payload[offset:]))
 	for i := range r.ConfigEntries {
 		c, o := decodeToDescribeConfigsResponseConfigEntry(payload[offset:])
 		r.ConfigEntries[i] = c
@@ -118,7 +118,7 @@ func NewDescribeConfigsResponse(payload []byte) (r DescribeConfigsResponse, err
 	count := binary.BigEndian.Uint32(payload[offset:])
 	offset += 4
 
-	r.Resources = make([]describeConfigsResponseResource, count)
+	r.Resources = make([]describeConfigsResponseResource, arrayLength(int(count), payload[offset:]))
 	for i := range r.Resources {
 		c, o := decodeToDescribeConfigsResponseResource(payload[offset:])
 		r.Resources[i] = c
diff --git a/describe_groups_response.go b/describe_groups_response.go
index 1cef73b..724f2f8 100644
--- a/describe_groups_response.go
+++ b/describe_groups_response.go
@@ -54,7 +54,7 @@ func NewDescribeGroupsResponse(payload []byte) (r DescribeGroupsResponse, err er
 	groupCount := uint32(binary.BigEndian.Uint32(payload[offset:]))
 	offset += 4
 
-	r.Groups = make([]*GroupDetail, groupCount)
+	r.Groups = make([]*GroupDetail, arrayLength(int(groupCount), payload[offset:]))
 
 	for i := range r.Groups {
 		group := &GroupDetail{}
@@ -89,7 +89,7 @@ func NewDescribeGroupsResponse(payload []byte) (r DescribeGroupsResponse, err er
 		memberCount := int(binary.BigEndian.Uint32(payload[offset:]))
 		offset += 4
 
-		group.Members = make([]MemberDetail, memberCount)
+		group.Members = make([]MemberDetail, arrayLength(int(memberCount), payload[offset:]))
 
 		for i := range group.Members {
 			l = int(binary.BigEndian.Uint16(payload[offset:]))
@@ -109,13 +109,13 @@ func NewDescribeGroupsResponse(payload []byte) (r DescribeGroupsResponse, err er
 
 			l = int(binary.BigEndian.Uint32(payload[offset:]))
 			offset += 4
-			group.Members[i].MemberMetadata = make([]byte, l)
+			group.Members[i].MemberMetadata = make([]byte, arrayLength(int(l), payload[offset:]))
 			copy(group.Members[i].MemberMetadata, payload[offset:offset+l])
 			offset += l
 
 			l = int(binary.BigEndian.Uint32(payload[offset:]))
 			offset += 4
-			group.Members[i].RawMemberAssignment = make([]byte, l)
+			group.Members[i].RawMemberAssignment = make([]byte, arrayLength(int(l), payload[offset:]))
 			copy(group.Members[i].RawMemberAssignment, payload[offset:offset+l])
 			offset += l
 
diff --git a/describe_logdirs_response.go b/describe_logdirs_response.go
index 286f1ad..6a5651c 100644
--- a/describe_logdirs_response.go
+++ b/describe_logdirs_response.go
@@ -50,7 +50,7 @@ func decodeToDescribeLogDirsResponseTopic(payload []byte, version uint16) (r Des
 		err = fmt.Errorf("describe_logdirs response numPartitions < 0: %d", numPartitions)
 		return
 	} else {
-		r.Partitions = make([]DescribeLogDirsResponsePartition, numPartitions)
+		r.Partitions = make([]DescribeLogDirsResponsePartition, arrayLength(int(numPartitions), payload[offset:]))
 	}
 
 	var o int
@@ -112,7 +112,7 @@ func NewDescribeLogDirsResponse(payload []byte, version uint16) (r DescribeLogDi
 	} else if numResults < 0 {
 		return r, fmt.Errorf("describe_logdirs response numResults < 0: %d", numResults)
 	} else {
-		r.Results = make([]DescribeLogDirsResponseResult, numResults)
+		r.Results = make([]DescribeLogDirsResponseResult, arrayLength(int(numResults), payload[offset:]))
 	}
 
 	for i := 0; i < numResults; i++ {
@@ -135,7 +135,7 @@ func NewDescribeLogDirsResponse(payload []byte, version uint16) (r DescribeLogDi
 		} else if numTopics < 0 {
 			return r, fmt.Errorf("describe_logdirs response numTopics < 0: %d", numTopics)
 		} else {
-			r.Results[i].Topics = make([]DescribeLogDirsResponseTopic, numTopics)
+			r.Results[i].Topics = make([]DescribeLogDirsResponseTopic, arrayLength(int(numTopics), payload[offset:]))
 		}
 
 		var o int
diff --git a/desscribe_acls_response.go b/desscribe_acls_response.go
index 6daf381..e35a63d 100644
--- a/desscribe_acls_response.go
+++ b/desscribe_acls_response.go
@@ -91,7 +91,7 @@ func NewDescribeAclsResponse(payload []byte, version uint16) (response DescribeA
 	if resourceCount == -1 {
 		response.Resources = nil
 	} else {
-		response.Resources = make([]AclResource, resourceCount)
+		response.Resources = make([]AclResource, arrayLength(int(resourceCount), payload[offset:]))
 	}
 
 	for i := 0; i < len(response.Resources); i++ {
@@ -126,7 +126,7 @@ func NewDescribeAclsResponse(payload []byte, version uint16) (response DescribeA
 			aclCount = uint32(c)
 			offset += o
 		}
-		response.Resources[i].Acls = make([]Acl, aclCount)
+		response.Resources[i].Acls = make([]Acl, arrayLength(int(aclCount), payload[offset:]))
 
 		for j := uint32(0); j < aclCount; j++ {
 			if version <= 1 {
diff --git a/elect_leaders_response.go b/elect_leaders_response.go
index 445882a..89e11a1 100644
--- a/elect_leaders_response.go
+++ b/elect_leaders_response.go
@@ -38,7 +38,7 @@ func newReplicaElectionResult(payload []byte, offset int, version uint16) (r *Re
 
 	numPartitionResults := binary.BigEndian.Uint32(payload[offset:])
 	offset += 4
-	r.PartitionResults = make([]*PartitionResult, numPartitionResults)
+	r.PartitionResults = make([]*PartitionResult, arrayLength(int(numPartitionResults), payload[offset:]))
 	for i := range r.PartitionResults {
 		r.PartitionResults[i], offset = newPartitionResult(payload, offset, version)
 	}
@@ -88,7 +88,7 @@ func NewElectLeadersResponse(payload []byte, version uint16) (r *ElectLeadersRes
 	numReplicaElectionResults := binary.BigEndian.Uint32(payload[offset:])
 	offset += 4
 
-	r.ReplicaElectionResults = make([]*ReplicaElectionResult, numReplicaElectionResults)
+	r.ReplicaElectionResults = make([]*ReplicaElectionResult, arrayLength(int(numReplicaElectionResults), payload[offset:]))
 	for i := range r.ReplicaElectionResults {
 		r.ReplicaElectionResults[i], offset = newReplicaElectionResult(payload, offset, version)
 	}
diff --git a/fetch_response.go b/fetch_response.go
index 1192907..6b3c575 100644
--- a/fetch_response.go
+++ b/fetch_response.go
@@ -390,6 +390,9 @@ func (streamDecoder *fetchResponseStreamDecoder) decodePartitionResponse(topicNa
 			return err
 		}
 		abortedTransactionsCount := int32(binary.BigEndian.Uint32(buf))
+		if int(abortedTransactionsCount) > (streamDecoder.totalLength-streamDecoder.offset)/16 {
+			return errMalformedPayload
+		}
 		if abortedTransactionsCount > 0 {
 			p.AbortedTransactions = make([]struct {
 				ProducerID  int64
diff --git a/group.go b/group.go
index 87debf1..40c20fc 100644
--- a/group.go
+++ b/group.go
@@ -54,11 +54,13 @@ func (memberAssignment *MemberAssignment) Encode() []byte {
 	return payload
 }
 
-func NewMemberAssignment(payload []byte) (*MemberAssignment, error) {
+func NewMemberAssignment(payload []byte) (r *MemberAssignment, err error) {
+	defer recoverMalformed(&err)
+
 	if len(payload) == 0 {
 		return nil, &emptyPayload
 	}
-	r := &MemberAssignment{}
+	r = &MemberAssignment{}
 	var (
 		offset int   = 0
 		count  int32 = 0
@@ -69,7 +71,7 @@ func NewMemberAssignment(payload []byte) (*MemberAssignment, error) {
 
 	count = int32(binary.BigEndian.Uint32(payload[offset:]))
 	offset += 4
-	r.PartitionAssignments = make([]*PartitionAssignment, count)
+	r.PartitionAssignments = make([]*PartitionAssignment, arrayLength(int(count), payload[offset:]))
 
 	for i := 0; i < int(count); i++ {
 		r.PartitionAssignments[i] = &PartitionAssignment{}
@@ -80,7 +82,7 @@ func NewMemberAssignment(payload []byte) (*MemberAssignment, error) {
 
 		count := int(binary.BigEndian.Uint32(payload[offset:]))
 		offset += 4
-		r.PartitionAssignments[i].Partitions = make([]int32, count)
+		r.PartitionAssignments[i].Partitions = make([]int32, arrayLength(int(count), payload[offset:]))
 		for j := 0; j < count; j++ {
 			p := int32(binary.BigEndian.Uint32(payload[offset:]))
 			offset += 4
@@ -93,7 +95,7 @@ func NewMemberAssignment(payload []byte) (*MemberAssignment, error) {
 		return r, nil
 	}
 	offset += 4
-	r.UserData = make([]byte, count)
+	r.UserData = make([]byte, arrayLength(int(count), payload[offset:]))
 	copy(r.UserData, payload[offset:])
 
 	return r, nil
@@ -145,16 +147,23 @@ func (m *ProtocolMetadata) Encode() []byte {
 	return payload
 }
 
-func NewProtocolMetadata(payload []byte) *ProtocolMetadata {
-	var (
-		p      = &ProtocolMetadata{}
-		offset = 0
-	)
+func NewProtocolMetadata(payload []byte) (p *ProtocolMetadata) {
+	p = &ProtocolMetadata{}
+	offset := 0
+
+	// it comes from another member of the group, which may not be a healer. It has no subscription if it could not be decoded
+	defer func() {
+		if e := recover(); e != nil {
+			logger.Error(errMalformedPayload, "failed to decode protocol metadata", "reason", e)
+			p.Subscription = nil
+		}
+	}()
+
 	p.Version = binary.BigEndian.Uint16(payload[offset:])
 	offset += 2
 	SubscriptionCount := binary.BigEndian.Uint32(payload[offset:])
 	offset += 4
-	p.Subscription = make([]string, SubscriptionCount)
+	p.Subscription = make([]string, arrayLength(int(SubscriptionCount), payload[offset:]))
 	for i := range p.Subscription {
 		l := int(binary.BigEndian.Uint16(payload[offset:]))
 		offset += 2
@@ -165,7 +174,7 @@ func NewProtocolMetadata(payload []byte) *ProtocolMetadata {
 	offset += 4
 
 	if l != -1 {
-		p.UserData = make([]byte, int(l))
+		p.UserData = make([]byte, arrayLength(int(l), payload[offset:]))
 		copy(p.UserData, payload[offset:offset+int(l)])
 	}
 
diff --git a/incremental_alter_config_response.go b/incremental_alter_config_response.go
index 2defbb8..5346d43 100644
--- a/incremental_alter_config_response.go
+++ b/incremental_alter_config_response.go
@@ -74,7 +74,7 @@ func NewIncrementalAlterConfigsResponse(payload []byte, version uint16) (r Incre
 	count := binary.BigEndian.Uint32(payload[offset:])
 	offset += 4
 
-	r.Resources = make([]IncrementalAlterConfigsResponseResource, count)
+	r.Resources = make([]IncrementalAlterConfigsResponseResource, arrayLength(int(count), payload[offset:]))
 	for i := range r.Resources {
 		e, o := decodeToIncrementalAlterConfigsResponseResource(payload[offset:], version)
 		offset += o
diff --git a/joingroup_response.go b/joingroup_response.go
index 3973d70..d3a276d 100644
--- a/joingroup_response.go
+++ b/joingroup_response.go
@@ -84,7 +84,7 @@ func NewJoinGroupResponse(payload []byte) (r JoinGroupResponse, err error) {
 
 	membersLength := int(binary.BigEndian.Uint32(payload[offset:]))
 	offset += 4
-	r.Members = make([]Member, membersLength)
+	r.Members = make([]Member, arrayLength(int(membersLength), payload[offset:]))
 	for i := range membersLength {
 		l := int(binary.BigEndian.Uint16(payload[offset:]))
 		offset += 2
@@ -93,7 +93,7 @@ func NewJoinGroupResponse(payload []byte) (r JoinGroupResponse, err error) {
 
 		ll := int(binary.BigEndian.Uint32(payload[offset:]))
 		offset += 4
-		r.Members[i].MemberMetadata = make([]byte, ll)
+		r.Members[i].MemberMetadata = make([]byte, arrayLength(int(ll), payload[offset:]))
 		copy(r.Members[i].MemberMetadata, payload[offset:offset+ll])
 		offset += ll
 	}
diff --git a/list_groups_response.go b/list_groups_response.go
index 5c03adb..d3d6f66 100644
--- a/list_groups_response.go
+++ b/list_groups_response.go
@@ -120,7 +120,7 @@ func NewListGroupsResponse(payload []byte, version uint16) (r *ListGroupsRespons
 		offset += 4
 	}
 	if groupCount >= 0 {
-		r.Groups = make([]*Group, groupCount)
+		r.Groups = make([]*Group, arrayLength(int(groupCount), payload[offset:]))
 		for i := int32(0); i < groupCount; i++ {
 			r.Groups[i], o = decodeToGroup(payload[offset:], version, r.IsFlexible())
 			offset += o
diff --git a/list_partition_reassignments_response.go b/list_partition_reassignments_response.go
index 6c560cb..65de394 100644
--- a/list_partition_reassignments_response.go
+++ b/list_partition_reassignments_response.go
@@ -30,7 +30,7 @@ func decodeToListPartitionReassignmentsTopicBlock(payload []byte) (r listPartiti
 	partitionCount, o := compactArrayLength(payload[offset:])
 	offset += o
 	if partitionCount > 0 {
-		r.Partitions = make([]listPartitionReassignmentsPartitionBlock, partitionCount)
+		r.Partitions = make([]listPartitionReassignmentsPartitionBlock, arrayLength(int(partitionCount), payload[offset:]))
 		for i := int32(0); i < partitionCount; i++ {
 			r.Partitions[i], o = decodeToListPartitionReassignmentsPartitionBlock(payload[offset:])
 			offset += o
@@ -59,7 +59,7 @@ func decodeToListPartitionReassignmentsPartitionBlock(payload []byte) (r listPar
 	offset += o
 
 	if replicaCount > 0 {
-		r.Replicas = make([]int32, replicaCount)
+		r.Replicas = make([]int32, arrayLength(int(replicaCount), payload[offset:]))
 		for i := int32(0); i < replicaCount; i++ {
 			r.Replicas[i] = int32(binary.BigEndian.Uint32(payload[offset:]))
 			offset += 4
@@ -69,7 +69,7 @@ func decodeToListPartitionReassignmentsPartitionBlock(payload []byte) (r listPar
 	addingReplicaCount, o := compactArrayLength(payload[offset:])
 	offset += o
 	if addingReplicaCount > 0 {
-		r.AddingReplicas = make([]int32, addingReplicaCount)
+		r.AddingReplicas = make([]int32, arrayLength(int(addingReplicaCount), payload[offset:]))
 		for i := int32(0); i < addingReplicaCount; i++ {
 			r.AddingReplicas[i] = int32(binary.BigEndian.Uint32(payload[offset:]))
 			offset += 4
@@ -79,7 +79,7 @@ func decodeToListPartitionReassignmentsPartitionBlock(payload []byte) (r listPar
 	removingReplicaCount, o := compactArrayLength(payload[offset:])
 	offset += o
 	if removingReplicaCount > 0 {
-		r.RemovingReplicas = make([]int32, removingReplicaCount)
+		r.RemovingReplicas = make([]int32, arrayLength(int(removingReplicaCount), payload[offset:]))
 		for i := int32(0); i < removingReplicaCount; i++ {
 			r.RemovingReplicas[i] = int32(binary.BigEndian.Uint32(payload[offset:]))
 			offset += 4
@@ -124,7 +124,7 @@ func NewListPartitionReassignmentsResponse(payload []byte, version uint16) (r *L
 	offset += o
 
 	if topicCount > 0 {
-		r.Topics = make([]listPartitionReassignmentsTopicBlock, topicCount)
+		r.Topics = make([]listPartitionReassignmentsTopicBlock, arrayLength(int(topicCount), payload[offset:]))
 
 		for i := int32(0); i < topicCount; i++ {
 			r.Topics[i], o = decodeToListPartitionReassignmentsTopicBlock(payload[offset:])
diff --git a/metadata_response.go b/metadata_response.go
index 976ce73..bb9c70b 100644
--- a/metadata_response.go
+++ b/metadata_response.go
@@ -87,7 +87,7 @@ func decodeToTopicMetadata(payload []byte, version uint16) (tm TopicMetadata, of
 
 	partitionMetadataInfoCount := uint32(binary.BigEndian.Uint32(payload[offset:]))
 	offset += 4
-	tm.PartitionMetadatas = make([]*PartitionMetadataInfo, partitionMetadataInfoCount)
+	tm.PartitionMetadatas = make([]*PartitionMetadataInfo, arrayLength(int(partitionMetadataInfoCount), payload[offset:]))
 	for j := uint32(0); j < partitionMetadataInfoCount; j++ {
 		p, o := decodeToPartitionMetadataInfo(payload[offset:], version)
 		tm.PartitionMetadatas[j] = &p
@@ -120,14 +120,14 @@ func decodeToPartitionMetadataInfo(payload []byte, version uint16) (p PartitionM
 	}
 	replicasCount := uint32(binary.BigEndian.Uint32(payload[offset:]))
 	offset += 4
-	p.Replicas = make([]int32, replicasCount)
+	p.Replicas = make([]int32, arrayLength(int(replicasCount), payload[offset:]))
 	for k := uint32(0); k < replicasCount; k++ {
 		p.Replicas[k] = int32(binary.BigEndian.Uint32(payload[offset:]))
 		offset += 4
 	}
 	isrCount := uint32(binary.BigEndian.Uint32(payload[offset:]))
 	offset += 4
-	p.Isr = make([]int32, isrCount)
+	p.Isr = make([]int32, arrayLength(int(isrCount), payload[offset:]))
 	for k := uint32(0); k < isrCount; k++ {
 		p.Isr[k] = int32(binary.BigEndian.Uint32(payload[offset:]))
 		offset += 4
@@ -136,7 +136,7 @@ func decodeToPartitionMetadataInfo(payload []byte, version uint16) (p PartitionM
 	if version >= 7 {
 		count := binary.BigEndian.Uint32(payload[offset:])
 		offset += 4
-		p.OfflineReplicas = make([]int32, count)
+		p.OfflineReplicas = make([]int32, arrayLength(int(count), payload[offset:]))
 		for k := uint32(0); k < count; k++ {
 			p.OfflineReplicas[k] = int32(binary.BigEndian.Uint32(payload[offset:]))
 			offset += 4
@@ -168,7 +168,7 @@ func NewMetadataResponse(payload []byte, version uint16) (r MetadataResponse, er
 	// Encode Brokers
 	brokersCount := int(binary.BigEndian.Uint32(payload[offset:]))
 	offset += 4
-	r.Brokers = make([]*BrokerInfo, brokersCount)
+	r.Brokers = make([]*BrokerInfo, arrayLength(int(brokersCount), payload[offset:]))
 	for i := 0; i < brokersCount; i++ {
 		b, o := decodeToBrokerInfo(payload[offset:], 0)
 		r.Brokers[i] = &b
@@ -189,7 +189,7 @@ func NewMetadataResponse(payload []byte, version uint16) (r MetadataResponse, er
 	// Encode TopicMetadatas
 	topicMetadatasCount := uint32(binary.BigEndian.Uint32(payload[offset:]))
 	offset += 4
-	r.TopicMetadatas = make([]TopicMetadata, topicMetadatasCount)
+	r.TopicMetadatas = make([]TopicMetadata, arrayLength(int(topicMetadatasCount), payload[offset:]))
 	for i := uint32(0); i < topicMetadatasCount; i++ {
 		tm, o := decodeToTopicMetadata(payload[offset:], version)
 		r.TopicMetadatas[i] = tm
diff --git a/offset_commit_response.go b/offset_commit_response.go
index 61c8fb8..5fe6ee6 100644
--- a/offset_commit_response.go
+++ b/offset_commit_response.go
@@ -54,7 +54,7 @@ func NewOffsetCommitResponse(payload []byte) (r OffsetCommitResponse, err error)
 
 	l = int(binary.BigEndian.Uint32(payload[offset:]))
 	offset += 4
-	r.Topics = make([]*OffsetCommitResponseTopic, l)
+	r.Topics = make([]*OffsetCommitResponseTopic, arrayLength(int(l), payload[offset:]))
 	for i := range r.Topics {
 		topic := &OffsetCommitResponseTopic{}
 		r.Topics[i] = topic
@@ -66,7 +66,7 @@ func NewOffsetCommitResponse(payload []byte) (r OffsetCommitResponse, err error)
 
 		l = int(binary.BigEndian.Uint32(payload[offset:]))
 		offset += 4
-		topic.Partitions = make([]*OffsetCommitResponsePartition, l)
+		topic.Partitions = make([]*OffsetCommitResponsePartition, arrayLength(int(l), payload[offset:]))
 		for j := range topic.Partitions {
 			p := &OffsetCommitResponsePartition{}
 			topic.Partitions[j] = p
diff --git a/offset_fetch_response.go b/offset_fetch_response.go
index e554243..a40c4b2 100644
--- a/offset_fetch_response.go
+++ b/offset_fetch_response.go
@@ -51,7 +51,7 @@ func NewOffsetFetchResponse(payload []byte) (r OffsetFetchResponse, err error) {
 
 	l = int(binary.BigEndian.Uint32(payload[offset:]))
 	offset += 4
-	r.Topics = make([]*OffsetFetchResponseTopic, l)
+	r.Topics = make([]*OffsetFetchResponseTopic, arrayLength(int(l), payload[offset:]))
 	for i := range r.Topics {
 		topic := &OffsetFetchResponseTopic{}
 		r.Topics[i] = topic
@@ -63,7 +63,7 @@ func NewOffsetFetchResponse(payload []byte) (r OffsetFetchResponse, err error) {
 
 		l = int(binary.BigEndian.Uint32(payload[offset:]))
 		offset += 4
-		topic.Partitions = make([]*OffsetFetchResponsePartition, l)
+		topic.Partitions = make([]*OffsetFetchResponsePartition, arrayLength(int(l), payload[offset:]))
 		for j := range topic.Partitions {
 			p := &OffsetFetchResponsePartition{}
 			topic.Partitions[j] = p
diff --git a/offset_response.go b/offset_response.go
index 0c5bc39..69d344e 100644
--- a/offset_response.go
+++ b/offset_response.go
@@ -18,10 +18,7 @@ func (p *PartitionOffset) GetOffset() int64 {
 	if len(p.OldStyleOffsets) == 0 {
 		return p.Offset
 	}
-	if len(p.OldStyleOffsets) == 1 {
-		return p.OldStyleOffsets[0]
-	}
-	panic("more than one old style offset found in offset response")
+	return p.OldStyleOffsets[0]
 }
 
 type OffsetsResponse struct {
@@ -68,7 +65,7 @@ func NewOffsetsResponse(payload []byte, version uint16) (r OffsetsResponse, err
 
 		partitionOffsetLength := binary.BigEndian.Uint32(payload[offset:])
 		offset += 4
-		r.TopicPartitionOffsets[topicName] = make([]PartitionOffset, partitionOffsetLength)
+		r.TopicPartitionOffsets[topicName] = make([]PartitionOffset, arrayLength(int(partitionOffsetLength), payload[offset:]))
 		for j := uint32(0); j < partitionOffsetLength; j++ {
 			p := PartitionOffset{}
 
diff --git a/primitive_types_decode.go b/primitive_types_decode.go
index b712328..05307db 100644
--- a/primitive_types_decode.go
+++ b/primitive_types_decode.go
@@ -1,6 +1,10 @@
 package healer
 
-import "encoding/binary"
+import (
+	"encoding/binary"
+	"errors"
+	"fmt"
+)
 
 /***
 https://kafka.apache.org/protocol#protocol_types
@@ -8,6 +12,25 @@ some types, such as boolean or int32, are easy to be decoded. I don't write them
 I only write the types that are not easy to be decoded, including COMPACT_STRING and COMPACT_BYTES etc.
 ***/
 
+var errMalformedPayload = errors.New("malformed payload")
+
+// arrayLength returns the count of the elements (or bytes) which follow. It panics if the rest of the payload, left,
+// could not hold so many elements, as decoding them would do, before memory is allocated for them.
+func arrayLength(count int, left []byte) int {
+	if count < 0 || count > len(left) {
+		panic(errMalformedPayload)
+	}
+	return count
+}
+
+// recoverMalformed is deferred by the functions which decode payloads from brokers.
+// it changes the panic caused by a truncated or malformed payload to an error.
+func recoverMalformed(err *error) {
+	if e := recover(); e != nil {
+		*err = fmt.Errorf("%w: %v", errMalformedPayload, e)
+	}
+}
+
 func nonnullableString(payload []byte) (r string, offset int) {
 	l := int(binary.BigEndian.Uint16(payload[offset:]))
 	offset += 2
@@ -81,11 +104,10 @@ func nullableBytes(payload []byte) (r []byte, offset int) {
 // Then N bytes follow. A null object is represented with a length of 0.
 func compactNullableBytes(payload []byte) (r []byte, offset int) {
 	length, o := binary.Uvarint(payload)
-	length--
-
 	if length == 0 {
 		return nil, o
 	}
+	length--
 	r = payload[o : o+int(length)]
 	return r, o + int(length)
 }
diff --git a/produce_response.go b/produce_response.go
index 74f298a..839c46f 100644
--- a/produce_response.go
+++ b/produce_response.go
@@ -63,11 +63,11 @@ func (p *produceResponseP) decode(payload []byte, version uint16, isFlexible boo
 	if version >= tags["RecordErrors"] {
 		if isFlexible {
 			count, o := compactArrayLength(payload[offset:])
-			p.RecordErrors = make([]produceResponseRecordErrors, count)
+			p.RecordErrors = make([]produceResponseRecordErrors, arrayLength(int(count), payload[offset:]))
 			offset += o
 		} else {
 			count := binary.BigEndian.Uint32(payload[offset:])
-			p.RecordErrors = make([]produceResponseRecordErrors, count)
+			p.RecordErrors = make([]produceResponseRecordErrors, arrayLength(int(count), payload[offset:]))
 			offset += 4
 		}
 
@@ -124,12 +124,12 @@ func (t *produceResponseT) decode(payload []byte, version uint16, isFlexible boo
 
 	if isFlexible {
 		count, o := compactArrayLength(payload[offset:])
-		t.Partitions = make([]produceResponseP, count)
+		t.Partitions = make([]produceResponseP, arrayLength(int(count), payload[offset:]))
 		offset += o
 	} else {
 		count := binary.BigEndian.Uint32(payload[offset:])
 		offset += 4
-		t.Partitions = make([]produceResponseP, count)
+		t.Partitions = make([]produceResponseP, arrayLength(int(count), payload[offset:]))
 	}
 	for j := range t.Partitions {
 		p := &t.Partitions[j]
@@ -181,12 +181,12 @@ func NewProduceResponse(payload []byte, version uint16) (r ProduceResponse, err
 
 	if isFlexible {
 		produceResponseTCount, o := compactArrayLength(payload[offset:])
-		r.ProduceResponses = make([]produceResponseT, produceResponseTCount)
+		r.ProduceResponses = make([]produceResponseT, arrayLength(int(produceResponseTCount), payload[offset:]))
 		offset += o
 	} else {
 		produceResponseP := int(binary.BigEndian.Uint32(payload[offset:]))
 		offset += 4
-		r.ProduceResponses = make([]produceResponseT, produceResponseP)
+		r.ProduceResponses = make([]produceResponseT, arrayLength(int(produceResponseP), payload[offset:]))
 	}
 
 	for i := range r.ProduceResponses {
diff --git a/response.go b/response.go
index 08f2e45..543faf2 100644
--- a/response.go
+++ b/response.go
@@ -107,7 +107,9 @@ func (p defaultReadParser) Read() ([]byte, error) {
 	return resp, nil
 }
 
-func (p defaultReadParser) Parse(data []byte) (Response, error) {
+func (p defaultReadParser) Parse(data []byte) (resp Response, err error) {
+	defer recoverMalformed(&err)
+
 	switch p.api {
 	case API_Heartbeat:
 		return NewHeartbeatResponse(data)
diff --git a/sasl_authenticate_response.go b/sasl_authenticate_response.go
index 38779e8..8170b16 100644
--- a/sasl_authenticate_response.go
+++ b/sasl_authenticate_response.go
@@ -42,7 +42,7 @@ func NewSaslAuthenticateResponse(payload []byte) (r SaslAuthenticateResponse, er
 
 	l = int(binary.BigEndian.Uint32(payload[offset:]))
 	offset += 4
-	r.SaslAuthBytes = make([]byte, l)
+	r.SaslAuthBytes = make([]byte, arrayLength(int(l), payload[offset:]))
 	copy(r.SaslAuthBytes, payload[offset:])
 
 	return r, err
diff --git a/sasl_handshake_response.go b/sasl_handshake_response.go
index 97a3f2d..09fb713 100644
--- a/sasl_handshake_response.go
+++ b/sasl_handshake_response.go
@@ -41,7 +41,7 @@ func NewSaslHandshakeResponse(payload []byte) (r SaslHandshakeResponse, err erro
 	count := int(binary.BigEndian.Uint32(payload[offset:]))
 	offset += 4
 
-	r.EnabledMechanisms = make([]string, count)
+	r.EnabledMechanisms = make([]string, arrayLength(int(count), payload[offset:]))
 	for i := 0; i < count; i++ {
 		l := int(binary.BigEndian.Uint16(payload[offset:]))
 		offset += 2
diff --git a/sync_group_response.go b/sync_group_response.go
index 55407c6..19d3917 100644
--- a/sync_group_response.go
+++ b/sync_group_response.go
@@ -39,7 +39,7 @@ func NewSyncGroupResponse(payload []byte) (r SyncGroupResponse, err error) {
 
 	memberAssignmentLength := int(binary.BigEndian.Uint32(payload[offset:]))
 	offset += 4
-	r.MemberAssignment = make([]byte, memberAssignmentLength)
+	r.MemberAssignment = make([]byte, arrayLength(int(memberAssignmentLength), payload[offset:]))
 	copy(r.MemberAssignment, payload[offset:offset+memberAssignmentLength])
 	offset += memberAssignmentLength
 
diff --git a/tagged_fields.go b/tagged_fields.go
index f2a7e03..c48f493 100644
--- a/tagged_fields.go
+++ b/tagged_fields.go
@@ -47,6 +47,7 @@ func DecodeTaggedFields(payload []byte) (r TaggedFields, length int) {
 	offset := 0
 	taggedFieldsLength, n := binary.Uvarint(payload)
 	offset += n
+	arrayLength(int(taggedFieldsLength), payload[offset:])
 	for i := uint64(0); i < taggedFieldsLength; i++ {
 		tag, n := binary.Uvarint(payload[offset:])
 		offset += n
-- 
2.43.0


From df17c361d8b2c5fa393f8ee8f118d6cf40b978ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:38 +0000
Subject: [PATCH 35/54] fix: reset-offset fails if there is no offset at the
 timestamp

---
 command/healer/cmd/reset-offset.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/command/healer/cmd/reset-offset.go b/command/healer/cmd/reset-offset.go
index a1f1269..34fe66c 100644
--- a/command/healer/cmd/reset-offset.go
+++ b/command/healer/cmd/reset-offset.go
@@ -54,6 +54,12 @@ var resetOffsetCmd = &cobra.Command{
 				for _, partitionOffset := range partitionOffsets {
 					partition := partitionOffset.Partition
 					offsets[partition] = partitionOffset.GetOffset()
+					if _, ok := userCustomPartitions[partition]; !ok && len(userCustomPartitions) > 0 {
+						continue
+					}
+					if offsets[partition] < 0 {
+						return fmt.Errorf("no offset of %s[%d] at timestamp %d", topic, partition, timestamp)
+					}
 				}
 			}
 		}
-- 
2.43.0


From c13c44718c4364945d88477d1aed05df63124aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:41 +0000
Subject: [PATCH 36/54] fix: get-pending takes all characters of the group
 pattern except * literally

---
 command/healer/cmd/get-pending.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/command/healer/cmd/get-pending.go b/command/healer/cmd/get-pending.go
index d3b1093..730a485 100644
--- a/command/healer/cmd/get-pending.go
+++ b/command/healer/cmd/get-pending.go
@@ -158,8 +158,7 @@ func getGroups(groupID string) []string {
 		return []string{groupID}
 	}
 
-	var p string = strings.Replace(groupID, ".", `\.`, -1)
-	p = strings.Replace(p, "*", ".*", -1)
+	p := strings.Replace(regexp.QuoteMeta(groupID), `\*`, ".*", -1)
 	var groupPattern *regexp.Regexp = regexp.MustCompile("^" + p + "$")
 
 	var (
-- 
2.43.0


From c029ea1dbc40fbe27a74a4cbbae862ad95d98b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:14 +0000
Subject: [PATCH 37/54] fix: the pending api returns an error if it could not
 get the offsets

---
 command/healer/cmd/apicontrollers/group.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/command/healer/cmd/apicontrollers/group.go b/command/healer/cmd/apicontrollers/group.go
index 5023fd3..74fa306 100644
--- a/command/healer/cmd/apicontrollers/group.go
+++ b/command/healer/cmd/apicontrollers/group.go
@@ -169,7 +169,8 @@ func GetPending(c *gin.Context, client string) {
 
 	offsets, err := getOffset(bs, topicName, client)
 	if err != nil {
-		klog.Errorf("get offsets error: %s", err)
+		c.String(http.StatusInternalServerError, err.Error())
+		return
 	}
 
 	partitions, err := getPartitions(bs, topicName, client)
-- 
2.43.0


From 6c4237f4f311db12df5bd3fc83ea9560f2cc44da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:17 +0000
Subject: [PATCH 38/54] fix: healer api fails if it could not listen

---
 command/healer/cmd/api.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/command/healer/cmd/api.go b/command/healer/cmd/api.go
index 38cdb70..fd7761a 100644
--- a/command/healer/cmd/api.go
+++ b/command/healer/cmd/api.go
@@ -160,8 +160,7 @@ var apiCmd = &cobra.Command{
 		router.POST("/create-acls", wrap(apicontrollers.CreateAcls, client))
 		router.DELETE("/delete-acls", wrap(apicontrollers.DeleteAcls, client))
 
-		router.Run(fullAddress)
-		return nil
+		return router.Run(fullAddress)
 	},
 }
 
-- 
2.43.0


From 7e632348b94edad09d82ce4282996a6a68002add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:02 +0000
Subject: [PATCH 39/54] fix: the acl commands refuse what they cannot parse and
 take the resource name literally

---
 command/healer/cmd/create-acls.go   | 18 ++++++++++++------
 command/healer/cmd/delete-acls.go   | 18 ++++++++++++------
 command/healer/cmd/describe-acls.go | 18 ++++++++++++------
 3 files changed, 36 insertions(+), 18 deletions(-)

diff --git a/command/healer/cmd/create-acls.go b/command/healer/cmd/create-acls.go
index 821f007..e181a4b 100644
--- a/command/healer/cmd/create-acls.go
+++ b/command/healer/cmd/create-acls.go
@@ -31,17 +31,19 @@ var createAclsCmd = &cobra.Command{
 		aclCreation := healer.AclCreation{}
 
 		resourcetype, _ := cmd.Flags().GetString("resourcetype")
-		json.Unmarshal([]byte(`"`+resourcetype+`"`), &aclCreation.ResourceType)
+		if err := aclCreation.ResourceType.UnmarshalText([]byte(resourcetype)); err != nil {
+			return err
+		}
 
 		if cmd.Flags().Changed("resource") {
 			resource, _ := cmd.Flags().GetString("resource")
-			json.Unmarshal([]byte(`"`+resource+`"`), &aclCreation.ResourceName)
+			aclCreation.ResourceName = resource
 		}
 
 		if resourcepatterntype, err := cmd.Flags().GetString("patterntype"); err != nil {
 			return err
-		} else {
-			json.Unmarshal([]byte(`"`+resourcepatterntype+`"`), &aclCreation.PatternType)
+		} else if err := aclCreation.PatternType.UnmarshalText([]byte(resourcepatterntype)); err != nil {
+			return err
 		}
 
 		if aclCreation.Principal, err = cmd.Flags().GetString("principal"); err != nil {
@@ -53,10 +55,14 @@ var createAclsCmd = &cobra.Command{
 		}
 
 		operation, _ := cmd.Flags().GetString("operation")
-		json.Unmarshal([]byte(`"`+operation+`"`), &aclCreation.Operation)
+		if err := aclCreation.Operation.UnmarshalText([]byte(operation)); err != nil {
+			return err
+		}
 
 		permissiontype, _ := cmd.Flags().GetString("permissiontype")
-		json.Unmarshal([]byte(`"`+permissiontype+`"`), &aclCreation.PermissionType)
+		if err := aclCreation.PermissionType.UnmarshalText([]byte(permissiontype)); err != nil {
+			return err
+		}
 
 		responses, err := admin.CreateAcls([]healer.AclCreation{aclCreation})
 		if err != nil {
diff --git a/command/healer/cmd/delete-acls.go b/command/healer/cmd/delete-acls.go
index f8409c7..8ef555b 100644
--- a/command/healer/cmd/delete-acls.go
+++ b/command/healer/cmd/delete-acls.go
@@ -32,17 +32,19 @@ var deleteAclsCmd = &cobra.Command{
 
 		// 处理所有标志
 		resourcetype, _ := cmd.Flags().GetString("resourcetype")
-		json.Unmarshal([]byte(`"`+resourcetype+`"`), &f.ResourceType)
+		if err := f.ResourceType.UnmarshalText([]byte(resourcetype)); err != nil {
+			return err
+		}
 
 		if cmd.Flags().Changed("resource") {
 			resource, _ := cmd.Flags().GetString("resource")
-			json.Unmarshal([]byte(`"`+resource+`"`), &f.ResourceName)
+			f.ResourceName = &resource
 		}
 
 		if resourcepatterntype, err := cmd.Flags().GetString("patterntype"); err != nil {
 			return err
-		} else {
-			json.Unmarshal([]byte(`"`+resourcepatterntype+`"`), &f.PatternType)
+		} else if err := f.PatternType.UnmarshalText([]byte(resourcepatterntype)); err != nil {
+			return err
 		}
 
 		if !cmd.Flags().Changed("principal") {
@@ -66,10 +68,14 @@ var deleteAclsCmd = &cobra.Command{
 		}
 
 		operation, _ := cmd.Flags().GetString("operation")
-		json.Unmarshal([]byte(`"`+operation+`"`), &f.Operation)
+		if err := f.Operation.UnmarshalText([]byte(operation)); err != nil {
+			return err
+		}
 
 		permissiontype, _ := cmd.Flags().GetString("permissiontype")
-		json.Unmarshal([]byte(`"`+permissiontype+`"`), &f.PermissionType)
+		if err := f.PermissionType.UnmarshalText([]byte(permissiontype)); err != nil {
+			return err
+		}
 
 		responses, err := admin.DeleteAcls([]*healer.DeleteAclsFilter{f})
 		if err != nil {
diff --git a/command/healer/cmd/describe-acls.go b/command/healer/cmd/describe-acls.go
index 1a9113b..7b2799c 100644
--- a/command/healer/cmd/describe-acls.go
+++ b/command/healer/cmd/describe-acls.go
@@ -32,17 +32,19 @@ var describeAclsCmd = &cobra.Command{
 
 		// 处理所有标志
 		resourcetype, _ := cmd.Flags().GetString("resourcetype")
-		json.Unmarshal([]byte(`"`+resourcetype+`"`), &req.ResourceType)
+		if err := req.ResourceType.UnmarshalText([]byte(resourcetype)); err != nil {
+			return err
+		}
 
 		if cmd.Flags().Changed("resource") {
 			resource, _ := cmd.Flags().GetString("resource")
-			json.Unmarshal([]byte(`"`+resource+`"`), &req.ResourceName)
+			req.ResourceName = &resource
 		}
 
 		if resourcepatterntype, err := cmd.Flags().GetString("patterntype"); err != nil {
 			return err
-		} else {
-			json.Unmarshal([]byte(`"`+resourcepatterntype+`"`), &req.PatternType)
+		} else if err := req.PatternType.UnmarshalText([]byte(resourcepatterntype)); err != nil {
+			return err
 		}
 
 		if !cmd.Flags().Changed("principal") {
@@ -66,10 +68,14 @@ var describeAclsCmd = &cobra.Command{
 		}
 
 		operation, _ := cmd.Flags().GetString("operation")
-		json.Unmarshal([]byte(`"`+operation+`"`), &req.Operation)
+		if err := req.Operation.UnmarshalText([]byte(operation)); err != nil {
+			return err
+		}
 
 		permissiontype, _ := cmd.Flags().GetString("permissiontype")
-		json.Unmarshal([]byte(`"`+permissiontype+`"`), &req.PermissionType)
+		if err := req.PermissionType.UnmarshalText([]byte(permissiontype)); err != nil {
+			return err
+		}
 
 		responses, err := admin.DescribeAcls(req)
 		if err != nil {
-- 
2.43.0


From a689c74bbf35bccfb4f6d887e014febf352abc6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:07 +0000
Subject: [PATCH 40/54] fix: acl operations are parsed as the commands document
 them

---
 acl_types.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/acl_types.go b/acl_types.go
index 65aa854..2a0644d 100644
--- a/acl_types.go
+++ b/acl_types.go
@@ -182,7 +182,7 @@ func (o AclsOperation) MarshalText() ([]byte, error) {
 func (o *AclsOperation) UnmarshalText(text []byte) error {
 	switch strings.ToUpper(string(text)) {
 	case "UNKNOWN", "0":
-		*o = AclsOperationAny
+		*o = AclsOperationUnknown
 	case "ANY", "1":
 		*o = AclsOperationAny
 	case "ALL", "2":
@@ -199,13 +199,13 @@ func (o *AclsOperation) UnmarshalText(text []byte) error {
 		*o = AclsOperationAlter
 	case "DESCRIBE", "8":
 		*o = AclsOperationDescribe
-	case "CLUSTER_ACTION", "9":
+	case "CLUSTER_ACTION", "CLUSTERACTION", "9":
 		*o = AclsOperationClusterAction
-	case "DESCRIBE_CONFIGS", "10":
+	case "DESCRIBE_CONFIGS", "DESCRIBECONFIGS", "10":
 		*o = AclsOperationDescribeConfigs
-	case "ALTER_CONFIGS", "11":
+	case "ALTER_CONFIGS", "ALTERCONFIGS", "11":
 		*o = AclsOperationAlterConfigs
-	case "IDEMPOTENT_WRITE", "12":
+	case "IDEMPOTENT_WRITE", "IDEMPOTENTWRITE", "12":
 		*o = AclsOperationIdempotentWrite
 	default:
 		return fmt.Errorf("unknown AclsOperation: %s", text)
@@ -245,7 +245,7 @@ func (p AclsPermissionType) MarshalText() ([]byte, error) {
 func (p *AclsPermissionType) UnmarshalText(text []byte) error {
 	switch strings.ToUpper(string(text)) {
 	case "UNKNOWN", "0":
-		*p = AclsPermissionTypeAny
+		*p = AclsPermissionTypeUnkown
 	case "ANY", "1":
 		*p = AclsPermissionTypeAny
 	case "DENY", "2":
-- 
2.43.0


From b5854b3bce0491329667e8a3bad79d512df1d797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:10 +0000
Subject: [PATCH 41/54] fix: create-partitions does not panic on an empty
 assignment

---
 command/healer/cmd/create-partitions.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/command/healer/cmd/create-partitions.go b/command/healer/cmd/create-partitions.go
index e2ac44f..58198f7 100644
--- a/command/healer/cmd/create-partitions.go
+++ b/command/healer/cmd/create-partitions.go
@@ -10,18 +10,19 @@ import (
 )
 
 func genPartitionAssignments(assignments string) (partitionAssignments [][]int32, err error) {
-	for i, brokerIDs := range strings.Split(assignments, ",") {
+	for _, brokerIDs := range strings.Split(assignments, ",") {
 		if brokerIDs == "" {
 			continue
 		}
-		partitionAssignments = append(partitionAssignments, []int32{})
+		replicas := []int32{}
 		for _, brokerID := range strings.Split(brokerIDs, ":") {
 			if _brokerID, err := strconv.Atoi(brokerID); err == nil {
-				partitionAssignments[i] = append(partitionAssignments[i], int32(_brokerID))
+				replicas = append(replicas, int32(_brokerID))
 			} else {
 				return nil, fmt.Errorf("failed to convert %s to int: %w", brokerID, err)
 			}
 		}
+		partitionAssignments = append(partitionAssignments, replicas)
 	}
 	return
 }
-- 
2.43.0


From 63cde74047e7c319c439364ba87939bc32326b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:16 +0000
Subject: [PATCH 42/54] fix: describe-logdirs without topics describes all
 topics

---
 client.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/client.go b/client.go
index 1bda0a3..019fa39 100644
--- a/client.go
+++ b/client.go
@@ -65,6 +65,10 @@ func (c *Client) ListGroups() (groups map[int32][]*Group, err error) {
 func (c *Client) DescribeLogDirs(topics []string) (map[int32]DescribeLogDirsResponse, error) {
 	c.logger.Info("describe logdirs", "topics", topics)
 
+	// nil asks for all topics, an empty list for none
+	if len(topics) == 0 {
+		topics = nil
+	}
 	meta, err := c.brokers.RequestMetaData(c.clientID, topics)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 8e99f2f536fa627fe6a17dd12883de6341aeb422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:31 +0000
Subject: [PATCH 43/54] fix: get-metadata fails if it could not get the
 metadata

---
 command/healer/cmd/get-metadata.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/command/healer/cmd/get-metadata.go b/command/healer/cmd/get-metadata.go
index 582f898..60860d0 100644
--- a/command/healer/cmd/get-metadata.go
+++ b/command/healer/cmd/get-metadata.go
@@ -30,6 +30,9 @@ var getMetadataCmd = &cobra.Command{
 		} else {
 			metadataResponse, err = brokers.RequestMetaData(client, topics)
 		}
+		if err != nil && len(metadataResponse.Brokers) == 0 {
+			return fmt.Errorf("failed to get metadata: %w", err)
+		}
 
 		switch format {
 		case "json":
-- 
2.43.0


From 85719913c942fa18b170dd24d901329ec4b16992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:32 +0000
Subject: [PATCH 44/54] fix: stopping a simple consumer does not wait for
 further periodic commits

---
 simple_consumer.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/simple_consumer.go b/simple_consumer.go
index 4ee452b..34eb7b3 100644
--- a/simple_consumer.go
+++ b/simple_consumer.go
@@ -449,7 +449,9 @@ func (c *SimpleConsumer) Consume(offset int64, messageChan chan *FullMessage) (<
 			for {
 				select {
 				case <-ticker.C:
-					c.CommitOffset()
+					if c.ctx.Err() == nil {
+						c.CommitOffset()
+					}
 				case <-c.ctx.Done():
 					<-loopDone // commit all that have been delivered
 					c.CommitOffset()
-- 
2.43.0


From e4cd798cf83d6aa30d96748c8ac88a27fe7660df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:40 +0000
Subject: [PATCH 45/54] fix: a metadata change during the first join does not
 join a second time concurrently

---
 group_consumer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/group_consumer.go b/group_consumer.go
index c9e44a1..6855e65 100644
--- a/group_consumer.go
+++ b/group_consumer.go
@@ -478,6 +478,10 @@ func (c *GroupConsumer) Consume(messages chan *FullMessage) (<-chan *FullMessage
 	}
 	c.messages = messages
 
+	// metadata changing must not restart the consumer while it joins for the first time
+	c.restartLocker.Lock()
+	defer c.restartLocker.Unlock()
+
 	// go heartbeat
 	ticker := time.NewTicker(time.Millisecond * time.Duration(c.config.SessionTimeoutMS) / 10)
 	go func() {
-- 
2.43.0


From ad2a6d4ca0d85239308678d8441179a441a27a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:01 +0000
Subject: [PATCH 46/54] fix: broker ids that do not fit are refused in replica
 assignments

---
 command/healer/cmd/create-partitions.go | 2 +-
 command/healer/cmd/create-topic.go      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/command/healer/cmd/create-partitions.go b/command/healer/cmd/create-partitions.go
index 58198f7..0321c3f 100644
--- a/command/healer/cmd/create-partitions.go
+++ b/command/healer/cmd/create-partitions.go
@@ -16,7 +16,7 @@ func genPartitionAssignments(assignments string) (partitionAssignments [][]int32
 		}
 		replicas := []int32{}
 		for _, brokerID := range strings.Split(brokerIDs, ":") {
-			if _brokerID, err := strconv.Atoi(brokerID); err == nil {
+			if _brokerID, err := strconv.ParseInt(brokerID, 10, 32); err == nil {
 				replicas = append(replicas, int32(_brokerID))
 			} else {
 				return nil, fmt.Errorf("failed to convert %s to int: %w", brokerID, err)
diff --git a/command/healer/cmd/create-topic.go b/command/healer/cmd/create-topic.go
index df8bc36..fe26e45 100644
--- a/command/healer/cmd/create-topic.go
+++ b/command/healer/cmd/create-topic.go
@@ -94,7 +94,7 @@ var createTopicCmd = &cobra.Command{
 		for pid, nodes := range strings.Split(replicaAssignment, ",") {
 			replicas[int32(pid)] = make([]int32, 0)
 			for _, node := range strings.Split(nodes, ":") {
-				nodeid, err := strconv.Atoi(node)
+				nodeid, err := strconv.ParseInt(node, 10, 32)
 				if err != nil {
 					return fmt.Errorf("invalid replica-assignment: %w", err)
 				}
-- 
2.43.0


From 5d0065021c64506235e92fcaa5aa991ad758e3bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:21 +0000
Subject: [PATCH 47/54] fix: commands refuse a malformed --config

---
 command/healer/cmd/console-consumer.go | 6 +++++-
 command/healer/cmd/console-producer.go | 6 +++++-
 command/healer/cmd/group-consumer.go   | 6 +++++-
 command/healer/cmd/simple-consumer.go  | 6 +++++-
 command/healer/cmd/simple-producer.go  | 6 +++++-
 5 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/command/healer/cmd/console-consumer.go b/command/healer/cmd/console-consumer.go
index 72bd844..3389d99 100644
--- a/command/healer/cmd/console-consumer.go
+++ b/command/healer/cmd/console-consumer.go
@@ -51,7 +51,11 @@ var consoleConsumerCmd = &cobra.Command{
 			return err
 		}
 
-		json.Unmarshal([]byte(config), &consumerConfig)
+		if config != "" {
+			if err := json.Unmarshal([]byte(config), &consumerConfig); err != nil {
+				return fmt.Errorf("invalid config: %w", err)
+			}
+		}
 
 		var (
 			consumer *healer.Consumer
diff --git a/command/healer/cmd/console-producer.go b/command/healer/cmd/console-producer.go
index 7e4e634..42f301b 100644
--- a/command/healer/cmd/console-producer.go
+++ b/command/healer/cmd/console-producer.go
@@ -40,7 +40,11 @@ var consoleProducerCmd = &cobra.Command{
 		if err != nil {
 			return err
 		}
-		json.Unmarshal([]byte(config), &producerConfig)
+		if config != "" {
+			if err := json.Unmarshal([]byte(config), &producerConfig); err != nil {
+				return fmt.Errorf("invalid config: %w", err)
+			}
+		}
 
 		consoleProducer, err := healer.NewProducer(topic, producerConfig)
 		if err != nil {
diff --git a/command/healer/cmd/group-consumer.go b/command/healer/cmd/group-consumer.go
index 5a84994..53460ce 100644
--- a/command/healer/cmd/group-consumer.go
+++ b/command/healer/cmd/group-consumer.go
@@ -58,7 +58,11 @@ var groupConsumerCmd = &cobra.Command{
 		if err != nil {
 			return err
 		}
-		json.Unmarshal([]byte(config), &consumerConfig)
+		if config != "" {
+			if err := json.Unmarshal([]byte(config), &consumerConfig); err != nil {
+				return fmt.Errorf("invalid config: %w", err)
+			}
+		}
 
 		consumer, err := healer.NewGroupConsumer(topic, consumerConfig)
 		if err != nil {
diff --git a/command/healer/cmd/simple-consumer.go b/command/healer/cmd/simple-consumer.go
index d10f593..eaa5b53 100644
--- a/command/healer/cmd/simple-consumer.go
+++ b/command/healer/cmd/simple-consumer.go
@@ -63,7 +63,11 @@ var simpleConsumerCmd = &cobra.Command{
 		if err != nil {
 			return err
 		}
-		json.Unmarshal([]byte(config), &consumerConfig)
+		if config != "" {
+			if err := json.Unmarshal([]byte(config), &consumerConfig); err != nil {
+				return fmt.Errorf("invalid config: %w", err)
+			}
+		}
 
 		simpleConsumer, err := healer.NewSimpleConsumer(topic, partition, consumerConfig)
 		if err != nil {
diff --git a/command/healer/cmd/simple-producer.go b/command/healer/cmd/simple-producer.go
index 1fbb6ce..40c6546 100644
--- a/command/healer/cmd/simple-producer.go
+++ b/command/healer/cmd/simple-producer.go
@@ -45,7 +45,11 @@ var simpleProducerCmd = &cobra.Command{
 		if err != nil {
 			return err
 		}
-		json.Unmarshal([]byte(config), &producerConfig)
+		if config != "" {
+			if err := json.Unmarshal([]byte(config), &producerConfig); err != nil {
+				return fmt.Errorf("invalid config: %w", err)
+			}
+		}
 
 		simpleProducer, err := healer.NewSimpleProducer(context.Background(), topic, partition, producerConfig)
 		if err != nil {
-- 
2.43.0


From f472ab8c6de3b78e9c4ba41357e8eb4128e1c3b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:24 +0000
Subject: [PATCH 48/54] fix: console-consumer --printoffset has an effect

---
 command/healer/cmd/console-consumer.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/command/healer/cmd/console-consumer.go b/command/healer/cmd/console-consumer.go
index 3389d99..0b121ab 100644
--- a/command/healer/cmd/console-consumer.go
+++ b/command/healer/cmd/console-consumer.go
@@ -42,6 +42,10 @@ var consoleConsumerCmd = &cobra.Command{
 		if err != nil {
 			return err
 		}
+		printOffset, err := cmd.Flags().GetBool("printoffset")
+		if err != nil {
+			return err
+		}
 		ifJson, err := cmd.Flags().GetBool("json")
 		if err != nil {
 			return err
@@ -85,6 +89,8 @@ var consoleConsumerCmd = &cobra.Command{
 			if ifJson {
 				b, _ := json.Marshal(message)
 				fmt.Printf("%s\n", string(b))
+			} else if !printOffset {
+				fmt.Printf("%s\n", message.Message.Value)
 			} else {
 				fmt.Printf("%d: %s\n", message.Message.Offset, message.Message.Value)
 			}
-- 
2.43.0


From 89472712d2d4eda2fd35838586cf9dc8d032f31d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:27 +0000
Subject: [PATCH 49/54] fix: group-consumer does not commit messages which it
 has not printed

---
 command/healer/cmd/group-consumer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/command/healer/cmd/group-consumer.go b/command/healer/cmd/group-consumer.go
index 53460ce..87867bb 100644
--- a/command/healer/cmd/group-consumer.go
+++ b/command/healer/cmd/group-consumer.go
@@ -73,7 +73,8 @@ var groupConsumerCmd = &cobra.Command{
 
 		defer consumer.Close()
 
-		messages, err := consumer.Consume(nil)
+		// messages which are not printed must not be committed, so they must not wait in the channel
+		messages, err := consumer.Consume(make(chan *healer.FullMessage))
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 2a429c334e68a1091e8f50fb50ef331fcab46638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:32 +0000
Subject: [PATCH 50/54] fix: producer commands report that the last messages
 could not be sent

---
 command/healer/cmd/console-producer.go |  2 +-
 command/healer/cmd/simple-producer.go  |  2 +-
 producer.go                            | 17 +++++++++++++++++
 3 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/command/healer/cmd/console-producer.go b/command/healer/cmd/console-producer.go
index 42f301b..35fe3bd 100644
--- a/command/healer/cmd/console-producer.go
+++ b/command/healer/cmd/console-producer.go
@@ -65,7 +65,7 @@ var consoleProducerCmd = &cobra.Command{
 			return fmt.Errorf("scan stdin error: %w", err)
 		}
 
-		return nil
+		return consoleProducer.Flush()
 	},
 }
 
diff --git a/command/healer/cmd/simple-producer.go b/command/healer/cmd/simple-producer.go
index 40c6546..236981b 100644
--- a/command/healer/cmd/simple-producer.go
+++ b/command/healer/cmd/simple-producer.go
@@ -69,7 +69,7 @@ var simpleProducerCmd = &cobra.Command{
 			return fmt.Errorf("scan stdin error: %w", err)
 		}
 
-		return nil
+		return simpleProducer.Flush()
 	},
 }
 
diff --git a/producer.go b/producer.go
index a6a7ba3..dc4e382 100644
--- a/producer.go
+++ b/producer.go
@@ -2,6 +2,7 @@ package healer
 
 import (
 	"context"
+	"errors"
 	"fmt"
 	"math/rand"
 	"sync"
@@ -212,6 +213,22 @@ func (p *Producer) AddMessage(key []byte, value []byte) error {
 	return ErrProducerClosed
 }
 
+// Flush sends all messages of all simple producers to kafka
+func (p *Producer) Flush() error {
+	p.lock.Lock()
+	simpleProducers := []*SimpleProducer{p.currentProducer}
+	for _, sp := range p.pidToSimpleProducers {
+		simpleProducers = append(simpleProducers, sp)
+	}
+	p.lock.Unlock()
+
+	var errs []error
+	for _, sp := range simpleProducers {
+		errs = append(errs, sp.Flush())
+	}
+	return errors.Join(errs...)
+}
+
 // Close close all simple producers in the console producer
 func (p *Producer) Close() {
 	p.lock.Lock()
-- 
2.43.0


From 236573dd36b2300b91a7f73dc1fa14a7ea80418f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:31 +0000
Subject: [PATCH 51/54] fix: group leader assigns partitions while some of them
 have no leader

---
 group_consumer.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/group_consumer.go b/group_consumer.go
index 6855e65..2f141d2 100644
--- a/group_consumer.go
+++ b/group_consumer.go
@@ -95,7 +95,6 @@ func NewGroupConsumer(topic string, config interface{}) (*GroupConsumer, error)
 
 // request metadata and set partition metadat to group-consumer. only leader should request this
 func (c *GroupConsumer) getTopicPartitionInfo() {
-	// TODO if could not get meta, such as error 5:`There is no leader for this topic-partition as we are in the middle of a leadership election.`
 	var (
 		metaDataResponse MetadataResponse
 		err              error
@@ -114,7 +113,8 @@ func (c *GroupConsumer) getTopicPartitionInfo() {
 	}
 	for !c.closed {
 		metaDataResponse, err = c.brokers.RequestMetaData(c.config.ClientID, c.topics)
-		if err == nil {
+		// go on if only some of the partitions have error, such as error 5:`There is no leader for this topic-partition as we are in the middle of a leadership election.`
+		if err == nil || isKafkaError(err) && allTopicsAvailable(metaDataResponse.TopicMetadatas) {
 			break
 		} else {
 			logger.Error(err, "failed to get metadata", "topics", c.topics)
@@ -127,6 +127,16 @@ func (c *GroupConsumer) getTopicPartitionInfo() {
 	c.topicMetadatas = metaDataResponse.TopicMetadatas
 }
 
+// allTopicsAvailable return true if there are metadatas and none of the topics has error itself. some of the partitions may have
+func allTopicsAvailable(topicMetadatas []TopicMetadata) bool {
+	for _, topicMetadata := range topicMetadatas {
+		if topicMetadata.TopicErrorCode != 0 {
+			return false
+		}
+	}
+	return len(topicMetadatas) > 0
+}
+
 // TODO getCoordinator may executed in dead loop and create too many connections to kafka clusters
 // TODO put this to brokers?
 func (c *GroupConsumer) getCoordinator() error {
-- 
2.43.0


From 61d3ee6e967a3b5fea7573026de0a7038dd28f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:02 +0000
Subject: [PATCH 52/54] fix: Brokers.Request says why the request failed

---
 brokers.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/brokers.go b/brokers.go
index 4ca686c..b9effff 100644
--- a/brokers.go
+++ b/brokers.go
@@ -399,13 +399,16 @@ func (brokers *Brokers) ElectLeaders(req *ElectLeadersRequest) (r *ElectLeadersR
 
 // Request try to do request from all brokers until get the response
 func (brokers *Brokers) Request(req Request) (Response, error) {
+	var lastErr error = &noAvaliableBrokers
 	for _, brokerInfo := range brokers.brokersInfo {
 		broker, err := brokers.GetBroker(brokerInfo.NodeID)
 		if err != nil {
+			lastErr = err
 			continue
 		}
 		resp, err := broker.RequestAndGet(req)
 		if err != nil {
+			lastErr = err
 			logger.Error(err, "request failed", "request", req.API(), "brokerAddress", broker.address)
 			continue
 		} else {
@@ -413,5 +416,5 @@ func (brokers *Brokers) Request(req Request) (Response, error) {
 		}
 	}
 
-	return nil, fmt.Errorf("could not request %d from all brokers", req.API())
+	return nil, fmt.Errorf("could not request %d from all brokers: %w", req.API(), lastErr)
 }
-- 
2.43.0


From 6d7ee77acc33044db71ea91b43e2fb9733832201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:24 +0000
Subject: [PATCH 53/54] fix: reset-offset refuses partitions that do not exist

---
 command/healer/cmd/reset-offset.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/command/healer/cmd/reset-offset.go b/command/healer/cmd/reset-offset.go
index 34fe66c..2d6c39e 100644
--- a/command/healer/cmd/reset-offset.go
+++ b/command/healer/cmd/reset-offset.go
@@ -64,6 +64,12 @@ var resetOffsetCmd = &cobra.Command{
 			}
 		}
 
+		for partition := range userCustomPartitions {
+			if _, ok := offsets[partition]; !ok {
+				return fmt.Errorf("no offset of %s[%d] at timestamp %d", topic, partition, timestamp)
+			}
+		}
+
 		// 1. get coordinator
 		var coordinator *healer.Broker
 		coordinatorResponse, err := brokers.FindCoordinator(client, group)
-- 
2.43.0


From a912365b6c6a3eb559dc2a582c39c3760352f756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:28 +0000
Subject: [PATCH 54/54] fix: simple-consumer and console-consumer do not commit
 messages they have not printed

---
 command/healer/cmd/console-consumer.go | 3 ++-
 command/healer/cmd/simple-consumer.go  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/command/healer/cmd/console-consumer.go b/command/healer/cmd/console-consumer.go
index 0b121ab..7036b8f 100644
--- a/command/healer/cmd/console-consumer.go
+++ b/command/healer/cmd/console-consumer.go
@@ -79,7 +79,8 @@ var consoleConsumerCmd = &cobra.Command{
 			consumer.Assign(assign)
 		}
 
-		messages, err := consumer.Consume(nil)
+		// messages which are not printed must not be committed, so they must not wait in the channel
+		messages, err := consumer.Consume(make(chan *healer.FullMessage))
 		if err != nil {
 			return err
 		}
diff --git a/command/healer/cmd/simple-consumer.go b/command/healer/cmd/simple-consumer.go
index eaa5b53..f40fc74 100644
--- a/command/healer/cmd/simple-consumer.go
+++ b/command/healer/cmd/simple-consumer.go
@@ -75,7 +75,8 @@ var simpleConsumerCmd = &cobra.Command{
 		}
 		defer simpleConsumer.Stop()
 
-		messages, err := simpleConsumer.Consume(offset, nil)
+		// messages which are not printed must not be committed, so they must not wait in the channel
+		messages, err := simpleConsumer.Consume(offset, make(chan *healer.FullMessage))
 		if err != nil {
 			klog.Errorf("consumer messages error: %s", err)
 			return err
-- 
2.43.0

