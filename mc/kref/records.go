package kref

import (
	"bytes"
	"compress/gzip"
	"encoding/binary"
	"fmt"
	"hash/crc32"
	"io"

	xsnappy "github.com/eapache/go-xerial-snappy"
	"github.com/golang/snappy"
	"github.com/pierrec/lz4/v4"
)

// Header of a record.
type Header struct {
	Key   string
	Value []byte // nil: null
}

// Rec is one record of a log. Key/Value nil means null.
type Rec struct {
	Offset    int64
	Timestamp int64
	Key       []byte
	Value     []byte
	Headers   []Header
}

func (r Rec) String() string {
	return fmt.Sprintf("@%d ts=%d key=%s value=%s h=%v", r.Offset, r.Timestamp, Show(r.Key), Show(r.Value), r.Headers)
}

// Codec numbers.
const (
	None   = 0
	Gzip   = 1
	Snappy = 2
	LZ4    = 3
	// SnappyXerial is snappy with the java framing (codec 2 on the wire).
	SnappyXerial = 12
	// GzipMulti is gzip in several members (codec 1 on the wire).
	GzipMulti = 11
)

func wireCodec(c int) int { return c % 10 }

// Compress compresses with codec c.
func Compress(c int, b []byte) []byte {
	var buf bytes.Buffer
	switch c {
	case None:
		return b
	case Gzip:
		w := gzip.NewWriter(&buf)
		w.Write(b)
		w.Close()
	case GzipMulti:
		for _, p := range [][]byte{b[:len(b)/2], b[len(b)/2:]} {
			w := gzip.NewWriter(&buf)
			w.Write(p)
			w.Close()
		}
	case Snappy:
		return snappy.Encode(nil, b)
	case SnappyXerial:
		return xsnappy.EncodeStream(nil, b)
	case LZ4:
		w := lz4.NewWriter(&buf)
		w.Write(b)
		w.Close()
	}
	return buf.Bytes()
}

// Decompress decompresses codec c.
func Decompress(c int, b []byte) ([]byte, error) {
	switch c {
	case None:
		return b, nil
	case Gzip:
		r, err := gzip.NewReader(bytes.NewReader(b))
		if err != nil {
			return nil, err
		}
		return io.ReadAll(r)
	case Snappy:
		return xsnappy.Decode(b)
	case LZ4:
		return io.ReadAll(lz4.NewReader(bytes.NewReader(b)))
	}
	return nil, fmt.Errorf("unknown compression codec %d", c)
}

func appendVarBytes(b []byte, v []byte) []byte {
	if v == nil {
		return binary.AppendVarint(b, -1)
	}
	b = binary.AppendVarint(b, int64(len(v)))
	return append(b, v...)
}

// BatchOpts are knobs of EncodeBatch.
type BatchOpts struct {
	Codec       int
	BaseOffset  int64 // base offset of the batch (may be before the first record: compaction)
	LastOffset  int64 // last offset covered (may be after the last record)
	Control     bool
	Txn         bool
	ProducerID  int64 // with Txn
	LogAppend   int64 // >0: timestamp type is log append time and all records have it
	LeaderEpoch int32
}

var castagnoli = crc32.MakeTable(crc32.Castagnoli)

// EncodeBatch encodes a magic 2 record batch.
func EncodeBatch(o BatchOpts, recs []Rec) []byte {
	var body []byte
	baseTs, maxTs := int64(-1), int64(-1)
	if len(recs) > 0 {
		baseTs, maxTs = recs[0].Timestamp, recs[0].Timestamp
	}
	for _, r := range recs {
		if r.Timestamp > maxTs {
			maxTs = r.Timestamp
		}
		var b []byte
		b = append(b, 0)
		b = binary.AppendVarint(b, r.Timestamp-baseTs)
		b = binary.AppendVarint(b, r.Offset-o.BaseOffset)
		b = appendVarBytes(b, r.Key)
		b = appendVarBytes(b, r.Value)
		b = binary.AppendVarint(b, int64(len(r.Headers)))
		for _, h := range r.Headers {
			b = binary.AppendVarint(b, int64(len(h.Key)))
			b = append(b, h.Key...)
			b = appendVarBytes(b, h.Value)
		}
		body = binary.AppendVarint(body, int64(len(b)))
		body = append(body, b...)
	}
	attr := int16(wireCodec(o.Codec))
	if o.Control {
		attr |= 0x20
	}
	pid, pep, seq := int64(-1), int16(-1), int32(-1)
	if o.Txn {
		attr |= 0x10
		pid, pep, seq = o.ProducerID, 0, 0
	}
	if o.LogAppend > 0 {
		attr |= 0x08
		maxTs = o.LogAppend
	}
	body = Compress(o.Codec, body)
	e := &Enc{}
	e.i64(o.BaseOffset)
	e.i32(int32(49 + len(body)))
	e.i32(o.LeaderEpoch)
	e.B = append(e.B, 2)
	e.i32(0) // crc
	e.i16(attr)
	e.i32(int32(o.LastOffset - o.BaseOffset))
	e.i64(baseTs)
	e.i64(maxTs)
	e.i64(pid)
	e.i16(pep)
	e.i32(seq)
	e.i32(int32(len(recs)))
	e.B = append(e.B, body...)
	binary.BigEndian.PutUint32(e.B[17:], crc32.Checksum(e.B[21:], castagnoli))
	return e.B
}

// EncodeMessages encodes records as a magic 0/1 message set; with a codec they
// are wrapped in one compressed message.
func EncodeMessages(magic int, codec int, recs []Rec) []byte {
	return EncodeMessagesLA(magic, codec, recs, 0)
}

// EncodeMessagesLA is EncodeMessages with, if logAppend > 0, log append time as the timestamp type.
func EncodeMessagesLA(magic int, codec int, recs []Rec, logAppend int64) []byte {
	one := func(off int64, attr byte, ts int64, key, value []byte) []byte {
		e := &Enc{}
		e.i64(off)
		e.i32(0)
		e.i32(0)
		e.B = append(e.B, byte(magic), attr)
		if magic == 1 {
			e.i64(ts)
		}
		put := func(b []byte) {
			if b == nil {
				e.i32(-1)
				return
			}
			e.i32(int32(len(b)))
			e.B = append(e.B, b...)
		}
		put(key)
		put(value)
		binary.BigEndian.PutUint32(e.B[8:], uint32(len(e.B)-12))
		binary.BigEndian.PutUint32(e.B[12:], crc32.ChecksumIEEE(e.B[16:]))
		return e.B
	}
	var out []byte
	la := byte(0)
	if logAppend > 0 {
		la = 8
	}
	if codec == None {
		for _, r := range recs {
			if logAppend > 0 {
				r.Timestamp = logAppend
			}
			out = append(out, one(r.Offset, la, r.Timestamp, r.Key, r.Value)...)
		}
		return out
	}
	var inner []byte
	last := recs[len(recs)-1]
	maxTs := int64(0)
	for _, r := range recs {
		off := r.Offset
		if magic == 1 {
			off = r.Offset - recs[0].Offset // relative offsets
		}
		if r.Timestamp > maxTs {
			maxTs = r.Timestamp
		}
		inner = append(inner, one(off, 0, r.Timestamp, r.Key, r.Value)...)
	}
	if logAppend > 0 {
		maxTs = logAppend
	}
	return one(last.Offset, byte(wireCodec(codec))|la, maxTs, nil, Compress(codec, inner))
}

// Batch is a decoded batch.
type Batch struct {
	BaseOffset      int64
	Magic           int
	Attributes      int
	LastOffsetDelta int
	BaseTs, MaxTs   int64
	ProducerID      int64
	ProducerEpoch   int
	BaseSequence    int
	Recs            []Rec
	Raw             []byte
}

type rdr struct {
	b   []byte
	off int
	err error
}

func (r *rdr) varint() int64 {
	v, n := binary.Varint(r.b[r.off:])
	if n <= 0 {
		if r.err == nil {
			r.err = fmt.Errorf("bad varint at %d", r.off)
		}
		return 0
	}
	r.off += n
	return v
}

func (r *rdr) bytes() []byte {
	n := r.varint()
	if n == -1 {
		return nil
	}
	if r.err == nil && (n < 0 || r.off+int(n) > len(r.b)) {
		r.err = fmt.Errorf("bad length %d at %d", n, r.off)
	}
	if r.err != nil {
		return nil
	}
	v := append([]byte{}, r.b[r.off:r.off+int(n)]...)
	r.off += int(n)
	return v
}

// DecodeBatches decodes and strictly validates record batches (magic 2) or
// message sets (magic 0/1), the way a broker does on produce.
func DecodeBatches(b []byte) (out []Batch, err error) {
	for off := 0; off < len(b); {
		p := b[off:]
		if len(p) < 17 {
			return out, fmt.Errorf("%d trailing bytes after the last batch", len(p))
		}
		length := int(int32(binary.BigEndian.Uint32(p[8:])))
		if length < 14 || 12+length > len(p) {
			return out, fmt.Errorf("batch length %d does not fit the %d bytes sent", length, len(p)-12)
		}
		p = p[:12+length]
		off += 12 + length
		magic := int(p[16])
		if magic < 2 {
			bt, err := decodeMessage(p)
			if err != nil {
				return out, err
			}
			out = append(out, bt)
			continue
		}
		if magic != 2 {
			return out, fmt.Errorf("magic %d", magic)
		}
		if len(p) < 61 {
			return out, fmt.Errorf("batch of %d bytes is shorter than its header", len(p))
		}
		if c := crc32.Checksum(p[21:], castagnoli); c != binary.BigEndian.Uint32(p[17:]) {
			return out, fmt.Errorf("batch CRC %08x, computed %08x", binary.BigEndian.Uint32(p[17:]), c)
		}
		bt := Batch{
			BaseOffset: int64(binary.BigEndian.Uint64(p)), Magic: 2,
			Attributes:      int(binary.BigEndian.Uint16(p[21:])),
			LastOffsetDelta: int(int32(binary.BigEndian.Uint32(p[23:]))),
			BaseTs:          int64(binary.BigEndian.Uint64(p[27:])),
			MaxTs:           int64(binary.BigEndian.Uint64(p[35:])),
			ProducerID:      int64(binary.BigEndian.Uint64(p[43:])),
			ProducerEpoch:   int(int16(binary.BigEndian.Uint16(p[51:]))),
			BaseSequence:    int(int32(binary.BigEndian.Uint32(p[53:]))),
		}
		count := int(int32(binary.BigEndian.Uint32(p[57:])))
		body, err := Decompress(bt.Attributes&7, p[61:])
		if err != nil {
			return out, fmt.Errorf("decompress: %v", err)
		}
		r := &rdr{b: body}
		for i := 0; i < count; i++ {
			n := r.varint()
			if r.err != nil {
				return out, fmt.Errorf("record %d: %v", i, r.err)
			}
			if n < 0 || r.off+int(n) > len(body) {
				return out, fmt.Errorf("record %d: length %d does not fit", i, n)
			}
			q := &rdr{b: body[r.off : r.off+int(n)]}
			r.off += int(n)
			if len(q.b) == 0 {
				return out, fmt.Errorf("record %d: empty", i)
			}
			q.off = 1
			rec := Rec{}
			rec.Timestamp = bt.BaseTs + q.varint()
			delta := q.varint()
			rec.Offset = bt.BaseOffset + delta
			rec.Key = q.bytes()
			rec.Value = q.bytes()
			nh := q.varint()
			for j := int64(0); j < nh && q.err == nil; j++ {
				k := q.bytes()
				v := q.bytes()
				rec.Headers = append(rec.Headers, Header{string(k), v})
			}
			if q.err != nil {
				return out, fmt.Errorf("record %d: %v", i, q.err)
			}
			if q.off != len(q.b) {
				return out, fmt.Errorf("record %d: %d bytes left over", i, len(q.b)-q.off)
			}
			if delta != int64(i) {
				return out, fmt.Errorf("record %d has offset delta %d", i, delta)
			}
			bt.Recs = append(bt.Recs, rec)
		}
		if r.off != len(body) {
			return out, fmt.Errorf("%d bytes after the last record", len(body)-r.off)
		}
		if count > 0 && bt.LastOffsetDelta != count-1 {
			return out, fmt.Errorf("last offset delta %d with %d records", bt.LastOffsetDelta, count)
		}
		maxTs := int64(-1)
		for _, rec := range bt.Recs {
			if rec.Timestamp > maxTs {
				maxTs = rec.Timestamp
			}
		}
		if count > 0 && maxTs != bt.MaxTs {
			return out, fmt.Errorf("max timestamp %d, records say %d", bt.MaxTs, maxTs)
		}
		bt.Raw = p
		out = append(out, bt)
	}
	return out, nil
}

func decodeMessage(p []byte) (bt Batch, err error) {
	if c := crc32.ChecksumIEEE(p[16:]); c != binary.BigEndian.Uint32(p[12:]) {
		return bt, fmt.Errorf("message CRC %08x, computed %08x", binary.BigEndian.Uint32(p[12:]), c)
	}
	bt.BaseOffset = int64(binary.BigEndian.Uint64(p))
	bt.Magic = int(p[16])
	bt.Attributes = int(p[17])
	o := 18
	ts := int64(-1)
	if bt.Magic == 1 {
		if len(p) < o+8 {
			return bt, fmt.Errorf("short message")
		}
		ts = int64(binary.BigEndian.Uint64(p[o:]))
		o += 8
	}
	get := func() []byte {
		if err != nil {
			return nil
		}
		if len(p) < o+4 {
			err = fmt.Errorf("short message")
			return nil
		}
		n := int(int32(binary.BigEndian.Uint32(p[o:])))
		o += 4
		if n == -1 {
			return nil
		}
		if n < 0 || o+n > len(p) {
			err = fmt.Errorf("bad length %d in message", n)
			return nil
		}
		v := append([]byte{}, p[o:o+n]...)
		o += n
		return v
	}
	key := get()
	val := get()
	if err != nil {
		return bt, err
	}
	if o != len(p) {
		return bt, fmt.Errorf("%d bytes left over in message", len(p)-o)
	}
	if c := bt.Attributes & 7; c != 0 {
		raw, err := Decompress(c, val)
		if err != nil {
			return bt, err
		}
		in, err := DecodeBatches(raw)
		if err != nil {
			return bt, err
		}
		for _, x := range in {
			bt.Recs = append(bt.Recs, x.Recs...)
		}
		return bt, nil
	}
	bt.Recs = []Rec{{Offset: bt.BaseOffset, Timestamp: ts, Key: key, Value: val}}
	return bt, nil
}
