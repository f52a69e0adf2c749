package main

import (
	"bytes"
	"fmt"
	"time"

	"github.com/childe/healer"
	"github.com/childe/healer/kfake"
	"github.com/childe/healer/kref"
	"github.com/childe/healer/vrt"
)

// chunk kinds of the log enumeration; magic tells the lowest record format.
type chunkKind struct {
	name  string
	magic int
	add   func(p *kfake.Part)
}

func mkRecs(base int64, n int, tag string) []kref.Rec {
	var rs []kref.Rec
	for i := 0; i < n; i++ {
		o := base + int64(i)
		rs = append(rs, kref.Rec{Offset: o, Timestamp: 1600000000000 + 7*o, Key: []byte(fmt.Sprintf("k%d", o)), Value: []byte(fmt.Sprintf("%s-%d-%s", tag, o, "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa"))})
	}
	return rs
}

func m2(name string, codec int, n int) chunkKind {
	return chunkKind{name, 2, func(p *kfake.Part) {
		p.AddBatch(kref.BatchOpts{Codec: codec, BaseOffset: p.End, LastOffset: p.End + int64(n) - 1}, mkRecs(p.End, n, name))
	}}
}

func msg(name string, magic, codec, n int) chunkKind {
	return chunkKind{name, magic, func(p *kfake.Part) {
		rs := mkRecs(p.End, n, name)
		if magic == 0 {
			for i := range rs {
				rs[i].Timestamp = 0
			}
		}
		p.Append(&kfake.Chunk{Base: p.End, Last: p.End + int64(n) - 1, Bytes: kref.EncodeMessages(magic, codec, rs), Recs: rs})
	}}
}

var chunkKinds = []chunkKind{
	m2("m2-none", kref.None, 2),
	m2("m2-gzip", kref.Gzip, 2),
	m2("m2-snappy", kref.Snappy, 2),
	m2("m2-xerial", kref.SnappyXerial, 2),
	m2("m2-lz4", kref.LZ4, 2),
	{"m2-odd", 2, func(p *kfake.Part) {
		b := p.End
		rs := []kref.Rec{
			{Offset: b, Timestamp: 1600000000500, Key: nil, Value: nil},
			{Offset: b + 1, Timestamp: 1600000000000, Key: []byte{}, Value: []byte{}, Headers: []kref.Header{{Key: "", Value: nil}, {Key: "h", Value: []byte{}}, {Key: "hh", Value: bytes.Repeat([]byte{0xff}, 70)}}},
			{Offset: b + 2, Timestamp: 1600000900000, Key: bytes.Repeat([]byte("K"), 130), Value: []byte{0, 1, 2, 0xff}},
		}
		p.AddBatch(kref.BatchOpts{BaseOffset: b, LastOffset: b + 2}, rs)
	}},
	{"m2-compacted", 2, func(p *kfake.Part) {
		b := p.End
		rs := mkRecs(b+1, 1, "c")
		rs = append(rs, mkRecs(b+3, 1, "c")...)
		p.AddBatch(kref.BatchOpts{BaseOffset: b, LastOffset: b + 5}, rs)
	}},
	{"m2-empty", 2, func(p *kfake.Part) {
		b := p.End
		p.AddBatch(kref.BatchOpts{BaseOffset: b, LastOffset: b + 1}, nil)
	}},
	{"m2-control", 2, func(p *kfake.Part) {
		b := p.End
		ch := kref.EncodeBatch(kref.BatchOpts{BaseOffset: b, LastOffset: b, Control: true}, []kref.Rec{{Offset: b, Timestamp: 1600000000000, Key: []byte{0, 0, 0, 1}, Value: []byte{0, 0, 0, 0, 0, 1}}})
		p.Append(&kfake.Chunk{Base: b, Last: b, Bytes: ch})
	}},
	{"m2-logappend", 2, func(p *kfake.Part) {
		b := p.End
		rs := mkRecs(b, 2, "la")
		raw := kref.EncodeBatch(kref.BatchOpts{BaseOffset: b, LastOffset: b + 1, LogAppend: 1700000000123}, rs)
		for i := range rs {
			rs[i].Timestamp = 1700000000123
		}
		p.Append(&kfake.Chunk{Base: b, Last: b + 1, Bytes: raw, Recs: rs})
	}},
	{"m2-big", 2, func(p *kfake.Part) {
		b := p.End
		rs := mkRecs(b, 1, "big")
		rs[0].Value = bytes.Repeat([]byte("0123456789abcdef"), 20)
		p.AddBatch(kref.BatchOpts{BaseOffset: b, LastOffset: b}, rs)
	}},
	{"m2-txn", 2, func(p *kfake.Part) {
		b := p.End
		rs := mkRecs(b, 2, "txn")
		p.AddBatch(kref.BatchOpts{BaseOffset: b, LastOffset: b + 1, Txn: true, ProducerID: 7, Codec: kref.Gzip}, rs)
	}},
	{"m2-longts", 2, func(p *kfake.Part) {
		b := p.End
		rs := mkRecs(b, 3, "ts")
		rs[1].Timestamp -= 60 * 24 * 3600 * 1000
		rs[2].Timestamp += 60 * 24 * 3600 * 1000
		p.AddBatch(kref.BatchOpts{BaseOffset: b, LastOffset: b + 2}, rs)
	}},
	msg("m1-none", 1, kref.None, 2),
	msg("m1-gzip", 1, kref.Gzip, 2),
	msg("m1-xerial", 1, kref.SnappyXerial, 3),
	msg("m1-lz4", 1, kref.LZ4, 2),
	{"m1-logappend", 1, func(p *kfake.Part) {
		b := p.End
		rs := mkRecs(b, 2, "la")
		raw := kref.EncodeMessagesLA(1, kref.Gzip, rs, 1700000000123)
		for i := range rs {
			rs[i].Timestamp = 1700000000123
		}
		p.Append(&kfake.Chunk{Base: b, Last: b + 1, Bytes: raw, Recs: rs})
	}},
	{"m1-null", 1, func(p *kfake.Part) {
		b := p.End
		rs := []kref.Rec{{Offset: b, Timestamp: 5, Key: nil, Value: nil}, {Offset: b + 1, Timestamp: 6, Key: []byte{}, Value: []byte{}}}
		p.Append(&kfake.Chunk{Base: b, Last: b + 1, Bytes: kref.EncodeMessages(1, kref.None, rs), Recs: rs})
	}},
	{"m1-compacted", 1, func(p *kfake.Part) {
		b := p.End
		rs := []kref.Rec{{Offset: b + 1, Timestamp: 5, Key: []byte("a"), Value: []byte("x")}, {Offset: b + 3, Timestamp: 6, Key: []byte("b"), Value: []byte("y")}}
		p.Append(&kfake.Chunk{Base: b, Last: b + 3, Bytes: kref.EncodeMessages(1, kref.Gzip, rs), Recs: rs})
	}},
	msg("m0-none", 0, kref.None, 2),
	msg("m0-gzip", 0, kref.Gzip, 2),
	msg("m0-snappy", 0, kref.Snappy, 2),
}

// consumeAll starts a consumer at off and compares everything it delivers.
func consumeAll(t *T, cfg healer.ConsumerConfig, off int64, p *kfake.Part) []*healer.FullMessage {
	c, err := healer.NewSimpleConsumer(p.Topic, p.ID, cfg)
	if err != nil {
		t.Fail("NewSimpleConsumer: %v", err)
		return nil
	}
	ch, err := c.Consume(off, nil)
	if err != nil {
		t.Fail("Consume: %v", err)
		return nil
	}
	want := p.Recs(off)
	got := drain(ch, len(want)+3, 4*time.Second)
	t.checkExact("consumer", got, p.Topic, p.ID, want)
	t.Out("%s", offs(got))
	return got
}

func init() {
	// every sequence of up to two (thorough: three) chunk kinds, every start offset, every fetch version
	reg(&Scenario{Prop: "P01", Name: "layouts", Horizon: 10 * time.Minute, Run: func(t *T) {
		cl := t.Cluster(1)
		p := cl.AddTopic("t", 1).Parts[0]
		vi := vrt.Input(3)
		ver := []int{10, 7, 0}[vi]
		var kinds []chunkKind
		for _, k := range chunkKinds {
			if ver > 0 || k.magic == 0 {
				kinds = append(kinds, k)
			}
		}
		n := 2
		if t.tier == "thorough" {
			n = 3
		}
		p.End = 5
		p.Start = 5
		name := ""
		nk := 1 + vrt.Input(n)
		for i := 0; i < nk; i++ {
			k := kinds[vrt.Input(len(kinds))]
			k.add(p)
			name += k.name + ","
		}
		only(cl, 1, ver)
		off := p.Start + int64(vrt.Input(int(p.End-p.Start)+1))
		if vrt.Input(2) == 1 {
			p.NChunks = 1
		}
		t.Sample = fmt.Sprintf("fetch v%d log %s start %d", ver, name, off)
		t.Out("%s", t.Sample)
		consumeAll(t, consCfg(cl), off, p)
		t.CheckBad()
	}})
	// a small fetch size: responses cut off at every byte position
	reg(&Scenario{Prop: "P01", Name: "cuts", Horizon: 10 * time.Minute, Run: func(t *T) {
		cl := t.Cluster(1)
		p := cl.AddTopic("t", 1).Parts[0]
		ver := []int{10, 0}[vrt.Input(2)]
		only(cl, 1, ver)
		var kinds []chunkKind
		for _, k := range chunkKinds {
			if ver > 0 || k.magic == 0 {
				kinds = append(kinds, k)
			}
		}
		k1 := kinds[vrt.Input(len(kinds))]
		k2 := kinds[vrt.Input(len(kinds))]
		if t.tier != "thorough" && ver > 0 {
			// the interesting partner of a cut chunk is what precedes it; keep two
			if k1.name != "m2-none" && k1.name != "m1-gzip" && k1.name != "m2-lz4" {
				t.Trivial()
				return
			}
		}
		k1.add(p)
		l1 := len(p.Chunks[0].Bytes)
		k2.add(p)
		l2 := len(p.Chunks[1].Bytes)
		cfg := consCfg(cl)
		lo := l1 // a modern broker always returns the first batch whole
		if ver == 0 {
			lo = 1
		}
		step := 1
		if t.tier != "thorough" {
			step = 3
		}
		cut := lo + step*vrt.Input((l1+l2-lo)/step+1)
		p.MaxResp = 0
		p.CutExact = false
		p.CutTail = true
		cfg.FetchMaxBytes = int32(cut)
		t.Sample = fmt.Sprintf("fetch v%d %s+%s fetch.max.bytes=%d (batches %d,%d bytes)", ver, k1.name, k2.name, cut, l1, l2)
		t.Out("%s", t.Sample)
		consumeAll(t, cfg, 0, p)
		t.CheckBad()
	}})
	// a record which is much larger than fetch.max.bytes, which an old broker does not send in one piece
	reg(&Scenario{Prop: "P01", Name: "huge", Horizon: 30 * time.Minute, Run: func(t *T) {
		cl := t.Cluster(1)
		p := cl.AddTopic("t", 1).Parts[0]
		only(cl, 1, 0)
		size := []int{1 << 20, 3 << 20, 20 << 20}[vrt.Input(3)]
		small := msg("m0-none", 0, kref.None, 2)
		small.add(p)
		rs := []kref.Rec{{Offset: p.End, Value: bytes.Repeat([]byte("x"), size)}}
		p.Append(&kfake.Chunk{Base: p.End, Last: p.End, Bytes: kref.EncodeMessages(0, kref.None, rs), Recs: rs})
		small.add(p)
		cfg := consCfg(cl)
		p.CutTail = true
		cfg.FetchMaxBytes = int32([]int{1000, 600 << 10}[vrt.Input(2)])
		t.Sample = fmt.Sprintf("fetch v0 record of %d bytes, fetch.max.bytes=%d", size, cfg.FetchMaxBytes)
		t.Out("%s", t.Sample)
		consumeAll(t, cfg, 0, p)
		t.CheckBad()
	}})
	// the network splits the response at every position
	reg(&Scenario{Prop: "P01", Name: "fragments", Horizon: 10 * time.Minute, Run: func(t *T) {
		cl := t.Cluster(1)
		p := cl.AddTopic("t", 1).Parts[0]
		ver := []int{10, 7, 0}[vrt.Input(3)]
		only(cl, 1, ver)
		var kinds []chunkKind
		for _, k := range chunkKinds {
			if ver > 0 || k.magic == 0 {
				kinds = append(kinds, k)
			}
		}
		k := kinds[vrt.Input(len(kinds))]
		k.add(p)
		kinds[0].add(p)
		total := 0
		for _, c := range p.Chunks {
			total += len(c.Bytes)
		}
		step := 1
		if t.tier != "thorough" {
			step = 2
		}
		mode := vrt.Input(2 + (total+90)/step)
		cl.Frag = func(frame []byte) []int {
			if len(frame) < 60 { // only fetch answers with data
				return nil
			}
			if mode == 1 {
				out := make([]int, len(frame))
				for i := range out {
					out[i] = 1
				}
				return out
			}
			at := (mode-2)*step + 1
			if mode == 0 || at >= len(frame) {
				return nil
			}
			return []int{at}
		}
		t.Sample = fmt.Sprintf("fetch v%d %s fragment mode %d", ver, k.name, mode)
		t.Out("%s", t.Sample)
		consumeAll(t, consCfg(cl), 0, p)
		t.CheckBad()
	}})
	// sizes: one dimension of the log is large, around every place where an encoding gets longer
	reg(&Scenario{Prop: "P01", Name: "sizes", Horizon: 10 * time.Minute, MaxSteps: 3000000, Run: func(t *T) {
		cl := t.Cluster(1)
		ver := []int{10, 7, 0}[vrt.Input(3)]
		codecs := []int{kref.None, kref.Gzip, kref.Snappy, kref.SnappyXerial, kref.LZ4, kref.GzipMulti}
		codec := codecs[vrt.Input(len(codecs))]
		magics := []int{2, 1, 0}
		if ver == 0 {
			magics = []int{0}
		}
		magic := magics[vrt.Input(len(magics))]
		topic, nparts := "t", 1
		base := int64(0)
		rs := mkRecs(0, 3, "s")
		sizes := []int{1, 63, 64, 127, 128, 8191, 8192, 32767, 32768, 65535, 65536, 1 << 20, 1<<21 + 3}
		fill := func(n int) []byte {
			b := make([]byte, n)
			x := uint32(1)
			for i := range b {
				x = x*1664525 + 1013904223
				b[i] = byte(x >> 24)
			}
			return b
		}
		dim := ""
		switch d := vrt.Input(6); d {
		case 0:
			n := []int{1, 63, 64, 65, 100, 101, 127, 128, 129, 300, 1025}[vrt.Input(11)]
			rs = mkRecs(0, n, "s")
			dim = fmt.Sprintf("%d records", n)
		case 1:
			n := sizes[vrt.Input(len(sizes))]
			rs[1].Value = fill(n)
			dim = fmt.Sprintf("value of %d bytes", n)
		case 2:
			n := sizes[vrt.Input(len(sizes))]
			rs[1].Key = fill(n)
			dim = fmt.Sprintf("key of %d bytes", n)
		case 3:
			base = []int64{1<<31 - 2, 1 << 31, 1<<32 - 1, 1 << 32, 1 << 40, 1<<62 + 5}[vrt.Input(6)]
			dim = fmt.Sprintf("offsets from %d", base)
		case 4:
			if magic == 2 {
				switch vrt.Input(3) {
				case 0:
					n := []int{1, 63, 64, 65, 130, 8200}[vrt.Input(6)]
					for i := 0; i < n; i++ {
						rs[1].Headers = append(rs[1].Headers, kref.Header{Key: fmt.Sprintf("h%d", i), Value: fill(i % 5)})
					}
					dim = fmt.Sprintf("%d headers", n)
				case 1:
					n := sizes[vrt.Input(len(sizes))]
					rs[1].Headers = []kref.Header{{Key: string(fill(n)), Value: fill(3)}, {Key: "b", Value: nil}}
					dim = fmt.Sprintf("header key of %d bytes", n)
				case 2:
					n := sizes[vrt.Input(len(sizes))]
					rs[1].Headers = []kref.Header{{Key: "a", Value: fill(n)}, {Key: "b", Value: nil}}
					dim = fmt.Sprintf("header value of %d bytes", n)
				}
			} else {
				topic = string(bytes.Repeat([]byte("n"), []int{1, 127, 128, 249}[vrt.Input(4)]))
				dim = "topic " + topic
			}
		case 5:
			switch vrt.Input(3) {
			case 0:
				d := []int64{63, 64, 127, 128, 8191, 8192, 32768, 65536, 100000, 1<<31 - 3}[vrt.Input(10)]
				rs[2].Offset = rs[1].Offset + d
				rs[2].Key, rs[2].Value = []byte("far"), []byte("away")
				dim = fmt.Sprintf("offset gap of %d", d)
			case 1:
				nparts = 300
				dim = "partition 299"
			case 2:
				d := []int64{63, 64, -64, -65, 8192, 1 << 31, -1 << 31, 1<<31 + 1, 1 << 33}[vrt.Input(9)]
				rs[1].Timestamp = rs[0].Timestamp + d
				dim = fmt.Sprintf("timestamp distance of %d", d)
			}
		}
		leaders := make([]int32, nparts)
		for i := range leaders {
			leaders[i] = 1
		}
		p := cl.AddTopic(topic, leaders...).Parts[nparts-1]
		only(cl, 1, ver)
		for i := range rs {
			rs[i].Offset += base
			if magic == 0 {
				rs[i].Timestamp = 0
			}
		}
		p.Start, p.End = base, base
		last := rs[len(rs)-1].Offset
		if magic == 2 {
			p.AddBatch(kref.BatchOpts{Codec: codec, BaseOffset: base, LastOffset: last}, rs)
		} else {
			p.Append(&kfake.Chunk{Base: base, Last: last, Bytes: kref.EncodeMessages(magic, codec, rs), Recs: rs})
		}
		// what follows it
		tail := mkRecs(p.End, 2, "tail")
		if magic < 2 {
			for i := range tail {
				tail[i].Timestamp = 0
			}
			p.Append(&kfake.Chunk{Base: p.End, Last: p.End + 1, Bytes: kref.EncodeMessages(0, kref.None, tail), Recs: tail})
		} else {
			p.AddBatch(kref.BatchOpts{BaseOffset: p.End, LastOffset: p.End + 1}, tail)
		}
		off := base
		if vrt.Input(2) == 1 {
			off = last
		}
		cfg := consCfg(cl)
		cfg.FetchMaxBytes = 64 << 20
		t.Sample = fmt.Sprintf("fetch v%d magic %d codec %d %s from %d", ver, magic, codec, dim, off)
		t.Out("%s", t.Sample)
		consumeAll(t, cfg, off, p)
		t.CheckBad()
	}})
	// answers with the optional parts a broker may send
	reg(&Scenario{Prop: "P01", Name: "answers", Horizon: 10 * time.Minute, Run: func(t *T) {
		cl := t.Cluster(1)
		p := cl.AddTopic("t", 1).Parts[0]
		ver := []int{10, 7, 0}[vrt.Input(3)]
		only(cl, 1, ver)
		var kinds []chunkKind
		for _, k := range chunkKinds {
			if ver > 0 || k.magic == 0 {
				kinds = append(kinds, k)
			}
		}
		k := kinds[vrt.Input(len(kinds))]
		k.add(p)
		kinds[0].add(p)
		p.NChunks = 1
		throttle, session := 0, 0
		if ver > 0 {
			p.Aborted = []any{nil, kref.A{}, kref.A{kref.M{"producer_id": 7, "first_offset": 0}}, kref.A{kref.M{"producer_id": 1 << 40, "first_offset": 1}, kref.M{"producer_id": 7, "first_offset": 1 << 33}, kref.M{"producer_id": -1, "first_offset": -1}}}[vrt.Input(4)]
			throttle = []int{0, 1, 1 << 30}[vrt.Input(3)]
			session = []int{0, 0x01020304}[vrt.Input(2)]
		}
		// the first fetches are answered with nothing
		empties := vrt.Input(3)
		kind := 0
		if empties > 0 {
			kind = vrt.Input(3)
		}
		n := 0
		cl.Decide = func(c *kfake.Call) *kfake.Fault {
			if c.Name() != "Fetch" {
				return nil
			}
			n++
			empty := n <= empties
			return fk("answer", kfake.Fault{Mutate: func(c *kfake.Call) {
				c.Body["throttle_time_ms"] = throttle
				c.Body["session_id"] = session
				if !empty {
					return
				}
				if kind == 2 {
					c.Body["responses"] = kref.A{}
					return
				}
				for _, t := range kref.ToA(c.Body["responses"]) {
					for _, p := range kref.ToA(t.(kref.M)["partitions"]) {
						p.(kref.M)["records"] = []any{nil, []byte{}}[kind]
					}
				}
			}})
		}
		t.Sample = fmt.Sprintf("fetch v%d %s aborted %v throttle %d session %d, %d empty answers of kind %d first", ver, k.name, kref.Show(p.Aborted), throttle, session, empties, kind)
		t.Out("%s", t.Sample)
		consumeAll(t, consCfg(cl), 0, p)
		t.CheckBad()
	}})
	// all schedules of consumer, decoder and a slow application (delay bounded)
	reg(&Scenario{Prop: "P01", Name: "schedules", Quick: Bound{Dev: 2}, Thorough: Bound{Dev: 3}, Fine: true, Horizon: 10 * time.Minute, Run: func(t *T) {
		cl := t.Cluster(1)
		p := cl.AddTopic("t", 1).Parts[0]
		chunkKinds[0].add(p)
		chunkKinds[1].add(p)
		p.NChunks = 1
		vrt.Quiet(true)
		c, err := healer.NewSimpleConsumer("t", 0, consCfg(cl))
		if err != nil {
			t.Fail("%v", err)
			return
		}
		mch := make(chan *healer.FullMessage)
		vrt.Quiet(false)
		ch, _ := c.Consume(0, mch)
		got := drain(ch, 4, 4*time.Second)
		vrt.AfterFn(time.Second, func() { p.AddRecs("late") })
		got = append(got, drain(ch, 2, 4*time.Second)...)
		vrt.Quiet(true)
		t.checkExact("consumer", got, "t", 0, p.Recs(0))
		t.Out("%s", offs(got))
		t.CheckBad()
	}})
}
