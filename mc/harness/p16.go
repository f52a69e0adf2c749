package main

import (
	"bytes"
	"context"
	"fmt"
	"time"

	"github.com/childe/healer"
	"github.com/childe/healer/kfake"
	"github.com/childe/healer/kref"
	"github.com/childe/healer/vrt"
)

type kv struct{ key, val []byte }

// noise is n bytes that do not compress.
func noise(n int) []byte {
	b := make([]byte, n)
	x := uint32(2463534242)
	for i := range b {
		x ^= x << 13
		x ^= x >> 17
		x ^= x << 5
		b[i] = byte(x >> 11)
	}
	return b
}

// fidelity produces the messages, lets the reference codec judge what was sent
// and consumes it again.
func (t *T) fidelity(codec string, maxCount int, keyed bool, msgs []kv) {
	cl := t.Cl
	cl.StoreRaw = true
	p := cl.AddTopic("t", 1).Parts[0]
	p.Start, p.End = 7, 7
	cfg := prodCfg(cl)
	cfg.CompressionType = codec
	cfg.MessageMaxCount = maxCount
	t0 := vrt.Now().UnixMilli()
	var add func(k, v []byte) error
	var fin func()
	if keyed {
		pr, err := healer.NewProducer("t", cfg)
		if err != nil {
			t.Fail("NewProducer: %v", err)
			return
		}
		add, fin = pr.AddMessage, pr.Close
	} else {
		pr, err := healer.NewSimpleProducer(context.Background(), "t", 0, cfg)
		if err != nil {
			t.Fail("NewSimpleProducer: %v", err)
			return
		}
		add, fin = pr.AddMessage, pr.Close
	}
	for i, m := range msgs {
		if err := add(m.key, m.val); err != nil {
			t.Fail("AddMessage %d: %v", i, err)
			return
		}
	}
	fin()
	t.CheckBad()
	t1 := vrt.Now().UnixMilli()
	id := map[string]int{"none": 0, "gzip": 1, "snappy": 2, "lz4": 3}[codec]
	if len(p.Produced) != len(msgs) {
		t.Fail("%d messages produced, %d sent", len(msgs), len(p.Produced))
		return
	}
	for _, r := range p.ProdReqs {
		for _, b := range r.Batches {
			switch {
			case b.Magic != 2:
				t.Fail("batch with magic %d", b.Magic)
			case b.Attributes != id:
				t.Fail("batch attributes %#x with compression %s", b.Attributes, codec)
			case b.BaseTs < t0 || b.MaxTs > t1:
				t.Fail("batch timestamps %d..%d, sent between %d and %d", b.BaseTs, b.MaxTs, t0, t1)
			}
		}
	}
	// a Producer keeps the order within the keyed and within the unkeyed messages of a partition
	split := func(keyedOnes bool) (got []kref.Rec, want []kv) {
		for _, r := range p.Produced {
			if !keyed || (r.Key != nil) == keyedOnes {
				got = append(got, r)
			}
		}
		for _, m := range msgs {
			if !keyed || (m.key != nil) == keyedOnes {
				want = append(want, m)
			}
		}
		return
	}
	for _, ks := range []bool{true, false} {
		got, want := split(ks)
		if len(got) != len(want) {
			t.Fail("%d messages with key %v produced, %d sent", len(want), ks, len(got))
			return
		}
		for i, r := range got {
			if !sameBytes(r.Key, want[i].key) || !sameBytes(r.Value, want[i].val) || len(r.Headers) != 0 {
				t.Fail("message %d was sent as %v, want key %q value %q", i, r, cut(want[i].key), cut(want[i].val))
				return
			}
		}
	}
	cc := consCfg(cl)
	c := startConsumer(t, "t", 0, cc)
	if c == nil {
		return
	}
	ch, err := c.Consume(-2, nil)
	if err != nil {
		t.Fail("Consume: %v", err)
		return
	}
	got := drain(ch, len(msgs)+1, 3*time.Second)
	t.checkExact("consumed", got, "t", 0, p.Produced)
	t.CheckBad()
	t.Out("%s %d", codec, len(msgs))
}

func cut(b []byte) []byte {
	if len(b) > 40 {
		return b[:40]
	}
	return b
}

var codecNames = []string{"none", "gzip", "snappy", "lz4"}

func init() {
	vals := [][]byte{nil, {}, []byte("a"), {0, 255, 10}}
	fetchVer := func(cl *kfake.Cluster) {
		hi := []int{12, 7}[vrt.Input(2)]
		for _, n := range cl.Nodes {
			n.Versions[1] = [2]int{0, hi}
		}
	}
	reg(&Scenario{Prop: "P16", Name: "contents", Quick: Bound{}, Thorough: Bound{}, Run: func(t *T) {
		cl := t.Cluster(1)
		codec := codecNames[vrt.Input(4)]
		n := 1 + vrt.Input(2)
		if t.tier == "thorough" {
			n = 1 + vrt.Input(3)
		}
		max := 1 + vrt.Input(n)
		if n == 1 {
			fetchVer(cl)
		}
		var ms []kv
		for i := 0; i < n; i++ {
			ms = append(ms, kv{vals[vrt.Input(4)], vals[vrt.Input(4)]})
		}
		t.fidelity(codec, max, vrt.Input(2) == 1, ms)
	}})
	sizes := []int{0, 1, 62, 63, 64, 65, 126, 127, 128, 129, 8190, 8191, 8192, 16383, 16384, 65535, 65536, 100000}
	reg(&Scenario{Prop: "P16", Name: "sizes", Quick: Bound{}, Thorough: Bound{}, Run: func(t *T) {
		cl := t.Cluster(1)
		codec := codecNames[vrt.Input(4)]
		fetchVer(cl)
		mk := func(n int, flat bool) []byte {
			if flat {
				return bytes.Repeat([]byte("x"), n)
			}
			return noise(n)
		}
		flat := vrt.Input(2) == 1
		s := sizes[vrt.Input(len(sizes))]
		var ms []kv
		switch vrt.Input(3) {
		case 0:
			ms = []kv{{nil, mk(s, flat)}}
		case 1:
			ms = []kv{{mk(s, flat), []byte("v")}, {nil, []byte("w")}}
		case 2:
			ms = []kv{{[]byte("k"), mk(s, flat)}, {mk(s, !flat), mk(s, flat)}, {nil, nil}}
		}
		t.fidelity(codec, 10, vrt.Input(2) == 1, ms)
	}})
	counts := []int{1, 2, 3, 62, 63, 64, 65, 66, 127, 128, 129, 130, 1000, 9000}
	reg(&Scenario{Prop: "P16", Name: "counts", MaxSteps: 3000000, Quick: Bound{}, Thorough: Bound{}, Run: func(t *T) {
		t.Cluster(1)
		codec := codecNames[vrt.Input(4)]
		n := counts[vrt.Input(len(counts))]
		var ms []kv
		for i := 0; i < n; i++ {
			ms = append(ms, kv{[]byte(fmt.Sprintf("k%d", i%7)), []byte(fmt.Sprintf("value %d", i))})
		}
		max := []int{n, n + 1, (n + 1) / 2}[vrt.Input(3)]
		t.fidelity(codec, max, vrt.Input(2) == 1, ms)
	}})
	reg(&Scenario{Prop: "P16", Name: "large", Quick: Bound{}, Thorough: Bound{}, Run: func(t *T) {
		t.Cluster(1)
		codec := codecNames[vrt.Input(4)]
		v := noise(5<<20 + 3)
		if vrt.Input(2) == 1 {
			v = bytes.Repeat([]byte("healer "), len(v)/7)
		}
		t.fidelity(codec, 10, false, []kv{{nil, v}, {[]byte("k"), []byte("w")}})
	}})
	// producers that send at the same time
	reg(&Scenario{Prop: "P16", Name: "concurrent", Fine: true, Quick: Bound{Dev: 1}, Thorough: Bound{Dev: 2}, MaxSteps: 200000, Horizon: time.Hour, Run: func(t *T) {
		cl := t.Cluster(2)
		cl.StoreRaw = true
		ps := cl.AddTopic("t", 1, 2).Parts
		codec := codecNames[vrt.Input(4)]
		n, want := 0, [2][]kv{}
		vrt.Quiet(true)
		for i := range ps {
			cfg := prodCfg(cl)
			cfg.CompressionType = codec
			cfg.MessageMaxCount = 2
			cfg.ClientID = fmt.Sprint("p", i)
			pr, err := healer.NewSimpleProducer(context.Background(), "t", int32(i), cfg)
			if err != nil {
				t.Fail("NewSimpleProducer: %v", err)
				return
			}
			for k := 0; k < 2; k++ {
				want[i] = append(want[i], kv{[]byte(fmt.Sprintf("key %d", i)), bytes.Repeat([]byte{byte('a' + 2*i + k)}, 30+40*i)})
			}
			vrt.GoNamed("producer", func() {
				for _, m := range want[i] {
					if err := pr.AddMessage(m.key, m.val); err != nil {
						t.Fail("AddMessage: %v", err)
					}
				}
				n++
			})
		}
		vrt.Quiet(false)
		if !vrt.WaitUntil("producers", time.Minute, func() bool { return n == 2 }) {
			t.Fail("AddMessage does not return")
			return
		}
		// and consumers
		var apps [2]*app
		for i := range ps {
			vrt.Quiet(true)
			cfg := consCfg(cl)
			cfg.ClientID = fmt.Sprint("c", i)
			c := startConsumer(t, "t", int32(i), cfg)
			if c == nil {
				return
			}
			vrt.Quiet(false)
			ch, _ := c.Consume(-2, nil)
			apps[i] = startApp(ch, -1)
		}
		vrt.WaitUntil("records", time.Minute, func() bool { return len(apps[0].got) >= 2 && len(apps[1].got) >= 2 })
		vrt.Quiet(true)
		for i, p := range ps {
			if len(p.Produced) != 2 {
				t.Fail("2 messages produced, %d sent", len(p.Produced))
				return
			}
			for k, r := range p.Produced {
				if !sameBytes(r.Key, want[i][k].key) || !sameBytes(r.Value, want[i][k].val) {
					t.Fail("a message was sent as %v, want key %q value %q", r, want[i][k].key, want[i][k].val)
				}
			}
			t.checkExact("consumed", apps[i].got, "t", int32(i), p.Produced)
		}
		t.CheckBad()
		t.Out("%s", codec)
	}})
	// one consumer reads batches of every codec, produced one after another
	reg(&Scenario{Prop: "P16", Name: "mixed-codecs", Quick: Bound{}, Thorough: Bound{}, Run: func(t *T) {
		cl := t.Cluster(1)
		cl.StoreRaw = true
		p := cl.AddTopic("t", 1).Parts[0]
		fetchVer(cl)
		var want []kref.Rec
		for i := 0; i < 3; i++ {
			cfg := prodCfg(cl)
			cfg.CompressionType = codecNames[vrt.Input(4)]
			pr, err := healer.NewSimpleProducer(context.Background(), "t", 0, cfg)
			if err != nil {
				t.Fail("NewSimpleProducer: %v", err)
				return
			}
			for k := 0; k < 2; k++ {
				pr.AddMessage([]byte(fmt.Sprint("k", k)), []byte(fmt.Sprint("v", i, k)))
			}
			pr.Close()
			vrt.Sleep(time.Second)
		}
		want = p.Produced
		if len(want) != 6 {
			t.Fail("6 messages produced, %d sent", len(want))
			return
		}
		from := int64(vrt.Input(7))
		c := startConsumer(t, "t", 0, consCfg(cl))
		if c == nil {
			return
		}
		ch, _ := c.Consume(from, nil)
		t.checkExact("consumed", drain(ch, 8, 3*time.Second), "t", 0, want[from:])
		t.CheckBad()
	}})
}
