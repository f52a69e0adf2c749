package main

import (
	"context"
	"encoding/binary"
	"fmt"
	"strings"
	"time"

	"github.com/childe/healer"
	"github.com/childe/healer/kfake"
	"github.com/childe/healer/kref"
	"github.com/childe/healer/vrt"
)

// garble damages a response frame: a strict prefix, a field or a byte (or
// several) overwritten, or bytes too many.  what describes it.
func garble(frame []byte, marks []kref.Mark, bytesToo bool) (out []byte, what string) {
	fix := func(b []byte) []byte {
		binary.BigEndian.PutUint32(b, uint32(len(b)-4))
		return b
	}
	// another address of a broker is not recognisable as damage
	lo, hi := len(frame), 0
	for i, m := range marks {
		if strings.HasPrefix(m.Path, "Metadata.brokers[") {
			lo, hi = min(lo, m.Off-3), len(frame)
			if i+1 < len(marks) {
				hi = marks[i+1].Off
			}
		}
	}
	n := 3
	if bytesToo {
		n = 4
	}
	switch vrt.Input(n) {
	case 1: // a field with a boundary value; not the length of the frame
		var ms []kref.Mark
		for _, m := range marks {
			if m.Kind != "frame" && !strings.HasSuffix(m.Path, ".port") {
				ms = append(ms, m)
			}
		}
		m := ms[vrt.Input(len(ms))]
		old := frame[m.Off : m.Off+m.Len]
		var val []byte
		var txt string
		switch {
		case strings.HasSuffix(m.Kind, "c") || m.Kind == "tag": // a varint
			v, _ := binary.Uvarint(old)
			vs := [][]byte{{0}, {1}, uv(v + 1), uv(v - 1), uv(v + 100), uv(1 << 20), uv(1<<31 - 1), uv(1 << 31), uv(1<<32 - 1), uv(1<<63 - 1), uv(1 << 63), uv(1<<64 - 1), []byte(strings.Repeat("\xff", 12)), {0x80}}
			val = vs[vrt.Input(len(vs))]
		case m.Len == 1:
			val = []byte{[]byte{0, 1, 0x7f, 0x80, 0xff}[vrt.Input(5)]}
		case m.Len == 2:
			v := int64(int16(binary.BigEndian.Uint16(old)))
			vs := []int64{-1, 0, 1, v + 1, v - 1, v + 100, 0x7fff, -0x8000, -2}
			val = binary.BigEndian.AppendUint16(nil, uint16(vs[vrt.Input(len(vs))]))
		case m.Len == 4:
			v := int64(int32(binary.BigEndian.Uint32(old)))
			vs := []int64{-1, 0, 1, v + 1, v - 1, v + 100, 0x7fffffff, -0x80000000, 1 << 20, 1 << 28, -2}
			val = binary.BigEndian.AppendUint32(nil, uint32(vs[vrt.Input(len(vs))]))
		default:
			vs := []int64{-1, 0, 1, 1<<63 - 1, -1 << 63, -2}
			val = binary.BigEndian.AppendUint64(nil, uint64(vs[vrt.Input(len(vs))]))
		}
		txt = fmt.Sprintf("%s = % x", m.Path, val)
		b := append(append(append([]byte(nil), frame[:m.Off]...), val...), frame[m.Off+m.Len:]...)
		return fix(b), txt
	case 2: // bytes too many
		k := []int{1, 3, 4, 17}[vrt.Input(4)]
		return fix(append(append([]byte(nil), frame...), make([]byte, k)...)), fmt.Sprintf("%d bytes too many", k)
	case 3: // one byte, or four
		var at []int
		for i := 8; i < len(frame); i++ {
			if i < lo || i >= hi {
				at = append(at, i)
			}
		}
		i := at[vrt.Input(len(at))]
		b := append([]byte(nil), frame...)
		v := vrt.Input(8)
		w := 1
		if v >= 4 {
			w = 4
		}
		vals := [][]byte{{0}, {0x7f}, {0x80}, {0xff}, {0, 0, 0, 0}, {0x7f, 0xff, 0xff, 0xff}, {0x80, 0, 0, 0}, {0xff, 0xff, 0xff, 0xff}}
		copy(b[i:min(i+w, len(b))], vals[v])
		return b, fmt.Sprintf("bytes at %d = % x", i, vals[v])
	}
	k := vrt.Input(len(frame) - 4) // a prefix of the body
	return fix(append([]byte(nil), frame[:4+k]...)), fmt.Sprintf("the first %d of %d bytes", k, len(frame)-4)
}

// shrink cuts bytes off the end of the data of the first batch (or message)
// of the records whose length is at off.
func shrink(t *T, b []byte, off, magic int) []byte {
	sub := func(at, n int) {
		binary.BigEndian.PutUint32(b[at:], binary.BigEndian.Uint32(b[at:])-uint32(n))
	}
	first := off + 4
	if binary.BigEndian.Uint32(b[off:]) < 20 { // nothing to cut
		t.Trivial()
		return b
	}
	end := first + 12 + int(binary.BigEndian.Uint32(b[first+8:]))
	data := first + 61
	val := 0
	if magic < 2 {
		val = first + 18 + 8*magic
		if l := int32(binary.BigEndian.Uint32(b[val:])); l > 0 {
			val += int(l)
		}
		val += 4
		data = val + 4
	}
	n := 1
	if end > data {
		n = 1 + vrt.Input(end-data)
	} else {
		t.Trivial()
		return b
	}
	sub(0, n)
	sub(off, n)
	sub(first+8, n)
	if val > 0 {
		sub(val, n)
	}
	t.Sample = fmt.Sprintf("the data of the first batch lacks %d of %d bytes", n, end-data)
	return append(b[:end-n], b[end:]...)
}

func uv(v uint64) []byte { return binary.AppendUvarint(nil, v) }

// garbleNth damages the answer to the n-th request of the kind.
func (t *T) garbleNth(api string, n int, bytesToo bool) (done *bool) {
	done = new(bool)
	i := 0
	t.Cl.Decide = func(c *kfake.Call) *kfake.Fault {
		if c.Name() != api {
			return nil
		}
		if i++; i != n {
			return nil
		}
		return &kfake.Fault{Name: "garbled", Raw: func(frame []byte, marks []kref.Mark) []byte {
			*done = true
			b, what := garble(frame, marks, bytesToo)
			if t.tier == "thorough" && t.twice && len(b) > 8 { // and a second damage
				if v := vrt.Input(1 + 8*(len(b)-8)); v > 0 {
					v--
					i, w := 8+v/8, 1+v%8/4*3
					vals := [][]byte{{0}, {0x7f}, {0x80}, {0xff}, {0, 0, 0, 0}, {0x7f, 0xff, 0xff, 0xff}, {0x80, 0, 0, 0}, {0xff, 0xff, 0xff, 0xff}}
					copy(b[i:min(i+w, len(b))], vals[v%8])
					what += fmt.Sprintf(", bytes at %d = % x", i, vals[v%8])
				}
			}
			if _, err := kref.DecodeResponse(c.Req.API, c.Req.Ver, b); err == nil {
				t.plausible = true
			}
			t.Sample = fmt.Sprintf("%s v%d: %s", c.Name(), c.Req.Ver, what)
			return b
		}}
	}
	return done
}

func init() {
	caps := Bound{Caps: map[byte]int{'S': 0}}
	// the answer to a single request
	for _, k := range wireKinds {
		k := k
		if k.api == "Fetch" || k.api == "ApiVersions" {
			continue
		}
		api := kref.ByName[k.api]
		reg(&Scenario{Prop: "P21", Name: "response-" + k.api, Quick: caps, Thorough: caps, Run: func(t *T) {
			ver := k.versions[vrt.Input(len(k.versions))]
			var body M
			b := respBroker(t, k, ver, false, &body)
			if b == nil {
				return
			}
			g := &respGen{gen: &gen{big: 1000}, api: api, ver: ver, noErr: true, noLeaf: true}
			g.nulls = vrt.Input(2) == 1
			body = g.strct(api.Resp, 1)
			t.twice = true
			t.garbleNth(k.api, 1, true)
			for i := 0; i < 2; i++ {
				req, _ := k.mk(&gen{big: 1000}, "cid")
				var resp healer.Response
				var err error
				if !call("request", 10*time.Minute, func() { resp, err = b.RequestAndGet(req) }) {
					t.Fail("%s: the request does not return", t.Sample)
					return
				}
				if err == nil && resp == nil {
					t.Fail("%s: neither a response nor an error", t.Sample)
				}
				if i == 1 && err != nil {
					t.Fail("%s: the next request fails: %v", t.Sample, err)
				}
			}
			t.Out("%s", t.Sample)
		}})
	}

	// the length of the frame itself
	reg(&Scenario{Prop: "P21", Name: "frame-length", Quick: caps, Thorough: caps, Run: func(t *T) {
		cl := t.Cluster(1)
		cl.AddTopic("t", 1).Parts[0].AddRecs("a")
		api := []string{"ApiVersions", "Metadata", "ListOffsets", "Fetch"}[vrt.Input(4)]
		vals := []int64{-1, 0, 1, 3, 4, 5, -0x80000000, 1 << 20, -5}
		v := vals[vrt.Input(len(vals))]
		n := 0
		cl.Decide = func(c *kfake.Call) *kfake.Fault {
			if c.Name() != api {
				return nil
			}
			if n++; n != 1 {
				return nil
			}
			return &kfake.Fault{Name: "length", Raw: func(f []byte, _ []kref.Mark) []byte {
				return append(binary.BigEndian.AppendUint32(nil, uint32(v)), f[4:]...)
			}}
		}
		t.Sample = fmt.Sprintf("%s: frame length %d", api, v)
		cfg := consCfg(cl)
		c := startConsumer(t, "t", 0, cfg)
		if c == nil {
			return
		}
		ch, err := c.Consume(-2, nil)
		if err != nil {
			t.Fail("Consume: %v", err)
			return
		}
		t.checkExact(t.Sample, drain(ch, 2, 2*time.Minute), "t", 0, cl.Part("t", 0).Recs(0))
	}})

	// connecting
	for _, api := range []string{"ApiVersions", "SaslHandshake", "SaslAuthenticate"} {
		api := api
		reg(&Scenario{Prop: "P21", Name: "connect-" + api, Quick: caps, Thorough: caps, Run: func(t *T) {
			cl := t.Cluster(1)
			cfg := healer.DefaultBrokerConfig()
			if api != "ApiVersions" {
				cfg.Sasl, cfg.TLSEnabled, cfg.TLS = security(cl, true, false)
			}
			r := kref.ByName[api]
			only(cl, r.Key, vrt.Input(map[string]int{"ApiVersions": DefaultMax(r.Key) + 1, "SaslHandshake": 2, "SaslAuthenticate": 1}[api]))
			t.garbleNth(api, 1, true)
			for i := 0; i < 2; i++ {
				var b *healer.Broker
				var err error
				if !call("connect", 10*time.Minute, func() { b, err = healer.NewBroker("b1:9091", 1, cfg) }) {
					t.Fail("%s: connecting does not return", t.Sample)
					return
				}
				if i == 1 && err != nil {
					t.Fail("%s: the next connection fails: %v", t.Sample, err)
				}
				if err == nil {
					call("request", 10*time.Minute, func() { b.RequestAndGet(healer.NewListGroupsRequest("cid")) })
					b.Close()
				}
			}
		}})
	}

	// fetched data of every layout
	for _, k := range chunkKinds {
		k := k
		reg(&Scenario{Prop: "P21", Name: "fetch-" + k.name, Quick: caps, Thorough: caps, Horizon: 2 * time.Hour, Run: func(t *T) {
			cl := t.Cluster(1)
			vers := map[int][]int{2: {10, 7}, 1: {0}, 0: {0}}[k.magic]
			only(cl, 1, vers[vrt.Input(len(vers))])
			p := cl.AddTopic("t", 1).Parts[0]
			k.add(p)
			k.add(p)
			t.garbleNth("Fetch", 1, true)
			t.goesOn(p, k.magic, false, func(ch chan *healer.FullMessage) {
				c := startConsumer(t, "t", 0, consCfg(cl))
				if c != nil {
					c.Consume(-2, ch)
				}
			})
		}})
	}

	// the data of the first batch lacks its end (or all of it), and every length says so
	for _, k := range chunkKinds {
		k := k
		reg(&Scenario{Prop: "P21", Name: "shrunk-" + k.name, Quick: caps, Thorough: caps, Horizon: 2 * time.Hour, Run: func(t *T) {
			cl := t.Cluster(1)
			vers := map[int][]int{2: {10, 7}, 1: {0}, 0: {0}}[k.magic]
			only(cl, 1, vers[vrt.Input(len(vers))])
			p := cl.AddTopic("t", 1).Parts[0]
			k.add(p)
			k.add(p)
			n := 0
			cl.Decide = func(c *kfake.Call) *kfake.Fault {
				if c.Name() != "Fetch" {
					return nil
				}
				if n++; n != 1 {
					return nil
				}
				return &kfake.Fault{Name: "shrunk", Raw: func(frame []byte, marks []kref.Mark) []byte {
					for _, m := range marks {
						if m.Len == 4 && strings.HasSuffix(m.Path, ".records") {
							return shrink(t, append([]byte(nil), frame...), m.Off, k.magic)
						}
					}
					panic("no records")
				}}
			}
			t.goesOn(p, k.magic, false, func(ch chan *healer.FullMessage) {
				c := startConsumer(t, "t", 0, consCfg(cl))
				if c != nil {
					c.Consume(-2, ch)
				}
			})
		}})
	}

	// consumers of all kinds, damage to any request of their life
	for _, api := range []string{"Metadata", "ListOffsets", "FindCoordinator", "JoinGroup", "SyncGroup", "Heartbeat", "OffsetFetch", "OffsetCommit"} {
		api := api
		reg(&Scenario{Prop: "P21", Name: "group-" + api, Quick: caps, Thorough: caps, Horizon: 4 * time.Hour, MaxSteps: 1000000, Run: func(t *T) {
			cl := t.Cluster(2)
			p := cl.AddTopic("t", 2).Parts[0]
			p.AddRecs("a")
			cfg := groupCfg(cl, "cid")
			n := 1 + vrt.Input(3)
			t.garbleNth(api, n, true)
			t.goesOn(p, 2, api == "JoinGroup" || api == "SyncGroup" || api == "Metadata" && n > 1, func(ch chan *healer.FullMessage) {
				if g := startGroup(t, "t", cfg); g != nil {
					g.Consume(ch)
				}
			})
		}})
	}
	for _, api := range []string{"Metadata", "ListOffsets"} {
		api := api
		reg(&Scenario{Prop: "P21", Name: "consumer-" + api, Quick: caps, Thorough: caps, Horizon: 4 * time.Hour, MaxSteps: 1000000, Run: func(t *T) {
			cl := t.Cluster(2)
			p := cl.AddTopic("t", 2).Parts[0]
			p.AddRecs("a")
			n := 1 + vrt.Input(2)
			t.garbleNth(api, n, true)
			t.goesOn(p, 2, n == 2, func(ch chan *healer.FullMessage) {
				for i := 0; i < 5; i++ {
					c, err := healer.NewConsumer(consCfg(cl), "t")
					if err == nil {
						c.Consume(ch)
						return
					}
				}
				t.Fail("NewConsumer keeps failing")
			})
		}})
	}

	// producers
	for _, api := range []string{"Metadata", "Produce"} {
		api := api
		reg(&Scenario{Prop: "P21", Name: "producer-" + api, Quick: caps, Thorough: caps, Horizon: 4 * time.Hour, MaxSteps: 1000000, Run: func(t *T) {
			cl := t.Cluster(2)
			p := cl.AddTopic("t", 2).Parts[0]
			cfg := prodCfg(cl)
			cfg.MessageMaxCount = 1
			cfg.MetadataMaxAgeMS = 300000
			n := 1 + vrt.Input(3)
			simple := vrt.Input(2) == 1
			t.garbleNth(api, n, true)
			var add func(k, v []byte) error
			if !call("create", time.Hour, func() {
				for i := 0; i < 5 && add == nil; i++ {
					if simple {
						if pr, err := healer.NewSimpleProducer(context.Background(), "t", 0, cfg); err == nil {
							add = pr.AddMessage
						}
					} else if pr, err := healer.NewProducer("t", cfg); err == nil {
						add = pr.AddMessage
					}
				}
			}) || add == nil {
				t.Fail("%s: the producer cannot be created", t.Sample)
				return
			}
			var err error
			for i := 0; i < 6; i++ {
				if i == 5 { // the metadata are refreshed meanwhile
					vrt.Sleep(11 * time.Minute)
				}
				if !call("add", time.Hour, func() { err = add([]byte("k"), []byte(fmt.Sprint(i))) }) {
					t.Fail("%s: AddMessage does not return", t.Sample)
					return
				}
			}
			if err != nil || len(p.Produced) == 0 || string(p.Produced[len(p.Produced)-1].Value) != "5" {
				t.Fail("%s: the producer does not recover: %v", t.Sample, err)
			}
		}})
	}

	// administration
	for _, a := range adminCalls {
		a := a
		reg(&Scenario{Prop: "P21", Name: "admin-" + a.name, Quick: caps, Thorough: caps, Horizon: 4 * time.Hour, Run: func(t *T) {
			cl := adminWorld(t)
			c, err := healer.NewClient(cl.Bootstrap(), "cid")
			if err != nil {
				t.Fail("NewClient: %v", err)
				return
			}
			api := a.api
			if vrt.Input(2) == 1 {
				api = "FindCoordinator"
			} else if vrt.Input(2) == 1 {
				api = "Metadata"
			}
			done := t.garbleNth(api, 1, true)
			for i := 0; i < 2; i++ {
				if !call(a.name, 20*time.Minute, func() { _, err = a.do(c, 0) }) {
					t.Fail("%s: the call does not return", t.Sample)
					return
				}
				if !*done {
					t.Trivial()
					return
				}
			}
			if err != nil {
				t.Fail("%s: the next call fails: %v", t.Sample, err)
			}
		}})
	}
}

// DefaultMax is the highest version the brokers announce.
func DefaultMax(key int) int { return kfake.DefaultVersions()[key][1] }

// goesOn starts a consumer, keeps appending records and expects that they are
// delivered in the end.  If lenient, that is not expected after damage that
// leaves a well-formed response (the topic has other partitions, a member
// other metadata), as it cannot be recognised.
func (t *T) goesOn(p *kfake.Part, magic int, lenient bool, start func(ch chan *healer.FullMessage)) {
	ch := make(chan *healer.FullMessage, 1000)
	vrt.GoNamed("consume", func() { start(ch) })
	vrt.Sleep(2 * time.Second)
	add := func(v string) {
		if magic < 2 {
			rs := []kref.Rec{{Offset: p.End, Timestamp: 5, Value: []byte(v)}}
			p.Append(&kfake.Chunk{Base: p.End, Last: p.End, Bytes: kref.EncodeMessages(magic, kref.None, rs), Recs: rs})
		} else {
			p.AddRecs(v)
		}
	}
	for i := 0; i < 40; i++ {
		v := fmt.Sprintf("new%d", i)
		add(v)
		for _, m := range drain(ch, 100, 5*time.Second) {
			if m.Error == nil && m.Message != nil && string(m.Message.Value) == v {
				t.Out("%s", t.Sample)
				return
			}
		}
	}
	if lenient && t.plausible {
		t.Out("%s (as told)", t.Sample)
		return
	}
	t.Fail("%s: no record is delivered any more", t.Sample)
}
