package main

import (
	"fmt"
	"io"
	"time"

	"github.com/childe/healer"
	"github.com/childe/healer/kfake"
	"github.com/childe/healer/kref"
	"github.com/childe/healer/vrt"
)

// probe is a request whose answer tells which request it belongs to.
type probe struct {
	name string
	req  healer.Request
	want func(r healer.Response) string // "" when the answer is the right one
}

func probeCluster(t *T, n int) *kfake.Cluster {
	cl := t.Cluster(n)
	for i := 0; i < 4; i++ {
		tp := cl.AddTopic(fmt.Sprintf("t%d", i), 1)
		tp.Parts[0].End = int64(100 + i)
		tp.Parts[0].Start = int64(10 + i)
		cl.Group(fmt.Sprintf("g%d", i)).SetCommitted("t0", 0, int64(1000+i))
	}
	return cl
}

// mkProbe makes probe i of a kind (0 metadata, 1 offsets, 2 committed offset, 3 list of topics).
func mkProbe(kind, i int) *probe {
	topic := fmt.Sprintf("t%d", i)
	switch kind {
	case 0:
		return &probe{"metadata " + topic, healer.NewMetadataRequest("cid", []string{topic}), func(r healer.Response) string {
			m, ok := r.(healer.MetadataResponse)
			if !ok || len(m.TopicMetadatas) != 1 || m.TopicMetadatas[0].TopicName != topic {
				return fmt.Sprintf("%+v", r)
			}
			return ""
		}}
	case 1:
		return &probe{"offsets " + topic, healer.NewOffsetsRequest(topic, []int32{0}, -1, 1, "cid"), func(r healer.Response) string {
			m, ok := r.(healer.OffsetsResponse)
			if !ok || len(m.TopicPartitionOffsets) != 1 || len(m.TopicPartitionOffsets[topic]) != 1 || m.TopicPartitionOffsets[topic][0].GetOffset() != int64(100+i) {
				return fmt.Sprintf("%+v", r)
			}
			return ""
		}}
	}
	q := healer.NewOffsetFetchRequest(1, "cid", fmt.Sprintf("g%d", i))
	q.AddPartiton("t0", 0)
	return &probe{"committed offset of group " + fmt.Sprint(i), q, func(r healer.Response) string {
		m, ok := r.(healer.OffsetFetchResponse)
		if !ok || len(m.Topics) != 1 || len(m.Topics[0].Partitions) != 1 || m.Topics[0].Partitions[0].Offset != int64(1000+i) {
			return fmt.Sprintf("%+v", r)
		}
		return ""
	}}
}

// answerFaults are the ways an answer can be late, lost, cut, repeated or somebody else's.
func answerFaults(cl *kfake.Cluster, c *kfake.Call, timeout time.Duration) []*kfake.Fault {
	o := []*kfake.Fault{
		fk("slow", kfake.Fault{Delay: timeout / 2}),
		fk("late", kfake.Fault{Delay: timeout + timeout/2}),
		fk("silent", kfake.Fault{Drop: true}),
		fk("eof", kfake.Fault{Hang: io.EOF}),
		fk("reset", kfake.Fault{Hang: syscallReset}),
		fk("part3-silent", kfake.Fault{Partial: 3}),
		fk("part9-silent", kfake.Fault{Partial: 9}),
		fk("cut-silent", kfake.Fault{Partial: -1}),
		fk("cut-eof", kfake.Fault{Partial: -1, Hang: io.EOF}),
		fk("part4-eof", kfake.Fault{Partial: 4, Hang: io.EOF}),
	}
	if c.Name() == "ApiVersions" {
		return append(o, fk("err35", kfake.Fault{Err: 35}))
	}
	return append(o,
		fk("twice", kfake.Fault{Raw: func(f []byte, _ []kref.Mark) []byte { return append(append([]byte{}, f...), f...) }}),
		fk("trailing-garbage", kfake.Fault{Raw: func(f []byte, _ []kref.Mark) []byte { return append(append([]byte{}, f...), 0, 0, 0, 9, 1) }}),
		fk("other-correlation-id", kfake.Fault{Raw: func(f []byte, _ []kref.Mark) []byte {
			g := append([]byte{}, f...)
			g[7] ^= 1
			return g
		}}),
		fk("earlier-answer-first", kfake.Fault{Raw: func(f []byte, _ []kref.Mark) []byte {
			for i := len(cl.Calls) - 1; i >= 0; i-- {
				p := cl.Calls[i]
				if p != c && p.Conn == c.Conn && p.Name() == c.Name() && p.Sent != nil {
					return append(append([]byte{}, p.Sent...), f...)
				}
			}
			return f
		}}),
		fk("empty-frame-first", kfake.Fault{Raw: func(f []byte, _ []kref.Mark) []byte { return append([]byte{0, 0, 0, 0}, f...) }}),
	)
}

func init() {
	const timeout = time.Second
	run := func(nG, nR int, closer bool) func(t *T) {
		return func(t *T) {
			cl := probeCluster(t, 1)
			on := false
			t.Faults(func(c *kfake.Call) []*kfake.Fault {
				if !on {
					return nil
				}
				return answerFaults(cl, c, timeout)
			})
			cfg := healer.DefaultBrokerConfig()
			cfg.Net.TimeoutMS = int(timeout / time.Millisecond)
			b, err := healer.NewBroker("b1:9091", 1, cfg)
			if err != nil {
				t.Fail("NewBroker: %v", err)
				return
			}
			on = true
			done, closed := 0, false
			res := make([]string, nG)
			ask := func(p *probe, mayFail func() bool) bool {
				r, err := b.RequestAndGet(p.req)
				if err != nil {
					if !mayFail() {
						t.Fail("%s failed without any fault: %v", p.name, err)
					}
					return false
				}
				if w := p.want(r); w != "" {
					t.Fail("%s got the answer to something else: %s", p.name, w)
				}
				return true
			}
			for g := 0; g < nG; g++ {
				g := g
				vrt.GoNamed(fmt.Sprintf("user%d", g), func() {
					for k := 0; k < nR; k++ {
						if ask(mkProbe((g/2+k)%3, g), func() bool { return t.nf > 0 || closed }) {
							res[g] += "+"
						} else {
							res[g] += "-"
						}
					}
					done++
				})
			}
			if closer {
				vrt.GoNamed("closer", func() { closed = true; b.Close(); b.Close() })
			}
			if !vrt.WaitUntil("users", time.Minute, func() bool { return done == nG }) {
				t.Fail("a request did not return")
				return
			}
			on = false
			vrt.Sleep(3 * time.Second)
			// the connection recovers
			ok := false
			for i := 0; i < 3 && !ok; i++ {
				ok = ask(mkProbe(i, 3), func() bool { return t.nf > 0 || closed })
			}
			if !ok {
				t.Fail("requests keep failing after the fault is over")
			}
			t.Out("%v %v conns=%d", res, ok, len(cl.AllConns))
			t.CheckBad()
		}
	}
	reg(&Scenario{Prop: "P09", Name: "two-users", Quick: Bound{Dev: 2, Caps: map[byte]int{'S': 1}}, Thorough: Bound{Dev: 3, Caps: map[byte]int{'S': 2}}, Run: run(2, 2, false)})
	reg(&Scenario{Prop: "P09", Name: "two-users-fine", Fine: true, Quick: Bound{Dev: 2, Caps: map[byte]int{'C': 1}}, Thorough: Bound{Dev: 3, Caps: map[byte]int{'C': 1}}, Run: run(2, 1, false)})
	reg(&Scenario{Prop: "P09", Name: "three-users", Quick: Bound{Dev: 2, Caps: map[byte]int{'S': 1}}, Thorough: Bound{Dev: 3, Caps: map[byte]int{'S': 1}}, Run: run(3, 2, false)})
	reg(&Scenario{Prop: "P09", Name: "close-concurrently", Fine: true, Quick: Bound{Dev: 2, Caps: map[byte]int{'C': 1}}, Thorough: Bound{Dev: 3, Caps: map[byte]int{'C': 1}}, Run: run(2, 2, true)})

	// however the answer is cut into pieces on its way, it is read completely and exactly
	reg(&Scenario{Prop: "P09", Name: "fragments", Quick: Bound{Dev: 0}, Thorough: Bound{Dev: 0}, Run: func(t *T) {
		cl := probeCluster(t, 1)
		kind := vrt.Input(3)
		mask := vrt.Input(1 << 10) // cut after byte i+1
		tail := vrt.Input(2)       // the rest in one piece or byte by byte
		on := false
		cl.Frag = func(f []byte) []int {
			if !on {
				return nil
			}
			var o []int
			last := 0
			for i := 0; i < 10 && i+1 < len(f); i++ {
				if mask&(1<<i) != 0 {
					o = append(o, i+1-last)
					last = i + 1
				}
			}
			if tail == 1 {
				for ; last < len(f); last++ {
					o = append(o, 1)
				}
			}
			return o
		}
		cfg := healer.DefaultBrokerConfig()
		cfg.Net.TimeoutMS = int(timeout / time.Millisecond)
		b, err := healer.NewBroker("b1:9091", 1, cfg)
		if err != nil {
			t.Fail("NewBroker: %v", err)
			return
		}
		on = true
		for i := 0; i < 3; i++ {
			p := mkProbe((kind+i)%3, i)
			r, err := b.RequestAndGet(p.req)
			if err != nil {
				t.Fail("%s failed: %v", p.name, err)
				return
			}
			if w := p.want(r); w != "" {
				t.Fail("%s got the answer to something else: %s", p.name, w)
			}
		}
		if len(cl.AllConns) != 1 {
			t.Fail("%d connections were used", len(cl.AllConns))
		}
		t.CheckBad()
	}})

	// several goroutines share the brokers of a cluster; the metadata refresh uses the same connections
	reg(&Scenario{Prop: "P09", Name: "shared-brokers", TimeDev: true, Quick: Bound{Dev: 2, Caps: map[byte]int{'C': 1}}, Thorough: Bound{Dev: 3, Caps: map[byte]int{'C': 1}}, Run: func(t *T) {
		cl := probeCluster(t, 2)
		for i := 0; i < 4; i++ {
			cl.Part(fmt.Sprintf("t%d", i), 0).Leader = int32(1 + i%2)
		}
		cl.Coord = func(g string) int32 {
			if g == "g0" {
				return 1
			}
			return 2
		}
		on := false
		t.Faults(func(c *kfake.Call) []*kfake.Fault {
			if !on {
				return nil
			}
			return answerFaults(cl, c, 3*time.Second)
		})
		cfg := healer.DefaultBrokerConfig()
		cfg.Net.TimeoutMS = 3000
		cfg.MetadataRefreshIntervalMS = 700
		bs, err := healer.NewBrokersWithConfig(cl.Bootstrap(), cfg)
		if err != nil {
			t.Fail("NewBrokers: %v", err)
			return
		}
		on = true
		done := 0
		res := make([]string, 3)
		for g := 0; g < 3; g++ {
			g := g
			vrt.GoNamed(fmt.Sprintf("user%d", g), func() {
				defer func() { done++ }()
				topic := fmt.Sprintf("t%d", g)
				say := func(err error, what string) bool {
					if err == nil {
						res[g] += "+"
						return true
					}
					res[g] += "-"
					if t.nf == 0 {
						t.Fail("%s failed without any fault: %v", what, err)
					}
					return false
				}
				if m, err := bs.RequestMetaData("cid", []string{topic}); say(err, "metadata") {
					if len(m.TopicMetadatas) != 1 || m.TopicMetadatas[0].TopicName != topic {
						t.Fail("metadata of %s: got %+v", topic, m.TopicMetadatas)
					}
				}
				grp := fmt.Sprintf("g%d", g)
				if m, err := bs.FindCoordinator("cid", grp); say(err, "coordinator") {
					if m.Coordinator.NodeID != cl.Coord(grp) {
						t.Fail("coordinator of %s: got %+v", grp, m.Coordinator)
					}
				}
				if m, err := bs.RequestOffsets("cid", topic, 0, -1, 1); say(err, "offsets") {
					if len(m) != 1 || len(m[0].TopicPartitionOffsets) != 1 || len(m[0].TopicPartitionOffsets[topic]) != 1 || m[0].TopicPartitionOffsets[topic][0].GetOffset() != int64(100+g) {
						t.Fail("offsets of %s: got %+v", topic, m)
					}
				}
			})
		}
		if !vrt.WaitUntil("users", 5*time.Minute, func() bool { return done == 3 }) {
			t.Fail("a request did not return")
		}
		on = false
		bs.Close()
		t.Out("%v conns=%d", res, len(cl.AllConns))
		t.CheckBad()
	}})

	// fetches: an answer to an earlier fetch is never taken for the answer to a later one
	reg(&Scenario{Prop: "P09", Name: "fetch-answers", Quick: Bound{Dev: 2, Caps: map[byte]int{'S': 1}}, Thorough: Bound{Dev: 3, Caps: map[byte]int{'S': 1}}, Horizon: 2 * time.Hour, Run: func(t *T) {
		cl := t.Cluster(1)
		only(cl, 1, []int{10, 7, 0}[vrt.Input(3)])
		p := cl.AddTopic("t", 1).Parts[0]
		p.AddRecs("a", "b")
		p.AddRecs("c")
		p.AddRecs("d")
		p.NChunks = 1
		on := false
		t.Faults(func(c *kfake.Call) []*kfake.Fault {
			if !on || c.Name() != "Fetch" {
				return nil
			}
			return answerFaults(cl, c, timeout)
		})
		cfg := consCfg(cl)
		cfg.Net.TimeoutMS = int(timeout / time.Millisecond)
		c := startConsumer(t, "t", 0, cfg)
		if c == nil {
			return
		}
		on = true
		ch, err := c.Consume(0, nil)
		if err != nil {
			t.Fail("Consume: %v", err)
			return
		}
		got := drain(ch, 4, 100*time.Second)
		on = false
		got = append(got, drain(ch, 2, 3*time.Second)...)
		t.checkExact("consumer", got, "t", 0, p.Recs(0))
		// a fetch never asks for anything but the next record
		t.Out("%s faults=%d", offs(got), t.nf)
		t.CheckBad()
	}})
}
