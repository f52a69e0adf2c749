package main

import (
	"fmt"
	"time"

	"github.com/childe/healer"
	"github.com/childe/healer/kfake"
	"github.com/childe/healer/vrt"
)

// murmur2 is MurmurHash2 (32 bit, seed 0), written from its definition.
func murmur2(b []byte) uint32 {
	const m = 0x5bd1e995
	h := uint32(len(b))
	for len(b) >= 4 {
		k := uint32(b[0]) | uint32(b[1])<<8 | uint32(b[2])<<16 | uint32(b[3])<<24
		k *= m
		k ^= k >> 24
		k *= m
		h *= m
		h ^= k
		b = b[4:]
	}
	switch len(b) {
	case 3:
		h ^= uint32(b[2]) << 16
		fallthrough
	case 2:
		h ^= uint32(b[1]) << 8
		fallthrough
	case 1:
		h ^= uint32(b[0])
		h *= m
	}
	h ^= h >> 13
	h *= m
	h ^= h >> 15
	return h
}

func allKeys(alpha []byte, maxLen int) [][]byte {
	out := [][]byte{{}}
	prev := [][]byte{{}}
	for l := 0; l < maxLen; l++ {
		var next [][]byte
		for _, p := range prev {
			for _, c := range alpha {
				next = append(next, append(append([]byte{}, p...), c))
			}
		}
		out = append(out, next...)
		prev = next
	}
	return out
}

func init() {
	mk := func(refresh bool) func(t *T) {
		return func(t *T) {
			cl := t.Cluster(3)
			np := 1 + vrt.Input(5)
			tp := &kfake.Topic{Name: "t"}
			healthy := map[int32]bool{}
			layout := vrt.Input(4)
			bad := vrt.Input(np + 1) // no partition, or one of them, in error
			for i := 0; i < np; i++ {
				ld := int32(1)
				switch layout {
				case 1:
					ld = int32(i%3) + 1
				case 2:
					ld = 3 - int32(i%3)
				case 3:
					ld = 2 + int32(i%2)
				}
				p := &kfake.Part{Topic: "t", ID: int32(i), Leader: ld, Replicas: []int32{ld}}
				if bad == i+1 {
					if vrt.Input(2) == 0 {
						p.Leader = -1
						p.Err = 5
					} else { // a leader is listed all the same
						p.Err = 9
					}
				} else {
					healthy[p.ID] = true
				}
				tp.Parts = append(tp.Parts, p)
			}
			if len(healthy) == 0 {
				t.Trivial()
				return
			}
			byID := append([]*kfake.Part{}, tp.Parts...)
			switch vrt.Input(3) { // listing order
			case 1:
				for a, b := 0, np-1; a < b; a, b = a+1, b-1 {
					tp.Parts[a], tp.Parts[b] = tp.Parts[b], tp.Parts[a]
				}
			case 2:
				tp.Parts = append(append([]*kfake.Part{}, tp.Parts[np/2:]...), tp.Parts[:np/2]...)
			}
			cl.Topics["t"] = tp
			cfg := prodCfg(cl)
			cfg.MessageMaxCount = 1
			var pr *healer.Producer
			if !call("NewProducer", time.Minute, func() { pr, _ = healer.NewProducer("t", cfg) }) || pr == nil {
				t.Fail("NewProducer does not come up although partitions are healthy (%d partitions, %d in error)", np, np-len(healthy))
				return
			}
			maxLen := 4
			keys := allKeys([]byte{0, 'a', 0xff}, maxLen)
			keys = append(keys, []byte("a longer key with more than four bytes"), []byte("user-42"))
			first := map[string]int32{}
			for round := 0; round < 2; round++ {
				for ki, k := range keys {
					want := int32(murmur2(k) % uint32(np))
					nc := len(cl.Calls)
					v := fmt.Sprintf("v%d-%d", round, ki)
					err := pr.AddMessage(append([]byte{}, k...), []byte(v))
					var sent []*kfake.Call
					for _, c := range cl.Calls[nc:] {
						if c.Name() == "Produce" {
							sent = append(sent, c)
						}
					}
					if !healthy[want] {
						if byID[want].Leader > 0 && err == nil && len(sent) == 1 && fmt.Sprint(reqPartsProduce(sent[0])) == fmt.Sprintf("[t-%d]", want) && sent[0].Node.ID == byID[want].Leader {
							continue
						}
						if err == nil {
							t.Fail("key % x belongs to partition %d which has no leader, but AddMessage reports no error", k, want)
							return
						}
						if len(sent) > 0 {
							t.Fail("key % x belongs to partition %d which has no leader, but a message was sent to %v", k, want, reqPartsProduce(sent[0]))
							return
						}
						continue
					}
					if err != nil || len(sent) != 1 {
						t.Fail("key % x: AddMessage error %v, %d requests", k, err, len(sent))
						return
					}
					got := reqPartsProduce(sent[0])
					if fmt.Sprint(got) != fmt.Sprintf("[t-%d]", want) {
						t.Fail("key % x sent to %v, want partition %d of %d", k, got, want, np)
						return
					}
					if sent[0].Node.ID != byID[want].Leader {
						t.Fail("partition %d is led by broker %d, but its messages go to broker %d", want, byID[want].Leader, sent[0].Node.ID)
						return
					}
					if o, ok := first[string(k)]; ok && o != want {
						t.Fail("key % x changed its partition", k)
					}
					first[string(k)] = want
				}
				// no key: some healthy partition, its leader
				for i := 0; i < 3; i++ {
					nc := len(cl.Calls)
					if err := pr.AddMessage(nil, []byte(fmt.Sprintf("n%d-%d", round, i))); err != nil {
						t.Fail("message without key refused: %v", err)
						return
					}
					for _, c := range cl.Calls[nc:] {
						if c.Name() != "Produce" {
							continue
						}
						ok := false
						for id := range healthy {
							if fmt.Sprint(reqPartsProduce(c)) == fmt.Sprintf("[t-%d]", id) && c.Node.ID == byID[id].Leader {
								ok = true
							}
						}
						if !ok {
							t.Fail("message without key sent to %v at broker %d", reqPartsProduce(c), c.Node.ID)
							return
						}
					}
				}
				if refresh {
					vrt.Sleep(time.Hour + time.Minute)
				}
			}
			n := 0
			for _, p := range byID {
				n += len(p.Produced)
				t.Out("%d:%d", p.ID, len(p.Produced))
			}
			t.Out("bad %d layout %d", bad, layout)
			pr.Close()
			t.CheckBad()
		}
	}
	reg(&Scenario{Prop: "P08", Name: "keys", Quick: Bound{Dev: 1, Caps: map[byte]int{'S': 0, 'C': 0}}, Thorough: Bound{Dev: 2, Caps: map[byte]int{'S': 0, 'C': 0}}, MaxSteps: 200000, Horizon: 20 * time.Hour, Run: mk(false)})
	reg(&Scenario{Prop: "P08", Name: "refresh", Quick: Bound{Dev: 0}, Thorough: Bound{Dev: 1, Caps: map[byte]int{'S': 0, 'C': 0}}, MaxSteps: 200000, Horizon: 20 * time.Hour, Run: mk(true)})
	// two goroutines with the same key: still one partition, one leader, any schedule
	reg(&Scenario{Prop: "P08", Name: "concurrent", Fine: true, Quick: Bound{Dev: 1}, Thorough: Bound{Dev: 2}, Horizon: time.Hour, Run: func(t *T) {
		cl := t.Cluster(2)
		ps := cl.AddTopic("t", 1, 2, 1).Parts
		cfg := prodCfg(cl)
		cfg.MessageMaxCount = 1
		cfg.MetadataMaxAgeMS = 1000
		vrt.Quiet(true)
		pr, err := healer.NewProducer("t", cfg)
		if err != nil {
			t.Fail("%v", err)
			return
		}
		vrt.Quiet(false)
		keys := []string{"k", "k", "z"}
		done := 0
		for gi, k := range keys {
			gi, k := gi, k
			vrt.GoNamed("adder", func() {
				for i := 0; i < 2; i++ {
					if err := pr.AddMessage([]byte(k), []byte(fmt.Sprintf("%d-%d", gi, i))); err != nil {
						t.Fail("AddMessage: %v", err)
					}
				}
				done++
			})
		}
		if !vrt.WaitUntil("adders", time.Minute, func() bool { return done == 3 }) {
			t.Fail("stuck")
			return
		}
		for _, p := range ps {
			for _, r := range p.Produced {
				if want := int32(murmur2(r.Key) % 3); want != p.ID {
					t.Fail("key %s in partition %d, want %d", r.Key, p.ID, want)
				}
			}
		}
		v, _ := produced(ps...)
		if len(v) != 6 {
			t.Fail("%d of 6 messages sent", len(v))
		}
		t.Out("%v", v)
		t.CheckBad()
	}})
}

func reqPartsProduce(c *kfake.Call) []string {
	var out []string
	for _, tp := range c.Req.Body["topics"].(A) {
		for _, p := range tp.(M)["partitions"].(A) {
			out = append(out, fmt.Sprintf("%s-%d", sval(tp.(M)["name"]), kfake.Num(p.(M)["index"])))
		}
	}
	return out
}
