package main

import (
	"time"

	"github.com/childe/healer"
	"github.com/childe/healer/kfake"
	"github.com/childe/healer/kref"
	"github.com/childe/healer/vrt"
)

// highest is the version to use: the highest of the client's in [lo,hi].
func highest(vs []int, lo, hi int) int {
	best := -1
	for _, v := range vs {
		if v >= lo && v <= hi && v > best {
			best = v
		}
	}
	return best
}

// pickRange picks a range in 0..12 that contains a version of the client.
func pickRange(t *T, vs []int) (lo, hi, want int) {
	lo = vrt.Input(13)
	hi = lo + vrt.Input(13-lo)
	return lo, hi, highest(vs, lo, hi)
}

// checkSent checks version and body of the last request.
func checkSent(t *T, what string, k *wireKind, c *kfake.Call, ver int, want M) {
	if c.Req.API.Name != k.api || c.Req.Ver != ver {
		t.Fail("%s: sent %s v%d, want %s v%d", what, c.Req.API.Name, c.Req.Ver, k.api, ver)
		return
	}
	api := c.Req.API
	var got, w any = kref.Normalize(api.Req, ver, c.Req.Body), kref.Normalize(api.Req, ver, want)
	if k.unsorted {
		got, w = sorted(got), sorted(w)
	}
	if kref.Show(got) != kref.Show(w) {
		t.Fail("%s: %s v%d: sent %s, want %s", what, api.Name, ver, short(kref.Show(got)), short(kref.Show(w)))
	}
}

func init() {
	for _, k := range wireKinds {
		k := k
		if k.api == "ApiVersions" {
			continue
		}
		api := kref.ByName[k.api]
		// every announced range
		reg(&Scenario{Prop: "P12", Name: "range-" + k.api, Quick: Bound{Dev: 0}, Thorough: Bound{Dev: 0}, Run: func(t *T) {
			lo, hi, want := pickRange(t, k.versions)
			if want < 0 {
				t.Trivial()
				return
			}
			cl := t.Cluster(1)
			cl.Loose = true
			cl.Nodes[0].Versions[api.Key] = [2]int{lo, hi}
			cl.Override = func(c *kfake.Call) (M, bool) { return M{}, len(cl.Calls) > 1 }
			b, err := healer.NewBroker("b1:9091", 1, healer.DefaultBrokerConfig())
			if err != nil {
				t.Fail("NewBroker: %v", err)
				return
			}
			g := &gen{big: 1000}
			req, body := k.mk(g, "cid")
			rp, err := b.Request(req)
			if err != nil {
				t.Fail("request: %v", err)
				return
			}
			t.CheckBad()
			if len(cl.Calls) != 2 {
				t.Fail("%d requests were sent", len(cl.Calls)-1)
				return
			}
			checkSent(t, "request", k, cl.Calls[1], want, body)
			if k.api != "Fetch" {
				if _, err := rp.ReadAndParse(); err != nil {
					t.Fail("the answer of version %d is not decoded: %v", want, err)
				}
			}
			t.Out("%d-%d %d", lo, hi, want)
		}})
		if len(k.versions) < 2 {
			continue
		}
		// the same request on brokers, or on connections, with different ranges
		reg(&Scenario{Prop: "P12", Name: "change-" + k.api, Quick: Bound{Dev: 0}, Thorough: Bound{Dev: 0}, Run: func(t *T) {
			cl := t.Cluster(2)
			cl.Loose = true
			v := []int{k.versions[vrt.Input(len(k.versions))], k.versions[vrt.Input(len(k.versions))]}
			mode := vrt.Input(3)
			reuse := vrt.Input(2) == 1
			init := true
			cl.Override = func(c *kfake.Call) (M, bool) { return M{}, !init && c.Req.API.Key == api.Key }
			for i, n := range cl.Nodes {
				n.Versions[api.Key] = [2]int{v[i], v[i]}
			}
			b1, err := healer.NewBroker("b1:9091", 1, healer.DefaultBrokerConfig())
			if err != nil {
				t.Fail("NewBroker: %v", err)
				return
			}
			b2 := b1
			if mode == 0 {
				if b2, err = healer.NewBroker("b2:9092", 2, healer.DefaultBrokerConfig()); err != nil {
					t.Fail("NewBroker: %v", err)
					return
				}
			}
			init = false
			g := &gen{big: 1000}
			req, body := k.mk(g, "cid")
			last := func() *kfake.Call { return cl.Calls[len(cl.Calls)-1] }
			for i := 0; i < 4; i++ {
				b := b1
				if i%2 == 1 {
					b = b2
				}
				if !reuse {
					g.k = 0
					g.cnt = 0
					req, body = k.mk(g, "cid")
				}
				if mode != 0 && i > 0 { // the broker is replaced by one with another range
					cl.Nodes[0].Versions[api.Key] = [2]int{v[i%2], v[i%2]}
					if mode == 1 {
						b.Close()
					} else {
						for _, c := range cl.AllConns {
							c.Hang(syscallReset)
						}
					}
				}
				_, err := b.RequestAndGet(req)
				if mode == 2 && i > 0 && err != nil { // the lost connection may be noticed only now
					_, err = b.RequestAndGet(req)
				}
				if err != nil && k.api != "Fetch" {
					t.Fail("request %d: %v", i, err)
					return
				}
				checkSent(t, "request", k, last(), v[i%2], body)
			}
			t.CheckBad()
			t.Out("%v %d", v, mode)
		}})
	}
	// the streaming fetch of consumers
	reg(&Scenario{Prop: "P12", Name: "consumer", Quick: Bound{Dev: 0}, Thorough: Bound{Dev: 0}, Run: func(t *T) {
		cl := t.Cluster(2)
		lo, hi, want := pickRange(t, []int{0, 7, 10})
		other := [][2]int{{0, 0}, {0, 8}, {0, 12}}[vrt.Input(3)]
		change := vrt.Input(2) == 1
		if want < 0 {
			t.Trivial()
			return
		}
		cl.Nodes[0].Versions[1] = other
		cl.Nodes[1].Versions[1] = [2]int{lo, hi}
		p := cl.AddTopic("t", 2).Parts[0]
		p.AddRecs("a", "b")
		c := startConsumer(t, "t", 0, consCfg(cl))
		if c == nil {
			return
		}
		ch, err := c.Consume(0, nil)
		if err != nil {
			t.Fail("Consume: %v", err)
			return
		}
		got := drain(ch, 2, time.Minute)
		for _, cc := range cl.CallsOf("Fetch") {
			if cc.Req.Ver != want {
				t.Fail("fetch v%d is used, want %d", cc.Req.Ver, want)
			}
		}
		if change { // the leader is restarted with another range
			n := len(cl.Calls)
			cl.Nodes[1].Versions[1] = other
			for _, c := range cl.AllConns {
				c.Hang(syscallReset)
			}
			p.AddRecs("c")
			got = append(got, drain(ch, 1, time.Minute)...)
			w := highest([]int{0, 7, 10}, other[0], other[1])
			ok := false
			for _, cc := range cl.Calls[n:] {
				if cc.Name() == "Fetch" {
					ok = true
					if cc.Req.Ver != w {
						t.Fail("fetch v%d is used after the reconnect, want %d", cc.Req.Ver, w)
					}
				}
			}
			if !ok {
				t.Fail("no fetch after the reconnect")
			}
		}
		t.checkExact("consumer", got, "t", 0, p.Recs(0))
		t.CheckBad()
		t.Out("%d-%d %d", lo, hi, want)
	}})
}
