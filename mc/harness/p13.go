package main

import (
	"fmt"
	"sort"

	"github.com/childe/healer"
	"github.com/childe/healer/kfake"
	"github.com/childe/healer/kref"
	"github.com/childe/healer/vrt"
)

// ordered are the arrays whose order means something: the first replica is
// the preferred leader, the i-th assignment is that of the i-th new partition,
// the protocols of a member come in order of preference.
func ordered(key string, v any) bool {
	switch key {
	case "broker_ids", "replicas", "protocols":
		return true
	case "assignments":
		for _, e := range v.(A) {
			if m, ok := e.(M); !ok || len(m) != 1 || m["broker_ids"] == nil {
				return false
			}
		}
		return true
	}
	return false
}

// sorted returns the value with every array whose order means nothing in
// canonical order.
func sorted(v any) any {
	switch x := v.(type) {
	case M:
		o := M{}
		for k, e := range x {
			if a, ok := e.(A); ok && ordered(k, e) {
				l := A{}
				for _, e := range a {
					l = append(l, sorted(e))
				}
				o[k] = l
				continue
			}
			o[k] = sorted(e)
		}
		return o
	case A:
		o := A{}
		for _, e := range x {
			o = append(o, sorted(e))
		}
		sort.SliceStable(o, func(i, j int) bool { return kref.Show(o[i]) < kref.Show(o[j]) })
		return o
	}
	return v
}

// wireBroker connects to the only broker of a cluster that answers every
// request with an empty body and remembers it.
func wireBroker(t *T, key, ver int) (*kfake.Cluster, *healer.Broker) {
	cl := t.Cluster(1)
	cl.Loose = true
	if key >= 0 {
		only(cl, key, ver)
	}
	cl.Override = func(c *kfake.Call) (M, bool) { return M{}, len(cl.Calls) > 1 }
	b, err := healer.NewBroker("b1:9091", 1, healer.DefaultBrokerConfig())
	if err != nil {
		t.Fail("NewBroker: %v", err)
		return cl, nil
	}
	return cl, b
}

func init() {
	for _, k := range wireKinds {
		k := k
		api := kref.ByName[k.api]
		for _, many := range []bool{false, true} {
			many := many
			name, bound, tb := k.api, 1, 2
			if many {
				name, bound, tb = k.api+"-many", 0, 1
			}
			reg(&Scenario{Prop: "P13", Name: name, Quick: Bound{Dev: bound, Caps: map[byte]int{'S': 0}}, Thorough: Bound{Dev: tb, Caps: map[byte]int{'S': 0}}, Run: func(t *T) {
				ver := k.versions[vrt.Input(len(k.versions))]
				cl, b := wireBroker(t, api.Key, ver)
				if b == nil {
					return
				}
				cid := []string{"cid", "", "é-client"}[vrt.Input(3)]
				g := &gen{maxN: 2}
				if many {
					g.big = 1 + vrt.Input(6)
				}
				req, want := k.mk(g, cid)
				reqs := []M{want}
				corr := map[int32]bool{cl.Calls[0].Req.Corr: true}
				if _, err := b.Request(req); err != nil {
					t.Fail("request: %v", err)
					return
				}
				t.CheckBad()
				if len(cl.Calls) != 2 {
					t.Fail("%d requests were sent", len(cl.Calls)-1)
					return
				}
				c := cl.Calls[1]
				if c.Req.API.Key != api.Key || c.Req.Ver != ver {
					t.Fail("sent %s v%d, want %s v%d", c.Req.API.Name, c.Req.Ver, api.Name, ver)
				}
				if corr[c.Req.Corr] {
					t.Fail("correlation id %d is used twice on one connection", c.Req.Corr)
				}
				if k.clientID && fmt.Sprint(c.Req.ClientID) != cid {
					t.Fail("client id %v, want %q", c.Req.ClientID, cid)
				}
				var got, w any = kref.Normalize(api.Req, ver, c.Req.Body), kref.Normalize(api.Req, ver, reqs[0])
				if k.unsorted {
					got, w = sorted(got), sorted(w)
				}
				if kref.Show(got) != kref.Show(w) {
					t.Fail("%s v%d: sent %s, want %s", api.Name, ver, short(kref.Show(got)), short(kref.Show(w)))
				}
				t.Out("%s", short(kref.Show(w)))
			}})
		}
	}
}

func short(s string) string {
	if len(s) > 1000 {
		return s[:1000] + "..."
	}
	return s
}
