package main

import (
	"fmt"
	"sort"
	"time"

	"github.com/childe/healer/kfake"
	"github.com/childe/healer/kref"
	"github.com/childe/healer/vrt"
)

// permute picks one permutation of a (exhaustively).
func permute(a A) A {
	in := append(A{}, a...)
	var out A
	for len(in) > 0 {
		i := vrt.Input(len(in))
		out = append(out, in[i])
		in = append(in[:i:i], in[i+1:]...)
	}
	return out
}

// wantRange is the range assignment: topic -> member -> partitions.
func wantRange(subs map[string][]string, parts map[string][]int32) map[string]map[string]bool {
	out := map[string]map[string]bool{}
	for m := range subs {
		out[m] = map[string]bool{}
	}
	for topic, ps := range parts {
		var ms []string
		for m, ts := range subs {
			for _, x := range ts {
				if x == topic {
					ms = append(ms, m)
					break
				}
			}
		}
		sort.Strings(ms)
		if len(ms) == 0 {
			continue
		}
		sort.Slice(ps, func(i, j int) bool { return ps[i] < ps[j] })
		q, r := len(ps)/len(ms), len(ps)%len(ms)
		at := 0
		for i, m := range ms {
			n := q
			if i < r {
				n++
			}
			for _, p := range ps[at : at+n] {
				out[m][fmt.Sprintf("%s-%d", topic, p)] = true
			}
			at += n
		}
	}
	return out
}

// checkRange compares the assignment in the last SyncGroup request with the
// one the range strategy prescribes.
func (t *T) checkRange(cl *kfake.Cluster, subs map[string][]string, parts map[string][]int32) {
	want := wantRange(subs, parts)
	got := map[string]map[string]bool{}
	var sync *kfake.Call
	for _, cc := range cl.CallsOf("SyncGroup") {
		sync = cc
	}
	if sync == nil {
		t.Fail("no sync request")
		return
	}
	for _, a := range sync.Req.Body["assignments"].(A) {
		am := a.(M)
		id := sval(am["member_id"])
		if got[id] != nil {
			t.Fail("member %s has two assignments", id)
		}
		got[id] = map[string]bool{}
		b, _ := am["assignment"].([]byte)
		v, err := kref.DecodeStruct(kref.AssignmentSchema, b, false)
		if err != nil {
			t.Fail("assignment of %s is not a valid assignment: %v [% x]", id, err, b)
			return
		}
		seenT := map[string]bool{}
		for _, tp := range v["topics"].(A) {
			name := sval(tp.(M)["topic"])
			if seenT[name] {
				t.Fail("topic %s listed twice for %s", name, id)
			}
			seenT[name] = true
			for _, p := range tp.(M)["partitions"].(A) {
				k := fmt.Sprintf("%s-%d", name, kfake.Num(p))
				if got[id][k] {
					t.Fail("%s assigned twice to %s", k, id)
				}
				got[id][k] = true
			}
		}
	}
	if fmt.Sprint(got) != fmt.Sprint(want) {
		t.Fail("subscriptions %v, partitions %v: assignment %v, want %v", subs, parts, got, want)
	}
	t.Out("%v", got)
}

func init() {
	mk := func(quickG, thoroughG, quickT, thoroughT int) func(t *T) {
		return func(t *T) {
			maxG, topics := quickG, []string{"t", "u", "v"}[:quickT]
			if t.tier == "thorough" {
				maxG, topics = thoroughG, []string{"t", "u", "v"}[:thoroughT]
			}
			cl := t.Cluster(1)
			parts := map[string][]int32{}
			for i, name := range topics {
				n := vrt.Input(6)
				if i > 0 {
					n = []int{0, 1, 3}[vrt.Input(3)]
				}
				tp := &kfake.Topic{Name: name}
				for k := 0; k < n; k++ {
					tp.Parts = append(tp.Parts, &kfake.Part{Topic: name, ID: int32(k), Leader: 1, Replicas: []int32{1}})
					parts[name] = append(parts[name], int32(k))
				}
				switch { // listing order of the partitions
				case n > 1 && i == 0:
					switch vrt.Input(3) {
					case 1:
						for a, b := 0, n-1; a < b; a, b = a+1, b-1 {
							tp.Parts[a], tp.Parts[b] = tp.Parts[b], tp.Parts[a]
						}
					case 2:
						tp.Parts = append(append([]*kfake.Part{}, tp.Parts[n/2:]...), tp.Parts[:n/2]...)
					}
				case n > 1:
					tp.Parts[0], tp.Parts[n-1] = tp.Parts[n-1], tp.Parts[0]
				}
				cl.Topics[name] = tp
			}
			g := cl.Group("g")
			subs := map[string][]string{"m01": {"t"}}
			ng := vrt.Input(maxG + 1)
			for i := 0; i < ng; i++ {
				id := fmt.Sprintf("%s%d", []string{"a", "z"}[vrt.Input(2)], i)
				mask := vrt.Input(1 << len(topics))
				var sub []string
				for k := len(topics) - 1; k >= 0; k-- {
					if mask&(1<<k) != 0 {
						sub = append(sub, topics[k])
					}
				}
				if i == 0 && len(sub) > 0 && vrt.Input(2) == 1 { // a topic listed twice
					sub = append(sub, sub[0])
				}
				subs[id] = sub
				meta := ghostMeta(sub...)
				if i == 0 {
					a := A{}
					for _, s := range sub {
						a = append(a, s)
					}
					meta = kref.EncodeStruct(kref.MemberMetaSchema, M{"version": 0, "topics": a, "user_data": []byte("\x00\x01xyz")})
				}
				if i == 1 { // a newer client
					meta = append(ghostMeta(sub...), 0, 0, 0, 0)
					meta[1] = 1
				}
				g.AddGhost(id, meta)
			}
			cl.Decide = func(c *kfake.Call) *kfake.Fault {
				if c.Name() != "JoinGroup" {
					return nil
				}
				return &kfake.Fault{Mutate: func(c *kfake.Call) { c.Body["members"] = permute(c.Body["members"].(A)) }}
			}
			cfg := groupCfg(cl, "A")
			c := startGroup(t, "t", cfg)
			if !call("Consume", time.Minute, func() { c.Consume(nil) }) {
				t.Fail("Consume does not return: %v", g.History)
				return
			}
			t.Sample = fmt.Sprintf("subscriptions %v partitions %v", subs, parts)
			t.checkRange(cl, subs, parts)
			if t.X.Status == vrt.Done {
				t.CheckBad()
			}
		}
	}
	// larger groups and topics, partitions without a leader, holes in the ids
	reg(&Scenario{Prop: "P05", Name: "many", Quick: Bound{Dev: 0}, Thorough: Bound{Dev: 1, Caps: map[byte]int{'S': 0, 'C': 0}}, Horizon: time.Hour, Run: func(t *T) {
		cl := t.Cluster(2)
		n := []int{2, 9, 10, 11, 12, 13, 25, 130}[vrt.Input(8)]
		ng := []int{0, 1, 2, 3, 5, 8, 11, 12}[vrt.Input(8)]
		kind := vrt.Input(4)
		tp := &kfake.Topic{Name: "t"}
		parts := map[string][]int32{"u": {0, 1, 2}}
		for k := 0; k < n; k++ {
			p := &kfake.Part{Topic: "t", ID: int32(k), Leader: int32(1 + k%2), Replicas: []int32{1, 2}}
			switch {
			case kind == 1 && k%3 == 1:
				p.Leader, p.Err = -1, 5
			case kind == 2 && k%4 == 2:
				continue
			case kind == 3:
				p.ID = int32(n - 1 - k)
			}
			tp.Parts = append(tp.Parts, p)
			parts["t"] = append(parts["t"], p.ID)
		}
		sort.Slice(parts["t"], func(i, j int) bool { return parts["t"][i] < parts["t"][j] })
		cl.Topics["t"] = tp
		cl.AddTopic("u", 1, 2, 1)
		g := cl.Group("g")
		subs := map[string][]string{"m01": {"t"}}
		for i := 0; i < ng; i++ {
			id := fmt.Sprintf("%s-%d", []string{"a", "m", "z"}[i%3], i)
			subs[id] = [][]string{{"t"}, {"u", "t"}, {"t", "u"}, {"u"}}[i%4]
			g.AddGhost(id, ghostMeta(subs[id]...))
		}
		c := startGroup(t, "t", groupCfg(cl, "A"))
		if !call("Consume", time.Minute, func() { c.Consume(nil) }) {
			t.Fail("Consume does not return: %v", g.History)
			return
		}
		t.Sample = fmt.Sprintf("subscriptions %v partitions %v", subs, parts)
		t.checkRange(cl, subs, parts)
		if t.X.Status == vrt.Done {
			t.CheckBad()
		}
	}})
	// one leader, several generations: members come and go and change their subscriptions, topics change
	reg(&Scenario{Prop: "P05", Name: "generations", Quick: Bound{Dev: 0}, Thorough: Bound{Dev: 0}, Horizon: 3 * time.Hour, Run: func(t *T) {
		cl := t.Cluster(2)
		rounds := 2
		if t.tier == "thorough" {
			rounds = 3
		}
		choice := [][]string{nil, {"t"}, {"u"}, {"v"}, {"u", "t"}, {"u", "v"}}
		if t.tier == "thorough" {
			choice = choice[:5]
		}
		g := cl.Group("g")
		cfg := groupCfg(cl, "A")
		c := startGroup(t, "t", cfg)
		var hist []string
		for r := 0; r < rounds; r++ {
			parts := map[string][]int32{}
			sizes := map[string]int{"t": 2, "u": 1, "v": 2}
			sizes["t"] += vrt.Input(2)
			if r == 1 {
				sizes["u"] = 3
			}
			for _, name := range []string{"t", "u", "v"} {
				tp := &kfake.Topic{Name: name}
				for k := 0; k < sizes[name]; k++ {
					tp.Parts = append(tp.Parts, &kfake.Part{Topic: name, ID: int32(k), Leader: 1, Epoch: 3, Replicas: []int32{1}})
					parts[name] = append(parts[name], int32(k))
				}
				cl.Topics[name] = tp
			}
			gen := g.Gen
			subs := map[string][]string{"m01": {"t"}}
			for _, id := range []string{"a", "z"} {
				k := vrt.Input(len(choice))
				if g.Members[id] != nil {
					g.RemoveGhost(id)
				}
				if k > 0 {
					subs[id] = choice[k]
					g.AddGhost(id, ghostMeta(choice[k]...))
				}
			}
			hist = append(hist, fmt.Sprintf("subscriptions %v partitions %v", subs, parts))
			t.Sample = fmt.Sprint(hist)
			if r == 0 {
				if !call("Consume", time.Minute, func() { c.Consume(nil) }) {
					t.Fail("Consume does not return: %v", g.History)
					return
				}
			} else {
				g.Rebalance()
			}
			if !vrt.WaitUntil("stable", 3*time.Minute, func() bool { return g.Gen > gen && g.State == kfake.Stable }) {
				t.Fail("the group does not become stable: %v", g.History)
				return
			}
			if len(g.Members) != len(subs) || g.Members["m01"] == nil {
				t.Fail("the member has been lost: %v", g.History)
				return
			}
			t.checkRange(cl, subs, parts)
		}
		if t.X.Status == vrt.Done {
			t.CheckBad()
		}
	}})
	reg(&Scenario{Prop: "P05", Name: "range", Quick: Bound{Dev: 0}, Thorough: Bound{Dev: 0}, Horizon: time.Hour, Run: mk(2, 3, 2, 2)})
	reg(&Scenario{Prop: "P05", Name: "three-topics", Quick: Bound{Dev: 0}, Thorough: Bound{Dev: 0}, Horizon: time.Hour, Run: mk(1, 2, 3, 3)})
	// the order in which maps are walked does not matter
	reg(&Scenario{Prop: "P05", Name: "map-order", Quick: Bound{Dev: 1, Caps: map[byte]int{'S': 0, 'C': 0}}, Thorough: Bound{Dev: 2, Caps: map[byte]int{'S': 0, 'C': 0}}, Horizon: time.Hour, Run: mk(1, 1, 2, 2)})
}
