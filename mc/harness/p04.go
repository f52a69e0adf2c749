package main

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/childe/healer"
	"github.com/childe/healer/kfake"
	"github.com/childe/healer/kref"
	"github.com/childe/healer/vrt"
)

func sval(v any) string { s, _ := v.(string); return s }

func errOf(c *kfake.Call) int64 { return kfake.Num(c.Body["error_code"]) }

// assigned decodes the partitions of a sync answer.
func assigned(b []byte) map[string]bool {
	out := map[string]bool{}
	if len(b) == 0 {
		return out
	}
	v, err := kref.DecodeStruct(kref.AssignmentSchema, b, true)
	if err != nil {
		return out
	}
	for _, tp := range v["topics"].(A) {
		for _, p := range tp.(M)["partitions"].(A) {
			out[fmt.Sprintf("%s-%d", sval(tp.(M)["topic"]), kfake.Num(p))] = true
		}
	}
	return out
}

func reqParts(c *kfake.Call) []string {
	var out []string
	for _, tp := range c.Req.Body["topics"].(A) {
		tm := tp.(M)
		name := sval(tm["topic"])
		if name == "" {
			name = sval(tm["name"])
		}
		for _, p := range tm["partitions"].(A) {
			id := p.(M)["partition"]
			if id == nil {
				id = p.(M)["partition_index"]
			}
			out = append(out, fmt.Sprintf("%s-%d", name, kfake.Num(id)))
		}
	}
	return out
}

// checkProtocol replays all requests of one group member (by client id) against
// the membership protocol.
func (t *T) checkProtocol(client string) {
	type given struct {
		member string
		gen    int64
		seq    int
		at     time.Duration
		leader bool
	}
	var joins []given
	type synced struct {
		seq, ans int
		parts    map[string]bool
	}
	var mine []*kfake.Call
	for _, c := range t.Cl.Calls {
		if sval(c.Req.ClientID) == client {
			mine = append(mine, c)
		}
	}
	for _, c := range mine {
		if c.Name() == "JoinGroup" && c.Done && errOf(c) == 0 {
			joins = append(joins, given{sval(c.Body["member_id"]), kfake.Num(c.Body["generation_id"]), c.AnsSeq, c.Answer, sval(c.Body["leader"]) == sval(c.Body["member_id"])})
		}
	}
	sort.SliceStable(joins, func(i, j int) bool { return joins[i].seq < joins[j].seq })
	latest := func(seq int) (given, bool) {
		g, ok := given{}, false
		for _, j := range joins {
			if j.seq <= seq {
				g, ok = j, true
			}
		}
		return g, ok
	}
	lastJoin := -1
	left := false
	for _, c := range mine {
		b := c.Req.Body
		switch c.Name() {
		case "JoinGroup":
			lastJoin = c.Seq
			id := sval(b["member_id"])
			if id != "" {
				g, ok := latest(c.Seq)
				if !ok || g.member != id {
					t.Fail("%s joins as %q, the coordinator last gave it %q", client, id, g.member)
				}
				// an id the coordinator said it does not know is dropped
				for _, d := range mine {
					if d.Done && d.AnsSeq <= c.Seq && (d.Name() == "JoinGroup" || d.Name() == "SyncGroup") && errOf(d) == 25 && sval(d.Req.Body["member_id"]) == id && d.AnsSeq > g.seq {
						t.Fail("%s joins as %q again although the coordinator does not know that member", client, id)
					}
				}
			}
			if sval(b["group_id"]) != "g" || sval(b["protocol_type"]) != "consumer" {
				t.Fail("%s joins with %s", client, kref.Show(b))
			}
		case "SyncGroup", "Heartbeat", "OffsetCommit", "LeaveGroup":
			if c.Name() == "OffsetCommit" && c.Req.Ver == 0 {
				continue
			}
			id := sval(b["member_id"])
			g, ok := latest(c.Seq)
			if !ok {
				t.Fail("%s sends %s before it joined: %s", client, c.Name(), kref.Show(b))
				continue
			}
			if c.Name() == "LeaveGroup" {
				left = true
				if id != g.member {
					t.Fail("%s leaves as %q, it is %q", client, id, g.member)
				}
				continue
			}
			gen := kfake.Num(b["generation_id"])
			if as, _ := b["assignments"].(A); c.Name() == "SyncGroup" && gen == g.gen && !g.leader && len(as) > 0 {
				t.Fail("%s distributes an assignment in generation %d, which it does not lead", client, gen)
			}
			known := false
			for _, j := range joins {
				if j.seq <= c.Seq && j.member == id && j.gen == gen {
					known = true
				}
			}
			// a heartbeat may be overtaken by a join on the same connection
			if !known || (id != g.member || gen != g.gen) && (c.Name() != "Heartbeat" || c.At > g.at+time.Second) {
				t.Fail("%s sends %s as %q generation %d, it is %q generation %d", client, c.Name(), id, gen, g.member, g.gen)
			}
		}
		if c.Name() == "Fetch" || c.Name() == "OffsetCommit" {
			if left {
				t.Fail("%s sends %s after it left", client, c.Name())
			}
			var y *synced
			for _, d := range mine {
				if d.Name() == "SyncGroup" && d.Seq > lastJoin && d.Done && errOf(d) == 0 && d.AnsSeq <= c.Seq {
					as, _ := d.Body["assignment"].([]byte)
					y = &synced{d.Seq, d.AnsSeq, assigned(as)}
				}
			}
			if y == nil {
				t.Fail("%s sends %s while it is rejoining (after join request #%d, before a sync answer)", client, c.Name(), lastJoin)
				continue
			}
			for _, p := range reqParts(c) {
				if !y.parts[p] {
					t.Fail("%s sends %s for %s which is not assigned to it", client, c.Name(), p)
				}
			}
		}
	}
}

// covered checks that every record was delivered at least once and first
// deliveries of each partition come in order.
func (t *T) covered(what string, ms []*healer.FullMessage, parts ...*kfake.Part) {
	for _, p := range parts {
		seen := map[int64]bool{}
		high := int64(-1)
		for _, m := range ms {
			if m.Message == nil || m.TopicName != p.Topic || m.PartitionID != p.ID {
				continue
			}
			o := m.Message.Offset
			if !seen[o] {
				if o < high {
					t.Fail("%s: %s-%d first delivery of %d after %d", what, p.Topic, p.ID, o, high)
				}
				high = o
			}
			seen[o] = true
		}
		var miss []string
		for _, r := range p.Recs(p.Start) {
			if !seen[r.Offset] {
				miss = append(miss, fmt.Sprint(r.Offset))
			}
		}
		if len(miss) > 0 {
			t.Fail("%s: records %s of %s-%d not delivered (got %s)", what, strings.Join(miss, ","), p.Topic, p.ID, offs(ms))
		}
	}
}

func groupCfg(cl *kfake.Cluster, id string) healer.ConsumerConfig {
	cfg := consCfg(cl)
	cfg.ClientID = id
	cfg.GroupID = "g"
	cfg.AutoCommit = true
	cfg.AutoCommitIntervalMS = 2000
	cfg.FromBeginning = true
	cfg.SessionTimeoutMS = 10000
	cfg.FetchMaxWaitMS = 5000
	cfg.Net.TimeoutMS = 4000
	return cfg
}

func ghostMeta(topics ...string) []byte {
	a := A{}
	for _, s := range topics {
		a = append(a, s)
	}
	return kref.EncodeStruct(kref.MemberMetaSchema, M{"version": 0, "topics": a, "user_data": nil})
}

func startGroup(t *T, topic string, cfg healer.ConsumerConfig) *healer.GroupConsumer {
	for i := 0; i < 4; i++ {
		c, err := healer.NewGroupConsumer(topic, cfg)
		if err == nil {
			return c
		}
	}
	t.Fail("NewGroupConsumer keeps failing")
	return nil
}

func has(ms []*healer.FullMessage, p *kfake.Part) bool {
	h := handed(ms, p.Topic, p.ID)
	for _, r := range p.Recs(p.Start) {
		if !h[r.Offset] {
			return false
		}
	}
	return true
}

func groupFaults(c *kfake.Call) []*kfake.Fault {
	var o []*kfake.Fault
	switch c.Name() {
	case "JoinGroup":
		o = append(netFaults(), errFaults(14, 15, 16, 25, 27, -1)...)
	case "SyncGroup", "Heartbeat":
		o = append(netFaults(), errFaults(14, 15, 16, 22, 25, 27, -1)...)
	case "OffsetCommit":
		o = append(netFaults(), errFaults(14, 15, 16, 22, 25, 27)...)
	case "OffsetFetch":
		o = append(netFaults()[:4], errFaults(14, 16)...)
	case "FindCoordinator":
		o = append(netFaults()[:4], errFaults(14, 15)...)
	case "Metadata":
		o = append(netFaults()[:4], errFaults(5)...)
	}
	return o
}

func init() {
	// one member, coordinator answers and connection losses
	reg(&Scenario{Prop: "P04", Name: "faults", Quick: Bound{Dev: 2, Caps: map[byte]int{'S': 1, 'C': 1}}, Thorough: Bound{Dev: 3, Caps: map[byte]int{'S': 1, 'C': 1}}, MaxSteps: 60000, Horizon: 3 * time.Hour, Run: func(t *T) {
		cl := t.Cluster(2)
		coord := int32(2)
		cl.Coord = func(string) int32 { return coord }
		ps := cl.AddTopic("t", 1, 2).Parts
		ps[0].AddRecs("a0", "a1")
		ps[1].AddRecs("b0")
		g := cl.Group("g")
		on := true
		t.Faults(func(c *kfake.Call) []*kfake.Fault {
			if !on {
				return nil
			}
			return groupFaults(c)
		})
		inner := cl.Decide
		cl.Decide = func(c *kfake.Call) *kfake.Fault {
			switch c.Name() {
			case "JoinGroup", "SyncGroup", "Heartbeat":
				if on {
					switch vrt.Choose(4) {
					case 1: // the coordinator moves, keeping the group
						coord = 3 - coord
					case 2: // the member is thrown out
						for _, id := range g.IDs() {
							g.Kick(id)
						}
					case 3: // somebody else makes the group rebalance
						g.Rebalance()
					}
				}
			}
			return inner(c)
		}
		c := startGroup(t, "t", groupCfg(cl, "A"))
		if c == nil {
			return
		}
		var a *app
		if !call("Consume", 20*time.Minute, func() {
			ch, _ := c.Consume(nil)
			a = startApp(ch, -1)
		}) {
			t.Fail("Consume does not return")
			return
		}
		vrt.WaitUntil("first records", 4*time.Minute, func() bool { return has(a.got, ps[0]) && has(a.got, ps[1]) })
		vrt.Sleep(2500 * time.Millisecond) // two heartbeats, several commits
		on = false
		ps[0].AddRecs("a2")
		ps[1].AddRecs("b1")
		if !vrt.WaitUntil("all records", 5*time.Minute, func() bool { return has(a.got, ps[0]) && has(a.got, ps[1]) }) {
			t.Fail("the member is stuck although the cluster is healthy: delivered %s, group history %v", offs(a.got), g.History)
		}
		vrt.Sleep(12 * time.Second) // longer than the session timeout
		if !vrt.WaitUntil("stable", 2*time.Minute, func() bool { return g.State == kfake.Stable && len(g.Members) == 1 }) {
			t.Fail("the group is not stable with one member at the end: state %d members %v history %v", g.State, g.IDs(), g.History)
		}
		t.covered("group consumer", a.got, ps...)
		t.checkProtocol("A")
		t.Out("%d deliveries, %v", len(a.got), g.History)
		t.CheckBad()
	}})
	// the coordinator dies for good, and another broker takes over the group
	reg(&Scenario{Prop: "P04", Name: "coordinator-dies", Quick: Bound{Dev: 1, Caps: map[byte]int{'S': 0}}, Thorough: Bound{Dev: 2, Caps: map[byte]int{'S': 1, 'C': 1}}, MaxSteps: 60000, Horizon: 3 * time.Hour, Run: func(t *T) {
		cl := t.Cluster(3)
		coord := int32(2)
		cl.Coord = func(string) int32 { return coord }
		ps := cl.AddTopic("t", 1, 2).Parts
		ps[0].AddRecs("a0", "a1")
		ps[1].AddRecs("b0")
		g := cl.Group("g")
		at := vrt.Input(16)
		silent := vrt.Input(2) == 1 // the machine rather than the process
		on := true
		t.Faults(func(c *kfake.Call) []*kfake.Fault {
			if !on {
				return nil
			}
			switch c.Name() {
			case "FindCoordinator", "Metadata", "JoinGroup":
				return groupFaults(c)
			}
			return nil
		})
		inner, n := cl.Decide, 0
		cl.Decide = func(c *kfake.Call) *kfake.Fault {
			switch c.Name() {
			case "JoinGroup", "SyncGroup", "Heartbeat", "OffsetCommit", "OffsetFetch":
				if n++; n == at+1 {
					coord = 3
					ps[1].Leader, ps[1].Epoch = 1, ps[1].Epoch+1
					down(cl, cl.Node(2), 0)
					if silent {
						return fk("silent", kfake.Fault{Drop: true})
					}
					return fk("dead", kfake.Fault{Skip: true})
				}
			}
			return inner(c)
		}
		cfg := groupCfg(cl, "A")
		cfg.MetadataMaxAgeMS = 10 * 3600 * 1000 // changed metadata do not help
		c := startGroup(t, "t", cfg)
		if c == nil {
			return
		}
		var a *app
		if !call("Consume", 20*time.Minute, func() {
			ch, _ := c.Consume(nil)
			a = startApp(ch, -1)
		}) {
			t.Fail("Consume does not return")
			return
		}
		vrt.WaitUntil("first records", 4*time.Minute, func() bool { return has(a.got, ps[0]) && has(a.got, ps[1]) })
		vrt.WaitUntil("death", time.Minute, func() bool { return coord == 3 })
		vrt.Sleep(time.Second)
		on = false
		ps[0].AddRecs("a2")
		ps[1].AddRecs("b1")
		if !vrt.WaitUntil("all records", 5*time.Minute, func() bool { return has(a.got, ps[0]) && has(a.got, ps[1]) }) {
			t.Fail("the member is stuck: delivered %s, group history %v", offs(a.got), g.History)
		}
		vrt.Sleep(15 * time.Second) // longer than the session timeout
		if !vrt.WaitUntil("stable", 5*time.Minute, func() bool { return g.State == kfake.Stable && len(g.Members) == 1 }) {
			t.Fail("the member does not find the new coordinator: state %d members %v history %v", g.State, g.IDs(), g.History)
		}
		vrt.Sleep(15 * time.Second)
		for _, p := range ps {
			if o := g.CommittedOffset("t", p.ID); o != p.End {
				t.Fail("committed %d of partition %d, which ends at %d", o, p.ID, p.End)
			}
		}
		t.covered("group consumer", a.got, ps...)
		t.checkProtocol("A")
		t.Out("%d deliveries, %v", len(a.got), g.History)
		t.CheckBad()
	}})
	// two members come and go
	two := func(fine bool) func(t *T) {
		return func(t *T) {
			cl := t.Cluster(2)
			ps := cl.AddTopic("t", 1, 2).Parts
			ps[0].AddRecs("a0", "a1")
			ps[1].AddRecs("b0")
			g := cl.Group("g")
			vrt.Quiet(true)
			A1 := startGroup(t, "t", groupCfg(cl, "A"))
			B1 := startGroup(t, "t", groupCfg(cl, "B"))
			chA, _ := A1.Consume(nil)
			a := startApp(chA, -1)
			vrt.WaitUntil("A has all", time.Minute, func() bool { return has(a.got, ps[0]) && has(a.got, ps[1]) })
			if fine {
				vrt.Sleep(time.Second)
			}
			vrt.Quiet(false)
			var b *app
			vrt.GoNamed("B", func() {
				chB, _ := B1.Consume(nil)
				b = startApp(chB, -1)
			})
			if !vrt.WaitUntil("two members", time.Minute, func() bool { return g.State == kfake.Stable && len(g.Members) == 2 && b != nil }) {
				t.Fail("B does not get into the group: %v", g.History)
				return
			}
			vrt.Sleep(2 * time.Second)
			ps[0].AddRecs("a2")
			ps[1].AddRecs("b1")
			all := func() []*healer.FullMessage { return append(append([]*healer.FullMessage{}, a.got...), b.got...) }
			if !vrt.WaitUntil("all records", time.Minute, func() bool { return has(all(), ps[0]) && has(all(), ps[1]) }) {
				t.Fail("records missing with two members: A %s, B %s, %v", offs(a.got), offs(b.got), g.History)
			}
			// one of them leaves, the other one takes over
			if !call("Close", time.Minute, B1.Close) {
				t.Fail("Close does not return")
			}
			vrt.Quiet(true)
			ps[0].AddRecs("a3")
			ps[1].AddRecs("b2")
			if !vrt.WaitUntil("all records", 2*time.Minute, func() bool { return has(all(), ps[0]) && has(all(), ps[1]) }) {
				t.Fail("A does not take over: A %s, B %s, %v", offs(a.got), offs(b.got), g.History)
			}
			vrt.Sleep(12 * time.Second)
			if !vrt.WaitUntil("stable", 2*time.Minute, func() bool { return g.State == kfake.Stable && len(g.Members) == 1 }) {
				t.Fail("the group is not stable with one member at the end: state %d members %v history %v", g.State, g.IDs(), g.History)
			}
			t.checkProtocol("A")
			t.checkProtocol("B")
			t.Out("A %s B %s %v", offs(a.got), offs(b.got), g.History)
			t.CheckBad()
		}
	}
	// the member that leads the group is thrown out and comes back as a follower,
	// with other members and partitions than it knew
	reg(&Scenario{Prop: "P04", Name: "leader-lost", Quick: Bound{Dev: 1, Caps: map[byte]int{'S': 0}}, Thorough: Bound{Dev: 2, Caps: map[byte]int{'S': 1, 'C': 1}}, TimeDev: true, MaxSteps: 60000, Horizon: 3 * time.Hour, Run: func(t *T) {
		cl := t.Cluster(2)
		ps := cl.AddTopic("t", 1, 2).Parts
		ps[0].AddRecs("a0", "a1")
		ps[1].AddRecs("b0")
		g := cl.Group("g")
		grow := vrt.Input(2) == 1
		both := vrt.Input(2) == 1 // the other one is thrown out later
		vrt.Quiet(true)
		start := func(id string) *app {
			cfg := groupCfg(cl, id)
			cfg.MetadataMaxAgeMS = 20000
			c := startGroup(t, "t", cfg)
			ch, _ := c.Consume(nil)
			return startApp(ch, -1)
		}
		a := start("A")
		vrt.WaitUntil("A has all", time.Minute, func() bool { return has(a.got, ps[0]) && has(a.got, ps[1]) })
		b := start("B")
		calm := func() bool { return g.State == kfake.Stable && len(g.Members) == 2 }
		if !vrt.WaitUntil("two members", time.Minute, calm) {
			t.Fail("B does not get into the group: %v", g.History)
			return
		}
		vrt.Sleep(2 * time.Second)
		vrt.Quiet(false)
		check := func(what string) {
			for i, p := range ps {
				p.AddRecs(fmt.Sprintf("%s%d", what, i))
			}
			if !vrt.WaitUntil("all records", 3*time.Minute, func() bool {
				ms := append(append([]*healer.FullMessage{}, a.got...), b.got...)
				for _, p := range ps {
					if !has(ms, p) {
						return false
					}
				}
				return true
			}) {
				t.Fail("records missing after %s: A %s, B %s, %v", what, offs(a.got), offs(b.got), g.History)
			}
			if !vrt.WaitUntil("two members", 2*time.Minute, calm) {
				t.Fail("the group does not come together again after %s: %v", what, g.History)
			}
		}
		g.Kick(g.Leader)
		check("leader lost")
		if grow {
			np := &kfake.Part{Topic: "t", ID: 2, Leader: 1, Epoch: 5, Replicas: []int32{1}}
			cl.Topics["t"].Parts = append(cl.Topics["t"].Parts, np)
			ps = cl.Topics["t"].Parts
			check("growth")
		}
		if both {
			g.Kick(g.Leader)
			check("second leader lost")
		}
		vrt.Quiet(true)
		t.checkProtocol("A")
		t.checkProtocol("B")
		t.Out("A %s B %s %v", offs(a.got), offs(b.got), g.History)
		t.CheckBad()
	}})
	// the coordinator waits for the other members as long as their session allows
	reg(&Scenario{Prop: "P04", Name: "slow-join", Quick: Bound{Dev: 1, Caps: map[byte]int{'S': 0}}, Thorough: Bound{Dev: 2, Caps: map[byte]int{'S': 1, 'C': 1}}, MaxSteps: 60000, Horizon: 3 * time.Hour, Run: func(t *T) {
		cl := t.Cluster(2)
		p := cl.AddTopic("t", 1).Parts[0]
		p.AddRecs("a0", "a1")
		g := cl.Group("g")
		cfg := groupCfg(cl, "A")
		cfg.SessionTimeoutMS = []int32{10000, 60000, 120000}[vrt.Input(3)]
		cfg.Net.TimeoutMS = []int{3000, 30000}[vrt.Input(2)]
		wait := time.Duration(cfg.SessionTimeoutMS) * time.Millisecond
		early := vrt.Input(2) == 1 // the first join, or one later
		n := 0
		t.Faults(func(c *kfake.Call) []*kfake.Fault {
			switch c.Name() {
			case "Heartbeat", "SyncGroup":
				return errFaults(27)
			}
			return nil
		})
		next := cl.Decide
		cl.Decide = func(c *kfake.Call) *kfake.Fault {
			if c.Name() == "JoinGroup" {
				n++
				if (n == 1) == early {
					return fk("slow", kfake.Fault{Delay: wait})
				}
			}
			return next(c)
		}
		c := startGroup(t, "t", cfg)
		ch, _ := c.Consume(nil)
		a := startApp(ch, -1)
		if !vrt.WaitUntil("all records", 30*time.Minute, func() bool { return has(a.got, p) }) {
			t.Fail("the member never gets into the group, whose coordinator answers JoinGroup after %v: %v", wait, g.History)
			return
		}
		if !early {
			g.Rebalance()
			vrt.Sleep(wait)
			p.AddRecs("a2")
			if !vrt.WaitUntil("all records", 30*time.Minute, func() bool { return has(a.got, p) }) {
				t.Fail("the member does not get back into the group, whose coordinator answers JoinGroup after %v: %v", wait, g.History)
				return
			}
		}
		vrt.Quiet(true)
		t.checkProtocol("A")
		t.Out("%s %v", offs(a.got), g.History)
		t.CheckBad()
	}})
	reg(&Scenario{Prop: "P04", Name: "two-members", Quick: Bound{Dev: 1}, Thorough: Bound{Dev: 2}, TimeDev: true, MaxSteps: 60000, Horizon: 3 * time.Hour, Run: two(false)})
	reg(&Scenario{Prop: "P04", Name: "two-members-fine", Fine: true, Quick: Bound{Dev: 1}, Thorough: Bound{Dev: 2}, MaxSteps: 60000, Horizon: 3 * time.Hour, Run: two(true)})
	// a foreign member with a given subscription joins and leaves; the topic grows
	reg(&Scenario{Prop: "P04", Name: "foreign-member", Quick: Bound{Dev: 1, Caps: map[byte]int{'S': 0}}, Thorough: Bound{Dev: 2, Caps: map[byte]int{'S': 1, 'C': 1}}, MaxSteps: 60000, Horizon: 3 * time.Hour, Run: func(t *T) {
		cl := t.Cluster(2)
		ps := cl.AddTopic("t", 1, 2, 1).Parts
		cl.AddTopic("u", 1)
		for i, p := range ps {
			p.AddRecs(fmt.Sprintf("x%d", i), "y")
		}
		g := cl.Group("g")
		sub := [][]string{{"t"}, {"u"}, {"t", "u"}, {}}[vrt.Input(4)]
		ghost := []string{"a-ghost", "z-ghost"}[vrt.Input(2)]
		grow := vrt.Input(2) == 1
		vrt.Quiet(true)
		cfg := groupCfg(cl, "A")
		cfg.MetadataMaxAgeMS = 20000
		c := startGroup(t, "t", cfg)
		ch, _ := c.Consume(nil)
		a := startApp(ch, -1)
		vrt.WaitUntil("all", time.Minute, func() bool { return has(a.got, ps[0]) && has(a.got, ps[1]) && has(a.got, ps[2]) })
		vrt.Quiet(false)
		gen := g.Gen
		g.AddGhost(ghost, ghostMeta(sub...))
		if !vrt.WaitUntil("rebalance", time.Minute, func() bool { return g.Gen > gen && g.State == kfake.Stable }) {
			t.Fail("no rebalance: %v", g.History)
			return
		}
		// the ghost got what it is entitled to
		want := map[string]bool{}
		if len(sub) > 0 && sub[0] == "t" {
			if ghost < "m" {
				want = map[string]bool{"t-0": true, "t-1": true}
			} else {
				want = map[string]bool{"t-2": true}
			}
		}
		if len(sub) > 0 && sub[len(sub)-1] == "u" {
			want["u-0"] = true
		}
		if got := assigned(g.LastAssign[ghost]); fmt.Sprint(got) != fmt.Sprint(want) {
			t.Fail("the other member (subscribed to %v) is assigned %v, want %v", sub, got, want)
		}
		vrt.Sleep(3 * time.Second)
		g.RemoveGhost(ghost)
		if grow {
			np := &kfake.Part{Topic: "t", ID: 3, Leader: 2, Epoch: 5, Replicas: []int32{2}}
			np.AddRecs("new")
			cl.Topics["t"].Parts = append(cl.Topics["t"].Parts, np)
			ps = cl.Topics["t"].Parts
		}
		for _, p := range ps {
			p.AddRecs("after")
		}
		done := func() bool {
			for _, p := range ps {
				if !has(a.got, p) {
					return false
				}
			}
			return true
		}
		if !vrt.WaitUntil("all records", 5*time.Minute, done) {
			t.Fail("records missing after the other member left (topic grown: %v): %s, %v", grow, offs(a.got), g.History)
		}
		vrt.Quiet(true)
		vrt.Sleep(12 * time.Second)
		if !vrt.WaitUntil("stable", 2*time.Minute, func() bool { return g.State == kfake.Stable && len(g.Members) == 1 }) {
			t.Fail("the group is not stable with one member at the end: state %d members %v history %v", g.State, g.IDs(), g.History)
		}
		t.checkProtocol("A")
		t.Out("%s %v", offs(a.got), g.History)
		t.CheckBad()
	}})
	// the topic grows while the member is joining, so that the refresh of the
	// metadata and the (re)join both want to restart it
	reg(&Scenario{Prop: "P04", Name: "grow-while-joining", Quick: Bound{Dev: 1, Caps: map[byte]int{'S': 0}}, Thorough: Bound{Dev: 1}, TimeDev: true, MaxSteps: 60000, Horizon: 3 * time.Hour, Run: func(t *T) {
		cl := t.Cluster(2)
		ps := cl.AddTopic("t", 1, 2).Parts
		for i, p := range ps {
			p.AddRecs(fmt.Sprintf("x%d", i), "y")
		}
		g := cl.Group("g")
		rejoin := vrt.Input(2) == 1
		slow := []string{"JoinGroup", "SyncGroup", "Metadata"}[vrt.Input(3)]
		wait := []time.Duration{800 * time.Millisecond, 2500 * time.Millisecond}[vrt.Input(2)]
		early := vrt.Input(2) == 1
		cfg := groupCfg(cl, "A")
		cfg.MetadataMaxAgeMS = 1000
		armed := !rejoin
		grow := func() {
			if len(cl.Topics["t"].Parts) > 2 {
				return
			}
			np := &kfake.Part{Topic: "t", ID: 2, Leader: 1, Epoch: 5, Replicas: []int32{1}}
			np.AddRecs("new")
			cl.Topics["t"].Parts = append(cl.Topics["t"].Parts, np)
			ps = cl.Topics["t"].Parts
		}
		cl.Decide = func(c *kfake.Call) *kfake.Fault {
			if armed && c.Name() == slow && (slow != "Metadata" || g.State == kfake.Completing) {
				armed = false
				if !early {
					grow()
				}
				return &kfake.Fault{Name: "slow", Delay: wait}
			}
			return nil
		}
		vrt.Quiet(rejoin)
		c := startGroup(t, "t", cfg)
		var a *app
		vrt.GoNamed("consume", func() {
			ch, _ := c.Consume(nil)
			a = startApp(ch, -1)
		})
		done := func() bool {
			if a == nil {
				return false
			}
			for _, p := range ps {
				if !has(a.got, p) {
					return false
				}
			}
			return true
		}
		if rejoin {
			vrt.WaitUntil("all", time.Minute, done)
			vrt.Quiet(false)
			armed = true
			if early {
				grow()
			}
			g.Rebalance()
		} else if early {
			vrt.Sleep(100 * time.Millisecond)
			grow()
		}
		if !vrt.WaitUntil("all records", 5*time.Minute, func() bool { return len(ps) == 3 && done() }) {
			if a == nil {
				t.Fail("Consume does not return: %v", g.History)
				return
			}
			if len(ps) == 3 {
				t.Fail("records missing after the topic has grown: %s, %v", offs(a.got), g.History)
			}
		}
		armed = false
		vrt.Quiet(true)
		vrt.Sleep(12 * time.Second)
		if !vrt.WaitUntil("stable", 2*time.Minute, func() bool { return g.State == kfake.Stable && len(g.Members) == 1 }) {
			t.Fail("the group is not stable with one member at the end: state %d members %v history %v", g.State, g.IDs(), g.History)
		}
		// one consumer per partition is left: new records come once
		gen := g.Gen
		n := len(a.got)
		for _, p := range ps {
			p.AddRecs("after")
		}
		vrt.Sleep(12 * time.Second)
		if got := a.got[n:]; g.Gen == gen && len(got) != len(ps) {
			t.Fail("%d records were produced in a quiet group, %d delivered: %s; %v", len(ps), len(got), offs(got), g.History)
		} else if g.Gen != gen {
			t.Fail("the group does not come to rest: %v", g.History)
		}
		t.checkProtocol("A")
		if !call("Close", time.Minute, c.Close) {
			t.Fail("Close does not return")
		}
		k := len(cl.CallsOf("Fetch"))
		vrt.Sleep(12 * time.Second)
		if m := len(cl.CallsOf("Fetch")); m != k {
			t.Fail("%d fetches after Close", m-k)
		}
		t.Out("%s %v", offs(a.got), g.History)
		t.CheckBad()
	}})
	// the application commits by itself while the group rebalances
	reg(&Scenario{Prop: "P04", Name: "explicit-commit", Fine: true, Quick: Bound{Dev: 1}, Thorough: Bound{Dev: 2}, MaxSteps: 60000, Horizon: 3 * time.Hour, Run: func(t *T) {
		cl := t.Cluster(2)
		ps := cl.AddTopic("t", 1, 2).Parts
		ps[0].AddRecs("a0", "a1")
		ps[1].AddRecs("b0")
		g := cl.Group("g")
		vrt.Quiet(true)
		cfg := groupCfg(cl, "A")
		cfg.AutoCommit = false
		c := startGroup(t, "t", cfg)
		ch, _ := c.Consume(nil)
		a := startApp(ch, -1)
		vrt.WaitUntil("all", time.Minute, func() bool { return has(a.got, ps[0]) && has(a.got, ps[1]) })
		gen := g.Gen
		g.AddGhost([]string{"a-ghost", "z-ghost"}[vrt.Input(2)], ghostMeta("t"))
		when := vrt.Input(4)
		vrt.Quiet(false)
		vrt.GoNamed("committer", func() {
			switch when { // the moments a rebalance goes through
			case 1:
				vrt.WaitUntil("stopping", time.Minute, func() bool { return len(cl.CallsOf("JoinGroup")) > 1 })
			case 2:
				vrt.WaitUntil("new generation", time.Minute, func() bool { return g.Gen > gen })
			case 3:
				vrt.WaitUntil("stable", time.Minute, func() bool { return g.Gen > gen && g.State == kfake.Stable })
			}
			c.CommitOffset()
		})
		if !vrt.WaitUntil("rebalance", time.Minute, func() bool { return g.Gen > gen && g.State == kfake.Stable }) {
			t.Fail("no rebalance: %v", g.History)
			return
		}
		vrt.Sleep(time.Second)
		vrt.Quiet(true)
		t.checkProtocol("A")
		t.Out("%s %d %d %v", offs(a.got), g.CommittedOffset("t", 0), g.CommittedOffset("t", 1), g.History)
		t.CheckBad()
	}})
}
