package main

import (
	"fmt"
	"io"
	"time"

	"github.com/childe/healer"
	"github.com/childe/healer/kfake"
	"github.com/childe/healer/vrt"
)

// checkRouting checks that every request went to the broker responsible for
// it, for a cluster whose layout did not change.
func (t *T) checkRouting(asker map[int32]bool) {
	cl := t.Cl
	for _, c := range cl.Calls {
		b := c.Req.Body
		want := int32(-1)
		switch c.Name() {
		case "Fetch", "ListOffsets", "Produce":
			for _, k := range []string{"topics", "topic_data"} {
				for _, tp := range aval(b[k]) {
					tm := tp.(M)
					name := sval(tm["topic"]) + sval(tm["name"])
					for _, k := range []string{"partitions", "partition_data"} {
						for _, q := range aval(tm[k]) {
							qm := q.(M)
							id := int32(0)
							for _, f := range []string{"partition", "partition_index", "index"} {
								if v, ok := qm[f]; ok {
									id = int32(kfake.Num(v))
								}
							}
							p := cl.Part(name, id)
							if p == nil {
								t.Fail("%s about %s-%d, which does not exist", c.Name(), name, id)
							} else if p.Leader != c.Node.ID {
								t.Fail("%s about %s-%d sent to broker %d, its leader is %d", c.Name(), name, id, c.Node.ID, p.Leader)
							}
						}
					}
				}
			}
			continue
		case "JoinGroup", "SyncGroup", "Heartbeat", "LeaveGroup", "OffsetCommit", "OffsetFetch":
			want = cl.Coord(sval(b["group_id"]))
		case "DeleteGroups":
			for _, g := range aval(b["groups_names"]) {
				want = cl.Coord(sval(g))
			}
		case "CreateTopics", "DeleteTopics", "CreatePartitions", "DescribeAcls", "CreateAcls", "DeleteAcls", "AlterPartitionReassignments", "ListPartitionReassignments", "ElectLeaders":
			want = cl.Controller
		case "DescribeConfigs", "AlterConfigs", "IncrementalAlterConfigs":
			for _, r := range aval(b["resources"]) {
				if kfake.Num(r.(M)["resource_type"]) == 4 {
					fmt.Sscan(sval(r.(M)["resource_name"]), &want)
				} else {
					want = cl.Controller
				}
			}
		case "Metadata", "FindCoordinator", "ApiVersions":
			continue
		default:
			if n := cl.Node(c.Node.ID); n.Hidden {
				t.Fail("%s sent to broker %d which is not part of the cluster", c.Name(), c.Node.ID)
			}
			continue
		}
		if want != c.Node.ID {
			t.Fail("%s sent to broker %d, %d is responsible for it", c.Name(), c.Node.ID, want)
		}
	}
}

// vip adds a bootstrap address which is not one of the advertised brokers.
func vip(cl *kfake.Cluster) {
	v := &kfake.Node{ID: 77, Host: "vip", Port: 9000, Up: true, Hidden: true, Versions: kfake.DefaultVersions()}
	cl.Nodes = append([]*kfake.Node{v}, cl.Nodes...)
}

func brokersOf(t *T, cl *kfake.Cluster) *healer.Brokers {
	bs, err := healer.NewBrokersWithConfig(cl.Bootstrap(), healer.DefaultBrokerConfig())
	if err != nil {
		t.Fail("NewBrokers: %v", err)
		return nil
	}
	return bs
}

// sick makes a broker unusable in one of several ways.
func sick(cl *kfake.Cluster, n *kfake.Node, how int) {
	switch how {
	case 0:
		n.Up = false
		for _, s := range n.Conns {
			if !s.Hung() && s.C != nil {
				s.Hang(syscallReset)
			}
		}
	default:
		inner := cl.Decide
		cl.Decide = func(c *kfake.Call) *kfake.Fault {
			if c.Node == n {
				switch how {
				case 1:
					return fk("silent", kfake.Fault{Drop: true})
				case 2:
					return fk("eof", kfake.Fault{Skip: true, Hang: io.EOF})
				}
			}
			if inner != nil {
				return inner(c)
			}
			return nil
		}
	}
}

func init() {
	// offsets of one or all partitions of a topic
	offsets := func(maxParts int) func(t *T) {
		return func(t *T) {
			cl := t.Cluster(3)
			n := 1 + vrt.Input(maxParts)
			var lead []int32
			for i := 0; i < n; i++ {
				lead = append(lead, int32(1+vrt.Input(3)))
			}
			sparse := vrt.Input(2) == 1 // nothing is known about partition 0
			if sparse {
				lead = append([]int32{1}, lead...)
			}
			tp := cl.AddTopic("t", lead...)
			if sparse {
				tp.Parts = tp.Parts[1:]
			}
			cl.AddTopic("other", 2, 3)
			for _, p := range tp.Parts {
				p.Start, p.End = int64(10*p.ID), int64(10*p.ID)
				p.AddRecs("a", "b")
				p.AddRecs("c")
			}
			if vrt.Input(2) == 1 { // listing order
				for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
					tp.Parts[i], tp.Parts[j] = tp.Parts[j], tp.Parts[i]
				}
			}
			hi := []int{6, 0, 1}[vrt.Input(3)]
			for _, n := range cl.Nodes {
				n.Versions[2] = [2]int{0, hi}
			}
			if vrt.Input(2) == 1 {
				vip(cl)
			}
			ts := []int64{-1, -2, 1011}[vrt.Input(3)]
			part := int32(-1)
			if k := vrt.Input(n + 2); k == n+1 { // does not exist
				if part = 0; !sparse {
					part = int32(n)
				}
			} else if k > 0 {
				part = tp.Parts[k-1].ID
			}
			// a broker may be down
			bad := vrt.Input(4)
			bs := brokersOf(t, cl)
			if bs == nil {
				return
			}
			if bad > 0 {
				sick(cl, cl.Node(int32(bad)), 0)
			}
			t.Sample = fmt.Sprintf("leaders=%v partition=%d time=%d down=%d v<=%d", lead, part, ts, bad, hi)
			rs, err := bs.RequestOffsets("cid", "t", part, ts, 1)
			want := map[int32]int64{}
			need := part >= 0 && cl.Part("t", part) == nil
			for _, p := range tp.Parts {
				if part < 0 || part == p.ID {
					want[p.ID] = p.OffsetFor(ts)
					need = need || p.Leader == int32(bad)
				}
			}
			if err != nil {
				if !need {
					t.Fail("RequestOffsets: %v", err)
				}
				t.Out("error")
				return
			}
			if need {
				t.Fail("the leader of a partition is down or does not exist, and RequestOffsets returns no error")
			}
			got := map[int32]int64{}
			for _, r := range rs {
				for name, ps := range r.TopicPartitionOffsets {
					if name != "t" {
						t.Fail("answer about topic %s", name)
					}
					for _, p := range ps {
						if _, ok := got[p.Partition]; ok {
							t.Fail("partition %d answered twice", p.Partition)
						}
						if hi == 0 && want[p.Partition] < 0 { // no offset
							got[p.Partition] = -1
							if len(p.OldStyleOffsets) != 0 {
								t.Fail("partition %d: %v", p.Partition, p.OldStyleOffsets)
							}
							continue
						}
						got[p.Partition] = p.GetOffset()
					}
				}
			}
			if fmt.Sprint(got) != fmt.Sprint(want) {
				t.Fail("offsets %v, want %v", got, want)
			}
			t.checkRouting(nil)
			t.Out("%d answers", len(rs))
			t.CheckBad()
		}
	}
	reg(&Scenario{Prop: "P17", Name: "offsets", Quick: Bound{}, Thorough: Bound{}, Horizon: time.Hour, Run: offsets(3)})
	reg(&Scenario{Prop: "P17", Name: "offsets-orders", Quick: Bound{Dev: 1, Caps: map[byte]int{'S': 0, 'C': 0}}, Thorough: Bound{Dev: 2, Caps: map[byte]int{'S': 0, 'C': 0}}, Horizon: time.Hour, Run: offsets(2)})

	// metadata and coordinator lookups succeed as long as one known broker answers
	lookup := func(t *T) {
		cl := t.Cluster(3)
		cl.AddTopic("t", 1, 2, 3)
		co := int32(1 + vrt.Input(3))
		cl.Coord = func(string) int32 { return co }
		if vrt.Input(2) == 1 {
			vip(cl)
		}
		var how [3]int
		up := 0
		for i := range how {
			how[i] = vrt.Input(4) - 1
			if how[i] < 0 {
				up++
			}
		}
		if up == 0 {
			t.Trivial()
			return
		}
		early := vrt.Input(2) == 1 // before or after the cluster view exists
		ill := func() {
			for i, h := range how {
				if h >= 0 {
					sick(cl, cl.Node(int32(i+1)), h)
				}
			}
		}
		if early {
			ill()
		}
		bs := brokersOf(t, cl)
		if bs == nil {
			return
		}
		if !early {
			ill()
		}
		kind := vrt.Input(2)
		t.Sample = fmt.Sprintf("brokers=%v early=%v lookup=%d", how, early, kind)
		if !call("lookup", 10*time.Minute, func() {
			if kind == 0 {
				r, err := bs.RequestMetaData("cid", []string{"t"})
				if err != nil {
					t.Fail("RequestMetaData: %v", err)
				} else if len(r.TopicMetadatas) != 1 || r.TopicMetadatas[0].TopicName != "t" || len(r.TopicMetadatas[0].PartitionMetadatas) != 3 {
					t.Fail("metadata %+v", r)
				}
				return
			}
			r, err := bs.FindCoordinator("cid", "g")
			if err != nil {
				t.Fail("FindCoordinator: %v", err)
			} else if r.Coordinator.NodeID != co {
				t.Fail("coordinator %d, want %d", r.Coordinator.NodeID, co)
			}
		}) {
			t.Fail("the lookup does not return")
		}
		t.Out("%v", how)
		t.CheckBad()
	}
	reg(&Scenario{Prop: "P17", Name: "lookups", Quick: Bound{Dev: 1, Caps: map[byte]int{'S': 0}}, Thorough: Bound{Dev: 2, Caps: map[byte]int{'S': 0}}, Horizon: 2 * time.Hour, Run: lookup})

	// brokers join the cluster after the view was taken
	grow := func(t *T) {
		cl := t.Cluster(3)
		tp := cl.AddTopic("t", 1, 2)
		neu := cl.Node(3)
		neu.Hidden, neu.Up = true, false
		boot := cl.Bootstrap()
		if vrt.Input(2) == 1 {
			boot = cl.Node(1).Addr()
		}
		bs, err := healer.NewBrokersWithConfig(boot, healer.DefaultBrokerConfig())
		if err != nil {
			t.Fail("NewBrokers: %v", err)
			return
		}
		neu.Hidden, neu.Up = false, true
		if vrt.Input(2) == 1 {
			cl.Controller = 3
		}
		if vrt.Input(2) == 1 {
			cl.Node(1).Hidden = true
		}
		down := vrt.Input(3) // one of the known brokers is gone
		how := vrt.Input(3)
		if down > 0 {
			sick(cl, cl.Node(int32(down)), how)
		}
		op := vrt.Input(3)
		t.Sample = fmt.Sprintf("new broker 3, down=%d/%d op=%d", down, how, op)
		switch op {
		case 0:
			tp.Parts[0].Leader, tp.Parts[1].Leader = 3, 3
			tp.Parts[0].End = 5
			rs, err := bs.RequestOffsets("cid", "t", 0, -1, 1)
			if err != nil {
				t.Fail("RequestOffsets: %v", err)
			} else if len(rs) != 1 || len(rs[0].TopicPartitionOffsets["t"]) != 1 || rs[0].TopicPartitionOffsets["t"][0].GetOffset() != 5 {
				t.Fail("offsets %+v", rs)
			}
		case 1, 2:
			get := bs.GetBroker
			if op == 2 {
				get = bs.NewBroker
			}
			b, err := get(3)
			if err != nil {
				t.Fail("broker 3: %v", err)
				return
			}
			if b.GetAddress() != neu.Addr() {
				t.Fail("broker 3 is %s, want %s", b.GetAddress(), neu.Addr())
			}
			if _, err := b.RequestAndGet(healer.NewMetadataRequest("cid", []string{"t"})); err != nil {
				t.Fail("metadata from broker 3: %v", err)
			}
			if c := cl.Calls[len(cl.Calls)-1]; c.Node != neu {
				t.Fail("request to broker 3 arrived at broker %d", c.Node.ID)
			}
			// the view is that of the cluster now
			if bs.Controller() != cl.Controller {
				t.Fail("after the view was refreshed the controller is %d, it is %d", bs.Controller(), cl.Controller)
			}
			if cl.Node(1).Hidden {
				if _, ok := bs.BrokersInfo()[1]; ok {
					t.Fail("after the view was refreshed broker 1 is still part of it")
				}
			}
			if n := cl.Node(cl.Controller); down != int(n.ID) && !n.Hidden {
				r := healer.NewElectLeadersRequest(1000)
				r.Add("t", 0)
				if _, err := bs.ElectLeaders(&r); err != nil {
					t.Fail("ElectLeaders: %v", err)
				}
			}
		}
		t.checkRouting(nil)
		t.CheckBad()
	}
	reg(&Scenario{Prop: "P17", Name: "new-broker", Quick: Bound{Dev: 1, Caps: map[byte]int{'S': 0}}, Thorough: Bound{Dev: 2, Caps: map[byte]int{'S': 0}}, Horizon: 2 * time.Hour, Run: grow})

	// one broker behind another address
	reg(&Scenario{Prop: "P17", Name: "single-vip", Horizon: time.Hour, Run: func(t *T) {
		cl := t.Cluster(1)
		cl.AddTopic("t", 1).Parts[0].AddRecs("a")
		cl.Group("g1")
		vip(cl)
		bs := brokersOf(t, cl)
		if bs == nil {
			return
		}
		b, err := bs.GetBroker(1)
		if err != nil || b.GetAddress() != cl.Node(1).Addr() {
			t.Fail("broker 1 is %v (%v), want %s", b, err, cl.Node(1).Addr())
		}
		if _, err := bs.RequestOffsets("cid", "t", -1, -1, 1); err != nil {
			t.Fail("RequestOffsets: %v", err)
		}
		r := healer.NewElectLeadersRequest(1000)
		r.Add("t", 0)
		if _, err := bs.ElectLeaders(&r); err != nil {
			t.Fail("ElectLeaders: %v", err)
		}
		t.checkRouting(nil)
		t.CheckBad()
	}})

	// administration
	admin := func(t *T) {
		cl := t.Cluster(3)
		cl.AddTopic("t", 1, 2)
		cl.AddTopic("u", 3)
		cl.Controller = int32(1 + vrt.Input(3))
		co := [2]int32{int32(1 + vrt.Input(3)), int32(1 + vrt.Input(3))}
		cl.Coord = func(g string) int32 {
			if g == "g2" {
				return co[1]
			}
			return co[0]
		}
		cl.Group("g1")
		cl.Group("g2")
		if vrt.Input(2) == 1 {
			vip(cl)
		}
		c, err := healer.NewClient(cl.Bootstrap(), "cid")
		if err != nil {
			t.Fail("NewClient: %v", err)
			return
		}
		k := vrt.Input(len(adminCalls))
		t.Sample = adminCalls[k].name
		if _, err := adminCalls[k].do(c, 0); err != nil {
			t.Fail("%s: %v", adminCalls[k].name, err)
		}
		t.checkRouting(nil)
		t.Out("%s", adminCalls[k].name)
		t.CheckBad()
	}
	reg(&Scenario{Prop: "P17", Name: "admin", Quick: Bound{Dev: 1, Caps: map[byte]int{'S': 0}}, Thorough: Bound{Dev: 1, Caps: map[byte]int{'S': 0}}, Horizon: time.Hour, Run: admin})

	// consumers and producers
	clients := func(t *T) {
		cl := t.Cluster(3)
		var lead []int32
		for i := 0; i < 3; i++ {
			lead = append(lead, int32(1+vrt.Input(3)))
		}
		tp := cl.AddTopic("t", lead...)
		switch vrt.Input(3) {
		case 1: // nothing is known about partition 0
			tp.Parts = tp.Parts[1:]
		case 2:
			tp.Parts = []*kfake.Part{tp.Parts[2], tp.Parts[0], tp.Parts[1]}
		}
		for _, p := range tp.Parts {
			p.AddRecs("a")
		}
		co := int32(1 + vrt.Input(3))
		cl.Coord = func(string) int32 { return co }
		if vrt.Input(2) == 1 {
			vip(cl)
		}
		kind := vrt.Input(4)
		t.Sample = fmt.Sprintf("leaders=%v coordinator=%d client=%d", lead, co, kind)
		var ch <-chan *healer.FullMessage
		var err error
		switch kind {
		case 0:
			cfg := consCfg(cl)
			cfg.GroupID = "g"
			cfg.AutoCommit = true
			cfg.AutoCommitIntervalMS = 500
			c := startConsumer(t, "t", 1, cfg)
			if c == nil {
				return
			}
			ch, err = c.Consume(-2, nil)
		case 1:
			cfg := consCfg(cl)
			cfg.GroupID = "g"
			cfg.FromBeginning = true
			var c *healer.Consumer
			if c, err = healer.NewConsumer(cfg, "t"); err == nil {
				ch, err = c.Consume(nil)
			}
		case 2:
			c := startGroup(t, "t", groupCfg(cl, "cid"))
			if c == nil {
				return
			}
			ch, err = c.Consume(nil)
		case 3:
			p, e := healer.NewProducer("t", prodCfg(cl))
			if e != nil {
				t.Fail("NewProducer: %v", e)
				return
			}
			for i := 0; i < 4; i++ {
				if e := p.AddMessage([]byte{byte('a' + i)}, []byte("v")); e != nil && len(tp.Parts) == 3 {
					t.Fail("AddMessage: %v", e)
				}
			}
			p.Close()
		}
		if err != nil {
			t.Fail("%v", err)
			return
		}
		if ch != nil {
			got := drain(ch, 2, 10*time.Second)
			if len(got) == 0 {
				t.Fail("nothing consumed")
			}
			vrt.Sleep(5 * time.Second)
		}
		t.checkRouting(nil)
		t.CheckBad()
	}
	reg(&Scenario{Prop: "P17", Name: "clients", Quick: Bound{Dev: 1, Caps: map[byte]int{'S': 0}}, Thorough: Bound{Dev: 1, Caps: map[byte]int{'S': 0}}, Horizon: time.Hour, Run: clients})
}
