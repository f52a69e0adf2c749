package main

import (
	"fmt"
	"time"

	"github.com/childe/healer"
	"github.com/childe/healer/kfake"
	"github.com/childe/healer/vrt"
)

// app reads up to max records from ch (all when max < 0) and keeps what it got.
type app struct {
	got  []*healer.FullMessage
	quit chan bool
}

func startApp(ch <-chan *healer.FullMessage, max int) *app {
	a := &app{quit: make(chan bool)}
	vrt.GoNamed("app", func() {
		for max < 0 || len(a.got) < max {
			s := vrt.Select(false, vrt.CR(ch), vrt.CR(a.quit))
			if s.I == 1 {
				return
			}
			if m, ok := vrt.SelRecv2(ch, s); ok {
				a.got = append(a.got, m)
			} else {
				return
			}
		}
	})
	return a
}

func (a *app) stop() { vrt.Close(a.quit) }

// handed is the set of offsets of one partition the application got.
func handed(ms []*healer.FullMessage, topic string, part int32) map[int64]bool {
	h := map[int64]bool{}
	for _, m := range ms {
		if m.Message != nil && m.TopicName == topic && m.PartitionID == part {
			h[m.Message.Offset] = true
		}
	}
	return h
}

// checkCommits compares every accepted commit of the partition with what the
// application had been given at the end of the run.
func (t *T) checkCommits(g *kfake.Group, p *kfake.Part, start int64, got []*healer.FullMessage) {
	h := handed(got, p.Topic, p.ID)
	last := start
	for _, c := range g.Commits {
		if c.Topic != p.Topic || c.Part != p.ID {
			if c.Topic != p.Topic {
				t.Fail("offset committed for %s-%d which nobody consumes", c.Topic, c.Part)
			}
			continue
		}
		if c.Offset < start {
			t.Fail("offset %d committed, consumption started at %d", c.Offset, start)
			return
		}
		if c.Offset < last {
			t.Fail("offset %d committed after %d", c.Offset, last)
			return
		}
		last = c.Offset
		if c.Offset > p.End {
			t.Fail("offset %d committed, the log ends at %d", c.Offset, p.End)
		}
		for _, r := range p.Recs(start) {
			if r.Offset < c.Offset && !h[r.Offset] {
				t.Fail("offset %d committed, but record %d was never handed to the application (got %s)", c.Offset, r.Offset, offs(got))
				return
			}
		}
	}
}

func init() {
	setup := func(t *T) (*kfake.Cluster, *kfake.Part, *kfake.Group, healer.ConsumerConfig) {
		cl := t.Cluster(2)
		cl.Coord = func(string) int32 { return 2 }
		p := cl.AddTopic("t", 1).Parts[0]
		p.Start, p.End = 3, 3
		p.AddRecs("a", "b")
		p.AddRecs("c")
		p.AddRecs("d")
		p.NChunks = 1
		cfg := consCfg(cl)
		cfg.GroupID = "g"
		cfg.AutoCommit = true
		cfg.AutoCommitIntervalMS = 300
		cfg.FromBeginning = true
		return cl, p, cl.Group("g"), cfg
	}
	// resume starts a second consumer and checks that it goes on at the committed offset.
	resume := func(t *T, p *kfake.Part, g *kfake.Group, cfg healer.ConsumerConfig, first []*healer.FullMessage, startAt int64) {
		t.Cl.Decide, t.Cl.DialHook, t.Cl.WriteHook = nil, nil, nil
		com := g.CommittedOffset(p.Topic, p.ID)
		from := com
		if com < 0 {
			from = p.Start
		}
		n := len(t.Cl.Calls)
		c := startConsumer(t, p.Topic, p.ID, cfg)
		if c == nil {
			return
		}
		ch, _ := c.Consume(-2, nil)
		want := p.Recs(from)
		got := drain(ch, len(want)+2, 5*time.Second)
		t.checkExact("restarted consumer", got, p.Topic, p.ID, want)
		for _, cc := range t.Cl.Calls[n:] {
			if cc.Name() == "Fetch" {
				if o := fetchOffset(cc); o != from {
					t.Fail("restarted consumer fetches from %d, committed offset is %d", o, com)
				}
				break
			}
		}
		// nothing lost across the restart
		h := handed(append(append([]*healer.FullMessage{}, first...), got...), p.Topic, p.ID)
		for _, r := range p.Recs(startAt) {
			if !h[r.Offset] {
				t.Fail("record %d lost across the restart (first %s, then %s)", r.Offset, offs(first), offs(got))
			}
		}
	}
	stopRun := func(buf int) func(t *T) {
		return func(t *T) {
			cl, p, g, cfg := setup(t)
			_ = cl
			vrt.Quiet(true)
			n := vrt.Input(5)
			when := vrt.Input(4)
			cfg.OffsetsStorage = vrt.Input(2)
			c := startConsumer(t, "t", 0, cfg)
			ch, _ := c.Consume(3, make(chan *healer.FullMessage, buf))
			vrt.Quiet(false)
			a := startApp(ch, n)
			switch when {
			case 0:
				vrt.WaitUntil("all read", 2*time.Second, func() bool { return len(a.got) >= n })
			case 1:
				vrt.Sleep(300 * time.Millisecond) // at a commit tick
			case 2:
				vrt.Sleep(700 * time.Millisecond)
			}
			if !call("Stop", time.Minute, c.Stop) {
				t.Fail("Stop does not return")
				return
			}
			vrt.Quiet(true)
			vrt.Sleep(time.Second)
			a.stop()
			vrt.Settle()
			got := append(a.got, drain(ch, 10, time.Millisecond)...) // what lies in the channel has been handed over
			t.checkCommits(g, p, 3, got)
			t.Out("read %d handed %s committed %d", n, offs(got), g.CommittedOffset("t", 0))
			if com := g.CommittedOffset("t", 0); len(got) > 0 && com != got[len(got)-1].Message.Offset+1 {
				t.Fail("stopped after handing over %s, committed offset is %d", offs(got), com)
			}
			resume(t, p, g, cfg, got, 3)
			t.CheckBad()
		}
	}
	reg(&Scenario{Prop: "P03", Name: "stop-unbuffered", Fine: true, TimeDev: true, Quick: Bound{Dev: 1}, Thorough: Bound{Dev: 2}, Horizon: time.Hour, Run: stopRun(0)})
	reg(&Scenario{Prop: "P03", Name: "stop-buffered", Fine: true, TimeDev: true, Quick: Bound{Dev: 1}, Thorough: Bound{Dev: 2}, Horizon: time.Hour, Run: stopRun(1)})
	// explicit commits at any moment, no automatic ones
	reg(&Scenario{Prop: "P03", Name: "explicit", Fine: true, Quick: Bound{Dev: 1}, Thorough: Bound{Dev: 2}, Horizon: time.Hour, Run: func(t *T) {
		cl, p, g, cfg := setup(t)
		cfg.AutoCommit = false
		vrt.Quiet(true)
		n := vrt.Input(5)
		ncommit := vrt.Input(3)
		c := startConsumer(t, "t", 0, cfg)
		ch, _ := c.Consume(3, make(chan *healer.FullMessage))
		vrt.Quiet(false)
		a := startApp(ch, n)
		for i := 0; i < ncommit; i++ {
			if !call("CommitOffset", time.Minute, c.CommitOffset) {
				t.Fail("CommitOffset does not return")
				return
			}
			if i == 0 {
				vrt.WaitUntil("all read", time.Second, func() bool { return len(a.got) >= n })
			}
		}
		call("Stop", time.Minute, c.Stop)
		vrt.Quiet(true)
		vrt.Sleep(time.Second)
		a.stop()
		vrt.Settle()
		if k := len(cl.CallsOf("OffsetCommit")); k > ncommit {
			t.Fail("%d offset commits sent, CommitOffset was called %d times and auto.commit is off", k, ncommit)
		}
		t.checkCommits(g, p, 3, a.got)
		t.Out("read %d committed %d", len(a.got), g.CommittedOffset("t", 0))
		resume(t, p, g, cfg, a.got, 3)
		t.CheckBad()
	}})
	// faults on the commit path; once they are over the committed offset catches up
	reg(&Scenario{Prop: "P03", Name: "faults", Quick: Bound{Dev: 2, Caps: map[byte]int{'S': 1, 'C': 1}}, Thorough: Bound{Dev: 3, Caps: map[byte]int{'S': 1, 'C': 1}}, Horizon: 2 * time.Hour, Run: func(t *T) {
		cl, p, g, cfg := setup(t)
		cfg.AutoCommitIntervalMS = 2000
		coord := int32(2)
		cl.Coord = func(string) int32 { return coord }
		on := false
		pre := vrt.Input(2) == 1
		if pre {
			g.SetCommitted("t", 0, 5)
		}
		t.Faults(func(c *kfake.Call) []*kfake.Fault {
			if !on || c.Name() == "Fetch" || c.Name() == "Metadata" {
				return nil
			}
			o := netFaults()
			switch c.Name() {
			case "OffsetCommit":
				o = append(o, errFaults(14, 15, 16, 7, 12, 28, 29, -1)...)
			case "OffsetFetch":
				o = append(o, errFaults(14, 15, 16, 7, -1)...)
			case "FindCoordinator":
				o = append(o, errFaults(14, 15, -1)...)
			}
			return o
		})
		t.DialFaults(func() bool { return on })
		inner := cl.Decide
		cl.Decide = func(c *kfake.Call) *kfake.Fault {
			if on && (c.Name() == "OffsetCommit" || c.Name() == "OffsetFetch") && vrt.Choose(2) == 1 {
				coord = 3 - coord // the coordinator moves
			}
			return inner(c)
		}
		on = true
		c := startConsumer(t, "t", 0, cfg)
		if c == nil {
			return
		}
		ch, _ := c.Consume(-2, nil)
		start := int64(3)
		if pre {
			start = 5
		}
		want := p.Recs(start)
		got := drain(ch, len(want), 100*time.Second)
		t.checkExact("consumer", got, "t", 0, want)
		vrt.WaitUntil("commit", 60*time.Second, func() bool { return g.CommittedOffset("t", 0) == p.End })
		on = false
		if !vrt.WaitUntil("commit", 10*time.Minute, func() bool { return g.CommittedOffset("t", 0) == p.End }) {
			t.Fail("all records delivered, but the committed offset stays %d although the cluster is healthy", g.CommittedOffset("t", 0))
		}
		t.checkCommits(g, p, start, got)
		call("Stop", time.Minute, c.Stop)
		t.Out("faults=%d commits=%d", t.nf, len(g.Commits))
		resume(t, p, g, cfg, got, start)
		t.CheckBad()
	}})
	// commits while the consumer finds out where to start, whatever goes wrong meanwhile
	reg(&Scenario{Prop: "P03", Name: "startup", Quick: Bound{Dev: 2, Caps: map[byte]int{'S': 0, 'C': 0}}, Thorough: Bound{Dev: 3, Caps: map[byte]int{'S': 2, 'C': 1}}, Horizon: time.Hour, Run: func(t *T) {
		cl, p, g, cfg := setup(t)
		from := int64(-1 - vrt.Input(2))
		pre := vrt.Input(2) == 1
		cfg.AutoCommit = vrt.Input(2) == 1
		start := p.End
		if from == -2 {
			start = p.Start
		}
		if pre {
			start = 4
			g.SetCommitted("t", 0, 4)
		}
		on := true
		t.Faults(func(c *kfake.Call) []*kfake.Fault {
			if !on {
				return nil
			}
			switch c.Name() {
			case "OffsetFetch":
				return append(netFaults(), errFaults(14, 15, 16)...)
			case "ListOffsets":
				return append(netFaults(), errFaults(3, 5, 6)...)
			}
			return nil
		})
		var c *healer.SimpleConsumer
		commit := func() {
			if c != nil {
				c.CommitOffset()
			}
		}
		inner := cl.Decide
		cl.Decide = func(cc *kfake.Call) *kfake.Fault {
			if on && c != nil {
				switch cc.Name() {
				case "OffsetFetch", "ListOffsets", "Metadata":
					switch vrt.Choose(3) {
					case 1: // the application commits while this is under way
						vrt.GoNamed("commit", commit)
					case 2: // ... and a moment later
						vrt.AfterFn(200*time.Millisecond, func() { vrt.GoNamed("commit", commit) })
					}
				}
			}
			return inner(cc)
		}
		c = startConsumer(t, "t", 0, cfg)
		if c == nil {
			return
		}
		commit() // before anything is consumed
		var ch <-chan *healer.FullMessage
		if !call("Consume", 5*time.Minute, func() { ch, _ = c.Consume(from, nil) }) {
			t.Fail("Consume does not return")
			return
		}
		on = false
		vrt.Quiet(true)
		p.AddRecs("late")
		want := p.Recs(start)
		got := drain(ch, len(want)+1, 30*time.Second)
		t.checkExact("consumer", got, "t", 0, want)
		commit()
		call("Stop", time.Minute, c.Stop)
		vrt.Sleep(time.Second)
		t.checkCommits(g, p, start, got)
		t.Out("start %d commits %d", start, len(g.Commits))
		if com := g.CommittedOffset("t", 0); com != p.End {
			t.Fail("everything up to %d delivered and committed, the committed offset is %d", p.End, com)
		}
		t.CheckBad()
	}})
	// slow commits, records keep coming while they are under way, then nothing more comes
	reg(&Scenario{Prop: "P03", Name: "slow-commit", Quick: Bound{Dev: 1}, Thorough: Bound{Dev: 2}, Horizon: time.Hour, Run: func(t *T) {
		cl, p, g, cfg := setup(t)
		group := vrt.Input(2) == 1
		slow := []time.Duration{100 * time.Millisecond, 900 * time.Millisecond}[vrt.Input(2)]
		fail := vrt.Input(3) // the commit under way is lost, refused, or nothing happens
		when := vrt.Input(4) // the application stops: never, during the commit, after it
		n := 0
		inner := cl.Decide
		cl.Decide = func(c *kfake.Call) *kfake.Fault {
			if c.Name() == "OffsetCommit" {
				if n++; n == 1 {
					vrt.AfterFn(50*time.Millisecond, func() { p.AddRecs("e", "f") })
					f := kfake.Fault{Delay: slow}
					switch fail {
					case 1:
						f.Err = 14
					case 2:
						f.Err = 7
					}
					return fk("slow", f)
				}
			}
			if inner == nil {
				return nil
			}
			return inner(c)
		}
		var ch <-chan *healer.FullMessage
		var stop func()
		if group {
			c, err := healer.NewGroupConsumer("t", cfg)
			if err != nil {
				t.Fail("%v", err)
				return
			}
			stop = c.Close
			ch, _ = c.Consume(make(chan *healer.FullMessage))
		} else {
			c := startConsumer(t, "t", 0, cfg)
			stop = c.Stop
			ch, _ = c.Consume(-2, make(chan *healer.FullMessage))
		}
		a := startApp(ch, -1)
		vrt.WaitUntil("commit", 10*time.Second, func() bool { return n > 0 })
		switch when {
		case 1:
			vrt.Sleep(60 * time.Millisecond)
		case 2:
			vrt.Sleep(200 * time.Millisecond)
		case 3:
			vrt.Sleep(2 * time.Second)
		case 0:
			if !vrt.WaitUntil("caught up", time.Minute, func() bool { return g.CommittedOffset("t", 0) == p.End && p.End > 7 }) {
				t.Fail("every record up to %d was delivered (%s), the committed offset stays %d", p.End, offs(a.got), g.CommittedOffset("t", 0))
			}
		}
		if !call("stop", time.Minute, stop) {
			t.Fail("stopping does not return")
			return
		}
		vrt.Sleep(time.Second)
		a.stop()
		vrt.Settle()
		t.checkCommits(g, p, 3, a.got)
		com := g.CommittedOffset("t", 0)
		t.Out("handed %s committed %d", offs(a.got), com)
		if len(a.got) > 0 && com != a.got[len(a.got)-1].Message.Offset+1 {
			t.Fail("stopped after handing over %s, committed offset is %d", offs(a.got), com)
		}
		t.CheckBad()
	}})
	// a group consumer: reading some records, closing at any moment, starting another one
	reg(&Scenario{Prop: "P03", Name: "group", Fine: false, TimeDev: true, Quick: Bound{Dev: 1}, Thorough: Bound{Dev: 2}, Horizon: time.Hour, Run: func(t *T) {
		cl, p, g, cfg := setup(t)
		vrt.Quiet(true)
		n := vrt.Input(5)
		when := vrt.Input(4)
		pre := vrt.Input(2) == 1
		start := int64(3)
		if pre {
			start = 4
			g.SetCommitted("t", 0, 4)
		}
		c, err := healer.NewGroupConsumer("t", cfg)
		if err != nil {
			t.Fail("%v", err)
			return
		}
		vrt.Quiet(false)
		ch, _ := c.Consume(make(chan *healer.FullMessage))
		a := startApp(ch, n)
		switch when {
		case 0:
			vrt.WaitUntil("all read", 2*time.Second, func() bool { return len(a.got) >= n })
		case 1:
			vrt.Sleep(300 * time.Millisecond)
		case 2:
			vrt.Sleep(700 * time.Millisecond)
		}
		if !call("Close", time.Minute, c.Close) {
			t.Fail("Close does not return")
			return
		}
		vrt.Quiet(true)
		vrt.Sleep(time.Second)
		a.stop()
		vrt.Settle()
		t.checkCommits(g, p, start, a.got)
		if com := g.CommittedOffset("t", 0); len(a.got) > 0 && com != a.got[len(a.got)-1].Message.Offset+1 {
			t.Fail("closed after handing over %s, committed offset is %d", offs(a.got), com)
		}
		t.Out("read %d committed %d", len(a.got), g.CommittedOffset("t", 0))
		c2, err := healer.NewGroupConsumer("t", cfg)
		if err != nil {
			t.Fail("%v", err)
			return
		}
		com := g.CommittedOffset("t", 0)
		if com < 0 {
			com = start
		}
		ch2, _ := c2.Consume(nil)
		want := p.Recs(com)
		got2 := drain(ch2, len(want)+2, 100*time.Second)
		t.checkExact(fmt.Sprintf("second group consumer (committed %d)", com), got2, "t", 0, want)
		h := handed(append(append([]*healer.FullMessage{}, a.got...), got2...), "t", 0)
		for _, r := range p.Recs(start) {
			if !h[r.Offset] {
				t.Fail("record %d lost across the restart (first %s, then %s)", r.Offset, offs(a.got), offs(got2))
			}
		}
		_ = cl
		t.CheckBad()
	}})
	// commits of a group member fail: the offset is committed later
	reg(&Scenario{Prop: "P03", Name: "group-faults", Quick: Bound{Dev: 2, Caps: map[byte]int{'S': 1, 'C': 0}}, Thorough: Bound{Dev: 3, Caps: map[byte]int{'S': 1, 'C': 1}}, Horizon: time.Hour, Run: func(t *T) {
		_, p, g, cfg := setup(t)
		cfg.AutoCommitIntervalMS = 2000
		on := false
		t.Faults(func(c *kfake.Call) []*kfake.Fault {
			if !on || c.Name() != "OffsetCommit" {
				return nil
			}
			return append(netFaults(), errFaults(14, 15, 16, 7, 12, 22, 25, 27, 28, 29, -1)...)
		})
		vrt.Quiet(true)
		c := startGroup(t, "t", cfg)
		if c == nil {
			return
		}
		ch, _ := c.Consume(nil)
		a := startApp(ch, -1)
		on = true
		vrt.Quiet(false)
		vrt.WaitUntil("all", time.Minute, func() bool { return has(a.got, p) })
		vrt.WaitUntil("commit", 20*time.Second, func() bool { return g.CommittedOffset("t", 0) == p.End })
		on = false
		vrt.Quiet(true)
		if !vrt.WaitUntil("commit", 5*time.Minute, func() bool { return g.CommittedOffset("t", 0) == p.End }) {
			t.Fail("all records delivered (%s), but the committed offset stays %d although the cluster is healthy", offs(a.got), g.CommittedOffset("t", 0))
		}
		t.checkCommits(g, p, 3, a.got)
		t.checkProtocol("A")
		t.Out("faults=%d commits=%d", t.nf, len(g.Commits))
		call("Close", time.Minute, c.Close)
		t.CheckBad()
	}})
	// a group consumer which has to join again while nothing is wrong with the coordinator: what was handed
	// over is committed before, so it is not delivered again, and nothing is left out
	reg(&Scenario{Prop: "P03", Name: "group-rebalance", Quick: Bound{Dev: 1}, Thorough: Bound{Dev: 2}, Horizon: time.Hour, Run: func(t *T) {
		cl, p, g, cfg := setup(t)
		cfg.AutoCommitIntervalMS = 3600 * 1000
		cfg.MetadataMaxAgeMS = 1000
		nk, nb := 3, 1
		if t.tier == "thorough" {
			nk, nb = 5, 2
		}
		k := []int{0, 2, 4, 1, 3}[vrt.Input(nk)]
		grow := vrt.Input(2) == 1
		buf := vrt.Input(nb)
		if vrt.Input(2) == 1 {
			cfg.FromBeginning = false
			g.SetCommitted("t", 0, 3)
		}
		vrt.Quiet(true)
		c := startGroup(t, "t", cfg)
		if c == nil {
			return
		}
		ch, _ := c.Consume(make(chan *healer.FullMessage, buf))
		vrt.Quiet(false)
		a := startApp(ch, k)
		vrt.WaitUntil("k records", time.Minute, func() bool { return len(a.got) >= k })
		gen := g.Gen
		if grow {
			cl.Topics["t"].Parts = append(cl.Topics["t"].Parts, &kfake.Part{Topic: "t", ID: 1, Leader: 1, Epoch: 5, Replicas: []int32{1}})
		} else {
			g.Rebalance()
		}
		// meanwhile the application is busy
		vrt.Sleep(100 * time.Millisecond)
		p.AddRecs("e", "f")
		a.stop()
		a2 := startApp(ch, -1)
		vrt.WaitUntil("joined again", time.Minute, func() bool { return g.Gen > gen && g.State == kfake.Stable })
		if grow {
			vrt.Sleep(2 * time.Second)
		}
		p.AddRecs("g")
		all := func() []*healer.FullMessage { return append(append([]*healer.FullMessage{}, a.got...), a2.got...) }
		vrt.WaitUntil("all", 5*time.Minute, func() bool { return len(all()) >= 7 })
		vrt.Quiet(true)
		vrt.Sleep(time.Second)
		if g.Gen == gen {
			t.Fail("the member did not join again: %v", g.History)
		}
		t.checkExact(fmt.Sprintf("%d records, joined again, the rest (%v)", k, g.Commits), all(), "t", 0, p.Recs(3))
		t.checkCommits(g, p, 3, all())
		t.Out("%s | %s", offs(a.got), offs(a2.got))
		call("Close", time.Minute, c.Close)
		t.CheckBad()
	}})
}

func fetchOffset(c *kfake.Call) int64 {
	for _, tp := range c.Req.Body["topics"].(A) {
		for _, p := range tp.(M)["partitions"].(A) {
			return kfake.Num(p.(M)["fetch_offset"])
		}
	}
	return -99
}
