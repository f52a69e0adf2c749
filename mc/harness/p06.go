package main

import (
	"fmt"
	"io"
	"time"

	"github.com/childe/healer"
	"github.com/childe/healer/kfake"
	"github.com/childe/healer/vrt"
)

// quietAfter checks that after a stop nothing is delivered and nothing but
// what may follow a stop is requested.
func (t *T) quietAfter(what string, a *app, ch <-chan *healer.FullMessage, unbuffered bool) {
	vrt.Quiet(true)
	vrt.Settle()
	calls := len(t.Cl.Calls)
	buf := 0
	if ch != nil {
		buf = vrt.Len(ch)
	}
	n := 0
	if a != nil {
		n = len(a.got)
	}
	vrt.Sleep(70 * time.Second)
	if a != nil {
		vrt.Settle()
		extra := len(a.got) - n - buf
		if ch != nil {
			extra += vrt.Len(ch)
		}
		if extra > 0 {
			t.Fail("%s: %d records delivered after it returned (got %s)", what, extra, offs(a.got))
		}
	}
	for _, c := range t.Cl.Calls[calls:] {
		if c.Name() == "Fetch" || c.Name() == "Heartbeat" || c.Name() == "JoinGroup" || c.Name() == "SyncGroup" || c.Name() == "OffsetCommit" {
			t.Fail("%s: %s sent %v after it returned", what, c.Name(), c.At)
		}
	}
}

// atRequest waits until the n-th request has reached a broker.
func atRequest(cl *kfake.Cluster, base, n int) {
	vrt.WaitUntil("request", 3*time.Second, func() bool { return len(cl.Calls)-base >= n })
}

func init() {
	silent := func(on *bool) func(c *kfake.Call) []*kfake.Fault {
		return func(c *kfake.Call) []*kfake.Fault {
			if !*on {
				return nil
			}
			o := []*kfake.Fault{netFaults()[3], netFaults()[0], netFaults()[6]}
			switch c.Name() {
			case "Fetch":
				o = append(o, errFaults(6, 1)...)
			case "Metadata", "ListOffsets":
				o = append(o, errFaults(5)...)
			case "JoinGroup", "SyncGroup", "Heartbeat", "OffsetCommit", "OffsetFetch":
				o = append(o, errFaults(16, 27)...)
			}
			return o
		}
	}
	mkSimple := func(group bool) func(t *T) {
		return func(t *T) {
			cl := t.Cluster(2)
			p := cl.AddTopic("t", 1).Parts[0]
			p.AddRecs("a", "b")
			p.AddRecs("c")
			p.NChunks = 1
			cfg := consCfg(cl)
			cfg.Net.TimeoutMS = 5000
			cfg.SessionTimeoutMS = 10000
			cfg.FetchMaxWaitMS = 2000
			if group {
				cfg.GroupID = "g"
				cfg.AutoCommit = true
				cfg.AutoCommitIntervalMS = 300
			}
			vrt.Quiet(true)
			pos := vrt.Input(10)
			reads := []int{-1, 0, 1}[vrt.Input(3)]
			buf := vrt.Input(2)
			c := startConsumer(t, "t", 0, cfg)
			on := true
			t.Faults(silent(&on))
			base := len(cl.Calls)
			vrt.Quiet(false)
			mch := make(chan *healer.FullMessage, buf)
			var ch <-chan *healer.FullMessage = mch
			returned := false
			vrt.GoNamed("consume", func() { c.Consume(-2, mch); returned = true })
			a := startApp(ch, reads)
			atRequest(cl, base, pos)
			twice := pos%2 == 1
			t0 := vrt.NowD()
			if twice {
				vrt.GoNamed("Stop2", c.Stop)
			}
			if !call("Stop", 5*time.Minute, c.Stop) {
				t.Fail("Stop does not return: %s", t.X.Blocked())
				return
			}
			on = false
			limit := 3 * time.Second
			if t.nf > 0 {
				limit = 30 * time.Second // the timeouts of the requests in flight
			}
			if d := vrt.NowD() - t0; d > limit {
				t.Fail("Stop took %v", d)
			}
			if !twice {
				t.quietAfter("Stop", a, ch, buf == 0)
			}
			vrt.Quiet(true)
			if !vrt.WaitUntil("Consume returns", time.Minute, func() bool { return returned }) {
				t.Fail("Consume does not return after Stop")
			}
			if !call("Stop again", time.Minute, c.Stop) {
				t.Fail("a second Stop does not return")
			}
			t.Out("pos %d got %s", pos, offs(a.got))
			t.CheckBad()
		}
	}
	reg(&Scenario{Prop: "P06", Name: "simple", Fine: true, Quick: Bound{Dev: 1}, Thorough: Bound{Dev: 2}, Horizon: time.Hour, Run: mkSimple(false)})
	reg(&Scenario{Prop: "P06", Name: "simple-group", Fine: true, Quick: Bound{Dev: 1}, Thorough: Bound{Dev: 2}, Horizon: time.Hour, Run: mkSimple(true)})

	mkMulti := func(group bool) func(t *T) {
		return func(t *T) {
			cl := t.Cluster(2)
			ps := cl.AddTopic("t", 1, 2).Parts
			ps[0].AddRecs("a", "b")
			ps[1].AddRecs("c")
			cfg := consCfg(cl)
			cfg.Net.TimeoutMS = 5000
			cfg.FromBeginning = true
			cfg.SessionTimeoutMS = 10000
			cfg.FetchMaxWaitMS = 2000
			if group {
				cfg.GroupID = "g"
				cfg.AutoCommit = true
				cfg.AutoCommitIntervalMS = 300
			}
			vrt.Quiet(true)
			pos := vrt.Input(24)
			reads := []int{-1, 0}[vrt.Input(2)]
			buf := vrt.Input(2)
			c, err := healer.NewConsumer(cfg, "t")
			if err != nil {
				t.Fail("%v", err)
				return
			}
			on := true
			t.Faults(silent(&on))
			base := len(cl.Calls)
			vrt.Quiet(false)
			mch := make(chan *healer.FullMessage, buf)
			returned := false
			vrt.GoNamed("consume", func() { c.Consume(mch); returned = true })
			a := startApp(mch, reads)
			atRequest(cl, base, pos)
			t0 := vrt.NowD()
			if !call("AwaitClose", 5*time.Minute, func() { c.AwaitClose(20 * time.Second) }) {
				t.Fail("AwaitClose does not return: %s", t.X.Blocked())
				return
			}
			on = false
			if d := vrt.NowD() - t0; d > 20*time.Second+100*time.Millisecond || t.nf == 0 && d > 8*time.Second {
				t.Fail("AwaitClose took %v", d)
			}
			if t.nf == 0 {
				t.quietAfter("AwaitClose", a, mch, buf == 0)
			}
			vrt.Quiet(true)
			if !vrt.WaitUntil("Consume returns", 3*time.Minute, func() bool { return returned }) {
				t.Fail("Consume does not return after AwaitClose")
			}
			vrt.Sleep(40 * time.Second)
			n := len(cl.CallsOf("Fetch"))
			vrt.Sleep(70 * time.Second)
			if len(cl.CallsOf("Fetch")) != n {
				t.Fail("still fetching long after AwaitClose")
			}
			if k := cl.LiveConns(); k > 0 {
				t.Fail("%d connections left open after AwaitClose", k)
			}
			t.Out("pos %d got %s", pos, offs(a.got))
			t.CheckBad()
		}
	}
	reg(&Scenario{Prop: "P06", Name: "multi", Quick: Bound{Dev: 1}, Thorough: Bound{Dev: 2}, Horizon: time.Hour, Run: mkMulti(false)})
	reg(&Scenario{Prop: "P06", Name: "multi-group", Quick: Bound{Dev: 1}, Thorough: Bound{Dev: 2}, Horizon: time.Hour, Run: mkMulti(true)})

	mkGroup := func(reb bool) func(t *T) {
		return func(t *T) {
			cl := t.Cluster(2)
			ps := cl.AddTopic("t", 1, 2).Parts
			ps[0].AddRecs("a", "b")
			ps[1].AddRecs("c")
			cfg := groupCfg(cl, "A")
			cfg.FetchMaxWaitMS = 2000
			g := cl.Group("g")
			vrt.Quiet(true)
			pos := vrt.Input(24)
			reads := []int{-1, 0}[vrt.Input(2)]
			c := startGroup(t, "t", cfg)
			on := true
			base := len(cl.Calls)
			mch := make(chan *healer.FullMessage)
			returned := false
			consumed := false
			if reb { // closing around a rebalance
				c.Consume(mch)
				returned = true
				consumed = true
				vrt.Sleep(500 * time.Millisecond)
				g.AddGhost("z", ghostMeta("t"))
				base = len(cl.Calls)
			}
			t.Faults(silent(&on))
			vrt.Quiet(false)
			if !reb {
				vrt.GoNamed("consume", func() { c.Consume(mch); returned = true })
			}
			a := startApp(mch, reads)
			atRequest(cl, base, pos)
			// it has shown that it knows its membership
			joined := returned && !reb || len(cl.CallsOf("SyncGroup")) > 0
			t0 := vrt.NowD()
			if !call("Close", 5*time.Minute, c.Close) {
				t.Fail("Close does not return: %s", t.X.Blocked())
				return
			}
			on = false
			if d := vrt.NowD() - t0; d > 30*time.Second+100*time.Millisecond || t.nf == 0 && d > 8*time.Second {
				t.Fail("Close took %v", d)
			}
			nmem := 0
			for _, m := range g.Members {
				if !m.Ghost {
					nmem++
				}
			}
			if joined && t.nf == 0 && nmem > 0 {
				t.Fail("Close returned, but the coordinator was not told that the member leaves: %v", g.History)
			}
			if t.nf == 0 {
				t.quietAfter("Close", a, mch, true)
			}
			vrt.Quiet(true)
			if !vrt.WaitUntil("Consume returns", 3*time.Minute, func() bool { return returned }) {
				t.Fail("Consume does not return after Close")
			}
			vrt.Sleep(40 * time.Second)
			n := len(cl.CallsOf("Fetch")) + len(cl.CallsOf("Heartbeat")) + len(cl.CallsOf("JoinGroup"))
			vrt.Sleep(70 * time.Second)
			if k := len(cl.CallsOf("Fetch")) + len(cl.CallsOf("Heartbeat")) + len(cl.CallsOf("JoinGroup")); k != n {
				t.Fail("still %d requests long after Close", k-n)
			}
			if k := cl.LiveConns(); k > 0 {
				t.Fail("%d connections left open after Close", k)
			}
			if !call("Close again", time.Minute, c.Close) {
				t.Fail("a second Close does not return")
			}
			_ = consumed
			t.Out("pos %d got %s %v", pos, offs(a.got), g.History)
			t.CheckBad()
		}
	}
	reg(&Scenario{Prop: "P06", Name: "group", Quick: Bound{Dev: 1}, Thorough: Bound{Dev: 2}, Horizon: time.Hour, MaxSteps: 60000, Run: mkGroup(false)})
	reg(&Scenario{Prop: "P06", Name: "group-rebalance", Quick: Bound{Dev: 1}, Thorough: Bound{Dev: 2}, Horizon: time.Hour, MaxSteps: 60000, Run: mkGroup(true)})
	// stopping while one kind of request fails all the time
	reg(&Scenario{Prop: "P06", Name: "outage", Quick: Bound{}, Thorough: Bound{Dev: 1, Caps: map[byte]int{'S': 0}}, Horizon: 2 * time.Hour, MaxSteps: 100000, Run: func(t *T) {
		cl := t.Cluster(2)
		cl.Coord = func(string) int32 { return 2 }
		ps := cl.AddTopic("t", 1, 2).Parts
		ps[0].AddRecs("a", "b")
		ps[1].AddRecs("c")
		kind := vrt.Input(4)
		apis := []string{"Metadata", "ListOffsets", "Fetch", "", "FindCoordinator", "OffsetFetch", "OffsetCommit", "JoinGroup", "SyncGroup", "Heartbeat", "LeaveGroup"}
		codes := []int16{5, 6, 6, 0, 15, 16, 16, 15, 16, 16, 16}
		n := []int{4, 7, 7, 11}[kind]
		k := vrt.Input(n)
		how := vrt.Input(4)
		from := vrt.Input(2)
		when := []time.Duration{0, 1300 * time.Millisecond, 7 * time.Second, 41 * time.Second}[vrt.Input(4)]
		cfg := consCfg(cl)
		if kind == 3 {
			cfg = groupCfg(cl, "A")
		}
		cfg.FromBeginning = true
		cfg.Net.TimeoutMS = 5000
		cfg.FetchMaxWaitMS = 2000
		if kind > 0 {
			cfg.GroupID = "g"
			cfg.AutoCommit = true
			cfg.AutoCommitIntervalMS = 300
		}
		mch := make(chan *healer.FullMessage, 1)
		var consume, stop func()
		switch kind {
		case 0, 1:
			c := startConsumer(t, "t", 0, cfg)
			if c == nil {
				return
			}
			consume, stop = func() { c.Consume(-2, mch) }, c.Stop
		case 2:
			c, err := healer.NewConsumer(cfg, "t")
			if err != nil {
				t.Fail("%v", err)
				return
			}
			consume, stop = func() { c.Consume(mch) }, func() { c.AwaitClose(20 * time.Second) }
		case 3:
			c := startGroup(t, "t", cfg)
			if c == nil {
				return
			}
			consume, stop = func() { c.Consume(mch) }, c.Close
		}
		seen := 0
		slow := func(f *kfake.Fault) *kfake.Fault { // an answer takes some time
			f.Delay = 100 * time.Millisecond
			return f
		}
		cl.Decide = func(c *kfake.Call) *kfake.Fault {
			if apis[k] != "" && c.Name() != apis[k] {
				return nil
			}
			if seen++; seen <= from {
				return nil
			}
			switch how {
			case 0:
				if apis[k] != "" && codes[k] != 0 {
					return slow(errFaults(codes[k])[0])
				}
				return fk("silent", kfake.Fault{Drop: true})
			case 1:
				return fk("eof", kfake.Fault{Skip: true, Hang: io.EOF})
			case 2:
				return fk("silent", kfake.Fault{Drop: true})
			}
			if apis[k] != "" {
				return slow(errFaults(-1)[0])
			}
			return nil
		}
		t.Sample = fmt.Sprintf("kind=%d api=%s how=%d from=%d stop after %v", kind, apis[k], how, from, when)
		returned := false
		vrt.GoNamed("consume", func() { consume(); returned = true })
		a := startApp(mch, -1)
		vrt.Sleep(when)
		t0 := vrt.NowD()
		if !call("stop", 10*time.Minute, stop) {
			t.Fail("%s: stop does not return: %s", t.Sample, t.X.Blocked())
			return
		}
		if d := vrt.NowD() - t0; d > 31*time.Second {
			t.Fail("%s: stop took %v", t.Sample, d)
		}
		vrt.Quiet(true)
		if !vrt.WaitUntil("Consume returns", 3*time.Minute, func() bool { return returned }) {
			t.Fail("%s: Consume does not return after stop", t.Sample)
		}
		vrt.Sleep(40 * time.Second)
		vrt.Settle()
		calls, got := len(cl.Calls), len(a.got)
		vrt.Sleep(100 * time.Second)
		for _, c := range cl.Calls[calls:] {
			if c.Name() != "Metadata" && c.Name() != "ApiVersions" || kind > 1 {
				t.Fail("%s: %s sent long after stop", t.Sample, c.Name())
				break
			}
		}
		if len(a.got) > got {
			t.Fail("%s: records delivered long after stop", t.Sample)
		}
		if k := cl.LiveConns(); k > 0 && kind > 1 {
			t.Fail("%s: %d connections left open", t.Sample, k)
		}
		t.Out("kind %d api %s got %s", kind, apis[k], offs(a.got))
		t.CheckBad()
	}})
	// closing before and after everything else
	reg(&Scenario{Prop: "P06", Name: "edges", Quick: Bound{Dev: 1}, Thorough: Bound{Dev: 2}, Horizon: time.Hour, Run: func(t *T) {
		cl := t.Cluster(1)
		p := cl.AddTopic("t", 1).Parts[0]
		p.AddRecs("a")
		cfg := groupCfg(cl, "A")
		kind := vrt.Input(3)
		order := vrt.Input(3)
		mch := make(chan *healer.FullMessage, 1)
		var consume, stop func()
		switch kind {
		case 0:
			c := startConsumer(t, "t", 0, cfg)
			consume, stop = func() { c.Consume(-2, mch) }, c.Stop
		case 1:
			c, _ := healer.NewConsumer(cfg, "t")
			consume, stop = func() { c.Consume(mch) }, func() { c.AwaitClose(10 * time.Second) }
		case 2:
			c := startGroup(t, "t", cfg)
			consume, stop = func() { c.Consume(mch) }, c.Close
		}
		steps := [][]func(){{stop}, {stop, consume}, {consume, stop, stop}}[order]
		for i, f := range steps {
			if !call(fmt.Sprintf("step %d", i), 5*time.Minute, f) {
				t.Fail("kind %d order %d: step %d does not return: %s", kind, order, i, t.X.Blocked())
				return
			}
		}
		t.quietAfter("stop", nil, mch, false)
		if order < 2 && (len(cl.CallsOf("Fetch")) > 0 || vrt.Len(mch) > 0) {
			t.Fail("consuming although it was stopped before")
		}
		if len(g0(cl).Members) > 0 && kind == 2 {
			t.Fail("still a member: %v", g0(cl).History)
		}
		t.Out("kind %d order %d", kind, order)
		t.CheckBad()
	}})
}

func g0(cl *kfake.Cluster) *kfake.Group { return cl.Group("g") }
