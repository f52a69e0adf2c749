package main

import (
	"fmt"
	"time"

	"github.com/childe/healer"
	"github.com/childe/healer/kfake"
	"github.com/childe/healer/vrt"
)

func init() {
	// world builds topics t (1..3 partitions) and u (1..2), the assignment asked
	// for, and the start offset of every assigned partition.
	type world struct {
		cl    *kfake.Cluster
		cfg   healer.ConsumerConfig
		parts []*kfake.Part         // all partitions
		start map[*kfake.Part]int64 // assigned partitions
		c     *healer.Consumer
	}
	build := func(t *T, big bool) *world {
		w := &world{start: map[*kfake.Part]int64{}}
		w.cl = t.Cluster(2)
		w.cl.Coord = func(string) int32 { return 2 }
		nt, nu := 2, 1
		if big {
			nt, nu = 1+vrt.Input(3), 1+vrt.Input(2)
		}
		lead := 0
		if big {
			lead = vrt.Input(2)
		}
		mk := func(name string, n int) {
			var l []int32
			for i := 0; i < n; i++ {
				l = append(l, int32(1+(i+lead)%2))
			}
			for _, p := range w.cl.AddTopic(name, l...).Parts {
				p.Start, p.End = 4, 4
				p.AddRecs(fmt.Sprintf("%s%d-a", name, p.ID), fmt.Sprintf("%s%d-b", name, p.ID))
				p.AddRecs(fmt.Sprintf("%s%d-c", name, p.ID))
				w.parts = append(w.parts, p)
			}
		}
		mk("t", nt)
		mk("u", nu)
		w.cfg = consCfg(w.cl)
		w.cfg.FetchMaxWaitMS = 5000
		w.cfg.FromBeginning = vrt.Input(2) == 0
		// assignment
		ask := map[string][]int{}
		sub := []string{}
		mode := vrt.Input(3) // 0 topics at creation, 1 Subscribe, 2 Assign
		if mode == 2 {
			for _, n := range []string{"t", "u"} {
				k := len(w.cl.Topics[n].Parts)
				// not assigned, all (no list), or a subset of the partitions
				s := vrt.Input(1 + 1<<k)
				if s == 1<<k {
					continue
				}
				ps := []int(nil)
				for i := 0; i < k; i++ {
					if s&(1<<i) != 0 {
						ps = append(ps, i)
					}
				}
				if len(ps) > 1 && vrt.Input(2) == 1 { // listing order
					ps[0], ps[len(ps)-1] = ps[len(ps)-1], ps[0]
				}
				if len(ps) == 0 && vrt.Input(2) == 1 { // empty rather than no list
					ps = []int{}
				}
				ask[n] = ps
			}
		} else {
			switch vrt.Input(3) {
			case 0:
				sub = []string{"t", "u"}
			case 1:
				sub = []string{"u"}
			case 2:
				sub = []string{"t"}
			}
		}
		grp := vrt.Input(2) == 1
		com := -1
		if grp {
			w.cfg.GroupID = "g"
			com = vrt.Input(3) // 0 none, 1 every first partition, 2 all
		}
		want := func(p *kfake.Part) bool {
			if mode != 2 {
				for _, s := range sub {
					if s == p.Topic {
						return true
					}
				}
				return false
			}
			ps, ok := ask[p.Topic]
			if !ok {
				return false
			}
			for _, i := range ps {
				if int32(i) == p.ID {
					return true
				}
			}
			return len(ps) == 0
		}
		for i, p := range w.parts {
			st := p.End
			if w.cfg.FromBeginning {
				st = p.Start
			}
			if com == 2 || (com == 1 && p.ID == 0) {
				o := int64(5 + i%2)
				w.cl.Group("g").SetCommitted(p.Topic, p.ID, o)
				st = o
			}
			if want(p) {
				w.start[p] = st
			}
		}
		if len(w.start) == 0 {
			t.Trivial()
			return nil
		}
		t.Sample = fmt.Sprintf("partitions t=%d u=%d mode=%d assign=%v topics=%v fromBeginning=%v committed=%d", nt, nu, mode, ask, sub, w.cfg.FromBeginning, com)
		var err error
		var c *healer.Consumer
		for i := 0; i < 4; i++ {
			if mode == 0 {
				c, err = healer.NewConsumer(w.cfg, sub...)
			} else {
				c, err = healer.NewConsumer(w.cfg, "x")
			}
			if err == nil {
				break
			}
		}
		if err != nil {
			t.Fail("NewConsumer keeps failing: %v", err)
			return nil
		}
		if mode == 1 {
			c.Subscribe(sub...)
		}
		if mode == 2 {
			c.Assign(ask)
		}
		w.c = c
		return w
	}
	run := func(big, faults bool, buf int) func(t *T) {
		return func(t *T) {
			vrt.Quiet(true)
			w := build(t, big)
			if w == nil {
				return
			}
			cl := w.cl
			if faults {
				t.Faults(consumerFaults)
				t.DialFaults(func() bool { return true })
			}
			vrt.Quiet(false)
			var given chan *healer.FullMessage
			if buf >= 0 {
				given = make(chan *healer.FullMessage, buf)
			}
			ch, err := w.c.Consume(given)
			if err != nil {
				t.Fail("Consume: %v", err)
				return
			}
			if given != nil && ch != (<-chan *healer.FullMessage)(given) {
				t.Fail("Consume returned another channel than the one it was given")
			}
			n := 0
			for p, st := range w.start {
				n += len(p.Recs(st))
			}
			got := drain(ch, n, 100*time.Second)
			cl.Decide, cl.DialHook = nil, nil
			for _, p := range w.parts {
				if st, ok := w.start[p]; ok && st >= 0 {
					settle(t, p)
				}
				p.AddRecs(fmt.Sprintf("%s%d-late", p.Topic, p.ID))
			}
			got = append(got, drain(ch, n+len(w.start)+2, 20*time.Second)...)
			per := map[*kfake.Part][]*healer.FullMessage{}
			for _, m := range got {
				p := cl.Part(m.TopicName, m.PartitionID)
				if _, ok := w.start[p]; !ok {
					t.Fail("record of %s-%d delivered, which was not asked for", m.TopicName, m.PartitionID)
					return
				}
				per[p] = append(per[p], m)
			}
			for _, p := range w.parts {
				st, ok := w.start[p]
				if !ok {
					continue
				}
				t.checkExact(fmt.Sprintf("%s-%d", p.Topic, p.ID), per[p], p.Topic, p.ID, p.Recs(st))
			}
			for _, c := range cl.CallsOf("Fetch") {
				for _, tp := range aval(c.Req.Body["topics"]) {
					for _, q := range aval(tp.(M)["partitions"]) {
						p := cl.Part(sval(tp.(M)["topic"]), int32(kfake.Num(q.(M)["partition"])))
						if _, ok := w.start[p]; !ok {
							t.Fail("%v-%v is fetched, which was not asked for", tp.(M)["topic"], q.(M)["partition"])
						}
					}
				}
			}
			t.Out("%d %d", len(got), t.nf)
			t.CheckBad()
		}
	}
	reg(&Scenario{Prop: "P20", Name: "assignments", Quick: Bound{}, Thorough: Bound{}, Horizon: time.Hour, Run: run(true, false, -1)})
	reg(&Scenario{Prop: "P20", Name: "schedules", Quick: Bound{Dev: 1}, Thorough: Bound{Dev: 2}, Horizon: time.Hour, Run: run(false, false, 0)})
	reg(&Scenario{Prop: "P20", Name: "faults", Quick: Bound{Dev: 1, Caps: map[byte]int{'S': 0}}, Thorough: Bound{Dev: 2, Caps: map[byte]int{'S': 0}}, Horizon: time.Hour, Run: run(false, true, -1)})
}
