package main

import (
	"fmt"
	"time"

	"github.com/childe/healer"
	"github.com/childe/healer/kfake"
	"github.com/childe/healer/vrt"
)

// consumerFaults is what can go wrong with the requests of a partition consumer.
func consumerFaults(c *kfake.Call) []*kfake.Fault {
	o := netFaults()
	switch c.Name() {
	case "Fetch":
		o = append(o, errFaults(-1, 2, 3, 5, 6, 7, 9, 56, 74, 75)...)
	case "Metadata":
		o = append(o, errFaults(3, 5)...)
	case "ListOffsets":
		o = append(o, errFaults(3, 5, 6)...)
	case "ApiVersions":
		o = append(o, errFaults(35)...)
	}
	return o
}

// startConsumer creates a consumer, retrying like an application would.
func startConsumer(t *T, topic string, part int32, cfg healer.ConsumerConfig) *healer.SimpleConsumer {
	for i := 0; i < 4; i++ {
		c, err := healer.NewSimpleConsumer(topic, part, cfg)
		if err == nil {
			return c
		}
	}
	t.Fail("NewSimpleConsumer keeps failing")
	return nil
}

func init() {
	run := func(startOff int64, early bool, moves bool) func(t *T) {
		return func(t *T) {
			cl := t.Cluster(2)
			p := cl.AddTopic("t", 1).Parts[0]
			p.AddRecs("a", "b")
			p.AddRecs("c")
			p.NChunks = 1
			on, gone := early, false
			t.Faults(func(c *kfake.Call) []*kfake.Fault {
				if !on {
					return nil
				}
				o := consumerFaults(c)
				return o
			})
			t.DialFaults(func() bool { return on })
			t.WriteFaults(func() bool { return on })
			if moves {
				inner := cl.Decide
				cl.Decide = func(c *kfake.Call) *kfake.Fault {
					if on && c.Name() == "Fetch" && !gone {
						switch vrt.Choose(5) {
						case 1: // the leader moves to the other broker
							p.Leader = 3 - p.Leader
							p.Epoch++
						case 2: // the broker dies and the other one takes over
							p.Leader = 3 - c.Node.ID
							p.Epoch++
							down(cl, c.Node, 7*time.Second)
							return fk("down", kfake.Fault{Skip: true})
						case 3: // no leader for a while
							old := p.Leader
							p.Leader = -1
							vrt.AfterFn(5*time.Second, func() {
								if !gone {
									p.Leader = 3 - old
									p.Epoch++
								}
							})
						case 4: // the broker dies for good; the other one takes over, once
							if p.Leader == c.Node.ID && cl.Node(3-c.Node.ID).Up {
								gone = true
								p.Leader = 3 - c.Node.ID
								p.Epoch++
								down(cl, c.Node, 0)
								return fk("dead", kfake.Fault{Skip: true})
							}
						}
					}
					return inner(c)
				}
			}
			c := startConsumer(t, "t", 0, consCfg(cl))
			if c == nil {
				return
			}
			on = true
			ch, err := c.Consume(startOff, nil)
			if err != nil {
				t.Fail("Consume: %v", err)
				return
			}
			got := drain(ch, 3, 200*time.Second)
			if len(got) == 3 {
				p.AddRecs("late")
				got = append(got, drain(ch, 1, 200*time.Second)...)
			}
			on = false
			got = append(got, drain(ch, 2, 3*time.Second)...)
			t.checkExact("consumer", got, "t", 0, p.Recs(0))
			t.Out("%s faults=%d dials=%d", offs(got), t.nf, len(cl.Dials))
			t.CheckBad()
		}
	}
	// a fetch answer which tells of an error, and whose rest arrives later
	reg(&Scenario{Prop: "P02", Name: "slow-error", Quick: Bound{Dev: 0}, Thorough: Bound{Dev: 1}, Horizon: time.Hour, Run: func(t *T) {
		cl := t.Cluster(2)
		p := cl.AddTopic("t", 1).Parts[0]
		p.Start, p.End = 4, 4
		p.AddRecs("a", "b")
		p.AddRecs("c")
		p.NChunks = 1
		only(cl, 1, []int{10, 7, 0}[vrt.Input(3)])
		code := []int{1, 3, 5, 6, 74, 75, 29, -1}[vrt.Input(8)]
		at := vrt.Input(2)
		cut := 4 + vrt.Input(60)
		gap := []time.Duration{50 * time.Millisecond, 3 * time.Second}[vrt.Input(2)]
		n := 0
		cl.Decide = func(c *kfake.Call) *kfake.Fault {
			if c.Name() != "Fetch" {
				return nil
			}
			if n++; n == at+1 {
				return fk(fmt.Sprint("slow", code), kfake.Fault{Err: int16(code), Chunks: []int{cut}, Gap: gap})
			}
			return nil
		}
		cfg := consCfg(cl)
		cfg.FromBeginning = true
		c := startConsumer(t, "t", 0, cfg)
		if c == nil {
			return
		}
		ch, _ := c.Consume(4, nil)
		want := p.Recs(4)
		got := drain(ch, len(want)+2, 8*time.Second)
		if code == 1 && at == 1 {
			// out of range once: the consumer goes back to the beginning
			for k := 1; k < len(got); k++ {
				if got[k] != nil && got[k].Message != nil && got[k].Message.Offset == 4 {
					got = got[k:]
					break
				}
			}
		}
		t.checkExact(fmt.Sprintf("consumer, error %d cut at %d", code, cut), got, "t", 0, want)
		t.Out("%s", offs(got))
		t.CheckBad()
	}})
	reg(&Scenario{Prop: "P02", Name: "faults-explicit", Quick: Bound{Dev: 2, Caps: map[byte]int{'S': 1, 'F': 0, 'C': 1}}, Thorough: Bound{Dev: 3, Caps: map[byte]int{'S': 1, 'F': 0, 'C': 1}}, Horizon: 2 * time.Hour, Run: run(0, false, false)})
	reg(&Scenario{Prop: "P02", Name: "faults-earliest", Quick: Bound{Dev: 2, Caps: map[byte]int{'S': 0, 'C': 1}}, Thorough: Bound{Dev: 3, Caps: map[byte]int{'S': 1, 'C': 1}}, Horizon: 2 * time.Hour, Run: run(-2, true, false)})
	reg(&Scenario{Prop: "P02", Name: "leader-moves", Quick: Bound{Dev: 2, Caps: map[byte]int{'S': 1, 'C': 1}}, Thorough: Bound{Dev: 3, Caps: map[byte]int{'S': 1, 'C': 1}}, Horizon: 2 * time.Hour, Run: run(0, false, true)})
}

// down takes a broker down for d; its connections are reset.
func down(cl *kfake.Cluster, n *kfake.Node, d time.Duration) {
	n.Up = false
	for _, s := range n.Conns {
		if !s.Hung() && s.C != nil {
			s.Hang(syscallReset)
		}
	}
	if d > 0 {
		vrt.AfterFn(d, func() { n.Up = true })
	}
}
