package main

import (
	"fmt"
	"time"

	"github.com/childe/healer"
	"github.com/childe/healer/kfake"
	"github.com/childe/healer/kref"
	"github.com/childe/healer/vrt"
)

// listAnswer is the timestamp asked for and the offset answered by a ListOffsets call about p.
func listAnswer(c *kfake.Call, p *kfake.Part) (ts, off int64, ok bool) {
	if !c.Done || c.Body == nil {
		return 0, 0, false
	}
	find := func(v any, nameKey string) M {
		for _, t := range aval(v) {
			tm := t.(M)
			if tm["name"] != p.Topic {
				continue
			}
			for _, q := range aval(tm["partitions"]) {
				if kfake.Num(q.(M)["partition_index"]) == int64(p.ID) {
					return q.(M)
				}
			}
		}
		return nil
	}
	q, a := find(c.Req.Body["topics"], "name"), find(c.Body["topics"], "name")
	if q == nil || a == nil || kfake.Num(a["error_code"]) != 0 {
		return 0, 0, false
	}
	off = kfake.Num(a["offset"])
	if c.Req.Ver == 0 {
		o, _ := a["old_style_offsets"].(A)
		if len(o) == 0 {
			return 0, 0, false
		}
		off = kfake.Num(o[0])
	}
	return kfake.Num(q["timestamp"]), off, true
}

func partAnswer(c *kfake.Call) M {
	if !c.Done || c.Body == nil {
		return nil
	}
	for _, t := range aval(c.Body["responses"]) {
		for _, q := range aval(t.(M)["partitions"]) {
			return q.(M)
		}
	}
	return nil
}

// checkPositions replays the requests of one partition consumer: where it may
// start, that it moves only over what it was given, and that after an out of
// range answer it goes to the offset the broker named for reset (-1 or -2).
// first < 0: the start is the broker's answer for that timestamp.
// It returns the records the consumer has been given.
func (t *T) checkPositions(p *kfake.Part, first, reset int64) (want []kref.Rec) {
	pos, known := first, first >= 0
	hi := pos // after a good answer the position may be anywhere up to hi, once all records are delivered exactly hi
	oor := false
	cand := map[int64]bool{}
	for _, c := range t.Cl.Calls {
		switch c.Name() {
		case "ListOffsets":
			ts, off, ok := listAnswer(c, p)
			if !ok {
				continue
			}
			w := reset
			if !known {
				w = first
			}
			if ts == w {
				cand[off] = true
			}
		case "Fetch":
			if !fetchOf(c, p) {
				continue
			}
			o := fetchOffset(c)
			switch {
			case !known:
				if !cand[o] {
					t.Fail("consumption of %s-%d starts at %d, the broker's answer for %d was %v", p.Topic, p.ID, o, first, cand)
					return
				}
				known, pos, hi = true, o, o
			case oor && o != pos:
				if !cand[o] {
					t.Fail("offset %d is out of range: consumption goes on at %d, the broker's answer for %d was %v", pos, o, reset, cand)
					return
				}
				pos, hi = o, o
			default:
				if o != pos && o != hi {
					t.Fail("fetch from %d, expected %d (or %d)", o, hi, pos)
					return
				}
				pos, hi = o, o
			}
			oor = false
			a := partAnswer(c)
			if a == nil {
				continue
			}
			switch kfake.Num(a["error_code"]) {
			case 0:
				n, rs := given(t, o, a)
				want = append(want, rs...)
				if n > hi {
					hi = n
				}
				if len(rs) > 0 {
					pos = hi
				}
			case 1:
				oor = true
				cand = map[int64]bool{}
			}
		}
	}
	return
}

func fetchOf(c *kfake.Call, p *kfake.Part) bool {
	for _, tp := range aval(c.Req.Body["topics"]) {
		if tp.(M)["topic"] != p.Topic {
			continue
		}
		for _, q := range aval(tp.(M)["partitions"]) {
			if kfake.Num(q.(M)["partition"]) == int64(p.ID) {
				return true
			}
		}
	}
	return false
}

// given is what a good fetch answer contains from off on, and the position after it.
func given(t *T, off int64, a M) (int64, []kref.Rec) {
	b, _ := a["records"].([]byte)
	bs, err := kref.DecodeBatches(b)
	if err != nil {
		t.Fail("broker sent a bad batch: %v", err)
	}
	var out []kref.Rec
	next := off
	for _, c := range bs {
		for _, r := range c.Recs {
			if r.Offset >= off {
				out = append(out, r)
			}
		}
		next = c.BaseOffset + int64(c.LastOffsetDelta) + 1
	}
	return next, out
}

// settle waits until the consumer waits for new records (a fetch at the end of the log).
func settle(t *T, p *kfake.Part) {
	if !vrt.WaitUntil("settle", 200*time.Second, func() bool {
		for i := len(t.Cl.Calls) - 1; i >= 0; i-- {
			if c := t.Cl.Calls[i]; c.Name() == "Fetch" && fetchOf(c, p) {
				return !c.Conn.Hung() && !c.Conn.C.Dead() && c.Fault == "" && c.Answer < 0 && fetchOffset(c) == p.End
			}
		}
		return false
	}) {
		t.Fail("the consumer does not get to the end of the log of %s-%d", p.Topic, p.ID)
	}
}

func aval(v any) A { a, _ := v.(A); return a }

func init() {
	// log: five offsets from 5 (or 0, or a large one) on, in three batches
	setup := func(t *T) (*kfake.Cluster, *kfake.Part) {
		cl := t.Cluster(2)
		cl.Coord = func(string) int32 { return 2 }
		p := cl.AddTopic("t", 1).Parts[0]
		v := []struct {
			hi   int
			base int64
		}{{6, 5}, {0, 5}, {1, 5}, {6, 0}, {0, 0}, {1, 1<<32 + 5}}[vrt.Input(6)]
		p.Start, p.End = v.base, v.base
		p.AddRecs("a", "b")
		p.AddRecs("c")
		p.AddRecs("d", "e")
		p.NChunks = 1
		hi := v.hi
		for _, n := range cl.Nodes {
			n.Versions[2] = [2]int{0, hi}
		}
		return cl, p
	}
	commit := func(cl *kfake.Cluster, p *kfake.Part) int64 {
		b := p.Start
		o := []int64{-1, b, b + 1, b + 3, b + 5, b / 2, b + 94}[vrt.Input(7)]
		if o >= 0 {
			cl.Group("g").SetCommitted(p.Topic, p.ID, o)
		}
		return o
	}
	finish := func(t *T, p *kfake.Part, ch <-chan *healer.FullMessage, first, reset int64) {
		settle(t, p)
		got := drain(ch, 12, 5*time.Second)
		p.AddRecs("late")
		got = append(got, drain(ch, 12, 40*time.Second)...)
		want := t.checkPositions(p, first, reset)
		t.checkExact("consumer", got, p.Topic, p.ID, want)
		if len(got) == 0 || string(got[len(got)-1].Message.Value) != "late" {
			t.Fail("the record appended last was not delivered (got %s)", offs(got))
		}
		t.Out("%s", offs(got))
		t.CheckBad()
	}
	faults := func(t *T, names ...string) {
		t.Faults(func(c *kfake.Call) []*kfake.Fault {
			for _, n := range names {
				if c.Name() == n {
					o := netFaults()
					if n == "ListOffsets" {
						o = append(o, errFaults(-1, 3, 5, 6)...)
					}
					if n == "OffsetFetch" {
						o = append(o, errFaults(14, 16)...)
					}
					return o
				}
			}
			return nil
		})
	}
	simple := func(t *T) {
		cl, p := setup(t)
		cfg := consCfg(cl)
		cfg.FetchMaxWaitMS = 5000
		cfg.FromBeginning = vrt.Input(2) == 1
		b := p.Start
		off := []int64{-2, -1, b, b + 2, b + 4, b + 5, b / 2, b + 37}[vrt.Input(8)]
		first, reset := off, int64(-1)
		if off == -2 || (off != -1 && cfg.FromBeginning) {
			reset = -2
		}
		grp := vrt.Input(2) == 1
		com := int64(-1)
		if grp {
			cfg.GroupID = "g"
			cfg.OffsetsStorage = vrt.Input(2)
			com = commit(cl, p)
			if com >= 0 && off < 0 {
				first = com
			}
		}
		t.Sample = fmt.Sprintf("start=%d fromBeginning=%v group=%v committed=%d", off, cfg.FromBeginning, grp, com)
		faults(t, "ListOffsets", "OffsetFetch")
		c := startConsumer(t, "t", 0, cfg)
		if c == nil {
			return
		}
		ch, err := c.Consume(off, nil)
		if err != nil {
			t.Fail("Consume: %v", err)
			return
		}
		finish(t, p, ch, first, reset)
	}
	reg(&Scenario{Prop: "P22", Name: "start", Quick: Bound{Dev: 1, Caps: map[byte]int{'S': 0}}, Thorough: Bound{Dev: 2, Caps: map[byte]int{'S': 1}}, Horizon: time.Hour, Run: simple})

	// the log is cut at the head or at the tail while it is consumed
	retention := func(t *T) {
		cl, p := setup(t)
		cfg := consCfg(cl)
		cfg.FetchMaxWaitMS = 5000
		cfg.FromBeginning = vrt.Input(2) == 1
		off := []int64{-2, -1, p.Start, p.Start + 1}[vrt.Input(4)]
		reset := int64(-1)
		if off == -2 || (off != -1 && cfg.FromBeginning) {
			reset = -2
		}
		t.Sample = fmt.Sprintf("start=%d fromBeginning=%v", off, cfg.FromBeginning)
		faults(t, "ListOffsets")
		inner := cl.Decide
		cl.Decide = func(c *kfake.Call) *kfake.Fault {
			if c.Name() == "Fetch" || c.Name() == "ListOffsets" {
				switch vrt.Choose(4) {
				case 1: // retention removes all but the last batch
					if n := len(p.Chunks); n > 1 {
						p.Start = p.Chunks[n-1].Base
						p.Chunks = p.Chunks[n-1:]
					}
				case 2: // everything is removed and new records arrive
					p.Chunks, p.Start, p.End = nil, p.End+10, p.End+10
					p.AddRecs("x", "y")
				case 3: // the tail is lost (unclean leader election)
					if n := len(p.Chunks); n > 1 {
						p.Chunks = p.Chunks[:1]
						p.End = p.Chunks[0].Last + 1
					}
				}
			}
			return inner(c)
		}
		c := startConsumer(t, "t", 0, cfg)
		if c == nil {
			return
		}
		ch, err := c.Consume(off, nil)
		if err != nil {
			t.Fail("Consume: %v", err)
			return
		}
		settle(t, p)
		got := drain(ch, 20, 5*time.Second)
		cl.Decide = nil
		settle(t, p)
		got = append(got, drain(ch, 20, 5*time.Second)...)
		p.AddRecs("late")
		got = append(got, drain(ch, 12, 40*time.Second)...)
		t.checkExact("consumer", got, p.Topic, p.ID, t.checkPositions(p, off, reset))
		if len(got) == 0 || string(got[len(got)-1].Message.Value) != "late" {
			t.Fail("the record appended last was not delivered (got %s)", offs(got))
		}
		t.Out("%s", offs(got))
		t.CheckBad()
	}
	reg(&Scenario{Prop: "P22", Name: "retention", Quick: Bound{Dev: 2, Caps: map[byte]int{'S': 0}}, Thorough: Bound{Dev: 3, Caps: map[byte]int{'S': 1}}, Horizon: time.Hour, Run: retention})

	group := func(t *T) {
		cl, p := setup(t)
		cfg := groupCfg(cl, "cid")
		cfg.FromBeginning = vrt.Input(2) == 1
		first := int64(-1)
		if cfg.FromBeginning {
			first = -2
		}
		reset := first
		com := commit(cl, p)
		if com >= 0 {
			first = com
		}
		t.Sample = fmt.Sprintf("fromBeginning=%v committed=%d", cfg.FromBeginning, com)
		faults(t, "ListOffsets", "OffsetFetch")
		c := startGroup(t, "t", cfg)
		if c == nil {
			return
		}
		ch, err := c.Consume(nil)
		if err != nil {
			t.Fail("Consume: %v", err)
			return
		}
		vrt.Sleep(8 * time.Second)
		finish(t, p, ch, first, reset)
	}
	reg(&Scenario{Prop: "P22", Name: "group", Quick: Bound{Dev: 1, Caps: map[byte]int{'S': 0}}, Thorough: Bound{Dev: 2, Caps: map[byte]int{'S': 1}}, Horizon: time.Hour, Run: group})

	multi := func(t *T) {
		cl, p := setup(t)
		cfg := consCfg(cl)
		cfg.FetchMaxWaitMS = 5000
		cfg.GroupID = "g"
		cfg.FromBeginning = vrt.Input(2) == 1
		first := int64(-1)
		if cfg.FromBeginning {
			first = -2
		}
		reset := first
		com := commit(cl, p)
		if com >= 0 {
			first = com
		}
		t.Sample = fmt.Sprintf("fromBeginning=%v committed=%d", cfg.FromBeginning, com)
		faults(t, "ListOffsets", "OffsetFetch")
		c, err := healer.NewConsumer(cfg, "t")
		if err != nil {
			t.Fail("NewConsumer: %v", err)
			return
		}
		ch, err := c.Consume(nil)
		if err != nil {
			t.Fail("Consume: %v", err)
			return
		}
		finish(t, p, ch, first, reset)
	}
	reg(&Scenario{Prop: "P22", Name: "multi", Quick: Bound{Dev: 1, Caps: map[byte]int{'S': 0}}, Thorough: Bound{Dev: 2, Caps: map[byte]int{'S': 1}}, Horizon: time.Hour, Run: multi})
}
