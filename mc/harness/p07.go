package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"strings"
	"time"

	"github.com/childe/healer"
	"github.com/childe/healer/kfake"
	"github.com/childe/healer/vrt"
)

func prodCfg(cl *kfake.Cluster) healer.ProducerConfig {
	c := healer.DefaultProducerConfig()
	c.BootstrapServers = cl.Bootstrap()
	c.ClientID = "cid"
	c.FlushIntervalMS = 3600 * 1000
	c.MetadataMaxAgeMS = 3600 * 1000
	c.Net.TimeoutMS = 5000
	return c
}

// addLog remembers what one adder did.
type addLog struct {
	name string
	key  []byte
	ok   []string // accepted
	no   []string // refused with an error
	errs []error
}

// add adds one message and scribbles over the buffers afterwards.
func (l *addLog) add(f func(k, v []byte) error, n int) error {
	v := fmt.Sprintf("%s-%d", l.name, n)
	vb := []byte(v)
	kb := append([]byte(nil), l.key...)
	err := f(kb, vb)
	for i := range vb {
		vb[i] = '!'
	}
	for i := range kb {
		kb[i] = '!'
	}
	if err == nil {
		l.ok = append(l.ok, v)
	} else {
		l.no = append(l.no, v)
		l.errs = append(l.errs, err)
	}
	return err
}

func produced(ps ...*kfake.Part) (vals []string, where map[string]*kfake.Part) {
	where = map[string]*kfake.Part{}
	for _, p := range ps {
		for _, r := range p.Produced {
			vals = append(vals, string(r.Value))
			where[string(r.Value)] = p
		}
	}
	return
}

// checkProduced: accepted messages exactly once, refused ones not at all (unless
// may says they may have been sent), per adder and partition in order.
func (t *T) checkProduced(logs []*addLog, mayOnce map[string]bool, ps ...*kfake.Part) {
	vals, _ := produced(ps...)
	cnt := map[string]int{}
	for _, v := range vals {
		cnt[v]++
	}
	for _, l := range logs {
		for _, v := range l.ok {
			if n := cnt[v]; n != 1 && !(mayOnce[v] && n == 0) {
				t.Fail("message %s was accepted and is %d times in the log (%s)", v, n, strings.Join(vals, " "))
			}
		}
		for i, v := range l.no {
			if n := cnt[v]; n > 1 || n == 1 && errors.Is(l.errs[i], healer.ErrProducerClosed) {
				t.Fail("message %s was refused (%v) and is %d times in the log (%s)", v, l.errs[i], n, strings.Join(vals, " "))
			}
		}
		for _, v := range append(append([]string{}, l.ok...), l.no...) {
			delete(cnt, v)
		}
		// order and keys
		for _, p := range ps {
			last := -1
			for _, r := range p.Produced {
				if !strings.HasPrefix(string(r.Value), l.name+"-") {
					continue
				}
				var n int
				fmt.Sscanf(string(r.Value)[len(l.name)+1:], "%d", &n)
				if n <= last {
					t.Fail("messages of %s out of order in %s-%d (%s)", l.name, p.Topic, p.ID, strings.Join(vals, " "))
				}
				last = n
				if !sameBytes(r.Key, l.key) {
					t.Fail("message %s has key %q, want %q", r.Value, r.Key, l.key)
				}
			}
		}
	}
	for v := range cnt {
		t.Fail("message %q in the log was never added", v)
	}
}

func init() {
	// concurrent adders, flusher, flush timer and close of a simple producer
	mk := func(closeEarly bool) func(t *T) {
		return func(t *T) {
			cl := t.Cluster(1)
			p := cl.AddTopic("t", 1).Parts[0]
			cfg := prodCfg(cl)
			cfg.MessageMaxCount = 1 + vrt.Input(3)
			cfg.FlushIntervalMS = 50
			cl.Latency = time.Duration(vrt.Input(2)) * 30 * time.Millisecond
			vrt.Quiet(true)
			sp, err := healer.NewSimpleProducer(context.Background(), "t", 0, cfg)
			if err != nil {
				t.Fail("%v", err)
				return
			}
			vrt.Quiet(false)
			logs := []*addLog{{name: "a"}, {name: "b", key: []byte("k")}}
			done := 0
			for _, l := range logs {
				l := l
				vrt.GoNamed("adder", func() {
					for i := 0; i < 2; i++ {
						l.add(sp.AddMessage, i)
					}
					done++
				})
			}
			vrt.GoNamed("flusher", func() {
				if err := sp.Flush(); err != nil && !errors.Is(err, healer.ErrProducerClosed) {
					t.Fail("Flush: %v", err)
				}
				done++
			})
			if closeEarly {
				vrt.GoNamed("closer", func() { sp.Close(); done++ })
			} else {
				done++
			}
			if !vrt.WaitUntil("adders", time.Minute, func() bool { return done == 4 }) {
				t.Fail("AddMessage, Flush or Close does not return: %s", t.X.Blocked())
				return
			}
			if !closeEarly {
				vrt.Sleep(51 * time.Millisecond) // the flush timer
				vrt.Quiet(true)
				vrt.Sleep(40 * time.Millisecond)
				vrt.Settle()
				t.checkProduced(logs, nil, p) // nothing is left behind after the flush interval
			}
			vrt.Quiet(true)
			if !call("Close", time.Minute, sp.Close) {
				t.Fail("Close does not return")
			}
			n := len(p.Produced)
			late := &addLog{name: "z"}
			if err := late.add(sp.AddMessage, 0); err != healer.ErrProducerClosed {
				t.Fail("AddMessage after Close returns %v", err)
			}
			vrt.Sleep(time.Second)
			if len(p.Produced) != n {
				t.Fail("messages sent after Close returned")
			}
			for _, l := range logs {
				for _, e := range l.errs {
					if !errors.Is(e, healer.ErrProducerClosed) {
						t.Fail("AddMessage: %v", e)
					}
				}
				if !closeEarly && len(l.no) > 0 {
					t.Fail("AddMessage refused although the producer was open: %v", l.errs)
				}
			}
			t.checkProduced(logs, nil, p)
			if k := cl.LiveConns(); k > 0 {
				t.Fail("%d connections left open after Close", k)
			}
			vals, _ := produced(p)
			t.Out("%v in %d requests", vals, len(p.ProdReqs))
			t.CheckBad()
		}
	}
	reg(&Scenario{Prop: "P07", Name: "simple-schedules", Fine: true, TimeDev: true, Quick: Bound{Dev: 2, Caps: map[byte]int{'F': 1}}, Thorough: Bound{Dev: 3}, Horizon: time.Hour, Run: mk(false)})
	reg(&Scenario{Prop: "P07", Name: "simple-close", Fine: true, TimeDev: true, Quick: Bound{Dev: 2, Caps: map[byte]int{'F': 1}}, Thorough: Bound{Dev: 3}, Horizon: time.Hour, Run: mk(true)})

	// every answer of the leader
	prodFaults := func(c *kfake.Call) []*kfake.Fault {
		o := netFaults()
		switch c.Name() {
		case "Produce":
			if kfake.Num(c.Req.Body["acks"]) == 0 {
				return nil
			}
			o = append(o, errFaults(2, 3, 5, 6, 7, 10, 19, 20, 29, 87, -1)...)
		case "Metadata":
			o = append(o, errFaults(5)...)
		}
		return o
	}
	reg(&Scenario{Prop: "P07", Name: "simple-faults", Quick: Bound{Dev: 2, Caps: map[byte]int{'S': 0}}, Thorough: Bound{Dev: 3, Caps: map[byte]int{'S': 0}}, Horizon: 2 * time.Hour, Run: func(t *T) {
		cl := t.Cluster(2)
		p := cl.AddTopic("t", 1).Parts[0]
		cfg := prodCfg(cl)
		cfg.Acks = []int16{-1, 1, 0}[vrt.Input(3)]
		cfg.MessageMaxCount = 2 + vrt.Input(2)
		sp, err := healer.NewSimpleProducer(context.Background(), "t", 0, cfg)
		if err != nil {
			t.Fail("%v", err)
			return
		}
		on := true
		moved := false
		t.Faults(func(c *kfake.Call) []*kfake.Fault {
			if !on {
				return nil
			}
			return prodFaults(c)
		})
		t.WriteFaults(func() bool { return on })
		t.DialFaults(func() bool { return on })
		inner := cl.Decide
		cl.Decide = func(c *kfake.Call) *kfake.Fault {
			if on && c.Name() == "Produce" && vrt.Choose(2) == 1 {
				p.Leader = 3 - p.Leader
				moved = true
			}
			return inner(c)
		}
		l := &addLog{name: "a"}
		may := map[string]bool{}
		var pend []string
		// step runs one API call and compares its result with what happened on the wire
		step := func(name string, f func() error) {
			nf, nc := t.nf, len(cl.CallsOf("Produce"))
			moved = false
			var err error
			if !call(name, 5*time.Minute, func() { err = f() }) {
				t.Fail("%s does not return", name)
				return
			}
			sent := cl.CallsOf("Produce")[nc:]
			bad := t.nf > nf
			for _, c := range sent {
				if c.Body != nil && c.Fault == "" && prodErr(c.Body) != 0 {
					bad = true
				}
			}
			if cfg.Acks == 0 {
				bad = bad && len(sent) == 0
				if moved { // nobody tells
					for _, v := range pend {
						may[v] = true
					}
				}
			}
			if len(sent) == 0 && t.nf == nf {
				if err != nil {
					t.Fail("%s: error %v although nothing was sent and nothing failed", name, err)
				}
				return
			}
			if len(sent) > 1 {
				t.Fail("%s sent %d produce requests", name, len(sent))
			}
			if bad && err == nil {
				// the failure may have hit only the leader lookup after an error; then there is an error anyway
				t.Fail("%s returns no error although the batch %v failed on the wire", name, pend)
			}
			if !bad && err != nil {
				t.Fail("%s: error %v although nothing failed", name, err)
			}
			if err != nil {
				for _, v := range pend {
					may[v] = true
				}
			}
			pend = nil
		}
		for i := 0; i < 5; i++ {
			i := i
			pend = append(pend, fmt.Sprintf("a-%d", i))
			step(fmt.Sprintf("AddMessage %d", i), func() error { return l.add(sp.AddMessage, i) })
			if i == 3 {
				step("Flush", sp.Flush)
			}
		}
		step("Flush", sp.Flush)
		on = false
		// everything works again
		for i := 5; i < 7; i++ {
			if i == 5 { // one more error is allowed: the producer may learn of a moved leader only now
				pend = []string{"a-5"}
				l.add(sp.AddMessage, 5)
				if err := sp.Flush(); err != nil {
					may["a-5"] = true
				}
				if cfg.Acks == 0 {
					may["a-5"], may["a-6"] = true, true
				}
				continue
			}
			l.add(sp.AddMessage, i)
			if err := sp.Flush(); err != nil {
				t.Fail("the producer does not recover: %v", err)
			}
		}
		sp.Close()
		if cfg.Acks == 0 {
			// a write may be lost after it was handed to the network
			for _, v := range l.ok {
				if t.nf > 0 || len(may) > 2 {
					may[v] = true
				}
			}
			vrt.Sleep(time.Second)
		}
		t.checkProduced([]*addLog{l}, may, p)
		vals, _ := produced(p)
		t.Out("%v faults %d", vals, t.nf)
		t.CheckBad()
	}})

	// the producer: keyed and unkeyed adders, metadata refresh, close
	mkP := func(closeEarly bool) func(t *T) {
		return func(t *T) {
			cl := t.Cluster(2)
			leaders := []int32{1, 2}
			if vrt.Input(2) == 1 {
				leaders = leaders[:1] // one partition, so that a new partition producer goes on in the old one's place
			}
			ps := cl.AddTopic("t", leaders...).Parts
			cfg := prodCfg(cl)
			cfg.MessageMaxCount = 1 + vrt.Input(2)*2
			cfg.FlushIntervalMS = 50
			cfg.MetadataMaxAgeMS = 20
			vrt.Quiet(true)
			pr, err := healer.NewProducer("t", cfg)
			if err != nil {
				t.Fail("%v", err)
				return
			}
			vrt.Quiet(false)
			logs := []*addLog{{name: "a"}, {name: "b", key: []byte("k")}, {name: "c", key: []byte("k3")}}
			done := 0
			for _, l := range logs {
				l := l
				vrt.GoNamed("adder", func() {
					for i := 0; i < 2; i++ {
						l.add(pr.AddMessage, i)
						if i == 0 && l.name != "c" {
							vrt.Sleep(20 * time.Millisecond) // the metadata refresh
						}
					}
					done++
				})
			}
			if closeEarly {
				vrt.GoNamed("closer", func() { vrt.Sleep(20 * time.Millisecond); pr.Close(); done++ })
			} else {
				done++
			}
			if !vrt.WaitUntil("adders", time.Minute, func() bool { return done == 4 }) {
				t.Fail("AddMessage or Close does not return: %s", t.X.Blocked())
				return
			}
			vrt.Quiet(true)
			if !closeEarly {
				vrt.Sleep(60 * time.Millisecond)
				vrt.Settle()
				t.checkProduced(logs, nil, ps...)
			}
			if !call("Close", time.Minute, pr.Close) {
				t.Fail("Close does not return")
			}
			vals, where := produced(ps...)
			n := len(vals)
			if err := (&addLog{name: "z"}).add(pr.AddMessage, 0); err != healer.ErrProducerClosed {
				t.Fail("AddMessage after Close returns %v", err)
			}
			if err := (&addLog{name: "z", key: []byte("k")}).add(pr.AddMessage, 0); err != healer.ErrProducerClosed {
				t.Fail("AddMessage with key after Close returns %v", err)
			}
			vrt.Sleep(time.Second)
			vals, where = produced(ps...)
			if len(vals) != n {
				t.Fail("messages sent after Close returned")
			}
			for _, l := range logs {
				for _, e := range l.errs {
					if !errors.Is(e, healer.ErrProducerClosed) {
						t.Fail("AddMessage: %v", e)
					}
				}
				if !closeEarly && len(l.no) > 0 {
					t.Fail("AddMessage refused although the producer was open: %v", l.errs)
				}
				if l.key != nil && len(l.ok) == 2 && where[l.ok[0]] != where[l.ok[1]] {
					t.Fail("messages with one key in two partitions")
				}
			}
			t.checkProduced(logs, nil, ps...)
			vrt.Sleep(time.Second)
			if k := cl.LiveConns(); k > 0 {
				t.Fail("%d connections left open after Close", k)
			}
			t.Out("%v", vals)
			t.CheckBad()
		}
	}
	reg(&Scenario{Prop: "P07", Name: "producer-schedules", Fine: true, Stall: 25 * time.Millisecond, Quick: Bound{Dev: 1}, Thorough: Bound{Dev: 2}, Horizon: time.Hour, Run: mkP(false)})
	reg(&Scenario{Prop: "P07", Name: "producer-close", Fine: true, Stall: 25 * time.Millisecond, Quick: Bound{Dev: 1}, Thorough: Bound{Dev: 2}, Horizon: time.Hour, Run: mkP(true)})
	// Flush of the producer: what was accepted before is stored when it returns nil
	flush := func(faults bool) func(t *T) {
		return func(t *T) {
			cl := t.Cluster(2)
			ps := cl.AddTopic("t", 1, 2).Parts
			cfg := prodCfg(cl)
			cfg.MessageMaxCount = 4
			cfg.MetadataMaxAgeMS = 20
			if faults {
				cfg.MetadataMaxAgeMS = 3600000
			}
			vrt.Quiet(true)
			pr, err := healer.NewProducer("t", cfg)
			if err != nil {
				t.Fail("%v", err)
				return
			}
			vrt.Quiet(false)
			if faults {
				t.Faults(func(c *kfake.Call) []*kfake.Fault {
					if c.Name() != "Produce" {
						return nil
					}
					return prodFaults(c)
				})
			}
			logs := []*addLog{{name: "a"}, {name: "b", key: []byte("k")}, {name: "c", key: []byte("k3")}}
			lost := map[string]bool{} // the batch failed, and the caller knows
			all := func() (r []string) {
				for _, l := range logs {
					r = append(r, l.ok...)
				}
				return
			}
			done := 0
			vrt.GoNamed("adder", func() {
				for i := 0; i < 3; i++ {
					for _, l := range logs {
						l.add(pr.AddMessage, i)
						if i == 1 && l.name == "b" {
							vrt.Sleep(20 * time.Millisecond) // the metadata refresh
						}
					}
				}
				done++
			})
			flusher := func() {
				before := all()
				nf := t.nf
				err := pr.Flush()
				for _, v := range before { // whatever happened to the others
					tried := lost[v]
					for _, c := range cl.CallsOf("Produce") {
						tried = tried || bytes.Contains(recordsOf(c), []byte(v))
					}
					if !tried {
						t.Fail("Flush returned (%v), and %s was not sent", err, v)
					}
				}
				_, where := produced(ps...)
				if err == nil {
					for _, v := range before {
						if where[v] == nil && !lost[v] {
							t.Fail("Flush returned and %s is not stored", v)
						}
					}
					return
				}
				if t.nf == nf && !faults {
					t.Fail("Flush: %v although nothing failed", err)
				}
				for _, v := range all() {
					lost[v] = true
				}
			}
			if !faults {
				vrt.GoNamed("flusher", func() { vrt.Sleep(20 * time.Millisecond); flusher(); done++ })
			} else {
				done++
			}
			if !vrt.WaitUntil("adder", time.Minute, func() bool { return done == 2 }) {
				t.Fail("AddMessage or Flush does not return: %s", t.X.Blocked())
				return
			}
			if !call("Flush", 5*time.Minute, flusher) {
				t.Fail("Flush does not return")
			}
			for _, l := range logs {
				if len(l.no) > 0 && !faults {
					t.Fail("AddMessage: %v", l.errs)
				}
				if len(l.no) > 0 { // the whole batch failed
					for _, v := range all() {
						lost[v] = true
					}
				}
			}
			if !call("Close", time.Minute, pr.Close) {
				t.Fail("Close does not return")
			}
			t.checkProduced(logs, lost, ps...)
			vals, _ := produced(ps...)
			t.Out("%v faults %d", vals, t.nf)
			t.CheckBad()
		}
	}
	reg(&Scenario{Prop: "P07", Name: "producer-flush", Fine: true, Stall: 25 * time.Millisecond, Quick: Bound{Dev: 1}, Thorough: Bound{Dev: 2}, Horizon: time.Hour, Run: flush(false)})
	reg(&Scenario{Prop: "P07", Name: "producer-flush-faults", Quick: Bound{Dev: 2, Caps: map[byte]int{'S': 0}}, Thorough: Bound{Dev: 3, Caps: map[byte]int{'S': 1}}, Horizon: time.Hour, Run: flush(true)})
	// faults under the producer: accepted messages are sent or an error is reported
	reg(&Scenario{Prop: "P07", Name: "producer-faults", Quick: Bound{Dev: 1}, Thorough: Bound{Dev: 2, Caps: map[byte]int{'S': 1}}, Horizon: 2 * time.Hour, Run: func(t *T) {
		cl := t.Cluster(2)
		ps := cl.AddTopic("t", 1, 2).Parts
		cfg := prodCfg(cl)
		cfg.MessageMaxCount = 1
		cfg.MetadataMaxAgeMS = 10000
		pr, err := healer.NewProducer("t", cfg)
		if err != nil {
			t.Fail("%v", err)
			return
		}
		on := true
		t.Faults(func(c *kfake.Call) []*kfake.Fault {
			if !on {
				return nil
			}
			return prodFaults(c)
		})
		t.DialFaults(func() bool { return on })
		moves := 0
		inner := cl.Decide
		cl.Decide = func(c *kfake.Call) *kfake.Fault {
			if on && c.Name() == "Produce" && vrt.Choose(2) == 1 {
				moves++
				ps[0].Leader, ps[1].Leader = ps[1].Leader, ps[0].Leader
			}
			return inner(c)
		}
		logs := []*addLog{{name: "a"}, {name: "b", key: []byte("k")}, {name: "c", key: []byte("k3")}}
		nerr := 0
		for i := 0; i < 3; i++ {
			for _, l := range logs {
				l := l
				i := i
				if !call("AddMessage", 5*time.Minute, func() {
					if l.add(pr.AddMessage, i) != nil {
						nerr++
					}
				}) {
					t.Fail("AddMessage does not return")
					return
				}
			}
			vrt.Sleep(6 * time.Second)
		}
		on = false
		if nerr > 0 && t.nf == 0 && moves == 0 {
			t.Fail("AddMessage failed although nothing happened: %v %v %v", logs[0].errs, logs[1].errs, logs[2].errs)
		}
		for _, l := range logs { // recovered
			l.add(pr.AddMessage, 7)
			if err := l.add(pr.AddMessage, 8); err != nil {
				t.Fail("the producer does not recover: %v", err)
			}
		}
		pr.Close()
		t.checkProduced(logs, nil, ps...)
		vals, _ := produced(ps...)
		t.Out("%v %d", vals, nerr)
		t.CheckBad()
	}})
}

// recordsOf is the (uncompressed) payload of a produce request.
func recordsOf(c *kfake.Call) (o []byte) {
	for _, tp := range c.Req.Body["topics"].(A) {
		for _, p := range tp.(M)["partitions"].(A) {
			d, _ := p.(M)["records"].([]byte)
			o = append(o, d...)
		}
	}
	return
}

func prodErr(b M) int64 {
	for _, tp := range b["responses"].(A) {
		for _, p := range tp.(M)["partition_responses"].(A) {
			if e := kfake.Num(p.(M)["error_code"]); e != 0 {
				return e
			}
		}
	}
	return 0
}
