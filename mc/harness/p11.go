package main

import (
	"errors"
	"net"
	"time"

	"github.com/childe/healer"
	"github.com/childe/healer/kfake"
	"github.com/childe/healer/kref"
	"github.com/childe/healer/vrt"
)

func isTimeout(err error) bool {
	var ne net.Error
	return errors.As(err, &ne) && ne.Timeout()
}

const ms = time.Millisecond

// timeoutCfg picks a configuration of the timeouts and returns what it means
// for a kind of request.
func timeoutCfg(key int) (cfg *healer.BrokerConfig, want time.Duration) {
	cfg = healer.DefaultBrokerConfig()
	cfg.Net.ConnectTimeoutMS = 700
	cfg.Net.TimeoutMS = 3000
	want = 3000 * ms
	switch vrt.Input(6) {
	case 1: // an entry for this kind
		cfg.Net.TimeoutMSForEachAPI = make([]int, 68)
		cfg.Net.TimeoutMSForEachAPI[key] = 1200
		want = 1200 * ms
	case 2: // a longer one
		cfg.Net.TimeoutMSForEachAPI = make([]int, key+1)
		cfg.Net.TimeoutMSForEachAPI[key] = 9000
		want = 9000 * ms
	case 3: // entries for all others
		cfg.Net.TimeoutMSForEachAPI = make([]int, 68)
		for i := range cfg.Net.TimeoutMSForEachAPI {
			if i != key {
				cfg.Net.TimeoutMSForEachAPI[i] = 500 + i
			}
		}
	case 4: // a list that ends just before this kind
		cfg.Net.TimeoutMSForEachAPI = make([]int, key)
		for i := range cfg.Net.TimeoutMSForEachAPI {
			cfg.Net.TimeoutMSForEachAPI[i] = 500
		}
	case 5: // different entries for all
		cfg.Net.TimeoutMSForEachAPI = make([]int, 68)
		for i := range cfg.Net.TimeoutMSForEachAPI {
			cfg.Net.TimeoutMSForEachAPI[i] = 2000 + 10*i
		}
		want = time.Duration(2000+10*key) * ms
	}
	return cfg, want
}

// slowFault picks how the broker stops answering. ok: it does answer in time;
// last is when the last byte arrives.
func slowFault(want time.Duration) (f *kfake.Fault, ok bool, last time.Duration) {
	switch vrt.Input(12) {
	case 1:
		return fk("part1", kfake.Fault{Partial: 1}), false, 0
	case 2:
		return fk("part4", kfake.Fault{Partial: 4}), false, 0
	case 3:
		return fk("part7", kfake.Fault{Partial: 7}), false, 0
	case 4:
		return fk("part9", kfake.Fault{Partial: 9}), false, 0
	case 5:
		return fk("cut1", kfake.Fault{Partial: -1}), false, 0
	case 6:
		return fk("late", kfake.Fault{Delay: want - ms}), true, want - ms
	case 7:
		return fk("too-late", kfake.Fault{Delay: want + 10*ms}), false, 0
	case 8:
		return fk("late-part", kfake.Fault{Delay: want / 2, Partial: 6}), false, want / 2
	case 9:
		return fk("late-cut", kfake.Fault{Delay: want - ms, Partial: -1}), false, want - ms
	case 10:
		return fk("in-pieces", kfake.Fault{Chunks: []int{2, 2, 1, 1}, Gap: want - ms}), true, 4 * (want - ms)
	case 11:
		return fk("in-pieces-cut", kfake.Fault{Chunks: []int{3, 2}, Gap: want / 2, Partial: 8}), false, 2 * (want / 2)
	}
	return fk("silent", kfake.Fault{Drop: true}), false, 0
}

// checkTime checks how long a call took.
func (t *T) checkTime(what string, err error, took, want, last time.Duration, ok bool) {
	switch {
	case ok && err != nil:
		t.Fail("%s: fails after %v although every byte came within the timeout of %v: %v", what, took, want, err)
	case !ok && err == nil:
		t.Fail("%s: no error although the broker did not answer", what)
	case !ok && !isTimeout(err):
		t.Fail("%s: the error is not a timeout: %v", what, err)
	}
	if took > last+want {
		t.Fail("%s: took %v, the timeout is %v and the last byte came after %v", what, took, want, last)
	}
}

func init() {
	for _, k := range wireKinds {
		k := k
		if k.api == "Fetch" || k.api == "ApiVersions" {
			continue
		}
		api := kref.ByName[k.api]
		reg(&Scenario{Prop: "P11", Name: "request-" + k.api, Quick: Bound{Dev: 0}, Thorough: Bound{Dev: 0}, Run: func(t *T) {
			cl := t.Cluster(1)
			cl.Loose = true
			cl.Override = func(c *kfake.Call) (M, bool) { return M{}, len(cl.Calls) > 1 && c.Req.API.Key == api.Key }
			cfg, want := timeoutCfg(api.Key)
			b, err := healer.NewBroker("b1:9091", 1, cfg)
			if err != nil {
				t.Fail("NewBroker: %v", err)
				return
			}
			stall := vrt.Input(2) == 1
			f, ok, last := fk("stalled", kfake.Fault{}), false, time.Duration(0)
			if !stall {
				f, ok, last = slowFault(want)
			}
			round := vrt.Input(2) // the first or a later request of the connection
			for i := 0; i <= round; i++ {
				if i == round {
					if stall {
						cl.AllConns[0].C.Stalled = true
					}
					cl.Decide = func(*kfake.Call) *kfake.Fault { return f }
				}
				req, _ := k.mk(&gen{big: 1000}, "cid")
				t0 := vrt.NowD()
				var err error
				if !call("request", time.Hour, func() { _, err = b.RequestAndGet(req) }) {
					t.Fail("%s: the request does not return", f.Name)
					return
				}
				if i < round {
					t.checkTime("request", err, vrt.NowD()-t0, want, 0, true)
				} else {
					t.checkTime(f.Name, err, vrt.NowD()-t0, want, last, ok)
				}
			}
			// the broker answers again
			cl.Decide = nil
			nConn := len(cl.AllConns)
			req, _ := k.mk(&gen{big: 1000}, "cid")
			t0 := vrt.NowD()
			if !call("request", time.Hour, func() { _, err = b.RequestAndGet(req) }) {
				t.Fail("after %s: the next request does not return", f.Name)
				return
			}
			t.checkTime("after "+f.Name, err, vrt.NowD()-t0, 0, 0, true)
			if !ok && (len(cl.AllConns) != nConn+1 || !cl.AllConns[nConn-1].C.IsClosed()) {
				t.Fail("after %s: the next request does not use a fresh connection", f.Name)
			}
			t.CheckBad()
			t.Out("%s %v %v", f.Name, want, round)
		}})
	}

	// connecting
	setup := func(again bool) func(t *T) {
		return func(t *T) {
			cl := t.Cluster(1)
			at := []string{"dial", "ApiVersions", "SaslHandshake", "SaslAuthenticate"}[vrt.Input(4)]
			key := map[string]int{"ApiVersions": 18, "SaslHandshake": 17, "SaslAuthenticate": 36}[at]
			cfg, want := timeoutCfg(key)
			tls := vrt.Input(2) == 1
			cfg.Sasl, cfg.TLSEnabled, cfg.TLS = security(cl, at != "ApiVersions", tls)
			f, ok, last := fk("dial", kfake.Fault{}), false, time.Duration(0)
			if at == "dial" {
				want = 700 * ms
				if vrt.Input(2) == 1 {
					ok, last = true, 690*ms
				}
			} else {
				f, ok, last = slowFault(want)
			}
			fault := func() {
				if at == "dial" {
					cl.DialHook = func(*kfake.Node, string) (time.Duration, error, bool) {
						if ok {
							return last, nil, true
						}
						return time.Hour, nil, true
					}
				} else {
					cl.Decide = func(c *kfake.Call) *kfake.Fault {
						if c.Name() == at {
							return f
						}
						return nil
					}
				}
			}
			var b *healer.Broker
			var err error
			req := func() {
				r, _ := healer.NewListGroupsRequest("cid"), 0
				_, err = b.RequestAndGet(r)
			}
			connect := func() { b, err = healer.NewBroker("b1:9091", 1, cfg) }
			if again {
				if connect(); err != nil {
					t.Fail("NewBroker: %v", err)
					return
				}
				b.Close()
				connect = req
			}
			fault()
			t0 := vrt.NowD()
			if !call("connect", time.Hour, connect) {
				t.Fail("%s %s: connecting does not return", at, f.Name)
				return
			}
			t.checkTime(at+" "+f.Name, err, vrt.NowD()-t0, want, last, ok)
			cl.Decide, cl.DialHook = nil, nil
			if !again {
				if connect(); err != nil {
					t.Fail("NewBroker: %v", err)
					return
				}
			}
			t0 = vrt.NowD()
			if !call("request", time.Hour, req) {
				t.Fail("after %s %s: the next request does not return", at, f.Name)
				return
			}
			t.checkTime("after "+f.Name, err, vrt.NowD()-t0, 0, 0, true)
			t.CheckBad()
			t.Out("%s %s %v", at, f.Name, want)
		}
	}
	reg(&Scenario{Prop: "P11", Name: "connect", Quick: Bound{Dev: 0}, Thorough: Bound{Dev: 0}, Run: setup(false)})
	reg(&Scenario{Prop: "P11", Name: "reconnect", Quick: Bound{Dev: 0}, Thorough: Bound{Dev: 0}, Run: setup(true)})

	// a partition consumer: fetches are held back by the broker for the maximum wait time, and sent late
	reg(&Scenario{Prop: "P11", Name: "fetch", Quick: Bound{Dev: 0}, Thorough: Bound{Dev: 0}, Run: func(t *T) {
		cl := t.Cluster(1)
		p := cl.AddTopic("t", 1).Parts[0]
		p.AddRecs("a", "b")
		p.AddRecs("c")
		p.NChunks = 1
		cfg := consCfg(cl)
		cfg.Net.ConnectTimeoutMS = 700
		cfg.Net.TimeoutMS = 3000
		cfg.FetchMaxWaitMS = 500
		cfg.RetryBackOffMS = 100
		want := 3500 * ms
		at := vrt.Input(3) // the fetch that is not answered
		f, ok, last := slowFault(want)
		if f.Gap > 0 {
			t.Trivial()
			return
		}
		stall := f.Drop && vrt.Input(2) == 1
		var faulty, next *kfake.Call
		n := 0
		cl.Decide = func(c *kfake.Call) *kfake.Fault {
			if c.Name() != "Fetch" {
				return nil
			}
			n++
			if faulty != nil && next == nil {
				next = c
			}
			if stall && n == at {
				vrt.AfterFn(50*ms, func() { c.Conn.C.Stalled = true })
			}
			if n == at+1 && !stall {
				faulty = c
				return f
			}
			return nil
		}
		if stall && at == 0 {
			t.Trivial()
			return
		}
		c := startConsumer(t, "t", 0, cfg)
		ch := make(chan *healer.FullMessage, 16)
		vrt.GoNamed("consume", func() { c.Consume(-2, ch) })
		got := drain(ch, 3, 20*time.Second)
		p.AddRecs("d")
		got = append(got, drain(ch, 1, 20*time.Second)...)
		t.checkExact(f.Name, got, "t", 0, p.Recs(0))
		if stall {
			vrt.WaitUntil("next fetch", time.Hour, func() bool { return n > at })
		} else {
			vrt.WaitUntil("next fetch", time.Hour, func() bool { return next != nil })
		}
		switch {
		case stall && n <= at, !stall && next == nil:
			t.Fail("%s: no other fetch is sent", f.Name)
		case stall:
		case next.At-faulty.At > last+want+1000*ms:
			t.Fail("%s: the next fetch follows after %v", f.Name, next.At-faulty.At)
		case !ok && next.Conn == faulty.Conn:
			t.Fail("%s: the next fetch is sent on the same connection", f.Name)
		case ok && next.Conn != faulty.Conn:
			t.Fail("%s: the fetch was answered in time and the connection is not used any more", f.Name)
		}
		t.CheckBad()
		t.Out("%d %s", at, f.Name)
	}})

	// a group member: every request of its life
	for _, name := range []string{"FindCoordinator", "JoinGroup", "SyncGroup", "Heartbeat", "OffsetFetch", "OffsetCommit", "ListOffsets", "Fetch", "Metadata"} {
		name := name
		reg(&Scenario{Prop: "P11", Name: "group-" + name, Quick: Bound{Dev: 0}, Thorough: Bound{Dev: 0}, Run: func(t *T) {
			cl := t.Cluster(1)
			p := cl.AddTopic("t", 1).Parts[0]
			p.AddRecs("a")
			cfg := consCfg(cl)
			cfg.GroupID = "g"
			cfg.Net.ConnectTimeoutMS = 700
			cfg.Net.TimeoutMS = 3000
			cfg.FetchMaxWaitMS = 500
			cfg.SessionTimeoutMS = 12000
			cfg.RetryBackOffMS = 100
			cfg.AutoCommit = true
			cfg.AutoCommitIntervalMS = 1000
			cfg.FromBeginning = true
			want := 3000 * ms
			switch name {
			case "JoinGroup":
				want = 17000 * ms
			case "OffsetCommit":
				want = 6000 * ms
			case "Fetch":
				want = 3500 * ms
			}
			at := 1 + vrt.Input(2)
			f, ok, last := slowFault(want)
			if f.Gap > 0 && name == "Fetch" || ok && (name == "Heartbeat" || name == "SyncGroup") {
				t.Trivial()
				return
			}
			var faulty, next *kfake.Call
			n := 0
			on := true
			cl.Decide = func(c *kfake.Call) *kfake.Fault {
				if c.Name() != name || !on {
					return nil
				}
				n++
				if faulty != nil && next == nil {
					next = c
				}
				if n == at {
					faulty = c
					return f
				}
				return nil
			}
			g := startGroup(t, "t", cfg)
			if g == nil {
				return
			}
			ch := make(chan *healer.FullMessage, 16)
			vrt.GoNamed("consume", func() { g.Consume(ch) })
			if vrt.WaitUntil("request", 30*time.Second, func() bool { return faulty != nil }) {
				limit := last + want + 2500*ms
				vrt.WaitUntil("next", limit, func() bool { return next != nil })
				if next == nil && !ok {
					t.Fail("%s %s: not tried again within %v", name, f.Name, limit)
				}
				if next != nil && !ok && next.Conn == faulty.Conn {
					t.Fail("%s %s: tried again on the same connection", name, f.Name)
				}
			} else {
				t.Trivial()
			}
			on = false
			if got := drain(ch, 1, 2*time.Minute); len(got) != 1 {
				t.Fail("%s %s: the record is not delivered", name, f.Name)
			}
			t.Out("%s %s %d", name, f.Name, at)
		}})
	}

	// a producer
	reg(&Scenario{Prop: "P11", Name: "produce", Quick: Bound{Dev: 0}, Thorough: Bound{Dev: 0}, Run: func(t *T) {
		cl := t.Cluster(1)
		cl.AddTopic("t", 1)
		cfg := prodCfg(cl)
		cfg.Net.ConnectTimeoutMS = 700
		cfg.Net.TimeoutMS = 3000
		cfg.MessageMaxCount = 1
		cfg.FlushIntervalMS = 3600000
		want := 3000 * ms
		if vrt.Input(2) == 1 {
			cfg.Net.TimeoutMSForEachAPI = make([]int, 68)
			cfg.Net.TimeoutMSForEachAPI[0] = 1300
			want = 1300 * ms
		}
		f, ok, last := slowFault(want)
		p, err := healer.NewProducer("t", cfg)
		if err != nil {
			t.Fail("NewProducer: %v", err)
			return
		}
		at := 1 + vrt.Input(2)
		n := 0
		cl.Decide = func(c *kfake.Call) *kfake.Fault {
			if c.Name() == "Produce" {
				if n++; n == at {
					return f
				}
			}
			return nil
		}
		for i := 1; i <= at+1; i++ {
			t0 := vrt.NowD()
			var err error
			if !call("AddMessage", time.Hour, func() { err = p.AddMessage(nil, []byte{byte(i)}) }) {
				t.Fail("%s: AddMessage does not return", f.Name)
				return
			}
			if i == at {
				t.checkTime(f.Name, err, vrt.NowD()-t0, want, last, ok)
			} else {
				t.checkTime("AddMessage", err, vrt.NowD()-t0, 0, 0, true)
			}
		}
		t.CheckBad()
		t.Out("%s %v", f.Name, want)
	}})
}
