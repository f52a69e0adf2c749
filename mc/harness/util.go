package main

import (
	"bytes"
	"fmt"
	"io"
	"strings"
	"syscall"
	"time"

	"github.com/childe/healer"
	"github.com/childe/healer/kfake"
	"github.com/childe/healer/kref"
	"github.com/childe/healer/vrt"
)

// M and A are protocol values.
type (
	M = kref.M
	A = kref.A
)

// Cluster installs a fake cluster of n brokers.
func (t *T) Cluster(n int) *kfake.Cluster {
	cl := kfake.New(n)
	t.Cl = cl
	t.X.Net = cl
	return cl
}

// CheckBad fails for every protocol violation the brokers saw.
func (t *T) CheckBad() {
	for _, b := range t.Cl.Bad {
		t.Fail("protocol violation: %s", b)
	}
}

// call runs f in its own goroutine and waits at most d for it.
func call(name string, d time.Duration, f func()) bool {
	done := false
	vrt.GoNamed(name, func() { f(); done = true })
	return vrt.WaitUntil(name, d, func() bool { return done })
}

// recvT receives with a timeout; ok is false on timeout or close.
func recvT(ch <-chan *healer.FullMessage, d time.Duration) (*healer.FullMessage, bool) {
	tm := vrt.NewTimer(d)
	s := vrt.Select(false, vrt.CR(ch), vrt.CR(tm.C))
	tm.Stop()
	if s.I != 0 {
		return nil, false
	}
	m, ok := vrt.SelRecv2(ch, s)
	return m, ok
}

// drain receives until nothing arrives for d.
func drain(ch <-chan *healer.FullMessage, max int, d time.Duration) []*healer.FullMessage {
	var out []*healer.FullMessage
	for len(out) < max {
		m, ok := recvT(ch, d)
		if !ok {
			break
		}
		out = append(out, m)
	}
	return out
}

func recOf(m *healer.FullMessage) kref.Rec {
	r := kref.Rec{Offset: m.Message.Offset, Timestamp: int64(m.Message.Timestamp), Key: m.Message.Key, Value: m.Message.Value}
	for _, h := range m.Message.Headers {
		r.Headers = append(r.Headers, kref.Header{Key: h.Key, Value: h.Value})
	}
	return r
}

func sameBytes(a, b []byte) bool { return (a == nil) == (b == nil) && bytes.Equal(a, b) }

func sameRec(a, b kref.Rec) bool {
	if a.Offset != b.Offset || a.Timestamp != b.Timestamp || !sameBytes(a.Key, b.Key) || !sameBytes(a.Value, b.Value) || len(a.Headers) != len(b.Headers) {
		return false
	}
	for i := range a.Headers {
		if a.Headers[i].Key != b.Headers[i].Key || !sameBytes(a.Headers[i].Value, b.Headers[i].Value) {
			return false
		}
	}
	return true
}

func offs(ms []*healer.FullMessage) string {
	var s []string
	for _, m := range ms {
		if m.Error != nil || m.Message == nil {
			s = append(s, fmt.Sprintf("error(%v)", m.Error))
		} else {
			s = append(s, fmt.Sprintf("%d", m.Message.Offset))
		}
	}
	return strings.Join(s, ",")
}

// checkExact compares delivered messages with the expected records.
func (t *T) checkExact(what string, got []*healer.FullMessage, topic string, part int32, want []kref.Rec) {
	for i, m := range got {
		if m == nil || m.Message == nil || m.Error != nil {
			t.Fail("%s: delivery %d is not a record: %+v", what, i, m)
			return
		}
		if m.TopicName != topic || m.PartitionID != part {
			t.Fail("%s: record labelled %s-%d, want %s-%d", what, m.TopicName, m.PartitionID, topic, part)
			return
		}
		if i >= len(want) {
			t.Fail("%s: %d records delivered, %d expected; extra %v (delivered offsets %s)", what, len(got), len(want), recOf(m), offs(got))
			return
		}
		if g := recOf(m); !sameRec(g, want[i]) {
			t.Fail("%s: delivery %d is %v, want %v (delivered offsets %s)", what, i, g, want[i], offs(got))
			return
		}
	}
	if len(got) < len(want) {
		t.Fail("%s: only %d of %d records delivered (offsets %s), next expected %v", what, len(got), len(want), offs(got), want[len(got)])
	}
}

func consCfg(cl *kfake.Cluster) healer.ConsumerConfig {
	c := healer.DefaultConsumerConfig()
	c.BootstrapServers = cl.Bootstrap()
	c.ClientID = "cid"
	c.AutoCommit = false
	return c
}

// only restricts all brokers to one version of an API.
func only(cl *kfake.Cluster, key, ver int) {
	for _, n := range cl.Nodes {
		n.Versions[key] = [2]int{ver, ver}
	}
}

func max0(a, b int) int {
	if a > b {
		return a
	}
	return b
}

// fk is a named fault.
func fk(name string, f kfake.Fault) *kfake.Fault { f.Name = name; return &f }

// netFaults are the transport faults of an answer.
func netFaults() []*kfake.Fault {
	return []*kfake.Fault{
		fk("eof", kfake.Fault{Hang: io.EOF}),
		fk("skip-eof", kfake.Fault{Skip: true, Hang: io.EOF}),
		fk("reset", kfake.Fault{Hang: syscall.ECONNRESET}),
		fk("silent", kfake.Fault{Drop: true}),
		fk("part2-eof", kfake.Fault{Partial: 2, Hang: io.EOF}),
		fk("part9-eof", kfake.Fault{Partial: 9, Hang: io.EOF}),
		fk("part9-silent", kfake.Fault{Partial: 9}),
		fk("cut-eof", kfake.Fault{Partial: -3, Hang: io.EOF}),
		fk("cut-silent", kfake.Fault{Partial: -3}),
	}
}

func errFaults(codes ...int16) []*kfake.Fault {
	var out []*kfake.Fault
	for _, c := range codes {
		out = append(out, fk(fmt.Sprintf("err%d", c), kfake.Fault{Err: c}))
	}
	return out
}

// Faults makes every request a fault point (cost 1 per fault).
func (t *T) Faults(pick func(c *kfake.Call) []*kfake.Fault) {
	t.Cl.Decide = func(c *kfake.Call) *kfake.Fault {
		o := pick(c)
		if i := vrt.Choose(len(o) + 1); i > 0 {
			t.nf++
			return o[i-1]
		}
		return nil
	}
}

// DialFaults makes every dial a fault point.
func (t *T) DialFaults(on func() bool) {
	t.Cl.DialHook = func(n *kfake.Node, addr string) (time.Duration, error, bool) {
		if !on() || !n.Up {
			return 0, nil, false
		}
		switch vrt.Choose(3) {
		case 1:
			t.nf++
			return 0, syscall.ECONNREFUSED, true
		case 2:
			t.nf++
			return time.Hour, nil, true
		}
		return 0, nil, false
	}
}

// WriteFaults makes every write a fault point.
func (t *T) WriteFaults(on func() bool) {
	t.Cl.WriteHook = func(c *kfake.SConn) error {
		if on() && vrt.Choose(2) == 1 {
			t.nf++
			return syscall.EPIPE
		}
		return nil
	}
}

var syscallReset error = syscall.ECONNRESET
