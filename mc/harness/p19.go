package main

import (
	"context"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"time"

	"github.com/childe/healer"
	"github.com/childe/healer/kfake"
	"github.com/childe/healer/kref"
	"github.com/childe/healer/vrt"
)

// copt is one option of a consumer or producer. The name is the path in the
// map form; the first value is the default.
type copt[C any] struct {
	name string
	vals []any
	set  func(c *C, v any)
}

func num(v any) int { return int(kref.ToInt(v)) }

func eachAPI(v any) []int {
	l := v.([]int)
	return append(make([]int, 0, len(l)), l...)
}

// per-request timeouts: none, all, one entry, a short list
func eachVals() []any {
	all := make([]int, 68)
	for i := range all {
		all[i] = 2000 + 10*i
	}
	one := make([]int, 68)
	one[12] = 1700
	return []any{[]int(nil), all, one, []int{2100, 2200}}
}

var consOpts = []copt[healer.ConsumerConfig]{
	{"net/connect.timeout.ms", []any{30000, 700}, func(c *healer.ConsumerConfig, v any) { c.Net.ConnectTimeoutMS = num(v) }},
	{"net/timeout.ms", []any{30000, 4000, 61000}, func(c *healer.ConsumerConfig, v any) { c.Net.TimeoutMS = num(v) }},
	{"net/timeout.ms.for.eachapi", eachVals(), func(c *healer.ConsumerConfig, v any) {
		c.Net.TimeoutMSForEachAPI = eachAPI(v)
	}},
	{"net/keepalive.ms", []any{7200000, 5000}, func(c *healer.ConsumerConfig, v any) { c.Net.KeepAliveMS = num(v) }},
	{"client.id", []any{"healer", "other", "x y"}, func(c *healer.ConsumerConfig, v any) { c.ClientID = v.(string) }},
	{"group.id", []any{"", "g1", "g 2"}, func(c *healer.ConsumerConfig, v any) { c.GroupID = v.(string) }},
	{"retry.backoff.ms", []any{100, 1, 2500}, func(c *healer.ConsumerConfig, v any) { c.RetryBackOffMS = num(v) }},
	{"metadata.max.age.ms", []any{300000, 1500, 3000}, func(c *healer.ConsumerConfig, v any) { c.MetadataMaxAgeMS = num(v) }},
	{"session.timeout.ms", []any{30000, 10000, 45000}, func(c *healer.ConsumerConfig, v any) { c.SessionTimeoutMS = int32(num(v)) }},
	{"fetch.max.wait.ms", []any{500, 100, 1234}, func(c *healer.ConsumerConfig, v any) { c.FetchMaxWaitMS = int32(num(v)) }},
	{"fetch.max.bytes", []any{10 << 20, 1000, 1 << 30}, func(c *healer.ConsumerConfig, v any) { c.FetchMaxBytes = int32(num(v)) }},
	{"fetch.min.bytes", []any{1, 7}, func(c *healer.ConsumerConfig, v any) { c.FetchMinBytes = int32(num(v)) }},
	{"from.beginning", []any{false, true}, func(c *healer.ConsumerConfig, v any) { c.FromBeginning = v.(bool) }},
	{"auto.commit", []any{true, false}, func(c *healer.ConsumerConfig, v any) { c.AutoCommit = v.(bool) }},
	{"auto.commit.interval.ms", []any{5000, 1000, 2200}, func(c *healer.ConsumerConfig, v any) { c.AutoCommitIntervalMS = num(v) }},
	{"offsets.storage", []any{1, 1}, func(c *healer.ConsumerConfig, v any) { c.OffsetsStorage = num(v) }},
	{"sasl", []any{nil, map[string]any{"mechanism": "PLAIN", "user": "bob", "password": "pa ss"}}, func(c *healer.ConsumerConfig, v any) {
		m := v.(map[string]any)
		c.Sasl = healer.SaslConfig{Mechanism: sval(m["mechanism"]), User: sval(m["user"]), Password: sval(m["password"])}
	}},
	{"tls", []any{nil, tlsMap("s1", false), tlsMap("", true)}, func(c *healer.ConsumerConfig, v any) {
		c.TLSEnabled, c.TLS = true, tlsOf(v)
	}},
	{"tls-off", []any{nil, tlsMap("s1", false)}, func(c *healer.ConsumerConfig, v any) {
		c.TLSEnabled, c.TLS = false, tlsOf(v)
	}},
}

var prodOpts = []copt[healer.ProducerConfig]{
	{"net/connect.timeout.ms", []any{30000, 700}, func(c *healer.ProducerConfig, v any) { c.Net.ConnectTimeoutMS = num(v) }},
	{"net/timeout.ms", []any{30000, 4000, 61000}, func(c *healer.ProducerConfig, v any) { c.Net.TimeoutMS = num(v) }},
	{"net/timeout.ms.for.eachapi", eachVals(), func(c *healer.ProducerConfig, v any) {
		c.Net.TimeoutMSForEachAPI = eachAPI(v)
	}},
	{"net/keepalive.ms", []any{7200000, 5000}, func(c *healer.ProducerConfig, v any) { c.Net.KeepAliveMS = num(v) }},
	{"client.id", []any{"healer", "other", "x y"}, func(c *healer.ProducerConfig, v any) { c.ClientID = v.(string) }},
	{"acks", []any{-1, 1, 0}, func(c *healer.ProducerConfig, v any) { c.Acks = int16(num(v)) }},
	{"compress.type", []any{"none", "gzip", "snappy", "lz4"}, func(c *healer.ProducerConfig, v any) { c.CompressionType = v.(string) }},
	{"message.max.count", []any{1024, 1, 3}, func(c *healer.ProducerConfig, v any) { c.MessageMaxCount = num(v) }},
	{"flush.interval.ms", []any{200, 10, 3000}, func(c *healer.ProducerConfig, v any) { c.FlushIntervalMS = num(v) }},
	{"metadata.max.age.ms", []any{300000, 1700, 3300}, func(c *healer.ProducerConfig, v any) { c.MetadataMaxAgeMS = num(v) }},
	{"retry.backoff.ms", []any{200, 1, 2500}, func(c *healer.ProducerConfig, v any) { c.RetryBackOffMS = num(v) }},
	{"request.timeout.ms", []any{1500, 1, 40000}, func(c *healer.ProducerConfig, v any) { c.RequestTimeoutMS = int32(num(v)) }},
	{"sasl", []any{nil, map[string]any{"mechanism": "PLAIN", "user": "bob", "password": "pa ss"}}, func(c *healer.ProducerConfig, v any) {
		m := v.(map[string]any)
		c.Sasl = healer.SaslConfig{Mechanism: sval(m["mechanism"]), User: sval(m["user"]), Password: sval(m["password"])}
	}},
	{"tls", []any{nil, tlsMap("s1", false), tlsMap("", true)}, func(c *healer.ProducerConfig, v any) {
		c.TLSEnabled, c.TLS = true, tlsOf(v)
	}},
	{"tls-off", []any{nil, tlsMap("s1", false)}, func(c *healer.ProducerConfig, v any) {
		c.TLSEnabled, c.TLS = false, tlsOf(v)
	}},
}

func tlsMap(server string, insecure bool) map[string]any {
	return map[string]any{"cert": pem("cert"), "key": pem("key"), "ca": pem("ca"), "servername": server, "insecure.skip.verify": insecure}
}

func tlsOf(v any) *healer.TLSConfig {
	m := v.(map[string]any)
	return &healer.TLSConfig{Cert: sval(m["cert"]), Key: sval(m["key"]), CA: sval(m["ca"]), ServerName: sval(m["servername"]), InsecureSkipVerify: m["insecure.skip.verify"].(bool)}
}

// setting is an option and the index of its value.
type setting struct{ opt, val int }

// mapForm is the configuration as a map, with the numbers as they are or as strings.
func mapForm[C any](opts []copt[C], base map[string]any, sets []setting, text bool) map[string]any {
	out := map[string]any{}
	put := func(m map[string]any, k string, v any) {
		if text {
			switch x := v.(type) {
			case int, bool:
				v = fmt.Sprint(x)
			case []int:
				var l []any
				for _, n := range x {
					l = append(l, fmt.Sprint(n))
				}
				v = l
			}
		}
		m[k] = v
	}
	for k, v := range base {
		put(out, k, v)
	}
	for _, s := range sets {
		name, v := opts[s.opt].name, opts[s.opt].vals[s.val]
		switch {
		case name == "tls", name == "tls-off":
			put(out, "tls.enabled", name == "tls")
			m := map[string]any{}
			for k, x := range v.(map[string]any) {
				put(m, k, x)
			}
			out["tls"] = m
		case strings.HasPrefix(name, "net/"):
			n, _ := out["net"].(map[string]any)
			if n == nil {
				n = map[string]any{}
				out["net"] = n
			}
			put(n, name[4:], v)
		default:
			put(out, name, v)
		}
	}
	return out
}

// p19World runs clients and measures what they do.
type p19World struct {
	*T
	cl   *kfake.Cluster
	shot map[string]*shot // client id / kind of request
}

type shot struct {
	f    *kfake.Fault
	call *kfake.Call
	next *kfake.Call
}

func (t *T) p19World() *p19World {
	cl := t.Cluster(1)
	cl.AutoCreate = false
	w := &p19World{T: t, cl: cl, shot: map[string]*shot{}}
	cl.Decide = func(c *kfake.Call) *kfake.Fault {
		s := w.shot[sval(c.Req.ClientID)+"/"+c.Name()]
		switch {
		case s == nil:
		case s.call == nil:
			s.call = c
			return s.f
		case s.next == nil:
			s.next = c
		}
		return nil
	}
	return w
}

// once makes the next request of the kind fail; it returns how long it took
// until the connection was closed and until the next such request came.
func (w *p19World) once(cid, api string, f *kfake.Fault) (closed, next time.Duration, ok bool) {
	s := &shot{f: f}
	w.shot[cid+"/"+api] = s
	if !vrt.WaitUntil(api, 5*time.Minute, func() bool { return s.call != nil }) {
		return 0, 0, false
	}
	vrt.WaitUntil("closed", 5*time.Minute, func() bool { return s.call.Conn.C.IsClosed() })
	closed = vrt.NowD() - s.call.At
	vrt.WaitUntil("next", 5*time.Minute, func() bool { return s.next != nil })
	if s.next == nil {
		return closed, 0, false
	}
	return closed, s.next.At - s.call.At, true
}

func (w *p19World) of(cid, api string) (out []*kfake.Call) {
	for _, c := range w.cl.CallsOf(api) {
		if sval(c.Req.ClientID) == cid {
			out = append(out, c)
		}
	}
	return
}

// every is the time between two requests of a kind, after the given instant.
func (w *p19World) every(cid, api string, from time.Duration) string {
	var at []time.Duration
	for _, c := range w.of(cid, api) {
		if c.At > from {
			at = append(at, c.At)
		}
	}
	if len(at) < 2 {
		return "never"
	}
	return fmt.Sprint(at[1] - at[0])
}

func durMS(n int) time.Duration { return time.Duration(n) * ms }

// within makes the timing comparable: exact times are not promised.
func about(got, want time.Duration, slack time.Duration) string {
	if got >= want && got <= want+slack {
		return fmt.Sprint(want)
	}
	return fmt.Sprint(got)
}

func (w *p19World) connOf(cid string) *kfake.SConn {
	for _, c := range w.cl.Calls {
		if sval(c.Req.ClientID) == cid {
			return c.Conn
		}
	}
	return nil
}

func (w *p19World) secure(s healer.SaslConfig, tls bool) {
	w.cl.WantTLS = tls
	if s.Mechanism != "" {
		w.cl.SASL = &kfake.SASL{Mechanism: "PLAIN", User: s.User, Password: s.Password}
	}
}

func tlsText(on bool, c *healer.TLSConfig) string {
	if !on {
		return "no"
	}
	return fmt.Sprintf("%q %v", c.ServerName, c.InsecureSkipVerify)
}

func (w *p19World) connText(cid string) (tls, keep string) {
	c := w.connOf(cid)
	if c == nil {
		return "no connection", ""
	}
	if tc := c.C.TLS; tc != nil {
		name := tc.ServerName
		tls = fmt.Sprintf("%q %v", name, tc.InsecureSkipVerify)
		if len(tc.Certificates) == 0 || tc.RootCAs == nil {
			tls += " without certificates"
		}
	} else {
		tls = "no"
	}
	return tls, fmt.Sprint(c.C.KeepAlive)
}

// firstDial measures how long the client waits for a connection.
func (w *p19World) firstDial(create func() error) (time.Duration, bool) {
	w.cl.DialHook = func(*kfake.Node, string) (time.Duration, error, bool) { return time.Hour, nil, true }
	t0 := vrt.NowD()
	var err error
	if !call("create", 50*time.Minute, func() { err = create() }) || err == nil {
		return 0, false
	}
	w.cl.DialHook = nil
	return vrt.NowD() - t0, true
}

// timeoutOf is the timeout of a kind of request of a consumer.
func timeoutOf(c healer.ConsumerConfig, key int) time.Duration {
	if l := c.Net.TimeoutMSForEachAPI; key < len(l) && l[key] > 0 {
		return durMS(l[key])
	}
	switch key {
	case 1:
		return durMS(c.Net.TimeoutMS + int(c.FetchMaxWaitMS))
	case 8:
		return durMS(int(c.SessionTimeoutMS) / 2)
	case 11:
		return durMS(int(c.SessionTimeoutMS) + 5000)
	}
	return durMS(c.Net.TimeoutMS)
}

func yes(b bool, a, c string) string {
	if b {
		return a
	}
	return c
}

// consumer creates a consumer of the configuration, and compares everything
// it does with the meaning of c.
func (w *p19World) consumer(kind, topic string, config any, c healer.ConsumerConfig, dial bool) {
	cl := w.cl
	p := cl.Part(topic, 0)
	if p == nil {
		p = cl.AddTopic(topic, 1).Parts[0]
		p.AddRecs("a", "b")
	}
	got, want := map[string]string{}, map[string]string{}
	cmp := func(what string, g, e any) { got[what], want[what] = fmt.Sprint(g), fmt.Sprint(e) }
	ch := make(chan *healer.FullMessage, 1000)
	from := int64(-1)
	if c.FromBeginning {
		from = -2
	}
	var start func()
	create := func() error {
		switch kind {
		case "group":
			g, err := healer.NewGroupConsumer(topic, config)
			start = func() { g.Consume(ch) }
			return err
		case "simple":
			s, err := healer.NewSimpleConsumer(topic, 0, config)
			start = func() { s.Consume(from, ch) }
			return err
		default:
			s, err := healer.NewConsumer(config, topic)
			start = func() { s.Consume(ch) }
			return err
		}
	}
	if dial {
		d, ok := w.firstDial(create)
		if !ok {
			w.Fail("%s: creating it succeeds although no connection can be made", kind)
			return
		}
		cmp("connect timeout", d, durMS(c.Net.ConnectTimeoutMS))
	}
	if err := create(); err != nil {
		w.Fail("%s: creating it fails: %v", kind, err)
		return
	}
	n0, t0, stop := p.End, vrt.NowD(), false
	vrt.GoNamed("consume", start)
	vrt.GoNamed("records", func() {
		vrt.Sleep(700 * ms)
		for !stop {
			p.AddRecs("x")
			vrt.Sleep(300 * ms)
		}
	})
	vrt.Sleep(13 * time.Second)
	cid := c.ClientID
	cmp("tls", "", "")
	got["tls"], got["keepalive"] = w.connText(cid)
	want["tls"], want["keepalive"] = tlsText(c.TLSEnabled, c.TLS), fmt.Sprint(durMS(c.Net.KeepAliveMS))
	// fetch requests
	if f := w.of(cid, "Fetch"); len(f) == 0 {
		got["fetch"], want["fetch"] = "no fetch", "fetches"
	} else {
		parts := aval(aval(f[0].Req.Body["topics"])[0].(M)["partitions"])
		pm := parts[0].(M)
		cmp("fetch.max.wait.ms", f[0].Req.Body["max_wait_ms"], c.FetchMaxWaitMS)
		cmp("fetch.min.bytes", f[0].Req.Body["min_bytes"], c.FetchMinBytes)
		cmp("fetch.max.bytes", pm["partition_max_bytes"], c.FetchMaxBytes)
		cmp("position", pm["fetch_offset"], yes(c.FromBeginning, "0", fmt.Sprint(n0)))
	}
	grouped := c.GroupID != ""
	// commits
	commits := grouped && c.AutoCommit
	cmp("commit interval", w.every(cid, "OffsetCommit", t0), yes(commits, fmt.Sprint(durMS(c.AutoCommitIntervalMS)), "never"))
	for _, api := range []string{"OffsetCommit", "OffsetFetch"} {
		for _, k := range w.of(cid, api) {
			cmp(api+" group", k.Req.Body["group_id"], c.GroupID)
			cmp(api+" storage", yes(k.Req.Ver > 0, "1", "0"), c.OffsetsStorage)
		}
	}
	if grouped && len(w.of(cid, "OffsetFetch")) == 0 {
		cmp("committed offset", "not looked up", "looked up")
	}
	if kind == "group" {
		j := w.of(cid, "JoinGroup")
		if len(j) != 1 {
			cmp("JoinGroup", len(j), 1)
		} else {
			cmp("group.id", j[0].Req.Body["group_id"], c.GroupID)
			cmp("session.timeout.ms", j[0].Req.Body["session_timeout_ms"], c.SessionTimeoutMS)
		}
		age := durMS(c.MetadataMaxAgeMS)
		exp := fmt.Sprint(age)
		if 2*age > 12*time.Second {
			exp = "never"
		}
		cmp("metadata.max.age.ms", w.every(cid, "Metadata", t0+time.Second), exp)
	}
	stop = true
	vrt.Sleep(6 * time.Second)
	// failures
	back := durMS(c.RetryBackOffMS)
	if _, next, ok := w.once(cid, "Fetch", netFaults()[1]); ok {
		cmp("retry.backoff.ms", about(next, back, 50*ms), back)
	} else {
		cmp("retry.backoff.ms", "no other fetch", back)
	}
	silent := func(api string, key int) {
		if d, _, ok := w.once(cid, api, fk("silent", kfake.Fault{Drop: true})); ok {
			cmp("timeout of "+api, d, timeoutOf(c, key))
		} else {
			cmp("timeout of "+api, "no other request", timeoutOf(c, key))
		}
	}
	silent("Fetch", 1)
	if kind == "group" {
		silent("Heartbeat", 12)
		// the next join: provoked by another heartbeat that fails
		w.shot[cid+"/Heartbeat"] = &shot{f: errFaults(27)[0]}
		silent("JoinGroup", 11)
		p.AddRecs("y")
		if c.AutoCommit {
			silent("OffsetCommit", 8)
		}
	}
	w.compare(kind, got, want)
}

func (w *p19World) compare(kind string, got, want map[string]string) {
	var keys []string
	for k := range want {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		if got[k] != want[k] {
			w.Fail("%s: %s is %s, the configuration says %s", kind, k, got[k], want[k])
		}
	}
}

// producer is the same for a producer.
func (w *p19World) producer(kind, topic string, config any, c healer.ProducerConfig, long, dial bool) {
	cl := w.cl
	if cl.Topics[topic] == nil {
		cl.AddTopic(topic, 1)
	}
	got, want := map[string]string{}, map[string]string{}
	cmp := func(what string, g, e any) { got[what], want[what] = fmt.Sprint(g), fmt.Sprint(e) }
	var add func(k, v []byte) error
	create := func() error {
		if kind == "simple producer" {
			p, err := healer.NewSimpleProducer(context.Background(), topic, 0, config)
			if err == nil {
				add = p.AddMessage
			}
			return err
		}
		p, err := healer.NewProducer(topic, config)
		if err == nil {
			add = p.AddMessage
		}
		return err
	}
	cid := c.ClientID
	timeout := func(key int) time.Duration {
		if l := c.Net.TimeoutMSForEachAPI; key < len(l) && l[key] > 0 {
			return durMS(l[key])
		}
		return durMS(c.Net.TimeoutMS)
	}
	if dial {
		d, ok := w.firstDial(create)
		if !ok {
			w.Fail("%s: creating it succeeds although no connection can be made", kind)
			return
		}
		cmp("connect timeout", d, durMS(c.Net.ConnectTimeoutMS))
	}
	if kind == "producer" {
		s := &shot{f: errFaults(5)[0]}
		w.shot[cid+"/Metadata"] = s
		defer func() { delete(w.shot, cid+"/Metadata") }()
	}
	if err := create(); err != nil {
		w.Fail("%s: creating it fails: %v", kind, err)
		return
	}
	if s := w.shot[cid+"/Metadata"]; s != nil {
		if s.call == nil || s.next == nil {
			cmp("retry.backoff.ms", "no other request", "")
		} else {
			b := durMS(c.RetryBackOffMS)
			cmp("retry.backoff.ms", about(s.next.At-s.call.At, b, 50*ms), b)
		}
	}
	t0 := vrt.NowD()
	win := 12 * time.Second
	if long {
		win = 650 * time.Second
	}
	vrt.Sleep(win)
	if kind == "producer" {
		age := durMS(c.MetadataMaxAgeMS)
		// a refresh is one request for the topic and one to find the leader
		exp := fmt.Sprint(age)
		if 2*age > win {
			exp = "never"
		}
		var at []time.Duration
		for _, k := range w.of(cid, "Metadata") {
			if k.At > t0 && (len(at) == 0 || k.At > at[len(at)-1]) {
				at = append(at, k.At)
			}
		}
		g := "never"
		if len(at) > 1 {
			g = fmt.Sprint(at[1] - at[0])
		}
		cmp("metadata.max.age.ms", g, exp)
	}
	// a full batch, and one that waits for the flush interval
	base := len(w.of(cid, "Produce"))
	full := c.MessageMaxCount
	t1 := vrt.NowD()
	for i := 0; i < full; i++ {
		if err := add([]byte("k"), []byte{byte(i)}); err != nil {
			w.Fail("%s: AddMessage: %v", kind, err)
			return
		}
	}
	pr := w.of(cid, "Produce")
	if len(pr) != base+1 || pr[base].At-t1 > durMS(c.FlushIntervalMS) {
		cmp("message.max.count", fmt.Sprintf("%d batches after %d messages", len(pr)-base, full), "one batch")
	} else {
		k := pr[base]
		cmp("acks", k.Req.Body["acks"], c.Acks)
		cmp("request.timeout.ms", k.Req.Body["timeout_ms"], c.RequestTimeoutMS)
		cmp("messages of a full batch", prodCount(cl.Part(topic, 0)), full)
		cmp("compress.type", prodCodec(cl.Part(topic, 0)), c.CompressionType)
	}
	if full > 1 {
		vrt.Sleep(7 * time.Second)
		base = len(w.of(cid, "Produce"))
		t1 = vrt.NowD()
		add([]byte("k"), []byte("v"))
		vrt.WaitUntil("flush", time.Minute, func() bool { return len(w.of(cid, "Produce")) > base })
		if pr = w.of(cid, "Produce"); len(pr) == base {
			cmp("flush.interval.ms", "not flushed", durMS(c.FlushIntervalMS))
		} else {
			// the next flush comes exactly one interval later
			d1 := pr[base].At
			add([]byte("k"), []byte("w"))
			vrt.WaitUntil("flush", time.Minute, func() bool { return len(w.of(cid, "Produce")) > base+1 })
			pr = w.of(cid, "Produce")
			cmp("first flush", yes(d1-t1 <= durMS(c.FlushIntervalMS), "within the interval", fmt.Sprint(d1-t1)), "within the interval")
			if len(pr) == base+1 {
				cmp("flush.interval.ms", "not flushed", durMS(c.FlushIntervalMS))
			} else {
				cmp("flush.interval.ms", pr[base+1].At-d1, durMS(c.FlushIntervalMS))
			}
		}
	}
	got["tls"], got["keepalive"] = w.connText(cid)
	want["tls"], want["keepalive"] = tlsText(c.TLSEnabled, c.TLS), fmt.Sprint(durMS(c.Net.KeepAliveMS))
	if c.Acks != 0 {
		s := &shot{f: fk("silent", kfake.Fault{Drop: true})}
		w.shot[cid+"/Produce"] = s
		vrt.GoNamed("add", func() {
			for i := 0; i < full; i++ {
				add([]byte("k"), []byte("z"))
			}
		})
		vrt.WaitUntil("produce", time.Minute, func() bool { return s.call != nil })
		if s.call == nil {
			cmp("timeout of Produce", "no request", timeout(0))
		} else {
			vrt.WaitUntil("closed", 5*time.Minute, func() bool { return s.call.Conn.C.IsClosed() })
			cmp("timeout of Produce", vrt.NowD()-s.call.At, timeout(0))
		}
	}
	w.compare(kind, got, want)
}

func prodCount(p *kfake.Part) int {
	if len(p.ProdReqs) == 0 {
		return 0
	}
	n := 0
	for _, b := range p.ProdReqs[0].Batches {
		n += len(b.Recs)
	}
	return n
}

func prodCodec(p *kfake.Part) string {
	if len(p.ProdReqs) == 0 {
		return "nothing produced"
	}
	return codecNames[p.ProdReqs[0].Batches[0].Attributes&7]
}

// the defaults
func consDefaults() healer.ConsumerConfig {
	c := healer.ConsumerConfig{}
	for _, o := range consOpts {
		if o.vals[0] != nil {
			o.set(&c, o.vals[0])
		}
	}
	return c
}

func prodDefaults() healer.ProducerConfig {
	c := healer.ProducerConfig{BatchSize: 16384, FetchTopicMetaDataRetrys: 3, ConnectionsMaxIdleMS: 540000, HealerMagicByte: 2}
	for _, o := range prodOpts {
		if o.vals[0] != nil {
			o.set(&c, o.vals[0])
		}
	}
	return c
}

// form picks the form of a configuration: the map, the map with text values, or the struct.
func consForm(cl *kfake.Cluster, form int, sets []setting) (config any, c healer.ConsumerConfig) {
	base := map[string]any{"bootstrap.servers": cl.Bootstrap()}
	c = consDefaults()
	c.BootstrapServers = cl.Bootstrap()
	s := healer.DefaultConsumerConfig()
	s.BootstrapServers = cl.Bootstrap()
	for _, x := range sets {
		consOpts[x.opt].set(&c, consOpts[x.opt].vals[x.val])
		consOpts[x.opt].set(&s, consOpts[x.opt].vals[x.val])
	}
	if form < 2 {
		return mapForm(consOpts, base, sets, form == 1), c
	}
	return s, c
}

func prodForm(cl *kfake.Cluster, form int, sets []setting) (config any, c healer.ProducerConfig) {
	base := map[string]any{"bootstrap.servers": cl.Bootstrap()}
	c = prodDefaults()
	c.BootstrapServers = cl.Bootstrap()
	s := healer.DefaultProducerConfig()
	s.BootstrapServers = cl.Bootstrap()
	for _, x := range sets {
		prodOpts[x.opt].set(&c, prodOpts[x.opt].vals[x.val])
		prodOpts[x.opt].set(&s, prodOpts[x.opt].vals[x.val])
	}
	if form < 2 {
		return mapForm(prodOpts, base, sets, form == 1), c
	}
	return s, c
}

// pick picks settings of n different options, in order.
func pick[C any](opts []copt[C], n int) (out []setting) {
	lo := 0
	for i := 0; i < n; i++ {
		if len(opts)-lo-(n-1-i) <= 0 {
			return out
		}
		o := lo + vrt.Input(len(opts)-lo-(n-1-i))
		out = append(out, setting{o, 1 + vrt.Input(len(opts[o].vals)-1)})
		lo = o + 1
	}
	return out
}

func optIndex(name string) int {
	for i, o := range consOpts {
		if o.name == name {
			return i
		}
	}
	return -1
}

// withGroup adds a group id unless the settings have one.
func withGroup(sets []setting) []setting {
	g := optIndex("group.id")
	for _, s := range sets {
		if s.opt == g {
			return sets
		}
	}
	return append(sets, setting{g, 1})
}

func init() {
	kinds := []string{"group", "simple", "consumer"}
	for n := 0; n <= 3; n++ {
		n := n
		reg(&Scenario{Prop: "P19", Name: fmt.Sprintf("consumer-%d", n), MaxSteps: 2000000, Horizon: 3 * time.Hour, Run: func(t *T) {
			if n == 3 && t.tier != "thorough" {
				t.Trivial()
				return
			}
			w := t.p19World()
			form := vrt.Input(3)
			kind := "group"
			if n < 2 || t.tier == "thorough" && n == 2 {
				kind = kinds[vrt.Input(3)]
			}
			sets := pick(consOpts, n)
			if kind == "group" {
				sets = withGroup(sets)
			}
			config, c := consForm(w.cl, form, sets)
			w.secure(c.Sasl, c.TLSEnabled)
			w.consumer(kind, "t", config, c, n < 2)
			t.CheckBad()
			t.Out("%s %v", kind, sets)
		}})
		reg(&Scenario{Prop: "P19", Name: fmt.Sprintf("producer-%d", n), MaxSteps: 2000000, Horizon: 3 * time.Hour, Run: func(t *T) {
			if n == 3 && t.tier != "thorough" {
				t.Trivial()
				return
			}
			w := t.p19World()
			form := vrt.Input(3)
			kind := "producer"
			if n < 2 || t.tier == "thorough" && n == 2 {
				kind = []string{"producer", "simple producer"}[vrt.Input(2)]
			}
			sets := pick(prodOpts, n)
			config, c := prodForm(w.cl, form, sets)
			w.secure(c.Sasl, c.TLSEnabled)
			w.producer(kind, "t", config, c, n < 2, n < 2)
			t.CheckBad()
			t.Out("%s %v", kind, sets)
		}})
	}

	reg(&Scenario{Prop: "P19", Name: "offsets-storage", MaxSteps: 2000000, Horizon: 3 * time.Hour, Run: func(t *T) {
		w := t.p19World()
		config, c := consForm(w.cl, vrt.Input(3), withGroup(nil))
		c.OffsetsStorage = 0
		switch x := config.(type) {
		case map[string]any:
			x["offsets.storage"] = 0
		case healer.ConsumerConfig:
			x.OffsetsStorage = 0
			config = x
		}
		w.consumer(kinds[vrt.Input(3)], "t", config, c, false)
	}})

	// the documented defaults
	reg(&Scenario{Prop: "P19", Name: "defaults", Run: func(t *T) {
		t.Cluster(1)
		t.checkDefaults()
	}})

	// several clients one after another
	reg(&Scenario{Prop: "P19", Name: "sequences", MaxSteps: 2000000, Horizon: 3 * time.Hour, Run: func(t *T) {
		w := t.p19World()
		k := 2
		if t.tier == "thorough" {
			k = 3
		}
		type job func()
		var jobs []job
		var checks []func()
		own := make([]int, 68) // shared by the clients
		own[12] = 1700
		var last healer.ConsumerConfig
		hasLast := false
		for i := 0; i < k; i++ {
			i := i
			topic, cid := fmt.Sprint("t", i), fmt.Sprint("cid", i)
			v := vrt.Input(7)
			sets := []setting{{optIndex("net/timeout.ms"), 1 + i%2}, {optIndex("session.timeout.ms"), 1 + i%2}, {optIndex("group.id"), 1}}
			switch {
			case v <= 1: // a consumer with options
				config, c := consForm(w.cl, 2*v, sets)
				jobs = append(jobs, w.consJob(topic, cid, config, c))
			case v <= 3: // one with nothing but the group
				config, c := consForm(w.cl, 2*(v-2), sets[2:])
				jobs = append(jobs, w.consJob(topic, cid, config, c))
			case v == 4: // a struct with the caller's own list
				config, c := consForm(w.cl, 2, sets)
				s := config.(healer.ConsumerConfig)
				s.Net.TimeoutMSForEachAPI = own
				c.Net.TimeoutMSForEachAPI = append([]int(nil), own...)
				jobs = append(jobs, w.consJob(topic, cid, s, c))
			case v == 5: // the struct of the client before, changed
				if !hasLast {
					t.Trivial()
					return
				}
				s := last
				s.Net.TimeoutMS = 9000
				s.SessionTimeoutMS = 14000
				c := consDefaults()
				c.BootstrapServers, c.GroupID, c.Net.TimeoutMS, c.SessionTimeoutMS = s.BootstrapServers, s.GroupID, 9000, 14000
				jobs = append(jobs, w.consJob(topic, cid, s, c))
			case v == 6:
				config, c := prodForm(w.cl, 0, []setting{{1, 1}, {7, 2}})
				config.(map[string]any)["client.id"] = cid
				c.ClientID = cid
				jobs = append(jobs, func() { w.producer("producer", topic, config, c, false, false) })
			}
			if v == 3 {
				config, _ := consForm(w.cl, 2, sets[2:])
				last, hasLast = config.(healer.ConsumerConfig), true
			}
		}
		done := 0
		for i, j := range jobs {
			j := j
			vrt.GoNamed(fmt.Sprint("client", i), func() { j(); done++ })
			vrt.Sleep(100 * ms)
		}
		if !vrt.WaitUntil("clients", 2*time.Hour, func() bool { return done == len(jobs) }) {
			t.Fail("a client does not get through its life")
		}
		for i, n := range own {
			if n != 0 && i != 12 || i == 12 && n != 1700 {
				t.Fail("the caller's own list of timeouts was changed: %v", own)
				break
			}
		}
		for _, f := range checks {
			f()
		}
		t.checkDefaults()
		t.CheckBad()
	}})

	t19invalid()
}

func (w *p19World) consJob(topic, cid string, config any, c healer.ConsumerConfig) func() {
	switch x := config.(type) {
	case map[string]any:
		x["client.id"], x["group.id"] = cid, cid
	case healer.ConsumerConfig:
		x.ClientID, x.GroupID = cid, cid
		config = x
	}
	c.ClientID, c.GroupID = cid, cid
	return func() { w.consumer("group", topic, config, c, false) }
}

func (t *T) checkDefaults() {
	cc, pc := healer.DefaultConsumerConfig(), healer.DefaultProducerConfig()
	cc.Net.TimeoutMSForEachAPI, pc.Net.TimeoutMSForEachAPI = nil, nil
	wc, wp := consDefaults(), prodDefaults()
	wc.Net.TimeoutMSForEachAPI, wp.Net.TimeoutMSForEachAPI = nil, nil
	if !reflect.DeepEqual(cc, wc) {
		t.Fail("DefaultConsumerConfig is %+v, want %+v", cc, wc)
	}
	if !reflect.DeepEqual(pc, wp) {
		t.Fail("DefaultProducerConfig is %+v, want %+v", pc, wp)
	}
}

func t19invalid() {
	type set map[string]any
	// every entry must be refused by the constructors
	consBad := []set{
		{"bootstrap.servers": ""}, {"group.id": ""}, {"offsets.storage": 2}, {"offsets.storage": -1},
		{"session.timeout.ms": 0}, {"session.timeout.ms": -5}, {"metadata.max.age.ms": 0}, {"metadata.max.age.ms": -1},
		{"auto.commit.interval.ms": 0}, {"auto.commit.interval.ms": -1},
		{"fetch.max.wait.ms": "abc"}, {"net": "abc"}, {"net": map[string]any{"timeout.ms": "x"}}, {"tls": 5}, {"auto.commit": "perhaps"},
	}
	prodBad := []set{
		{"bootstrap.servers": ""}, {"compress.type": ""}, {"compress.type": "zstd"}, {"compress.type": "GZIP"},
		{"message.max.count": 0}, {"message.max.count": -3}, {"flush.interval.ms": 0}, {"flush.interval.ms": -1},
		{"metadata.max.age.ms": 0}, {"metadata.max.age.ms": -1},
		{"acks": "all"}, {"net": 7}, {"net": map[string]any{"connect.timeout.ms": "x"}},
	}
	refuse := func(t *T, what string, create func() error) {
		var err error
		if !call(what, time.Hour, func() { err = create() }) {
			t.Fail("%s: does not return", what)
			return
		}
		if err == nil {
			t.Fail("%s: accepted", what)
		}
		vrt.Sleep(10 * time.Second) // nothing may crash later
		t.Out("%s", what)
	}
	reg(&Scenario{Prop: "P19", Name: "invalid-consumer", Horizon: 3 * time.Hour, Run: func(t *T) {
		cl := t.Cluster(1)
		cl.AddTopic("t", 1).Parts[0].AddRecs("a")
		bad := consBad[vrt.Input(len(consBad))]
		kind := []string{"group", "simple", "consumer"}[vrt.Input(3)]
		form := vrt.Input(2)
		m := map[string]any{"bootstrap.servers": cl.Bootstrap(), "group.id": "g"}
		s := healer.DefaultConsumerConfig()
		s.BootstrapServers, s.GroupID = cl.Bootstrap(), "g"
		name := ""
		for k, v := range bad {
			m[k] = v
			name = fmt.Sprintf("%s=%v", k, v)
			i := optIndex(k)
			_, text := v.(string)
			switch {
			case form == 0:
			case k == "bootstrap.servers":
				s.BootstrapServers = ""
			case i < 0 || k == "tls" || k != "group.id" && text:
				t.Trivial() // not possible as a struct
				return
			default:
				consOpts[i].set(&s, v)
			}
			if kind != "group" && (k == "group.id" || k == "session.timeout.ms" || k == "metadata.max.age.ms") {
				t.Trivial() // not used
				return
			}
		}
		var config any = m
		if form == 1 {
			config = s
		}
		refuse(t, fmt.Sprintf("%s %d %s", kind, form, name), func() error {
			switch kind {
			case "group":
				g, err := healer.NewGroupConsumer("t", config)
				if err == nil {
					_, err = g.Consume(nil)
				}
				return err
			case "simple":
				c, err := healer.NewSimpleConsumer("t", 0, config)
				if err == nil {
					_, err = c.Consume(-1, nil)
				}
				return err
			}
			c, err := healer.NewConsumer(config, "t")
			if err == nil {
				_, err = c.Consume(nil)
			}
			return err
		})
	}})
	reg(&Scenario{Prop: "P19", Name: "invalid-producer", Horizon: 3 * time.Hour, Run: func(t *T) {
		cl := t.Cluster(1)
		cl.AddTopic("t", 1)
		bad := prodBad[vrt.Input(len(prodBad))]
		simple := vrt.Input(2) == 1
		form := vrt.Input(2)
		m := map[string]any{"bootstrap.servers": cl.Bootstrap()}
		s := healer.DefaultProducerConfig()
		s.BootstrapServers = cl.Bootstrap()
		name := ""
		for k, v := range bad {
			m[k] = v
			name = fmt.Sprintf("%s=%v", k, v)
			if form == 1 {
				_, text := v.(string)
				ok := false
				if k == "bootstrap.servers" {
					s.BootstrapServers, ok = "", true
				}
				for _, o := range prodOpts {
					if o.name == k && (!text || k == "compress.type") {
						o.set(&s, v)
						ok = true
					}
				}
				if !ok {
					t.Trivial()
					return
				}
			}
			if simple && k == "metadata.max.age.ms" {
				t.Trivial()
				return
			}
		}
		var config any = m
		if form == 1 {
			config = s
		}
		refuse(t, fmt.Sprintf("%v %d %s", simple, form, name), func() error {
			if simple {
				_, err := healer.NewSimpleProducer(context.Background(), "t", 0, config)
				return err
			}
			_, err := healer.NewProducer("t", config)
			return err
		})
	}})
	reg(&Scenario{Prop: "P19", Name: "wrong-type", Horizon: 3 * time.Hour, Run: func(t *T) {
		cl := t.Cluster(1)
		cl.AddTopic("t", 1)
		cc := healer.DefaultConsumerConfig()
		cc.BootstrapServers, cc.GroupID = cl.Bootstrap(), "g"
		pc := healer.DefaultProducerConfig()
		pc.BootstrapServers = cl.Bootstrap()
		cfgs := []any{nil, 5, "b1:9091", []string{"b1:9091"}, map[string]string{"bootstrap.servers": "b1:9091", "group.id": "g"}, &cc, &pc, cc, pc, healer.ConsumerConfig{}, healer.ProducerConfig{}, map[string]any{}, map[string]any(nil)}
		config := cfgs[vrt.Input(len(cfgs))]
		kind := vrt.Input(5)
		if _, ok := config.(healer.ConsumerConfig); ok && kind < 3 && config.(healer.ConsumerConfig).BootstrapServers != "" {
			t.Trivial()
			return
		}
		if _, ok := config.(healer.ProducerConfig); ok && kind >= 3 && config.(healer.ProducerConfig).BootstrapServers != "" {
			t.Trivial()
			return
		}
		refuse(t, fmt.Sprintf("%d %T", kind, config), func() (err error) {
			switch kind {
			case 0:
				_, err = healer.NewGroupConsumer("t", config)
			case 1:
				_, err = healer.NewSimpleConsumer("t", 0, config)
			case 2:
				_, err = healer.NewConsumer(config, "t")
			case 3:
				_, err = healer.NewProducer("t", config)
			case 4:
				_, err = healer.NewSimpleProducer(context.Background(), "t", 0, config)
			}
			return err
		})
	}})
}
