package main

import (
	"bytes"
	"crypto/tls"
	"crypto/x509"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"time"

	"github.com/childe/healer"
	"github.com/childe/healer/kfake"
	"github.com/childe/healer/vrt"
)

func pem(name string) string {
	e, _ := os.Executable()
	return filepath.Join(filepath.Dir(e), "..", "mc", "tls", name+".pem")
}

func tlsCfg() *healer.TLSConfig {
	return &healer.TLSConfig{Cert: pem("cert"), Key: pem("key"), CA: pem("ca"), ServerName: "kafka.example"}
}

// security configures the cluster and the client; tls and sasl are on or off.
func security(cl *kfake.Cluster, sasl, tls bool) (s healer.SaslConfig, on bool, tc *healer.TLSConfig) {
	if sasl {
		cl.SASL = &kfake.SASL{Mechanism: "PLAIN", User: "alice", Password: "se\xc3\xa9cret pw"}
		s = healer.SaslConfig{Mechanism: "PLAIN", User: "alice", Password: "se\xc3\xa9cret pw"}
	}
	if tls {
		cl.WantTLS = true
		on, tc = true, tlsCfg()
	}
	return
}

// setupFaults are the faults of the connection setup requests.
func setupFaults(c *kfake.Call) []*kfake.Fault {
	o := []*kfake.Fault{
		fk("eof", kfake.Fault{Hang: io.EOF}),
		fk("reset", kfake.Fault{Hang: syscallReset}),
		fk("silent", kfake.Fault{Drop: true}),
		fk("part3-silent", kfake.Fault{Partial: 3}),
		fk("part9-eof", kfake.Fault{Partial: 9, Hang: io.EOF}),
		fk("cut-silent", kfake.Fault{Partial: -1}),
	}
	switch c.Name() {
	case "ApiVersions":
		return append(o, errFaults(35, -1)...)
	case "SaslHandshake":
		return append(o, errFaults(33, 34)...)
	case "SaslAuthenticate":
		return append(o, errFaults(58, 31)...)
	}
	return o
}

// checkConns checks every connection the client made: the setup order is
// checked by the broker itself; here: nothing follows a failed request on the
// same connection, a connection that failed is closed, tls is as configured.
func (t *T) checkConns(allClosed bool) {
	cl := t.Cl
	failed := map[*kfake.SConn]*kfake.Call{}
	for _, c := range cl.Calls {
		if f := failed[c.Conn]; f != nil {
			t.Fail("%s was sent on a connection on which %s (%s) had failed", c.Name(), f.Name(), f.Fault)
		}
		switch c.Name() {
		case "ApiVersions", "SaslHandshake", "SaslAuthenticate":
			if c.Fault != "" && c.Fault != "slow" || !c.Done || kfake.Num(c.Body["error_code"]) != 0 {
				failed[c.Conn] = c
			}
		}
	}
	for _, s := range cl.AllConns {
		if f := failed[s]; f != nil && !s.C.IsClosed() {
			t.Fail("the connection on which %s (%s) failed is not closed", f.Name(), f.Fault)
		}
		if allClosed && !s.C.IsClosed() {
			t.Fail("a connection is left open")
		}
		if cl.WantTLS {
			c := s.C.TLS
			if c == nil {
				t.Fail("tls is configured and a connection is made without it")
			} else if c.RootCAs == nil || len(c.Certificates) != 1 || c.InsecureSkipVerify || c.ServerName != "kafka.example" {
				t.Fail("the tls configuration is not the given one")
			}
		} else if s.C.TLS != nil {
			t.Fail("tls is not configured and a connection uses it")
		}
	}
}

func init() {
	// one broker: create, request, lose the connection, request again
	run := func(nUsers int, close bool) func(t *T) {
		return func(t *T) {
			mode := vrt.Input(4)
			cl := probeCluster(t, 1)
			cfg := healer.DefaultBrokerConfig()
			cfg.Net.TimeoutMS = 2000
			cfg.Net.ConnectTimeoutMS = 2000
			cfg.Sasl, cfg.TLSEnabled, cfg.TLS = security(cl, mode&1 != 0, mode&2 != 0)
			on := true
			t.Faults(func(c *kfake.Call) []*kfake.Fault {
				if !on {
					return nil
				}
				switch c.Name() {
				case "ApiVersions", "SaslHandshake", "SaslAuthenticate":
					return setupFaults(c)
				}
				return []*kfake.Fault{fk("eof", kfake.Fault{Hang: io.EOF}), fk("silent", kfake.Fault{Drop: true}), fk("answer-eof", kfake.Fault{Mutate: func(c *kfake.Call) {
					s := c.Conn
					vrt.AfterFn(time.Millisecond, func() { s.Hang(io.EOF) })
				}})}
			})
			t.DialFaults(func() bool { return on })
			t.WriteFaults(func() bool { return on })
			var b *healer.Broker
			for i := 0; i < 4 && b == nil; i++ {
				nf := t.nf
				var err error
				b, err = healer.NewBroker("b1:9091", 1, cfg)
				if (err != nil) != (b == nil) {
					t.Fail("NewBroker returns %v and error %v", b != nil, err)
					return
				}
				if t.nf == nf && err != nil {
					t.Fail("NewBroker failed without any fault: %v", err)
					return
				}
				if t.nf > nf && err == nil {
					t.Fail("NewBroker reports success although the connection setup failed")
				}
				t.checkConns(b == nil)
			}
			if b == nil {
				t.Fail("NewBroker keeps failing")
				return
			}
			done := 0
			res := make([]string, nUsers)
			if close {
				vrt.GoNamed("closer", func() { t.nf += 100; b.Close() })
			}
			for u := 0; u < nUsers; u++ {
				u := u
				vrt.GoNamed(fmt.Sprintf("user%d", u), func() {
					defer func() { done++ }()
					for k := 0; k < 3; k++ {
						p := mkProbe(k, u)
						r, err := b.RequestAndGet(p.req)
						if err != nil {
							res[u] += "-"
							if t.nf == 0 {
								t.Fail("%s failed without any fault: %v", p.name, err)
							}
						} else {
							res[u] += "+"
							if w := p.want(r); w != "" {
								t.Fail("%s got %s", p.name, w)
							}
						}
						vrt.Sleep(10 * time.Millisecond)
					}
				})
			}
			if !vrt.WaitUntil("users", 5*time.Minute, func() bool { return done == nUsers }) {
				t.Fail("a request did not return")
				return
			}
			on = false
			ok := false
			for i := 0; i < 2 && !ok; i++ {
				_, err := b.RequestAndGet(mkProbe(0, 3).req)
				ok = err == nil
			}
			if !ok {
				t.Fail("the broker is not usable again after the faults are over")
			}
			t.checkConns(false)
			b.Close()
			for _, s := range cl.AllConns {
				if !s.C.IsClosed() {
					t.Fail("a connection is left open after Close")
				}
			}
			t.Out("mode=%d %v conns=%d calls=%d", mode, res, len(cl.AllConns), len(cl.Calls))
			t.CheckBad()
		}
	}
	reg(&Scenario{Prop: "P10", Name: "setup-and-reconnect", Quick: Bound{Dev: 2, Caps: map[byte]int{'S': 0}}, Thorough: Bound{Dev: 3, Caps: map[byte]int{'S': 0}}, Run: run(1, false)})
	reg(&Scenario{Prop: "P10", Name: "two-users", Quick: Bound{Dev: 2, Caps: map[byte]int{'S': 1}}, Thorough: Bound{Dev: 3, Caps: map[byte]int{'S': 1}}, Run: run(2, false)})
	reg(&Scenario{Prop: "P10", Name: "close-concurrently", Fine: true, Quick: Bound{Dev: 2, Caps: map[byte]int{'C': 1}}, Thorough: Bound{Dev: 3, Caps: map[byte]int{'C': 1}}, Run: run(1, true)})

	// wrong credentials, mechanisms and tls settings are refused
	reg(&Scenario{Prop: "P10", Name: "refused", Run: func(t *T) {
		cl := probeCluster(t, 1)
		cfg := healer.DefaultBrokerConfig()
		cfg.Net.TimeoutMS = 2000
		c := vrt.Input(10)
		cfg.Sasl, cfg.TLSEnabled, cfg.TLS = security(cl, true, c >= 6)
		want := "nothing but negotiation"
		switch c {
		case 0:
			cfg.Sasl.Password = "wrong"
		case 1:
			cfg.Sasl.User = ""
		case 2:
			cl.SASL.Mechanism = "SCRAM-SHA-256" // the broker does not offer PLAIN
		case 3:
			cfg.Sasl.Mechanism = "SCRAM-SHA-256" // the client does not implement it
			cl.SASL.Mechanism = "SCRAM-SHA-256"
		case 4:
			cfg.Sasl.Mechanism = "OAUTHBEARER"
		case 5:
			cfg.Sasl.User, cfg.Sasl.Password = cfg.Sasl.Password, cfg.Sasl.User
		case 6:
			cfg.TLS = nil
			want = "no connection"
		case 7:
			cfg.TLS.Cert = ""
			want = "no connection"
		case 8:
			cfg.TLS.Key = "/nonexistent"
			want = "no connection"
		case 9:
			cfg.TLS.CA = ""
			want = "no connection"
		}
		for i := 0; i < 2; i++ {
			b, err := healer.NewBroker("b1:9091", 1, cfg)
			if err == nil || b != nil {
				t.Fail("case %d: NewBroker does not report that the connection setup failed (%v)", c, err)
			}
		}
		bs, err := healer.NewBrokersWithConfig(cl.Bootstrap(), cfg)
		if err == nil || bs != nil {
			t.Fail("case %d: NewBrokersWithConfig does not report that the connection setup failed (%v)", c, err)
		}
		if want == "no connection" && len(cl.AllConns) > 0 {
			t.Fail("case %d: a connection was made although tls is not usable", c)
		}
		t.checkConns(true)
		for _, x := range cl.Calls {
			switch x.Name() {
			case "ApiVersions", "SaslHandshake", "SaslAuthenticate":
			default:
				t.Fail("case %d: %s sent", c, x.Name())
			}
		}
		t.Out("%d %d", c, len(cl.Calls))
		t.CheckBad()
	}})

	// the tls settings are those given, whichever are
	reg(&Scenario{Prop: "P10", Name: "tls-settings", Run: func(t *T) {
		cl := probeCluster(t, 1)
		cfg := healer.DefaultBrokerConfig()
		cfg.Sasl, cfg.TLSEnabled, cfg.TLS = security(cl, vrt.Input(2) == 1, true)
		cfg.TLS.InsecureSkipVerify = vrt.Input(2) == 1
		if vrt.Input(2) == 1 {
			cfg.TLS.ServerName = ""
		}
		if vrt.Input(2) == 1 { // another authority
			cfg.TLS.CA = pem("cert")
		}
		bs, err := healer.NewBrokersWithConfig(cl.Bootstrap(), cfg)
		if err != nil {
			t.Fail("%v", err)
			return
		}
		if _, err := bs.GetBroker(1); err != nil {
			t.Fail("%v", err)
		}
		bs.Close()
		ca, _ := os.ReadFile(cfg.TLS.CA)
		pool := x509.NewCertPool()
		pool.AppendCertsFromPEM(ca)
		kp, _ := tls.LoadX509KeyPair(cfg.TLS.Cert, cfg.TLS.Key)
		for _, s := range cl.AllConns {
			c := s.C.TLS
			if c == nil {
				t.Fail("tls is configured and a connection is made without it")
				continue
			}
			if c.InsecureSkipVerify != cfg.TLS.InsecureSkipVerify {
				t.Fail("the certificate of the broker is verified: %v, insecure.skip.verify is %v (server name %q)", !c.InsecureSkipVerify, cfg.TLS.InsecureSkipVerify, cfg.TLS.ServerName)
			}
			if c.ServerName != cfg.TLS.ServerName && !(cfg.TLS.ServerName == "" && c.ServerName == "b1") {
				t.Fail("server name %q, configured %q", c.ServerName, cfg.TLS.ServerName)
			}
			if !c.RootCAs.Equal(pool) {
				t.Fail("the broker is not verified with the configured authority")
			}
			if len(c.Certificates) != 1 || !bytes.Equal(c.Certificates[0].Certificate[0], kp.Certificate[0]) {
				t.Fail("the client does not show the configured certificate")
			}
		}
		t.Out("%d connections %v %s", len(cl.AllConns), cfg.TLS.InsecureSkipVerify, cfg.TLS.ServerName)
		t.CheckBad()
	}})

	// tls settings are given and tls is not enabled
	reg(&Scenario{Prop: "P10", Name: "tls-off", Run: func(t *T) {
		cl := probeCluster(t, 1)
		cfg := healer.DefaultBrokerConfig()
		cfg.Sasl, _, cfg.TLS = security(cl, vrt.Input(2) == 1, true)
		cfg.TLSEnabled, cl.WantTLS = false, false
		bs, err := healer.NewBrokersWithConfig(cl.Bootstrap(), cfg)
		if err != nil {
			t.Fail("%v", err)
			return
		}
		bs.Close()
		for _, s := range cl.AllConns {
			if s.C.TLS != nil {
				t.Fail("tls is not enabled and a connection is made with it")
			}
		}
		t.CheckBad()
	}})

	// the whole client: producer and consumer over sasl and tls, the connections of the cluster are lost on the way
	reg(&Scenario{Prop: "P10", Name: "clients", Quick: Bound{Dev: 2, Caps: map[byte]int{'S': 0}}, Thorough: Bound{Dev: 3, Caps: map[byte]int{'S': 0}}, Horizon: 2 * time.Hour, Run: func(t *T) {
		mode := vrt.Input(4)
		cl := t.Cluster(2)
		p := cl.AddTopic("t", 2).Parts[0]
		p.AddRecs("a")
		on := false
		t.Faults(func(c *kfake.Call) []*kfake.Fault {
			if !on {
				return nil
			}
			switch c.Name() {
			case "ApiVersions", "SaslHandshake", "SaslAuthenticate":
				return setupFaults(c)
			}
			return []*kfake.Fault{fk("eof", kfake.Fault{Skip: true, Hang: io.EOF})}
		})
		t.DialFaults(func() bool { return on })
		cfg := consCfg(cl)
		cfg.GroupID = "g"
		cfg.FromBeginning = true
		cfg.Sasl, cfg.TLSEnabled, cfg.TLS = security(cl, mode&1 != 0, mode&2 != 0)
		c := startConsumer(t, "t", 0, cfg)
		if c == nil {
			return
		}
		on = true
		ch, err := c.Consume(-2, nil)
		for i := 0; err != nil && i < 3; i++ {
			if t.nf == 0 {
				t.Fail("Consume: %v", err)
			}
			ch, err = c.Consume(-2, nil)
		}
		if err != nil {
			t.Fail("Consume keeps failing: %v", err)
			return
		}
		got := drain(ch, 1, 100*time.Second)
		pc := prodCfg(cl)
		pc.Sasl, pc.TLSEnabled, pc.TLS = cfg.Sasl, cfg.TLSEnabled, cfg.TLS
		pc.MessageMaxCount = 1
		var pr *healer.Producer
		call("producer", 10*time.Minute, func() {
			for i := 0; i < 4 && pr == nil; i++ {
				pr, err = healer.NewProducer("t", pc)
			}
		})
		if pr == nil {
			t.Fail("NewProducer keeps failing")
			return
		}
		sent := false
		call("add", 5*time.Minute, func() {
			for i := 0; i < 4 && !sent; i++ {
				sent = pr.AddMessage(nil, []byte("b")) == nil
			}
		})
		if !sent {
			t.Fail("AddMessage keeps failing")
		}
		got = append(got, drain(ch, 1, 100*time.Second)...)
		on = false
		if len(got) != 2 {
			t.Fail("only %d of 2 records consumed", len(got))
		}
		t.checkConns(false)
		t.Out("mode=%d %s conns=%d", mode, offs(got), len(cl.AllConns))
		t.CheckBad()
	}})
}
