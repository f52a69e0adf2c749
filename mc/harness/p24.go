//go:build cli

package main

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"net/url"
	"sort"
	"strings"
	"time"

	"github.com/childe/healer"
	"github.com/childe/healer/kfake"
	"github.com/childe/healer/kref"
	"github.com/childe/healer/vrt"
	"github.com/gin-gonic/gin"
)

func init() {
	gin.SetMode(gin.ReleaseMode)
	gin.DefaultWriter = io.Discard
	gin.DefaultErrorWriter = io.Discard
}

// front is one way to ask for an operation from outside: over HTTP or with a command.
type front struct {
	name string
	// http
	method, path, body string
	// command line
	args []string
	// what it means
	api  string
	want func(cl *kfake.Cluster) []wantReq
	res  func(t *T, out []byte, calls []*kfake.Call)
	// bad: it must be refused without asking a broker to do anything
	bad bool
}

// asJSON compares the JSON output with the broker's answer.
func asJSON[R any](t *T, out []byte, calls []*kfake.Call) {
	var r R
	if err := json.Unmarshal(out, &r); err != nil {
		t.Fail("the output is not the answer: %v in %.300s", err, out)
		return
	}
	single(t, any(r), calls)
}

func one(body M) func(cl *kfake.Cluster) []wantReq {
	return func(cl *kfake.Cluster) []wantReq { return []wantReq{{cl.Controller, body}} }
}

func adm(name string, shape int) func(cl *kfake.Cluster) []wantReq {
	for _, a := range adminCalls {
		if a.name == name {
			return func(cl *kfake.Cluster) []wantReq { return a.want(cl, shape) }
		}
	}
	panic(name)
}

func admRes[R any](name string) func(t *T, out []byte, calls []*kfake.Call) {
	for _, a := range adminCalls {
		if a.name == name {
			return func(t *T, out []byte, calls []*kfake.Call) {
				var r R
				if err := json.Unmarshal(out, &r); err != nil {
					t.Fail("the output is not the answer: %v in %.300s", err, out)
					return
				}
				a.res(t, r, calls)
			}
		}
	}
	panic(name)
}

func none(t *T, out []byte, calls []*kfake.Call) {}

func groupsOut(t *T, out []byte, calls []*kfake.Call) {
	var gs []*healer.GroupDetail
	if err := json.Unmarshal(out, &gs); err != nil {
		t.Fail("the output is not the answer: %v in %.300s", err, out)
		return
	}
	show := func(as map[string]A) string {
		for _, v := range as {
			sort.Slice(v, func(i, j int) bool { return num(v[i]) < num(v[j]) })
		}
		return fmt.Sprint(as)
	}
	var g, w []string
	for _, x := range gs {
		g = append(g, fmt.Sprintf("%d %s %s %s %s", x.ErrorCode, x.GroupID, x.State, x.ProtocolType, x.Protocol))
		for _, m := range x.Members {
			as := map[string]A{}
			if m.MemberAssignment != nil {
				for _, p := range m.MemberAssignment.PartitionAssignments {
					for _, q := range p.Partitions {
						as[p.Topic] = append(as[p.Topic], q)
					}
				}
			}
			g = append(g, fmt.Sprintf("%s %s %s %x %s", m.MemberID, m.ClientID, m.ClientHost, m.MemberMetadata, show(as)))
		}
	}
	for _, c := range calls {
		for _, x := range aval(c.Body["groups"]) {
			x := x.(M)
			w = append(w, fmt.Sprintf("%d %s %s %s %s", num(x["error_code"]), x["group_id"], x["group_state"], x["protocol_type"], x["protocol_data"]))
			for _, m := range aval(x["members"]) {
				m := m.(M)
				as := map[string]A{}
				if b := m["member_assignment"].([]byte); len(b) > 0 {
					v, err := kref.DecodeStruct(kref.AssignmentSchema, b, true)
					if err != nil {
						panic(err)
					}
					for _, tp := range aval(v["topics"]) {
						as[sval(tp.(M)["topic"])] = append(A{}, aval(tp.(M)["partitions"])...)
					}
				}
				w = append(w, fmt.Sprintf("%s %s %s %x %s", m["member_id"], m["client_id"], m["client_host"], m["member_metadata"], show(as)))
			}
		}
	}
	if fmt.Sprint(g) != fmt.Sprint(w) {
		t.Fail("the group is described as %v, the broker answered %v", g, w)
	}
}

func aclJSON(s int) string {
	var b []byte
	rt, n, pt, pr, h, op, pe, _ := aclFilter(s)
	q := func(v *string) string {
		if v == nil {
			return "null"
		}
		return fmt.Sprintf("%q", *v)
	}
	b = fmt.Appendf(b, `{"ResourceType":%q,"ResourceName":%s,"PatternType":%q,"Principal":%s,"Host":%s,"Operation":%q,"PermissionType":%q}`,
		aclRT[int8(rt)], q(n), aclPT[int8(pt)], q(pr), q(h), aclOp[int8(op)], aclPerm[int8(pe)])
	return string(b)
}

func aclCreationJSON(s int) string {
	c, _ := aclCreation(s)
	return fmt.Sprintf(`{"ResourceType":%q,"ResourceName":%q,"PatternType":%q,"Principal":%q,"Host":%q,"Operation":%q,"PermissionType":%q}`,
		aclRT[int8(c.ResourceType)], c.ResourceName, aclPT[int8(c.PatternType)], c.Principal, c.Host, aclOp[int8(c.Operation)], aclPerm[int8(c.PermissionType)])
}

// names of the Kafka protocol's enumerations
var (
	aclRT   = map[int8]string{0: "UNKNOWN", 1: "any", 2: "topic", 3: "GROUP", 4: "cluster", 5: "transactional_id", 6: "delegation_token", 7: "USER"}
	aclPT   = map[int8]string{0: "unknown", 1: "ANY", 2: "match", 3: "literal", 4: "PREFIXED"}
	aclOp   = map[int8]string{0: "UNKNOWN", 1: "any", 2: "all", 3: "READ", 4: "write", 5: "create", 6: "delete", 7: "alter", 8: "describe", 9: "cluster_action", 10: "DESCRIBE_CONFIGS", 11: "alter_configs", 12: "idempotent_write"}
	aclPerm = map[int8]string{0: "unknown", 1: "any", 2: "deny", 3: "ALLOW"}
)

func cfgWant(node int32, ty int, name string, keys any) func(cl *kfake.Cluster) []wantReq {
	return func(cl *kfake.Cluster) []wantReq {
		n := node
		if n == 0 {
			n = cl.Controller
		}
		return []wantReq{{n, M{"resources": A{M{"resource_type": ty, "resource_name": name, "configuration_keys": keys}}}}}
	}
}

func alterWant(ty int, name, key, value string) func(cl *kfake.Cluster) []wantReq {
	return one(M{"resources": A{M{"resource_type": ty, "resource_name": name, "configs": A{M{"name": key, "config_operation": 0, "value": value}}}}, "validate_only": false})
}

func groupWant(g string) func(cl *kfake.Cluster) []wantReq {
	return func(cl *kfake.Cluster) []wantReq { return []wantReq{{cl.Coord(g), M{"groups": A{g}}}} }
}

func cpWant(topic string, count, timeout int, validate bool, assign any) func(cl *kfake.Cluster) []wantReq {
	return one(M{"topics": A{M{"name": topic, "count": count, "assignments": assign}}, "timeout_ms": timeout, "validate_only": validate})
}

func httpFronts() []*front {
	fs := []*front{
		{method: "GET", path: "/topic/t/logdirs", api: "DescribeLogDirs", want: adm("DescribeLogDirs", 0), res: admRes[map[int32]healer.DescribeLogDirsResponse]("DescribeLogDirs")},
		{method: "GET", path: "/topic/t/config/retention.ms", api: "DescribeConfigs", want: cfgWant(0, 2, "t", A{"retention.ms"}), res: asJSON[healer.DescribeConfigsResponse]},
		{method: "GET", path: "/topic/a%20b/config/x.y", api: "DescribeConfigs", want: cfgWant(0, 2, "a b", A{"x.y"}), res: asJSON[healer.DescribeConfigsResponse]},
		{method: "POST", path: "/topic/t/config/retention.ms/1000", api: "IncrementalAlterConfigs", want: alterWant(2, "t", "retention.ms", "1000"), res: asJSON[healer.IncrementalAlterConfigsResponse]},
		{method: "POST", path: "/topic/u/config/cleanup.policy/compact,delete", api: "IncrementalAlterConfigs", want: alterWant(2, "u", "cleanup.policy", "compact,delete"), res: asJSON[healer.IncrementalAlterConfigsResponse]},
		{method: "POST", path: "/topic/%20t/config/X%2B/%20a%20%2B%20", api: "IncrementalAlterConfigs", want: alterWant(2, " t", "X+", " a + "), res: asJSON[healer.IncrementalAlterConfigsResponse]},
		{method: "GET", path: "/configs/topic/t", api: "DescribeConfigs", want: cfgWant(0, 2, "t", nil), res: asJSON[healer.DescribeConfigsResponse]},
		{method: "GET", path: "/configs/broker/3", api: "DescribeConfigs", want: cfgWant(3, 4, "3", nil), res: asJSON[healer.DescribeConfigsResponse]},
		{method: "GET", path: "/groups", api: "ListGroups", want: adm("ListGroups", 0), res: admRes[map[int32][]*healer.Group]("ListGroups")},
		{method: "GET", path: "/group/g1", api: "DescribeGroups", want: groupWant("g1"), res: groupsOut},
		{method: "GET", path: "/group/g2", api: "DescribeGroups", want: groupWant("g2"), res: groupsOut},
		{method: "GET", path: "/group/unknown", api: "DescribeGroups", want: groupWant("unknown"), res: groupsOut},
		{method: "POST", path: "/alter-partition-reassignments?timeout=3000", body: `[{"topic":"t","partition":1,"replicas":[1,3]}]`, api: "AlterPartitionReassignments",
			want: one(M{"topics": A{M{"name": "t", "partitions": A{M{"partition_index": 1, "replicas": A{1, 3}}}}}, "timeout_ms": 3000}), res: asJSON[*healer.AlterPartitionReassignmentsResponse]},
		{method: "POST", path: "/alter-partition-reassignments?timeout=1", body: `[{"topic":"t","partition":1,"replicas":[1,3]},{"topic":"u","partition":0,"replicas":[2]},{"topic":"t","partition":0,"replicas":null}]`, api: "AlterPartitionReassignments",
			want: one(M{"topics": A{M{"name": "t", "partitions": A{M{"partition_index": 1, "replicas": A{1, 3}}, M{"partition_index": 0, "replicas": nil}}}, M{"name": "u", "partitions": A{M{"partition_index": 0, "replicas": A{2}}}}}, "timeout_ms": 1}), res: asJSON[*healer.AlterPartitionReassignmentsResponse]},
		{method: "POST", path: "/elect-leaders?timeout=3000", body: `[{"topic":"t","partition":1}]`, api: "ElectLeaders",
			want: one(M{"topic_partitions": A{M{"topic": "t", "partitions": A{1}}}, "timeout_ms": 3000}), res: asJSON[*healer.ElectLeadersResponse]},
		{method: "POST", path: "/elect-leaders?timeout=2000", body: `[{"topic":"t","partition":1},{"topic":"u","partition":0},{"topic":"t","partition":0}]`, api: "ElectLeaders",
			want: one(M{"topic_partitions": A{M{"topic": "t", "partitions": A{0, 1}}, M{"topic": "u", "partitions": A{0}}}, "timeout_ms": 2000}), res: asJSON[*healer.ElectLeadersResponse]},
		{method: "POST", path: "/list-partition-reassignments?timeout=4000", body: `[]`, api: "ListPartitionReassignments", want: adm("ListPartitionReassignments", 0), res: asJSON[*healer.ListPartitionReassignmentsResponse]},
		{method: "POST", path: "/list-partition-reassignments?timeout=4000", body: `[{"topic":"t","partition":0},{"topic":"u","partition":0},{"topic":"t","partition":1}]`, api: "ListPartitionReassignments", want: adm("ListPartitionReassignments", 1), res: asJSON[*healer.ListPartitionReassignmentsResponse]},
		{method: "POST", path: "/list-partition-reassignments", body: `[{"topic":"t","partition":1}]`, api: "ListPartitionReassignments",
			want: one(M{"timeout_ms": 30000, "topics": A{M{"name": "t", "partition_indexes": A{1}}}}), res: asJSON[*healer.ListPartitionReassignmentsResponse]},
		{method: "POST", path: "/create-partitions", body: `{"topic":"t","count":7,"timeout":2500}`, api: "CreatePartitions", want: cpWant("t", 7, 2500, false, nil), res: asJSON[healer.CreatePartitionsResponse]},
		{method: "POST", path: "/create-partitions", body: `{"topic":"u","count":100000,"timeout":1}`, api: "CreatePartitions", want: cpWant("u", 100000, 1, false, nil), res: asJSON[healer.CreatePartitionsResponse]},
		{method: "POST", path: "/describe-logdirs", body: `{"topics":["t"]}`, api: "DescribeLogDirs", want: adm("DescribeLogDirs", 0), res: admRes[map[int32]healer.DescribeLogDirsResponse]("DescribeLogDirs")},
		{method: "POST", path: "/describe-logdirs", body: `{"topics":["u","t"]}`, api: "DescribeLogDirs", want: adm("DescribeLogDirs", 2), res: admRes[map[int32]healer.DescribeLogDirsResponse]("DescribeLogDirs")},
		{method: "POST", path: "/create-acls", body: "[" + aclCreationJSON(0) + "]", api: "CreateAcls", want: adm("CreateAcls", 0), res: asJSON[*healer.CreateAclsResponse]},
		{method: "POST", path: "/create-acls", body: "[" + aclCreationJSON(0) + "," + aclCreationJSON(1) + "," + aclCreationJSON(2) + "]", api: "CreateAcls", want: adm("CreateAcls", 2), res: asJSON[*healer.CreateAclsResponse]},
		{method: "DELETE", path: "/delete-acls", body: "[" + aclJSON(0) + "]", api: "DeleteAcls", want: adm("DeleteAcls", 0), res: asJSON[*healer.DeleteAclsResponse]},
		{method: "DELETE", path: "/delete-acls", body: "[" + aclJSON(0) + "," + aclJSON(1) + "," + aclJSON(2) + "]", api: "DeleteAcls", want: adm("DeleteAcls", 2), res: asJSON[*healer.DeleteAclsResponse]},
	}
	for s := 0; s < 3; s++ {
		fs = append(fs, &front{method: "POST", path: "/describe-acls", body: aclJSON(s), api: "DescribeAcls", want: adm("DescribeAcls", s), res: asJSON[healer.DescribeAclsResponse]})
	}
	// what cannot be understood is refused
	bad := func(method, path string, bodies ...string) {
		for _, b := range bodies {
			fs = append(fs, &front{method: method, path: path, body: b, bad: true})
		}
	}
	bad("POST", "/alter-partition-reassignments", `[{"topic":"t","partition":1,"replicas":[1]}]`)
	bad("POST", "/alter-partition-reassignments?timeout=x", `[{"topic":"t","partition":1,"replicas":[1]}]`)
	bad("POST", "/alter-partition-reassignments?timeout=1000", "", "{", `{"topic":"t"}`, `[{"topic":1}]`, `[{"topic":"t","partition":"1","replicas":[1]}]`, `[{"topic":"t","partition":1,"replicas":[1`, `[{"topic":"t","partition":5000000000,"replicas":[1]}]`)
	bad("POST", "/elect-leaders", `[{"topic":"t","partition":1}]`)
	bad("POST", "/elect-leaders?timeout=1s", `[{"topic":"t","partition":1}]`)
	bad("POST", "/elect-leaders?timeout=1000", "", "{", `{"topic":"t"}`, `[{"topic":1}]`, `[{"topic":"t","partition":"1"}]`, `[{"topic":"t","partition":1`)
	bad("POST", "/list-partition-reassignments?timeout=1s", `[]`)
	bad("POST", "/list-partition-reassignments", `{`, `{"topic":"t"}`, `[{"topic":"t","partition":"1"}]`)
	bad("POST", "/create-partitions", ``, `{`, `[]`, `{"topic":"t","count":"7","timeout":2500}`, `{"topic":7,"count":7,"timeout":2500}`, `{"topic":"t","count":7,"timeout":"x"}`, `{"topic":"t","count":7000000000,"timeout":1}`)
	bad("POST", "/describe-logdirs", ``, `{`, `{"topics":"t"}`, `{"topics":[1]}`)
	bad("POST", "/describe-acls", ``, `{`, `[]`, `{"ResourceType":"bogus"}`, `{"Operation":"raed"}`, `{"PermissionType":"maybe"}`, `{"PatternType":"x"}`)
	bad("POST", "/create-acls", ``, `{`, `{}`, `[{"ResourceType":"bogus"}]`, `[{"Operation":"raed"}]`, `[{"PermissionType":"maybe"}]`, `[{"PatternType":"x"}]`)
	bad("DELETE", "/delete-acls", ``, `{`, `{}`, `[{"ResourceType":"bogus"}]`, `[{"Operation":"raed"}]`, `[{"PermissionType":"maybe"}]`, `[{"PatternType":"x"}]`)
	bad("GET", "/topic/t/offsets?timestamp=x", "")
	bad("GET", "/topic/t/offsets?timestamp=99999999999999999999", "")
	for _, f := range fs {
		f.name = f.method + " " + f.path + " " + f.body
	}
	return fs
}

// apiArgs sets all flags (they keep their values in this process otherwise).
func apiArgs(address string, port int, auth string, getAllowed, cors bool) []string {
	return []string{"api", "-b", "", "--client", "cid", "--address", address, "--port", fmt.Sprint(port), "--auth", auth, fmt.Sprintf("--get-allowed=%v", getAllowed), fmt.Sprintf("--cors=%v", cors)}
}

// withAPI starts the API server and runs f with its handler.
func withAPI(t *T, args []string, f func(h http.Handler, addr string) error) int {
	served := 0
	vrt.OnServe = func(h http.Handler, addr string) error {
		served++
		return f(h, addr)
	}
	code, _ := runCLI(args...)
	vrt.OnServe = nil
	if served > 1 {
		t.Fail("%d servers are started", served)
	}
	if served == 0 && code == 0 {
		t.Fail("no server is started, and no error is reported")
	}
	return code
}

// do sends one HTTP request.
func do(h http.Handler, method, path, body string, hdr map[string]string) *httptest.ResponseRecorder {
	r := httptest.NewRequest(method, path, bytes.NewReader([]byte(body)))
	if body != "" {
		r.Header.Set("Content-Type", "application/json")
	}
	for k, v := range hdr {
		r.Header.Set(k, v)
	}
	w := httptest.NewRecorder()
	h.ServeHTTP(w, r)
	return w
}

func boot(path, bootstrap string) string {
	sep := "?"
	if strings.Contains(path, "?") {
		sep = "&"
	}
	return path + sep + "bootstrap=" + url.QueryEscape(bootstrap)
}

func (f *front) judge(t *T, calls []*kfake.Call, out []byte, err error) {
	if f.bad {
		if err == nil {
			t.Fail("%s is accepted", f.name)
		}
		for _, c := range calls {
			switch c.Name() {
			case "ApiVersions", "Metadata", "FindCoordinator":
			default:
				t.Fail("%s cannot be understood, but a %s request is sent: %s", f.name, c.Name(), kref.Show(c.Req.Body))
			}
		}
		return
	}
	a := &adminCall{name: f.name, api: f.api, shapes: 1, want: func(cl *kfake.Cluster, _ int) []wantReq { return f.want(cl) },
		res: func(t *T, res any, calls []*kfake.Call) { f.res(t, res.([]byte), calls) }}
	t.checkAdmin(a, 0, calls, out, err)
	for _, c := range calls {
		if c.Name() == f.api && f.api != "AlterPartitionReassignments" && f.api != "ElectLeaders" && c.Req.ClientID != "cid" {
			t.Fail("%s: client id %v, want cid", f.name, c.Req.ClientID)
		}
	}
}

func httpErr(w *httptest.ResponseRecorder, bad bool) error {
	switch {
	case w.Code == 200:
		return nil
	case w.Code >= 500 || bad && w.Code >= 400:
		return fmt.Errorf("status %d: %s", w.Code, w.Body)
	}
	return nil
}

// frontWorld is adminWorld with a group that has members.
func frontWorld(t *T) *kfake.Cluster {
	cl := adminWorld(t)
	cliMembers(cl.Group("g1"), 2)
	return cl
}

func init() {
	caps := map[byte]int{'S': 0}
	fs := httpFronts()
	find := func(ok func(f *front) bool) (o []*front) {
		for _, f := range fs {
			if ok(f) {
				o = append(o, f)
			}
		}
		return
	}
	serve := func(t *T, f func(h http.Handler)) {
		code := withAPI(t, apiArgs("127.0.0.1", 8080, "", false, false), func(h http.Handler, addr string) error { f(h); return nil })
		if code != 0 {
			t.Fail("exit code %d", code)
		}
	}
	run := func(t *T, h http.Handler, f *front, bootstrap string) {
		n := len(t.Cl.Calls)
		var w *httptest.ResponseRecorder
		if !call(f.name, 30*time.Minute, func() { w = do(h, f.method, boot(f.path, bootstrap), f.body, nil) }) {
			t.Fail("%s gets no answer", f.name)
			return
		}
		if w.Code != 200 && w.Code < 400 {
			t.Fail("%s: status %d", f.name, w.Code)
		}
		f.judge(t, t.Cl.Calls[n:], w.Body.Bytes(), httpErr(w, f.bad))
		if f.bad && w.Code >= 500 && t.nf == 0 {
			t.Fail("%s: status %d for a request that cannot be understood", f.name, w.Code)
		}
	}
	good := find(func(f *front) bool { return !f.bad })
	badf := find(func(f *front) bool { return f.bad })
	// one request under every combination of faults
	reg(&Scenario{Prop: "P24", Name: "operations", Quick: Bound{Dev: 2, Caps: caps}, Thorough: Bound{Dev: 3, Caps: caps}, Horizon: 6 * time.Hour, Run: func(t *T) {
		f := good[vrt.Input(len(good))]
		cl := frontWorld(t)
		t.Sample = f.name
		serve(t, func(h http.Handler) {
			t.Faults(adminFaults)
			t.DialFaults(func() bool { return true })
			t.WriteFaults(func() bool { return true })
			run(t, h, f, cl.Bootstrap())
			cl.Decide, cl.DialHook, cl.WriteHook = nil, nil, nil
			t.nf = 0
			run(t, h, f, cl.Bootstrap())
		})
		t.CheckBad()
	}})
	reg(&Scenario{Prop: "P24", Name: "refused", Horizon: 6 * time.Hour, Run: func(t *T) {
		cl := frontWorld(t)
		i := vrt.Input(len(badf) + 3*len(good))
		if i >= len(badf) { // no cluster, or none there
			i -= len(badf)
			f, b := good[i/3], []string{"", "nowhere:1", "b1"}[i%3]
			t.Sample = fmt.Sprintf("%s with bootstrap %q", f.name, b)
			serve(t, func(h http.Handler) {
				w := do(h, f.method, boot(f.path, b), f.body, nil)
				if w.Code < 400 {
					t.Fail("%s: status %d %s", t.Sample, w.Code, w.Body)
				}
			})
			return
		}
		f := badf[i]
		t.Sample = f.name
		serve(t, func(h http.Handler) { run(t, h, f, cl.Bootstrap()) })
		t.CheckBad()
	}})
	// two requests at a time
	reg(&Scenario{Prop: "P24", Name: "concurrent", Quick: Bound{Dev: 1}, Thorough: Bound{Dev: 3}, Horizon: 6 * time.Hour, Run: func(t *T) {
		pick := []*front{good[0], good[1], good[7], good[8], good[11], good[18], good[22]}
		cl := frontWorld(t)
		i := vrt.Input(len(pick))
		j := vrt.Input(len(pick))
		if j <= i || pick[i].api == pick[j].api {
			t.Trivial()
			return
		}
		serve(t, func(h http.Handler) {
			fs := []*front{pick[i], pick[j]}
			ws := make([]*httptest.ResponseRecorder, 2)
			left := 2
			for k := range fs {
				k := k
				vrt.GoNamed(fs[k].name, func() {
					ws[k] = do(h, fs[k].method, boot(fs[k].path, cl.Bootstrap()), fs[k].body, nil)
					left--
				})
			}
			if !vrt.WaitUntil("answers", 30*time.Minute, func() bool { return left == 0 }) {
				t.Fail("no answer")
				return
			}
			for k, f := range fs {
				var cs []*kfake.Call
				for _, c := range cl.Calls {
					if c.Name() == f.api {
						cs = append(cs, c)
					}
				}
				f.judge(t, cs, ws[k].Body.Bytes(), httpErr(ws[k], false))
			}
		})
		t.CheckBad()
	}})
	// metadata, offsets and lag
	reg(&Scenario{Prop: "P24", Name: "metadata", Quick: Bound{Dev: 2, Caps: caps}, Thorough: Bound{Dev: 3, Caps: caps}, Horizon: 6 * time.Hour, Run: func(t *T) {
		cl := frontWorld(t)
		k := vrt.Input(5)
		path := []string{"/metadata", "/metadata?topics=t", "/metadata?topics=t&topics=u", "/metadata?topics=u", "/metadata?topics=unknown"}[k]
		topics := [][]string{{"t", "u"}, {"t"}, {"t", "u"}, {"u"}, {"unknown"}}[k]
		t.Sample = path
		serve(t, func(h http.Handler) {
			t.Faults(func(c *kfake.Call) []*kfake.Fault {
				if c.Name() == "ApiVersions" {
					return append(netFaults(), errFaults(35)...)
				}
				return append(netFaults(), errFaults(5, 29)...)
			})
			t.DialFaults(func() bool { return true })
			t.WriteFaults(func() bool { return true })
			var w *httptest.ResponseRecorder
			if !call(path, 30*time.Minute, func() { w = do(h, "GET", boot(path, cl.Bootstrap()), "", nil) }) {
				t.Fail("%s gets no answer", path)
				return
			}
			if w.Code != 200 {
				if w.Code < 500 {
					t.Fail("%s: status %d", path, w.Code)
				}
				if t.nf == 0 {
					t.Fail("%s: status %d %s", path, w.Code, w.Body)
				}
				t.Out("error")
				return
			}
			var r healer.MetadataResponse
			if err := json.Unmarshal(w.Body.Bytes(), &r); err != nil {
				t.Fail("%s: %v in %.300s", path, err, w.Body)
				return
			}
			// it is the answer to one of the requests, and tells the topics asked for
			ok := false
			for _, c := range cl.Calls {
				if c.Name() == "Metadata" && c.Done {
					if d, _ := cmpResponse(c.Req.API, c.Req.Ver, r, kref.Normalize(c.Req.API.Resp, c.Req.Ver, c.Body)); d == "" {
						ok = true
					}
				}
			}
			if !ok {
				t.Fail("%s: no broker answered %.400s", path, w.Body)
			}
			var got []string
			for _, m := range r.TopicMetadatas {
				got = append(got, m.TopicName)
			}
			sort.Strings(got)
			if fmt.Sprint(got) != fmt.Sprint(topics) {
				t.Fail("%s: topics %v, want %v", path, got, topics)
			}
			t.Out("ok")
		})
		t.CheckBad()
	}})
	cliFaults := func(t *T) {
		t.Faults(func(c *kfake.Call) []*kfake.Fault {
			fs := netFaults()
			switch c.Name() {
			case "Metadata":
				fs = append(fs, errFaults(3, 5)...)
			case "ListOffsets":
				fs = append(fs, errFaults(6, 3)...)
			case "FindCoordinator":
				fs = append(fs, errFaults(15)...)
			case "OffsetFetch":
				fs = append(fs, errFaults(16, 14)...)
			}
			return fs
		})
		t.DialFaults(func() bool { return true })
		t.WriteFaults(func() bool { return true })
	}
	reg(&Scenario{Prop: "P24", Name: "offsets", Quick: Bound{Dev: 2, Caps: caps}, Thorough: Bound{Dev: 3, Caps: caps}, Horizon: 6 * time.Hour, Run: func(t *T) {
		n := 1 + vrt.Input(3)
		lay := vrt.Input(1 << n)
		cl := cliWorld(t, n, func(i int) int32 { return int32(1 + lay>>i&1) })
		ts := []int64{-1, -2, 1000, 1010, 1012, 5000}[vrt.Input(6)]
		ver := []int{1, 0}[vrt.Input(2)]
		only(cl, 2, ver)
		if ver == 0 && ts >= 0 {
			t.Trivial()
			return
		}
		path := fmt.Sprintf("/topic/t/offsets?timestamp=%d", ts)
		t.Sample = fmt.Sprintf("%s leaders %b", path, lay)
		serve(t, func(h http.Handler) {
			if n == 2 {
				cliFaults(t)
			}
			var w *httptest.ResponseRecorder
			if !call(path, 30*time.Minute, func() { w = do(h, "GET", boot(path, cl.Bootstrap()), "", nil) }) {
				t.Fail("%s gets no answer", path)
				return
			}
			if w.Code != 200 {
				if w.Code < 500 || t.nf == 0 {
					t.Fail("%s: status %d %s", path, w.Code, w.Body)
				}
				t.Out("error")
				return
			}
			var r []healer.PartitionOffset
			if err := json.Unmarshal(w.Body.Bytes(), &r); err != nil {
				t.Fail("%s: %v in %.300s", path, err, w.Body)
				return
			}
			var g, wa []string
			for i := range r {
				o := r[i].Offset
				if ver == 0 {
					if len(r[i].OldStyleOffsets) != 1 {
						t.Fail("%s: offsets %v", path, r[i].OldStyleOffsets)
						return
					}
					o = r[i].OldStyleOffsets[0]
				}
				g = append(g, fmt.Sprint(r[i].Partition, " ", r[i].ErrorCode, " ", o))
			}
			for _, p := range cl.Topics["t"].Parts {
				wa = append(wa, fmt.Sprint(p.ID, " 0 ", p.OffsetFor(ts)))
			}
			if fmt.Sprint(g) != fmt.Sprint(wa) {
				t.Fail("%s: %v, want %v", path, g, wa)
			}
			t.Out("%v", g)
		})
		t.CheckBad()
	}})
	reg(&Scenario{Prop: "P24", Name: "pending", Quick: Bound{Dev: 2, Caps: caps}, Thorough: Bound{Dev: 3, Caps: caps}, Horizon: 6 * time.Hour, Run: func(t *T) {
		n := 1 + vrt.Input(3)
		lay := vrt.Input(1 << n)
		cl := cliWorld(t, n, func(i int) int32 { return int32(1 + lay>>i&1) })
		g := []string{"ga", "g.a"}[vrt.Input(2)]
		cl.Group("ga")
		cl.Group("g.a")
		for i := 0; i < n; i++ {
			kinds := 3
			if i == 0 {
				kinds = 4
			}
			switch p := cl.Part("t", int32(i)); vrt.Input(kinds) {
			case 1:
				cl.Group(g).SetCommitted("t", p.ID, p.Start)
			case 2:
				cl.Group(g).SetCommitted("t", p.ID, p.End)
			case 3: // the log was cut behind it
				cl.Group(g).SetCommitted("t", p.ID, p.End+4)
			}
		}
		path := "/group/" + g + "/pending/t"
		t.Sample = fmt.Sprintf("%s leaders %b", path, lay)
		serve(t, func(h http.Handler) {
			if n == 2 && lay == 2 {
				cliFaults(t)
			}
			var w *httptest.ResponseRecorder
			if !call(path, 30*time.Minute, func() { w = do(h, "GET", boot(path, cl.Bootstrap()), "", nil) }) {
				t.Fail("%s gets no answer", path)
				return
			}
			if w.Code != 200 {
				if w.Code < 500 || t.nf == 0 {
					t.Fail("%s: status %d %s", path, w.Code, w.Body)
				}
				t.Out("error")
				return
			}
			var r []struct{ Partition, Offset, Committed, Lag *int64 }
			if err := json.Unmarshal(w.Body.Bytes(), &r); err != nil {
				t.Fail("%s: %v in %.300s", path, err, w.Body)
				return
			}
			got, want := map[int64]string{}, map[int64]string{}
			for _, x := range r {
				if x.Partition == nil || x.Offset == nil || x.Committed == nil || x.Lag == nil {
					t.Fail("%s: incomplete %.300s", path, w.Body)
					return
				}
				if _, ok := got[*x.Partition]; ok {
					t.Fail("%s: partition %d twice", path, *x.Partition)
				}
				got[*x.Partition] = fmt.Sprint(*x.Offset, *x.Committed, *x.Lag)
			}
			for _, p := range cl.Topics["t"].Parts {
				c := cl.Group(g).CommittedOffset("t", p.ID)
				want[int64(p.ID)] = fmt.Sprint(p.End, c, p.End-c)
			}
			if fmt.Sprint(got) != fmt.Sprint(want) {
				t.Fail("%s: %v, want %v", path, got, want)
			}
			t.Out("%v", got)
		})
		t.CheckBad()
	}})
	// who may do what
	reg(&Scenario{Prop: "P24", Name: "access", Horizon: 6 * time.Hour, Run: func(t *T) {
		cl := frontWorld(t)
		auth := []string{"u:p", "", "u:p:q", "u:", ":p"}[vrt.Input(5)]
		getAllowed := vrt.Input(2) == 1
		cors := vrt.Input(2) == 1
		enc := func(s string) string { return "Basic " + base64.StdEncoding.EncodeToString([]byte(s)) }
		hs := []string{"", enc(auth), enc("u:p"), enc("u:"), enc(":p"), enc(":"), enc("u:p "), enc(" u:p"), enc("U:p"), enc("u:P"), enc("up"), enc("u:p:q:"), enc("p:u"), enc(""), "Basic", "Basic ", "Bearer " + enc(auth)[6:], "u:p", enc(auth)[6:], "Digest " + enc(auth)[6:]}
		hdr := hs[vrt.Input(len(hs))]
		reqs := []struct {
			method, path, body string
			api                string
			code               int
		}{
			{"GET", "/health", "", "", 200},
			{"HEAD", "/health", "", "", 404},
			{"OPTIONS", "/health", "", "", 404},
			{"GET", "/groups", "", "ListGroups", 200},
			{"GET", "/metadata", "", "Metadata", 200},
			{"GET", "/", "", "", 301},
			{"GET", "/topic/t/configs", "", "", 301},
			{"GET", "/swagger/index.html", "", "", 200},
			{"POST", "/create-partitions", `{"topic":"t","count":7,"timeout":2500}`, "CreatePartitions", 200},
			{"POST", "/create-acls", "[" + aclCreationJSON(0) + "]", "CreateAcls", 200},
			{"DELETE", "/delete-acls", "[" + aclJSON(0) + "]", "DeleteAcls", 200},
			{"POST", "/topic/t/config/a/b", "", "IncrementalAlterConfigs", 200},
			{"POST", "/alter-partition-reassignments?timeout=100", `[{"topic":"t","partition":1,"replicas":[1]}]`, "AlterPartitionReassignments", 200},
			{"POST", "/describe-acls", aclJSON(0), "DescribeAcls", 200},
			{"GET", "/nothing", "", "", 404},
			{"POST", "/nothing", "", "", 404},
			{"DELETE", "/groups", "", "", 404},
		}
		q := reqs[vrt.Input(len(reqs))]
		port := 8080
		address := "127.0.0.1"
		if cors {
			address, port = "::1", 65535
		}
		t.Sample = fmt.Sprintf("auth %q get-allowed %v cors %v: %s %s with %q", auth, getAllowed, cors, q.method, q.path, hdr)
		code := withAPI(t, apiArgs(address, port, auth, getAllowed, cors), func(h http.Handler, addr string) error {
			if w := map[bool]string{false: "127.0.0.1:8080", true: "[::1]:65535"}[cors]; addr != w {
				t.Fail("listens on %s, want %s", addr, w)
			}
			hd := map[string]string{}
			if hdr != "" {
				hd["Authorization"] = hdr
			}
			w := do(h, q.method, boot(q.path, cl.Bootstrap()), q.body, hd)
			ok := auth == "" || hdr == enc(auth) || getAllowed && (q.method == "GET" || q.method == "HEAD" || q.method == "OPTIONS")
			asked := 0
			for _, c := range cl.Calls {
				if c.Name() == q.api {
					asked++
				}
			}
			t.Out("%s: %d", t.Sample, w.Code)
			if !ok {
				if w.Code != 401 {
					t.Fail("status %d without authorization", w.Code)
				}
				if len(cl.Calls) > 0 {
					t.Fail("a %s request is sent without authorization", cl.Calls[0].Name())
				}
				if w.Body.Len() > 0 {
					t.Fail("answer without authorization: %.200s", w.Body)
				}
				return nil
			}
			want := q.code
			if cors && q.method == "OPTIONS" {
				want = 204
			}
			if w.Code != want {
				t.Fail("status %d, want %d", w.Code, want)
			}
			if want == 200 && q.api != "" && asked == 0 {
				t.Fail("no %s request is sent", q.api)
			}
			if q.path == "/topic/t/configs" {
				if u, err := url.Parse(w.Header().Get("Location")); err != nil || u.Path != "/configs/topic/t" || u.Query().Get("bootstrap") != cl.Bootstrap() {
					t.Fail("redirects to %s", w.Header().Get("Location"))
				}
			}
			if o := w.Header().Get("Access-Control-Allow-Origin"); (o == "*") != cors {
				t.Fail("Access-Control-Allow-Origin is %q", o)
			}
			return nil
		})
		if code != 0 {
			t.Fail("exit code %d", code)
		}
		t.CheckBad()
	}})
	reg(&Scenario{Prop: "P24", Name: "start", Horizon: 6 * time.Hour, Run: func(t *T) {
		t.Cluster(1)
		switch vrt.Input(2) {
		case 0:
			code := withAPI(t, apiArgs("127.0.0.1", 8080, "", false, false), func(h http.Handler, addr string) error { return errors.New("bind: address already in use") })
			if code == 0 {
				t.Fail("exit code 0 though the server cannot listen")
			}
		case 1:
			code := withAPI(t, apiArgs("127.0.0.1", 8080, "nocolon", false, false), func(h http.Handler, addr string) error {
				t.Fail("a server is started with unusable credentials")
				return nil
			})
			if code == 0 {
				t.Fail("exit code 0 with unusable credentials")
			}
		}
	}})
}
