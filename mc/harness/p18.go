package main

import (
	"fmt"
	"sort"
	"time"

	"github.com/childe/healer"
	"github.com/childe/healer/kfake"
	"github.com/childe/healer/kref"
	"github.com/childe/healer/vrt"
)

// adminCall is one administration call.  prep makes the arguments of a shape
// and says which requests (body, and broker unless 0) have to be sent.
type adminCall struct {
	name, api string
	shapes    int
	do        func(c *healer.Client, shape int) (any, error)
	want      func(cl *kfake.Cluster, shape int) []wantReq
	res       func(t *T, res any, calls []*kfake.Call)
}

type wantReq struct {
	node int32
	body M
}

func p[T any](v T) *T { return &v }

// single compares the result with the answer to the only request.
func single(t *T, res any, calls []*kfake.Call) {
	if len(calls) == 0 {
		return
	}
	c := calls[len(calls)-1]
	r, ok := res.(healer.Response)
	if !ok {
		t.Fail("result %T", res)
		return
	}
	if d, _ := cmpResponse(c.Req.API, c.Req.Ver, r, kref.Normalize(c.Req.API.Resp, c.Req.Ver, c.Body)); d != "" {
		t.Fail("result differs from the broker's answer: %s", d)
	}
}

func oneWant(f func(shape int) M) func(*kfake.Cluster, int) []wantReq {
	return func(cl *kfake.Cluster, s int) []wantReq { return []wantReq{{cl.Controller, f(s)}} }
}

var topicLists = [][]string{{"t"}, {"t", "u"}, {"u", "t"}}
var aclNames = []*string{p("t"), nil, p("")}

func aclFilter(s int) (healer.AclsResourceType, *string, healer.AclsPatternType, *string, *string, healer.AclsOperation, healer.AclsPermissionType, M) {
	rt, pt, op, pe := healer.AclsResourceType(2+s), healer.AclsPatternType(1+s), healer.AclsOperation(3+s), healer.AclsPermissionType(1+s)
	n, pr, h := aclNames[s], aclNames[(s+1)%3], aclNames[(s+2)%3]
	return rt, n, pt, pr, h, op, pe, M{"resource_type_filter": int8(rt), "resource_name_filter": ps(n), "pattern_type_filter": int8(pt), "principal_filter": ps(pr), "host_filter": ps(h), "operation": int8(op), "permission_type": int8(pe)}
}

func aclCreation(s int) (healer.AclCreation, M) {
	c := healer.AclCreation{ResourceType: healer.AclsResourceType(2 + s), ResourceName: []string{"r0", " r1 ", "R 2"}[s%3], PatternType: healer.AclsPatternType(3 + s%2), Principal: "User:x", Host: "*", Operation: healer.AclsOperation(3 + s), PermissionType: healer.AclsPermissionType(2 + s%2)}
	return c, M{"resource_type": int8(c.ResourceType), "resource_name": c.ResourceName, "resource_pattern_type": int8(c.PatternType), "principal": c.Principal, "host": c.Host, "operation": int8(c.Operation), "permission_type": int8(c.PermissionType)}
}

var adminCalls = []*adminCall{
	{name: "CreateTopic", api: "CreateTopics", shapes: 2,
		do: func(c *healer.Client, s int) (any, error) {
			return c.CreateTopic("new", int32(1+s), int16(1+2*s), uint32(1000*s))
		},
		want: oneWant(func(s int) M {
			return M{"topics": A{M{"name": "new", "num_partitions": 1 + s, "replication_factor": 1 + 2*s, "assignments": A{}, "configs": A{}}}, "timeout_ms": 1000 * s}
		}), res: single},
	{name: "CreateTopics", api: "CreateTopics", shapes: 3,
		do: func(c *healer.Client, s int) (any, error) { return c.CreateTopics(topicLists[s], 3, 2, 5000) },
		want: oneWant(func(s int) M {
			ts := A{}
			for _, n := range topicLists[s] {
				ts = append(ts, M{"name": n, "num_partitions": 3, "replication_factor": 2, "assignments": A{}, "configs": A{}})
			}
			return M{"topics": ts, "timeout_ms": 5000}
		}), res: single},
	{name: "DeleteTopics", api: "DeleteTopics", shapes: 3,
		do:   func(c *healer.Client, s int) (any, error) { return c.DeleteTopics(topicLists[s], 7000) },
		want: oneWant(func(s int) M { return M{"topic_names": sa(topicLists[s]), "timeout_ms": 7000} }), res: single},
	{name: "CreatePartitions", api: "CreatePartitions", shapes: 2,
		do: func(c *healer.Client, s int) (any, error) { return c.CreatePartitions("t", int32(4+s), 3000, s == 1) },
		want: oneWant(func(s int) M {
			return M{"topics": A{M{"name": "t", "count": 4 + s, "assignments": nil}}, "timeout_ms": 3000, "validate_only": s == 1}
		}), res: single},
	{name: "CreatePartitionsWithAssignments", api: "CreatePartitions", shapes: 2,
		do: func(c *healer.Client, s int) (any, error) {
			return c.CreatePartitionsWithAssignments("t", int32(4+s), [][]int32{{1, 2}, {3}}[:2-s], 3000, s == 1)
		},
		want: oneWant(func(s int) M {
			a := A{M{"broker_ids": A{1, 2}}, M{"broker_ids": A{3}}}
			return M{"topics": A{M{"name": "t", "count": 4 + s, "assignments": a[:2-s]}}, "timeout_ms": 3000, "validate_only": s == 1}
		}), res: single},
	{name: "DeleteGroups", api: "DeleteGroups", shapes: 3,
		do: func(c *healer.Client, s int) (any, error) {
			return c.DeleteGroups([][]string{{"g1"}, {"g1", "g2"}, {"g2"}}[s])
		},
		want: func(cl *kfake.Cluster, s int) []wantReq {
			var o []wantReq
			for _, g := range [][]string{{"g1"}, {"g1", "g2"}, {"g2"}}[s] {
				o = append(o, wantReq{cl.Coord(g), M{"groups_names": A{g}}})
			}
			return o
		},
		res: func(t *T, res any, calls []*kfake.Call) {
			var w, g []string
			for _, c := range calls {
				for _, r := range aval(c.Body["results"]) {
					w = append(w, fmt.Sprint(r.(M)["group_id"], r.(M)["error_code"]))
				}
			}
			for _, r := range res.(healer.DeleteGroupsResponse).Results {
				g = append(g, fmt.Sprint(r.GroupID, r.ErrorCode))
			}
			if fmt.Sprint(g) != fmt.Sprint(w) {
				t.Fail("DeleteGroups returned %v, the brokers answered %v", g, w)
			}
		}},
	{name: "ListGroups", api: "ListGroups", shapes: 1,
		do: func(c *healer.Client, s int) (any, error) { return c.ListGroups() },
		want: func(cl *kfake.Cluster, s int) (o []wantReq) {
			for _, n := range cl.Nodes {
				if !n.Hidden {
					o = append(o, wantReq{n.ID, nil})
				}
			}
			return
		},
		res: func(t *T, res any, calls []*kfake.Call) {
			w, g := map[int32][]string{}, map[int32][]string{}
			for _, c := range calls {
				for _, r := range aval(c.Body["groups"]) {
					w[c.Node.ID] = append(w[c.Node.ID], fmt.Sprint(r.(M)["group_id"], r.(M)["protocol_type"]))
				}
			}
			for b, gs := range res.(map[int32][]*healer.Group) {
				for _, r := range gs {
					g[b] = append(g[b], fmt.Sprint(r.GroupID, r.ProtocolType))
				}
			}
			if fmt.Sprint(g) != fmt.Sprint(w) {
				t.Fail("ListGroups returned %v, the brokers answered %v", g, w)
			}
		}},
	{name: "DescribeAcls", api: "DescribeAcls", shapes: 3,
		do: func(c *healer.Client, s int) (any, error) {
			rt, n, pt, pr, h, op, pe, _ := aclFilter(s)
			return c.DescribeAcls(healer.DescribeAclsRequestBody{ResourceType: rt, ResourceName: n, PatternType: pt, Principal: pr, Host: h, Operation: op, PermissionType: pe})
		},
		want: oneWant(func(s int) M { _, _, _, _, _, _, _, m := aclFilter(s); return m }), res: single},
	{name: "DeleteAcls", api: "DeleteAcls", shapes: 3,
		do: func(c *healer.Client, s int) (any, error) {
			var fs []*healer.DeleteAclsFilter
			for i := 0; i <= s; i++ {
				rt, n, pt, pr, h, op, pe, _ := aclFilter(i)
				fs = append(fs, &healer.DeleteAclsFilter{ResourceType: rt, ResourceName: n, PatternType: pt, Principal: pr, Host: h, Operation: op, PermissionType: pe})
			}
			return c.DeleteAcls(fs)
		},
		want: oneWant(func(s int) M {
			fs := A{}
			for i := 0; i <= s; i++ {
				_, _, _, _, _, _, _, m := aclFilter(i)
				fs = append(fs, m)
			}
			return M{"filters": fs}
		}), res: single},
	{name: "CreateAcls", api: "CreateAcls", shapes: 3,
		do: func(c *healer.Client, s int) (any, error) {
			var fs []healer.AclCreation
			for i := 0; i <= s; i++ {
				a, _ := aclCreation(i)
				fs = append(fs, a)
			}
			return c.CreateAcls(fs)
		},
		want: oneWant(func(s int) M {
			fs := A{}
			for i := 0; i <= s; i++ {
				_, m := aclCreation(i)
				fs = append(fs, m)
			}
			return M{"creations": fs}
		}), res: single},
	{name: "DescribeConfigs", api: "DescribeConfigs", shapes: 4,
		do: func(c *healer.Client, s int) (any, error) {
			switch s {
			case 0:
				return c.DescribeConfigs("topic", "t", nil)
			case 1:
				return c.DescribeConfigs("topic", "u", []string{"retention.ms"})
			case 2:
				return c.DescribeConfigs("broker", "2", []string{"a", "b"})
			}
			return c.DescribeConfigs("broker", "3", nil)
		},
		want: func(cl *kfake.Cluster, s int) []wantReq {
			r := M{"resource_type": 2, "resource_name": "t", "configuration_keys": nil}
			node := cl.Controller
			switch s {
			case 1:
				r = M{"resource_type": 2, "resource_name": "u", "configuration_keys": A{"retention.ms"}}
			case 2:
				r, node = M{"resource_type": 4, "resource_name": "2", "configuration_keys": A{"a", "b"}}, 2
			case 3:
				r, node = M{"resource_type": 4, "resource_name": "3", "configuration_keys": nil}, 3
			}
			return []wantReq{{node, M{"resources": A{r}}}}
		}, res: single},
	{name: "ListPartitionReassignments", api: "ListPartitionReassignments", shapes: 2,
		do: func(c *healer.Client, s int) (any, error) {
			r := healer.NewListPartitionReassignmentsRequest("cid", 4000)
			if s == 1 {
				r.AddTP("t", 0)
				r.AddTP("u", 0)
				r.AddTP("t", 1)
			}
			return c.ListPartitionReassignments(r)
		},
		want: oneWant(func(s int) M {
			if s == 0 {
				return M{"timeout_ms": 4000, "topics": nil}
			}
			return M{"timeout_ms": 4000, "topics": A{M{"name": "t", "partition_indexes": A{0, 1}}, M{"name": "u", "partition_indexes": A{0}}}}
		}), res: single},
	{name: "DescribeLogDirs", api: "DescribeLogDirs", shapes: 4,
		do: func(c *healer.Client, s int) (any, error) {
			if s == 3 {
				return c.DescribeLogDirs(nil) // all topics
			}
			return c.DescribeLogDirs(topicLists[s])
		},
		want: func(cl *kfake.Cluster, s int) (o []wantReq) {
			names := topicLists[s%3]
			per := map[int32]map[string]A{}
			for _, n := range names2(cl, s, names) {
				for _, q := range cl.Topics[n].Parts {
					for _, b := range q.Replicas {
						if per[b] == nil {
							per[b] = map[string]A{}
						}
						per[b][n] = append(per[b][n], q.ID)
					}
				}
			}
			for _, b := range []int32{1, 2, 3} {
				if per[b] == nil {
					continue
				}
				ts := A{}
				for _, n := range []string{"t", "u"} {
					if per[b][n] != nil {
						ts = append(ts, M{"topic": n, "partitions": per[b][n]})
					}
				}
				o = append(o, wantReq{b, M{"topics": ts}})
			}
			return
		},
		res: func(t *T, res any, calls []*kfake.Call) {
			r := res.(map[int32]healer.DescribeLogDirsResponse)
			if len(r) != len(calls) {
				t.Fail("DescribeLogDirs returns %d brokers, %d answered", len(r), len(calls))
				return
			}
			for _, c := range calls {
				asked := map[string]bool{}
				for _, tp := range aval(c.Req.Body["topics"]) {
					asked[sval(tp.(M)["topic"])] = true
				}
				// what was asked for, of every directory that has some of it
				w, g := map[string]any{}, map[string]any{}
				for _, d := range aval(c.Body["results"]) {
					ts := A{}
					for _, tp := range aval(d.(M)["topics"]) {
						if asked[sval(tp.(M)["name"])] {
							ts = append(ts, tp)
						}
					}
					if len(ts) > 0 {
						w[sval(d.(M)["log_dir"])] = kref.Show(ts)
					}
				}
				for _, d := range r[c.Node.ID].Results {
					ts := A{}
					for _, tp := range d.Topics {
						pa := A{}
						for _, q := range tp.Partitions {
							pa = append(pa, M{"partition_index": q.PartitionID, "partition_size": q.Size, "offset_lag": q.OffsetLag, "is_future_key": q.IsFutureKey})
						}
						ts = append(ts, M{"name": tp.TopicName, "partitions": pa})
					}
					if len(ts) > 0 {
						g[d.LogDir] = kref.Show(ts)
					}
				}
				if fmt.Sprint(g) != fmt.Sprint(w) {
					t.Fail("DescribeLogDirs returned %v for broker %d, which answered %v", g, c.Node.ID, w)
				}
			}
		}},
}

func names2(cl *kfake.Cluster, s int, names []string) []string {
	if s == 3 {
		return []string{"t", "u"}
	}
	return names
}

func sortedWants(ws []wantReq, api *kref.API, ver int, withNode bool) []string {
	var o []string
	for _, w := range ws {
		b := ""
		if w.body != nil {
			b = kref.Show(sorted(kref.Normalize(api.Req, ver, w.body)))
		}
		o = append(o, fmt.Sprintf("broker %d: %s", w.node, b))
	}
	sort.Strings(o)
	return o
}

// adminWorld is a cluster that gives administration answers worth comparing.
func adminWorld(t *T) *kfake.Cluster {
	cl := t.Cluster(3)
	for i, q := range cl.AddTopic("t", 1, 2).Parts {
		q.Replicas, q.Isr = []int32{int32(i + 1), 3}, []int32{int32(i + 1)}
	}
	cl.AddTopic("u", 3)
	cl.Controller = 2
	cl.Coord = func(g string) int32 {
		if g == "g2" {
			return 3
		}
		return 1
	}
	cl.Group("g1")
	cl.Group("g2")
	cl.Group("g3")
	logDirs := func(n *kfake.Node) A {
		part := func(i, size int) M {
			return M{"partition_index": i, "partition_size": size, "offset_lag": i + 7, "is_future_key": i == 1}
		}
		return A{M{"error_code": 0, "log_dir": "/d1", "topics": A{M{"name": "t", "partitions": A{part(0, 100), part(1, 200)}}}},
			M{"error_code": 0, "log_dir": "/d2", "topics": A{M{"name": "u", "partitions": A{part(0, 300+int(n.ID))}}}},
			M{"error_code": 0, "log_dir": "/d3", "topics": A{}}}
	}
	// every name of the enumerations
	allAcls := func() (aclRes, matching A) {
		aclRes, matching = A{}, A{}
		for rt := 0; rt < 8; rt++ {
			acls := A{}
			for op := rt; op < 13; op += 3 {
				acls = append(acls, M{"principal": "User:x", "host": "*", "operation": op, "permission_type": op % 4})
				matching = append(matching, M{"error_code": 0, "error_message": nil, "resource_type": rt, "resource_name": fmt.Sprint("r", op), "pattern_type": rt % 5, "principal": "User:x", "host": "*", "operation": op, "permission_type": (op + 1) % 4})
			}
			if rt == 3 {
				acls = A{}
			}
			aclRes = append(aclRes, M{"resource_type": rt, "resource_name": fmt.Sprint("r", rt), "pattern_type": rt % 5, "acls": acls})
		}
		return
	}
	cl.Override = func(c *kfake.Call) (M, bool) {
		if c.Fault != "" && len(c.Fault) > 3 && c.Fault[:3] == "err" {
			return nil, false
		}
		switch c.Name() {
		case "DescribeLogDirs":
			asked := map[string]bool{}
			for _, tp := range aval(c.Req.Body["topics"]) {
				asked[sval(tp.(M)["topic"])] = true
			}
			rs := logDirs(c.Node)
			for _, d := range rs {
				ts := A{}
				for _, tp := range aval(d.(M)["topics"]) {
					if asked[sval(tp.(M)["name"])] {
						ts = append(ts, tp)
					}
				}
				d.(M)["topics"] = ts
			}
			return M{"results": rs}, true
		case "DescribeAcls":
			aclRes, _ := allAcls()
			return M{"error_code": 0, "error_message": nil, "resources": aclRes}, true
		case "DeleteAcls":
			rs := A{}
			for i := range aval(c.Req.Body["filters"]) {
				ms := A{}
				_, matching := allAcls()
				switch i {
				case 1:
					ms = append(ms, matching...)
				case 2:
					ms = append(ms, matching[7], matching[3])
				default:
					if c.Req.Ver == 0 || len(aval(c.Req.Body["filters"])) == 1 {
						ms = append(ms, matching...)
					}
				}
				rs = append(rs, M{"error_code": 0, "error_message": nil, "matching_acls": ms})
			}
			return M{"filter_results": rs}, true
		case "ListPartitionReassignments":
			return M{"error_code": 0, "error_message": nil, "topics": A{M{"name": "t", "partitions": A{M{"partition_index": 1, "replicas": A{1, 2}, "adding_replicas": A{2}, "removing_replicas": A{}}}}}}, true
		}
		return nil, false
	}
	return cl
}

func adminFaults(c *kfake.Call) []*kfake.Fault {
	o := netFaults()
	switch c.Name() {
	case "ApiVersions":
		return append(o, errFaults(35)...)
	case "Metadata":
		return append(o, errFaults(29)...)
	case "FindCoordinator":
		return append(o, errFaults(15, 30)...)
	}
	// the last error code of the answer only
	last := fk("lasterr", kfake.Fault{Mutate: func(c *kfake.Call) { lastErr(c.Body, 41); c.Err = 41 }})
	return append(append(o, errFaults(41, 29, 7)...), last)
}

// lastErr sets the error code that comes last.
func lastErr(v any, code int) bool {
	switch x := v.(type) {
	case M:
		var ks []string
		for k := range x {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for i := len(ks) - 1; i >= 0; i-- {
			if _, ok := x[ks[i]].(A); ok && lastErr(x[ks[i]], code) {
				return true
			}
		}
		if _, ok := x["error_code"]; ok {
			x["error_code"] = code
			return true
		}
	case A:
		for i := len(x) - 1; i >= 0; i-- {
			if lastErr(x[i], code) {
				return true
			}
		}
	}
	return false
}

// checkAdmin judges one administration call: calls are the requests received during it.
func (t *T) checkAdmin(a *adminCall, shape int, calls []*kfake.Call, res any, err error) {
	api := kref.ByName[a.api]
	want := a.want(t.Cl, shape)
	okw := map[string]int{}
	ver := 0
	for _, c := range calls {
		if c.Name() == a.api {
			ver = c.Req.Ver
		}
	}
	for _, w := range sortedWants(want, api, ver, true) {
		okw[w]++
	}
	var good []*kfake.Call
	for _, c := range calls {
		switch c.Name() {
		case "ApiVersions", "Metadata", "FindCoordinator":
			continue
		case a.api:
		default:
			t.Fail("%s sends a %s request", a.name, c.Name())
			continue
		}
		w := wantReq{c.Node.ID, c.Req.Body}
		if want[0].body == nil {
			w.body = nil
		}
		s := sortedWants([]wantReq{w}, api, ver, true)[0]
		if _, ok := okw[s]; !ok {
			t.Fail("%s sent %s, asked for %v", a.name, s, sortedWants(want, api, ver, true))
			return
		}
		if c.Done && c.Err == 0 {
			okw[s]--
			good = append(good, c)
		}
	}
	if err != nil {
		if t.nf == 0 {
			t.Fail("%s: %v", a.name, err)
		}
		t.Out("%s error", a.name)
		return
	}
	for s, n := range okw {
		if n > 0 {
			t.Fail("%s returns no error, but no broker confirmed: %s", a.name, s)
			return
		}
	}
	a.res(t, res, good)
	t.Out("%s ok", a.name)
}

func init() {
	for _, a := range adminCalls {
		a := a
		reg(&Scenario{Prop: "P18", Name: a.name, Quick: Bound{Dev: 2, Caps: map[byte]int{'S': 0}}, Thorough: Bound{Dev: 3, Caps: map[byte]int{'S': 0}}, Horizon: 2 * time.Hour, Run: func(t *T) {
			cl := adminWorld(t)
			shape := vrt.Input(a.shapes)
			c, err := healer.NewClient(cl.Bootstrap(), "cid")
			if err != nil {
				t.Fail("NewClient: %v", err)
				return
			}
			t.Sample = fmt.Sprintf("%s shape %d", a.name, shape)
			t.Faults(adminFaults)
			t.DialFaults(func() bool { return true })
			t.WriteFaults(func() bool { return true })
			n := len(cl.Calls)
			var res any
			if !call(a.name, 10*time.Minute, func() { res, err = a.do(c, shape) }) {
				t.Fail("%s does not return", a.name)
				return
			}
			t.checkAdmin(a, shape, cl.Calls[n:], res, err)
			// once the cluster is healthy the same call succeeds
			cl.Decide, cl.DialHook, cl.WriteHook = nil, nil, nil
			n, t.nf = len(cl.Calls), 0
			if !call(a.name, 10*time.Minute, func() { res, err = a.do(c, shape) }) {
				t.Fail("%s does not return", a.name)
				return
			}
			t.checkAdmin(a, shape, cl.Calls[n:], res, err)
			c.Close()
			t.CheckBad()
		}})
	}
	// calls on the brokers object
	for _, k := range []string{"AlterPartitionReassignments", "ElectLeaders"} {
		k := k
		a := &adminCall{name: k, api: k, shapes: 2, res: single}
		mk := func(s int) (func(bs *healer.Brokers) (any, error), M) {
			if k == "ElectLeaders" {
				r := healer.NewElectLeadersRequest(3000)
				r.Add("t", 1)
				ts := A{M{"topic": "t", "partitions": A{1}}}
				if s == 1 {
					r.Add("u", 0)
					r.Add("t", 0)
					ts = A{M{"topic": "t", "partitions": A{0, 1}}, M{"topic": "u", "partitions": A{0}}}
				}
				return func(bs *healer.Brokers) (any, error) { return bs.ElectLeaders(&r) }, M{"topic_partitions": ts, "timeout_ms": 3000}
			}
			r := healer.NewAlterPartitionReassignmentsRequest(3000)
			r.AddAssignment("t", 1, []int32{1, 3})
			ts := A{M{"name": "t", "partitions": A{M{"partition_index": 1, "replicas": A{1, 3}}}}}
			if s == 1 {
				r.AddAssignment("u", 0, nil)
				r.AddAssignment("t", 0, []int32{2})
				ts = A{M{"name": "t", "partitions": A{M{"partition_index": 1, "replicas": A{1, 3}}, M{"partition_index": 0, "replicas": A{2}}}}, M{"name": "u", "partitions": A{M{"partition_index": 0, "replicas": nil}}}}
			}
			return func(bs *healer.Brokers) (any, error) { return bs.AlterPartitionReassignments(&r) }, M{"topics": ts, "timeout_ms": 3000}
		}
		a.want = oneWant(func(s int) M { _, m := mk(s); return m })
		reg(&Scenario{Prop: "P18", Name: k, Quick: Bound{Dev: 2, Caps: map[byte]int{'S': 0}}, Thorough: Bound{Dev: 3, Caps: map[byte]int{'S': 0}}, Horizon: 2 * time.Hour, Run: func(t *T) {
			cl := adminWorld(t)
			shape := vrt.Input(a.shapes)
			bs := brokersOf(t, cl)
			if bs == nil {
				return
			}
			t.Sample = fmt.Sprintf("%s shape %d", a.name, shape)
			f, _ := mk(shape)
			t.Faults(adminFaults)
			t.DialFaults(func() bool { return true })
			t.WriteFaults(func() bool { return true })
			n := len(cl.Calls)
			var res any
			var err error
			for i := 0; i < 2; i++ {
				if !call(a.name, 10*time.Minute, func() { res, err = f(bs) }) {
					t.Fail("%s does not return", a.name)
					return
				}
				t.checkAdmin(a, shape, cl.Calls[n:], res, err)
				cl.Decide, cl.DialHook, cl.WriteHook = nil, nil, nil
				n, t.nf = len(cl.Calls), 0
			}
			t.CheckBad()
		}})
	}
	// creating the client itself under faults
	reg(&Scenario{Prop: "P18", Name: "NewClient", Quick: Bound{Dev: 2, Caps: map[byte]int{'S': 0}}, Thorough: Bound{Dev: 3, Caps: map[byte]int{'S': 0}}, Horizon: 2 * time.Hour, Run: func(t *T) {
		cl := adminWorld(t)
		t.Faults(adminFaults)
		t.DialFaults(func() bool { return true })
		t.WriteFaults(func() bool { return true })
		var c *healer.Client
		var err error
		if !call("NewClient", 20*time.Minute, func() { c, err = healer.NewClient(cl.Bootstrap(), "cid") }) {
			t.Fail("NewClient does not return")
			return
		}
		if err != nil {
			if t.nf < 3 { // one working bootstrap server is enough
				t.Fail("NewClient: %v", err)
			}
			return
		}
		cl.Decide, cl.DialHook, cl.WriteHook = nil, nil, nil
		if _, err := c.DeleteTopics([]string{"t"}, 1000); err != nil {
			t.Fail("DeleteTopics: %v", err)
		}
		t.CheckBad()
	}})
}
