//go:build cli

package main

import (
	"encoding/json"
	"fmt"
	"io"
	"sort"
	"strings"
	"time"

	"github.com/childe/healer"
	"github.com/childe/healer/kfake"
	"github.com/childe/healer/kref"
	"github.com/childe/healer/vrt"
)

func aclArgs(rt, name, pt, principal, host, op, perm *string) (a []string) {
	for _, f := range []struct {
		n string
		v *string
	}{{"resourcetype", rt}, {"resource", name}, {"patterntype", pt}, {"principal", principal}, {"host", host}, {"operation", op}, {"permissiontype", perm}} {
		if f.v != nil {
			a = append(a, "--"+f.n+"="+*f.v)
		}
	}
	return
}

func cliFronts() []*front {
	var fs []*front
	add := func(api string, want func(cl *kfake.Cluster) []wantReq, res func(t *T, out []byte, calls []*kfake.Call), args ...string) {
		fs = append(fs, &front{api: api, want: want, res: res, args: args, name: strings.Join(args, " ")})
	}
	bad := func(args ...string) {
		fs = append(fs, &front{args: args, name: strings.Join(args, " "), bad: true})
	}
	// topics
	ct := func(parts, rf, timeout int, as A) func(cl *kfake.Cluster) []wantReq {
		return one(M{"topics": A{M{"name": "new", "num_partitions": parts, "replication_factor": rf, "assignments": as, "configs": A{}}}, "timeout_ms": timeout})
	}
	add("CreateTopics", ct(-1, -1, 30000, A{}), none, "create-topic", "-t", "new")
	add("CreateTopics", ct(5, 3, 30000, A{}), none, "create-topic", "-t", "new", "--partitions", "5", "--replication-factor", "3")
	add("CreateTopics", ct(70000, -1, 7, A{}), none, "create-topic", "--topic", "new", "--partitions", "70000", "--timeout", "7")
	add("CreateTopics", ct(-1, -1, 30000, A{M{"partition_index": 0, "broker_ids": A{1}}}), none, "create-topic", "-t", "new", "--replica-assignment", "1")
	add("CreateTopics", ct(-1, -1, 5000, A{M{"partition_index": 0, "broker_ids": A{1, 2}}, M{"partition_index": 1, "broker_ids": A{3, 1}}, M{"partition_index": 2, "broker_ids": A{2}}}), none, "create-topic", "-t", "new", "--replica-assignment", "1:2,3:1,2", "--timeout", "5000")
	add("CreateTopics", ct(-1, -1, 30000, A{M{"partition_index": 0, "broker_ids": A{100003, 1}}, M{"partition_index": 1, "broker_ids": A{2147483647, 40000}}}), none, "create-topic", "-t", "new", "--replica-assignment", "100003:1,2147483647:40000")
	bad("create-topic", "-t", "new", "--replica-assignment", "4294967297")
	bad("create-topic", "-t", "new", "--partitions", "5", "--replica-assignment", "1")
	bad("create-topic", "-t", "new", "--replication-factor", "1", "--replica-assignment", "1")
	bad("create-topic", "-t", "new", "--replica-assignment", "1:x")
	bad("create-topic", "-t", "new", "--replica-assignment", "1,,2")
	bad("create-topic", "-t", "new", "--partitions", "many")
	bad("create-topic", "-t", "new", "--replication-factor", "70000")
	add("DeleteTopics", one(M{"topic_names": A{"t"}, "timeout_ms": 30000}), asJSON[healer.DeleteTopicsResponse], "delete-topics", "-t", "t")
	add("DeleteTopics", one(M{"topic_names": A{"u", "t"}, "timeout_ms": 30000}), asJSON[healer.DeleteTopicsResponse], "delete-topics", "-t", "u,t")
	add("DeleteTopics", one(M{"topic_names": A{"u", "t"}, "timeout_ms": 30000}), asJSON[healer.DeleteTopicsResponse], "delete-topics", "--topics", "u", "--topics", "t")
	// partitions
	add("CreatePartitions", cpWant("t", 4, 30000, true, nil), none, "create-partitions", "-t", "t", "--count", "4")
	add("CreatePartitions", cpWant("t", 4, 1000, false, nil), none, "create-partitions", "-t", "t", "--count", "4", "--validate-only=false", "--timeout", "1000")
	add("CreatePartitions", cpWant("t", 3, 30000, false, A{M{"broker_ids": A{1, 2}}}), none, "create-partitions", "-t", "t", "--count", "3", "--validate-only=false", "--assignments", "1:2")
	add("CreatePartitions", cpWant("t", 5, 30000, true, A{M{"broker_ids": A{1, 2}}, M{"broker_ids": A{3}}, M{"broker_ids": A{2, 1}}}), none, "create-partitions", "-t", "t", "--count", "5", "--assignments", "1:2,3,2:1")
	add("CreatePartitions", cpWant("t", 4, 30000, true, A{M{"broker_ids": A{1, 2}}, M{"broker_ids": A{3}}}), none, "create-partitions", "-t", "t", "--count", "4", "--assignments", "1:2,3,")
	add("CreatePartitions", cpWant("t", 4, 30000, true, A{M{"broker_ids": A{1, 2}}, M{"broker_ids": A{3}}}), none, "create-partitions", "-t", "t", "--count", "4", "--assignments", "1:2,,3")
	add("CreatePartitions", cpWant("t", 100000, 2000000000, false, A{M{"broker_ids": A{100003, 1}}, M{"broker_ids": A{2147483647, 40000}}}), none, "create-partitions", "-t", "t", "--count", "100000", "--validate-only=false", "--timeout", "2000000000", "--assignments", "100003:1,2147483647:40000")
	bad("create-partitions", "-t", "t", "--count", "4", "--assignments", "4294967297")
	bad("create-partitions", "-t", "t", "--count", "x")
	bad("create-partitions", "-t", "t", "--count", "4", "--assignments", "1:b")
	bad("create-partitions", "-t", "t", "--count", "4", "--validate-only=maybe")
	// configurations
	add("IncrementalAlterConfigs", alterWant(2, "t", "retention.ms", "1000"), asJSON[healer.IncrementalAlterConfigsResponse], "alter-configs", "--resource-type", "topic", "--resource-name", "t", "--config-name", "retention.ms", "--config-value", "1000")
	add("IncrementalAlterConfigs", alterWant(4, "3", "a b", "x=y,z"), asJSON[healer.IncrementalAlterConfigsResponse], "alter-configs", "--resource-type", "broker", "--resource-name", "3", "--config-name", "a b", "--config-value", "x=y,z")
	add("IncrementalAlterConfigs", alterWant(8, "1", "k", ""), asJSON[healer.IncrementalAlterConfigsResponse], "alter-configs", "--resource-type", "broker_logger", "--resource-name", "1", "--config-name", "k", "--config-value", "")
	add("DescribeConfigs", cfgWant(0, 2, "t", nil), asJSON[healer.DescribeConfigsResponse], "describe-configs", "--resource-type", "topic", "--resource-name", "t")
	add("DescribeConfigs", cfgWant(0, 2, "u", A{"a"}), asJSON[healer.DescribeConfigsResponse], "describe-configs", "--resource-type", "topic", "--resource-name", "u", "--keys", "a")
	add("DescribeConfigs", cfgWant(3, 4, "3", A{"a", "b,c"}), asJSON[healer.DescribeConfigsResponse], "describe-configs", "--resource-type", "broker", "--resource-name", "3", "--keys", "a", "--keys", "b,c")
	// groups
	add("ListGroups", adm("ListGroups", 0), admRes[map[int32][]*healer.Group]("ListGroups"), "list-groups")
	add("DescribeGroups", groupWant("g1"), groupsOut, "describe-groups", "-g", "g1")
	add("DescribeGroups", groupWant("g2"), groupsOut, "describe-groups", "--group", "g2")
	for s, g := range []string{"g1", "g1,g2", "g2"} {
		add("DeleteGroups", adm("DeleteGroups", s), admRes[healer.DeleteGroupsResponse]("DeleteGroups"), "delete-groups", "-g", g)
	}
	// reassignments and elections
	add("AlterPartitionReassignments", one(M{"topics": A{M{"name": "t", "partitions": A{M{"partition_index": 1, "replicas": A{1, 3}}}}}, "timeout_ms": 30000}), none, "alter-partition-reassignments", "-r", `[{"topic":"t","partition":1,"replicas":[1,3]}]`)
	add("AlterPartitionReassignments", one(M{"topics": A{M{"name": "t", "partitions": A{M{"partition_index": 1, "replicas": A{1, 3}}, M{"partition_index": 0, "replicas": nil}}}, M{"name": "u", "partitions": A{M{"partition_index": 0, "replicas": A{2}}}}}, "timeout_ms": 99}), none,
		"alter-partition-reassignments", "--timeout.ms", "99", "-r", `[{"topic":"t","partition":1,"replicas":[1,3]},{"topic":"u","partition":0,"replicas":[2]},{"topic":"t","partition":0,"replicas":null}]`)
	add("AlterPartitionReassignments", one(M{"topics": A{M{"name": "t", "partitions": A{M{"partition_index": 100001, "replicas": A{100003, 2147483647}}}}}, "timeout_ms": 30000}), none, "alter-partition-reassignments", "-r", `[{"topic":"t","partition":100001,"replicas":[100003,2147483647]}]`)
	for _, j := range []string{"", "{", `{"topic":"t"}`, `[{"topic":"t","partition":"1","replicas":[1]}]`, `[{"topic":"t","partition":1,"replicas":[1]`} {
		bad("alter-partition-reassignments", "-r", j)
	}
	tp := `[{"topic":"t","partition":0},{"topic":"u","partition":0},{"topic":"t","partition":1}]`
	add("ElectLeaders", one(M{"topic_partitions": A{M{"topic": "t", "partitions": A{1}}}, "timeout_ms": 30000}), asJSON[*healer.ElectLeadersResponse], "elect-leaders", "-d", `[{"topic":"t","partition":1}]`)
	add("ElectLeaders", one(M{"topic_partitions": A{M{"topic": "t", "partitions": A{0, 1}}, M{"topic": "u", "partitions": A{0}}}, "timeout_ms": 2000}), asJSON[*healer.ElectLeadersResponse], "elect-leaders", "--timeout.ms", "2000", "-d", tp)
	add("ListPartitionReassignments", one(M{"timeout_ms": 30000, "topics": nil}), asJSON[*healer.ListPartitionReassignmentsResponse], "list-partition-reassignments")
	add("ListPartitionReassignments", adm("ListPartitionReassignments", 1), asJSON[*healer.ListPartitionReassignmentsResponse], "list-partition-reassignments", "--timeout.ms", "4000", "-d", tp)
	for _, j := range []string{"{", `{"topic":"t"}`, `[{"topic":"t","partition":"1"}]`} {
		bad("elect-leaders", "-d", j)
		bad("list-partition-reassignments", "-d", j)
	}
	// log directories
	add("DescribeLogDirs", adm("DescribeLogDirs", 0), admRes[map[int32]healer.DescribeLogDirsResponse]("DescribeLogDirs"), "describe-logdirs", "-t", "t")
	add("DescribeLogDirs", adm("DescribeLogDirs", 2), admRes[map[int32]healer.DescribeLogDirsResponse]("DescribeLogDirs"), "describe-logdirs", "-t", "u,t")
	add("DescribeLogDirs", adm("DescribeLogDirs", 3), admRes[map[int32]healer.DescribeLogDirsResponse]("DescribeLogDirs"), "describe-logdirs")
	// acls: every name of every enumeration the help text tells, and the protocol's names
	type en struct {
		s string
		v int
	}
	rts := []en{{"topic", 2}, {"any", 1}, {"group", 3}, {"cluster", 4}, {"TRANSACTIONAL_ID", 5}}
	pts := []en{{"literal", 3}, {"any", 1}, {"match", 2}, {"prefixed", 4}}
	ops := []en{{"read", 3}, {"any", 1}, {"write", 4}, {"create", 5}, {"delete", 6}, {"alter", 7}, {"describe", 8}, {"clusteraction", 9}, {"describeconfigs", 10}, {"alterconfigs", 11}, {"idempotentwrite", 12}, {"ALL", 2}, {"CLUSTER_ACTION", 9}, {"DESCRIBE_CONFIGS", 10}, {"ALTER_CONFIGS", 11}, {"IDEMPOTENT_WRITE", 12}}
	pes := []en{{"allow", 3}, {"any", 1}, {"deny", 2}}
	acl := func(rt, pt, op, pe en, name, principal, host *string) {
		a := aclArgs(p(rt.s), name, p(pt.s), principal, host, p(op.s), p(pe.s))
		f := M{"resource_type_filter": rt.v, "resource_name_filter": ps(name), "pattern_type_filter": pt.v, "principal_filter": ps(principal), "host_filter": ps(host), "operation": op.v, "permission_type": pe.v}
		add("DescribeAcls", one(f), asJSON[healer.DescribeAclsResponse], append([]string{"describe-acls"}, a...)...)
		add("DeleteAcls", one(M{"filters": A{f}}), asJSON[*healer.DeleteAclsResponse], append([]string{"delete-acls"}, a...)...)
		d := func(v *string) string {
			if v == nil {
				return ""
			}
			return *v
		}
		add("CreateAcls", one(M{"creations": A{M{"resource_type": rt.v, "resource_name": d(name), "resource_pattern_type": pt.v, "principal": d(principal), "host": d(host), "operation": op.v, "permission_type": pe.v}}}), asJSON[*healer.CreateAclsResponse], append([]string{"create-acls"}, a...)...)
	}
	x, y, z := p("t"), p("User:alice"), p("10.0.0.1")
	for _, e := range rts {
		acl(e, pts[0], ops[0], pes[0], x, y, z)
	}
	for _, e := range pts[1:] {
		acl(rts[0], e, ops[0], pes[0], x, y, z)
	}
	for _, e := range ops[1:] {
		acl(rts[0], pts[0], e, pes[0], x, y, z)
	}
	for _, e := range pes[1:] {
		acl(rts[0], pts[0], ops[0], e, x, y, z)
	}
	acl(rts[0], pts[0], ops[0], pes[0], nil, y, z)
	acl(rts[0], pts[0], ops[0], pes[0], x, nil, z)
	acl(rts[0], pts[0], ops[0], pes[0], x, y, nil)
	acl(rts[0], pts[0], ops[0], pes[0], nil, nil, nil)
	acl(rts[0], pts[0], ops[0], pes[0], p(""), p(""), p(""))
	acl(rts[0], pts[0], ops[0], pes[0], p("*"), p(`User:CN=a\,b"c`), p("*"))
	acl(rts[0], pts[0], ops[0], pes[0], p(`a"b\n\`), y, z)
	for _, c := range []string{"describe-acls", "delete-acls", "create-acls"} {
		bad(append([]string{c}, aclArgs(p("tipoc"), x, p("literal"), y, z, p("read"), p("allow"))...)...)
		bad(append([]string{c}, aclArgs(p("topic"), x, p("literally"), y, z, p("read"), p("allow"))...)...)
		bad(append([]string{c}, aclArgs(p("topic"), x, p("literal"), y, z, p("raed"), p("allow"))...)...)
		bad(append([]string{c}, aclArgs(p("topic"), x, p("literal"), y, z, p("read"), p("alow"))...)...)
		bad(append([]string{c}, aclArgs(p("topic"), x, p("literal"), y, z, p(`re"ad`), p("allow"))...)...)
	}
	return fs
}

func init() {
	caps := map[byte]int{'S': 0}
	all := cliFronts()
	run := func(t *T, f *front, args []string) {
		n := len(t.Cl.Calls)
		var code int
		var lines []string
		if !call(f.name, 30*time.Minute, func() { code, lines = runCLI(args...) }) {
			t.Fail("%s does not return", f.name)
			return
		}
		var err error
		if code != 0 {
			err = fmt.Errorf("exit code %d", code)
		}
		f.judge(t, t.Cl.Calls[n:], []byte(strings.Join(lines, "\n")), err)
	}
	args := func(f *front, b string) []string {
		a := append([]string{f.args[0]}, "-b", b, "-c", "cid")
		return append(a, f.args[1:]...)
	}
	reg(&Scenario{Prop: "P25", Name: "inputs", Fresh: true, Horizon: 6 * time.Hour, Run: func(t *T) {
		f := all[vrt.Input(len(all))]
		cl := frontWorld(t)
		t.Sample = f.name
		run(t, f, args(f, cl.Bootstrap()))
		t.Out("%s", f.name)
		t.CheckBad()
	}})
	// one of every kind of operation under faults
	var few []*front
	seen := map[string]int{}
	for _, f := range all {
		if seen[f.args[0]]++; !f.bad && seen[f.args[0]] <= 2 || len(f.args) > 4 && f.args[4] == "1:2,3:1,2" {
			few = append(few, f)
		}
	}
	reg(&Scenario{Prop: "P25", Name: "faults", Fresh: true, Quick: Bound{Dev: 1, Caps: caps}, Thorough: Bound{Dev: 2, Caps: caps}, Horizon: 6 * time.Hour, Run: func(t *T) {
		f := few[vrt.Input(len(few))]
		cl := frontWorld(t)
		t.Sample = f.name
		t.Faults(adminFaults)
		t.DialFaults(func() bool { return true })
		t.WriteFaults(func() bool { return true })
		run(t, f, args(f, cl.Bootstrap()))
		t.Out("%s", f.name)
		t.CheckBad()
	}})
	// from the n-th request on every broker fails in the same way
	dies := func(t *T) {
		n, w := vrt.Input(12), vrt.Input(4)
		f := []*kfake.Fault{fk("eof", kfake.Fault{Hang: io.EOF}), fk("skip-eof", kfake.Fault{Skip: true, Hang: io.EOF}), fk("silent", kfake.Fault{Drop: true}), fk("cut-eof", kfake.Fault{Partial: -3, Hang: io.EOF})}[w]
		t.Sample = fmt.Sprintf("%s with %s from request %d on", t.Sample, f.Name, n)
		i := 0
		t.Cl.Decide = func(c *kfake.Call) *kfake.Fault {
			if i++; i > n {
				t.nf++
				return f
			}
			return nil
		}
	}
	reg(&Scenario{Prop: "P25", Name: "dies", Fresh: true, Horizon: 6 * time.Hour, Run: func(t *T) {
		f := few[vrt.Input(len(few))]
		cl := frontWorld(t)
		t.Sample = f.name
		dies(t)
		run(t, f, args(f, cl.Bootstrap()))
		t.Out("%s", f.name)
		t.CheckBad()
	}})
	// no cluster
	reg(&Scenario{Prop: "P25", Name: "nowhere", Fresh: true, Horizon: 6 * time.Hour, Run: func(t *T) {
		f := few[vrt.Input(len(few))]
		b := []string{"", "nowhere:1", "b1"}[vrt.Input(3)]
		frontWorld(t)
		t.Sample = fmt.Sprintf("%s with brokers %q", f.name, b)
		if code, _ := runCLI(args(f, b)...); code == 0 {
			t.Fail("%s: exit code 0", t.Sample)
		}
		t.Out("%s", t.Sample)
	}})
	reg(&Scenario{Prop: "P25", Name: "get-metadata", Fresh: true, Quick: Bound{Dev: 1, Caps: caps}, Thorough: Bound{Dev: 2, Caps: caps}, Horizon: 6 * time.Hour, Run: func(t *T) {
		cl := frontWorld(t)
		k := vrt.Input(5)
		a := [][]string{{}, {"-t", "t"}, {"-t", "t,u"}, {"--topics", "u"}, {"-t", "unknown"}}[k]
		topics := [][]string{{"t", "u"}, {"t"}, {"t", "u"}, {"u"}, {"unknown"}}[k]
		cat := vrt.Input(2) == 1
		if cat {
			a = append(a, "--format", "cat")
		}
		t.Sample = fmt.Sprint("get-metadata ", a)
		if vrt.Input(2) == 1 {
			dies(t)
		} else {
			t.Faults(func(c *kfake.Call) []*kfake.Fault {
				if c.Name() == "ApiVersions" {
					return append(netFaults(), errFaults(35)...)
				}
				return append(netFaults(), errFaults(5, 29)...)
			})
			t.DialFaults(func() bool { return true })
			t.WriteFaults(func() bool { return true })
		}
		code, lines := runCLI(append([]string{"get-metadata", "-b", cl.Bootstrap(), "-c", "cid"}, a...)...)
		out := strings.Join(lines, "\n")
		if code != 0 {
			if t.nf == 0 && k != 4 {
				t.Fail("%s: exit code %d", t.Sample, code)
			}
			t.Out("error")
			return
		}
		if cat {
			// the answer of one of the brokers
			for _, c := range cl.Calls {
				if c.Name() != "Metadata" || !c.Done {
					continue
				}
				addr := map[int]string{}
				var w []string
				w = append(w, "brokers:")
				for _, b := range aval(c.Body["brokers"]) {
					b := b.(M)
					addr[num(b["node_id"])] = fmt.Sprintf("%v:%v", b["host"], b["port"])
					w = append(w, fmt.Sprintf("%v %s", b["node_id"], addr[num(b["node_id"])]))
				}
				w = append(w, "topics:")
				var names []string
				for _, tp := range aval(c.Body["topics"]) {
					tp := tp.(M)
					names = append(names, sval(tp["name"]))
					for _, q := range aval(tp["partitions"]) {
						q := q.(M)
						w = append(w, fmt.Sprintf("%v %v %s", tp["name"], q["partition_index"], addr[num(q["leader_id"])]))
					}
				}
				sort.Strings(names)
				if strings.Join(w, "\n") == out && fmt.Sprint(names) == fmt.Sprint(topics) {
					t.Out("ok")
					return
				}
			}
			t.Fail("%s: no broker answered %q", t.Sample, out)
			return
		}
		var r healer.MetadataResponse
		if err := json.Unmarshal([]byte(out), &r); err != nil {
			t.Fail("%s: %v in %.300s", t.Sample, err, out)
			return
		}
		ok := false
		for _, c := range cl.Calls {
			if c.Name() == "Metadata" && c.Done {
				if d, _ := cmpResponse(c.Req.API, c.Req.Ver, r, kref.Normalize(c.Req.API.Resp, c.Req.Ver, c.Body)); d == "" {
					ok = true
				}
			}
		}
		if !ok {
			t.Fail("%s: no broker answered %.400s", t.Sample, out)
		}
		var got []string
		for _, m := range r.TopicMetadatas {
			got = append(got, m.TopicName)
		}
		sort.Strings(got)
		if fmt.Sprint(got) != fmt.Sprint(topics) {
			t.Fail("%s: topics %v, want %v", t.Sample, got, topics)
		}
		t.Out("ok")
	}})
}
