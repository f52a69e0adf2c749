package main

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/childe/healer"
	"github.com/childe/healer/vrt"
)

// gen makes values for requests and responses: array sizes are inputs (all
// combinations are enumerated), leaf values have a distinct default and
// variants, each of which costs one deviation.
type gen struct {
	k    int
	maxN int // arrays have 0..maxN entries
	big  int // >0: the array with this number has 130 entries, all others have one
	cnt  int
}

func (g *gen) n() int {
	g.cnt++
	if g.big > 0 {
		if g.cnt == g.big {
			return 130
		}
		return 1
	}
	return vrt.Input(g.maxN + 1)
}

// flag is a structural yes or no.
func (g *gen) flag() bool {
	if g.big > 0 {
		return true
	}
	return vrt.Input(2) == 1
}

func (g *gen) str() string {
	g.k++
	base := fmt.Sprintf("s%d", g.k)
	switch vrt.Choose(6) {
	case 1:
		return ""
	case 2:
		return base + strings.Repeat("x", 126-len(base))
	case 3:
		return base + strings.Repeat("x", 127-len(base))
	case 4:
		return base + strings.Repeat("y", 411)
	case 5:
		return base + "-é世\x00"
	}
	return base
}

// name is a string that is different for every entry.
func (g *gen) name() string {
	g.k++
	base := fmt.Sprintf("n%d", g.k)
	switch vrt.Choose(4) {
	case 1:
		return base + strings.Repeat("x", 126-len(base))
	case 2:
		return base + strings.Repeat("x", 127-len(base))
	case 3:
		return base + strings.Repeat("y", 20150)
	}
	return base
}

// pstr is a string or null.
func (g *gen) pstr() *string {
	if vrt.Choose(2) == 1 {
		g.k++
		return nil
	}
	s := g.str()
	return &s
}

func (g *gen) i32() int32 {
	g.k++
	return [...]int32{int32(1000 + g.k), 0, -1, 0x7fffffff, -0x80000000, 0x01020304}[vrt.Choose(6)]
}

func (g *gen) i64() int64 {
	g.k++
	return [...]int64{int64(100000 + g.k), 0, -1, -2, 0x7fffffffffffffff, -0x8000000000000000, 0x0102030405060708}[vrt.Choose(7)]
}

func (g *gen) i16() int16 {
	g.k++
	return [...]int16{int16(500 + g.k), 0, -1, 0x7fff, -0x8000}[vrt.Choose(5)]
}

func (g *gen) i8() int8 {
	g.k++
	return [...]int8{int8(20 + g.k%100), 0, -1, 127, -128}[vrt.Choose(5)]
}

func (g *gen) boolean() bool {
	g.k++
	return (vrt.Choose(2) == 1) != (g.k%2 == 0)
}

func (g *gen) bytes() []byte {
	g.k++
	switch vrt.Choose(4) {
	case 1:
		return []byte{}
	case 2:
		return []byte{0, 0xff, 0x80, 1}
	case 3:
		return []byte(strings.Repeat("z", 413))
	}
	return []byte(fmt.Sprintf("b%d", g.k))
}

// id is an int32 that is different for every entry.
func (g *gen) id() int32 { g.k++; return int32(g.k*3 + [...]int{0, 1 << 24, -1 << 30}[vrt.Choose(3)]) }

func (g *gen) ids() []int32 {
	out := []int32{}
	for i := g.n(); i > 0; i-- {
		out = append(out, g.id())
	}
	return out
}

func (g *gen) strs() []string {
	out := []string{}
	for i := g.n(); i > 0; i-- {
		out = append(out, g.str())
	}
	return out
}

func ia(v []int32) A {
	a := A{}
	for _, x := range v {
		a = append(a, x)
	}
	return a
}

func sa(v []string) A {
	a := A{}
	for _, x := range v {
		a = append(a, x)
	}
	return a
}

func ps(s *string) any {
	if s == nil {
		return nil
	}
	return *s
}

// wireKind is one kind of request the client can send: mk makes a request and
// the body it stands for (fields not in the version used are ignored).
type wireKind struct {
	api      string
	versions []int // that the client implements
	clientID bool  // the constructor takes a client id
	unsorted bool  // the request holds a map: entries may be sent in any order
	mk       func(g *gen, cid string) (healer.Request, M)
}

var wireKinds = []*wireKind{
	{api: "Produce", versions: []int{0, 9}, clientID: true, mk: func(g *gen, cid string) (healer.Request, M) {
		r := &healer.ProduceRequest{RequestHeader: &healer.RequestHeader{APIKey: 0, ClientID: &cid}, RequiredAcks: g.i16(), Timeout: g.i32()}
		m := M{"acks": r.RequiredAcks, "timeout_ms": r.Timeout, "transactional_id": nil}
		ts := A{}
		tv := reflect.ValueOf(&r.TopicBlocks).Elem()
		for i := g.n(); i > 0; i-- {
			name := g.str()
			tb := reflect.New(tv.Type().Elem()).Elem()
			tb.FieldByName("TopicName").SetString(name)
			pv := tb.FieldByName("PartitonBlocks")
			parts := A{}
			for k := g.n(); k > 0; k-- {
				id := g.i32()
				pb := reflect.New(pv.Type().Elem()).Elem()
				pb.FieldByName("Partition").SetInt(int64(id))
				pv.Set(reflect.Append(pv, pb))
				parts = append(parts, M{"index": id, "records": []byte{}})
			}
			tv.Set(reflect.Append(tv, tb))
			ts = append(ts, M{"name": name, "partitions": parts})
		}
		m["topics"] = ts
		return r, m
	}},
	{api: "Fetch", versions: []int{0, 7, 10}, clientID: true, unsorted: true, mk: func(g *gen, cid string) (healer.Request, M) {
		r := healer.NewFetchRequest(cid, g.i32(), g.i32())
		r.MaxBytes, r.ISOLationLevel, r.SessionID, r.SessionEpoch = g.i32(), g.i8(), g.i32(), g.i32()
		m := M{"replica_id": int32(-1), "max_wait_ms": r.MaxWaitTime, "min_bytes": r.MinBytes, "max_bytes": r.MaxBytes, "isolation_level": r.ISOLationLevel, "session_id": r.SessionID, "session_epoch": r.SessionEpoch}
		ts, fs := A{}, A{}
		for i := g.n(); i > 0; i-- {
			name := g.name()
			parts := A{}
			var pb []*healer.PartitionBlock
			for k := g.n(); k > 0; k-- {
				b := &healer.PartitionBlock{Partition: g.id(), CurrentLeaderEpoch: g.i32(), FetchOffset: g.i64(), LogStartOffset: g.i64(), MaxBytes: g.i32()}
				pb = append(pb, b)
				parts = append(parts, M{"partition": b.Partition, "current_leader_epoch": b.CurrentLeaderEpoch, "fetch_offset": b.FetchOffset, "log_start_offset": b.LogStartOffset, "partition_max_bytes": b.MaxBytes})
			}
			r.Topics[name] = pb
			ts = append(ts, M{"topic": name, "partitions": parts})
		}
		for i := g.n(); i > 0; i-- {
			name := g.name()
			r.ForgottenTopicsDatas[name] = []int32{g.id()}
			fs = append(fs, M{"topic": name, "partitions": ia(r.ForgottenTopicsDatas[name])})
		}
		m["topics"], m["forgotten"] = ts, fs
		return r, m
	}},
	{api: "ListOffsets", versions: []int{0, 1}, clientID: true, unsorted: true, mk: func(g *gen, cid string) (healer.Request, M) {
		name, ids, at, num := g.str(), g.ids(), g.i64(), g.i32()
		parts := A{}
		for _, id := range ids {
			parts = append(parts, M{"partition_index": id, "timestamp": at, "max_num_offsets": num})
		}
		r := healer.NewOffsetsRequest(name, ids, at, uint32(num), cid)
		ts := A{M{"name": name, "partitions": parts}}
		if g.flag() { // a second topic
			name2 := g.name()
			r.RequestInfo[name2] = map[int32]*healer.PartitionOffsetRequestInfo{}
			parts := A{}
			for i := g.n(); i > 0; i-- {
				id, at, num := g.id(), g.i64(), g.i32()
				r.RequestInfo[name2][id] = &healer.PartitionOffsetRequestInfo{Time: at, MaxNumberOfOffsets: uint32(num)}
				parts = append(parts, M{"partition_index": id, "timestamp": at, "max_num_offsets": num})
			}
			ts = append(ts, M{"name": name2, "partitions": parts})
		}
		return r, M{"replica_id": int32(-1), "topics": ts}
	}},
	{api: "Metadata", versions: []int{1, 4, 7}, clientID: true, mk: func(g *gen, cid string) (healer.Request, M) {
		var names []string
		var ts any
		if g.flag() {
			names = g.strs()
			a := A{}
			for _, s := range names {
				a = append(a, M{"name": s})
			}
			ts = a
		}
		r := healer.NewMetadataRequest(cid, names)
		auto := true
		if vrt.Choose(2) == 1 {
			r.AllowAutoTopicCreation, auto = false, false
		}
		return r, M{"topics": ts, "allow_auto_topic_creation": auto}
	}},
	{api: "OffsetCommit", versions: []int{0, 2}, clientID: true, mk: func(g *gen, cid string) (healer.Request, M) {
		group := g.str()
		r := healer.NewOffsetCommitRequest(uint16(vrt.Choose(3)), cid, group)
		gen, mem, ret := g.i32(), g.str(), g.i64()
		r.SetGenerationID(gen)
		r.SetMemberID(mem)
		r.SetRetentionTime(ret)
		ts := A{}
		for i := g.n(); i > 0; i-- {
			name := g.name()
			parts := A{}
			for k := 1 + g.n(); k > 0; k-- {
				id, off, meta := g.id(), g.i64(), g.str()
				r.AddPartiton(name, id, off, meta)
				parts = append(parts, M{"partition_index": id, "committed_offset": off, "committed_metadata": meta})
			}
			ts = append(ts, M{"name": name, "partitions": parts})
		}
		if len(ts) > 0 && vrt.Choose(2) == 1 { // the same partition again: the last value counts
			p := ts[0].(M)["partitions"].(A)[0].(M)
			p["committed_offset"], p["committed_metadata"] = int64(77), "again"
			r.AddPartiton(ts[0].(M)["name"].(string), p["partition_index"].(int32), 77, "again")
		}
		return r, M{"group_id": group, "generation_id": gen, "member_id": mem, "retention_time_ms": ret, "topics": ts}
	}},
	{api: "OffsetFetch", versions: []int{0, 1}, clientID: true, mk: func(g *gen, cid string) (healer.Request, M) {
		group := g.str()
		r := healer.NewOffsetFetchRequest(uint16(vrt.Choose(2)), cid, group)
		ts := A{}
		for i := g.n(); i > 0; i-- {
			name := g.name()
			parts := A{}
			for k := 1 + g.n(); k > 0; k-- {
				id := g.id()
				r.AddPartiton(name, id)
				parts = append(parts, id)
			}
			ts = append(ts, M{"name": name, "partition_indexes": parts})
		}
		if len(ts) > 0 && vrt.Choose(2) == 1 {
			r.AddPartiton(ts[0].(M)["name"].(string), ts[0].(M)["partition_indexes"].(A)[0].(int32))
		}
		return r, M{"group_id": group, "topics": ts}
	}},
	{api: "FindCoordinator", versions: []int{0}, clientID: true, mk: func(g *gen, cid string) (healer.Request, M) {
		k := g.str()
		return healer.NewFindCoordinatorRequest(cid, k), M{"key": k}
	}},
	{api: "JoinGroup", versions: []int{0}, clientID: true, mk: func(g *gen, cid string) (healer.Request, M) {
		r := healer.NewJoinGroupRequest(uint16(vrt.Choose(3)), cid)
		r.GroupID, r.SessionTimeout, r.RebalanceTimeout, r.MemberID, r.ProtocolType = g.str(), g.i32(), g.i32(), g.str(), g.str()
		ps := A{}
		for i := g.n(); i > 0; i-- {
			p := &healer.GroupProtocol{ProtocolName: g.str(), ProtocolMetadata: g.bytes()}
			r.AddGroupProtocal(p)
			ps = append(ps, M{"name": p.ProtocolName, "metadata": p.ProtocolMetadata})
		}
		return r, M{"group_id": r.GroupID, "session_timeout_ms": r.SessionTimeout, "rebalance_timeout_ms": r.RebalanceTimeout, "member_id": r.MemberID, "protocol_type": r.ProtocolType, "protocols": ps}
	}},
	{api: "Heartbeat", versions: []int{0}, clientID: true, mk: func(g *gen, cid string) (healer.Request, M) {
		a, b, c := g.str(), g.i32(), g.str()
		return healer.NewHeartbeatRequest(cid, a, b, c), M{"group_id": a, "generation_id": b, "member_id": c}
	}},
	{api: "LeaveGroup", versions: []int{0}, clientID: true, mk: func(g *gen, cid string) (healer.Request, M) {
		a, c := g.str(), g.str()
		return healer.NewLeaveGroupRequest(cid, a, c), M{"group_id": a, "member_id": c}
	}},
	{api: "SyncGroup", versions: []int{0}, clientID: true, mk: func(g *gen, cid string) (healer.Request, M) {
		a, b, c := g.str(), g.i32(), g.str()
		var ga healer.GroupAssignment
		as := A{}
		for i := g.n(); i > 0; i-- {
			id, by := g.str(), g.bytes()
			ga = append(ga, struct {
				MemberID         string
				MemberAssignment []byte
			}{id, by})
			as = append(as, M{"member_id": id, "assignment": by})
		}
		return healer.NewSyncGroupRequest(cid, a, b, c, ga), M{"group_id": a, "generation_id": b, "member_id": c, "assignments": as}
	}},
	{api: "DescribeGroups", versions: []int{0}, clientID: true, mk: func(g *gen, cid string) (healer.Request, M) {
		gs := g.strs()
		return healer.NewDescribeGroupsRequest(cid, gs), M{"groups": sa(gs)}
	}},
	{api: "ListGroups", versions: []int{0, 1, 2, 3, 4, 5}, clientID: true, mk: func(g *gen, cid string) (healer.Request, M) {
		r := healer.NewListGroupsRequest(cid)
		a, b := A{}, A{}
		if x := g.strs(); len(x) > 0 {
			r.SetStatesFilter(x)
			a = sa(x)
		}
		if x := g.strs(); len(x) > 0 {
			r.SetTypesFilter(x)
			b = sa(x)
		}
		return r, M{"states_filter": a, "types_filter": b}
	}},
	{api: "SaslHandshake", versions: []int{0, 1}, clientID: true, mk: func(g *gen, cid string) (healer.Request, M) {
		m := g.str()
		return healer.NewSaslHandShakeRequest(cid, m), M{"mechanism": m}
	}},
	{api: "ApiVersions", versions: []int{0}, clientID: true, mk: func(g *gen, cid string) (healer.Request, M) {
		return healer.NewApiVersionsRequest(cid), M{}
	}},
	{api: "CreateTopics", versions: []int{0}, clientID: true, mk: func(g *gen, cid string) (healer.Request, M) {
		to := g.i32()
		r := healer.NewCreateTopicsRequest(cid, uint32(to))
		ts := A{}
		for i := g.n(); i > 0; i-- {
			name, np, rf := g.name(), g.i32(), g.i16()
			r.AddTopic(name, np, rf)
			as, cs := A{}, A{}
			for k := g.n(); k > 0; k-- {
				id, reps := int32(10*k), g.ids() // the highest partition first
				r.AddReplicaAssignment(name, id, reps)
				as = append(as, M{"partition_index": id, "broker_ids": ia(reps)})
			}
			if len(as) > 0 && vrt.Choose(2) == 1 { // the same partition again: the last value counts
				r.AddReplicaAssignment(name, as[0].(M)["partition_index"].(int32), []int32{9, 8})
				as[0].(M)["broker_ids"] = A{int32(9), int32(8)}
			}
			ct := r.CreateTopicRequests[len(r.CreateTopicRequests)-1]
			for k := g.n(); k > 0; k-- {
				e := &healer.ConfigEntry{ConfigName: g.str(), ConfigValue: g.str()}
				ct.ConfigEntries = append(ct.ConfigEntries, e)
				cs = append(cs, M{"name": e.ConfigName, "value": e.ConfigValue})
			}
			ts = append(ts, M{"name": name, "num_partitions": np, "replication_factor": rf, "assignments": as, "configs": cs})
		}
		return r, M{"topics": ts, "timeout_ms": to}
	}},
	{api: "DeleteTopics", versions: []int{0}, clientID: true, mk: func(g *gen, cid string) (healer.Request, M) {
		ts, to := g.strs(), g.i32()
		return healer.NewDeleteTopicsRequest(cid, ts, to), M{"topic_names": sa(ts), "timeout_ms": to}
	}},
	{api: "DescribeAcls", versions: []int{0, 1, 2}, clientID: true, mk: func(g *gen, cid string) (healer.Request, M) {
		r := &healer.DescribeAclsRequest{RequestHeader: healer.RequestHeader{APIKey: 29, ClientID: &cid}}
		r.ResourceType, r.ResourceName, r.PatternType, r.Principal, r.Host = healer.AclsResourceType(g.i8()), g.pstr(), healer.AclsPatternType(g.i8()), g.pstr(), g.pstr()
		r.Operation, r.PermissionType = healer.AclsOperation(g.i8()), healer.AclsPermissionType(g.i8())
		return r, M{"resource_type_filter": int8(r.ResourceType), "resource_name_filter": ps(r.ResourceName), "pattern_type_filter": int8(r.PatternType), "principal_filter": ps(r.Principal), "host_filter": ps(r.Host), "operation": int8(r.Operation), "permission_type": int8(r.PermissionType)}
	}},
	{api: "CreateAcls", versions: []int{0, 1, 2, 3}, clientID: true, mk: func(g *gen, cid string) (healer.Request, M) {
		r := &healer.CreateAclsRequest{RequestHeader: healer.RequestHeader{APIKey: 30, ClientID: &cid}}
		cs := A{}
		for i := g.n(); i > 0; i-- {
			c := healer.AclCreation{ResourceType: healer.AclsResourceType(g.i8()), ResourceName: g.str(), PatternType: healer.AclsPatternType(g.i8()), Principal: g.str(), Host: g.str(), Operation: healer.AclsOperation(g.i8()), PermissionType: healer.AclsPermissionType(g.i8())}
			r.Creations = append(r.Creations, c)
			cs = append(cs, M{"resource_type": int8(c.ResourceType), "resource_name": c.ResourceName, "resource_pattern_type": int8(c.PatternType), "principal": c.Principal, "host": c.Host, "operation": int8(c.Operation), "permission_type": int8(c.PermissionType)})
		}
		return r, M{"creations": cs}
	}},
	{api: "DeleteAcls", versions: []int{0, 1, 2, 3}, clientID: true, mk: func(g *gen, cid string) (healer.Request, M) {
		var fs []*healer.DeleteAclsFilter
		cs := A{}
		for i := g.n(); i > 0; i-- {
			c := &healer.DeleteAclsFilter{ResourceType: healer.AclsResourceType(g.i8()), ResourceName: g.pstr(), PatternType: healer.AclsPatternType(g.i8()), Principal: g.pstr(), Host: g.pstr(), Operation: healer.AclsOperation(g.i8()), PermissionType: healer.AclsPermissionType(g.i8())}
			fs = append(fs, c)
			cs = append(cs, M{"resource_type_filter": int8(c.ResourceType), "resource_name_filter": ps(c.ResourceName), "pattern_type_filter": int8(c.PatternType), "principal_filter": ps(c.Principal), "host_filter": ps(c.Host), "operation": int8(c.Operation), "permission_type": int8(c.PermissionType)})
		}
		return healer.NewDeleteAclsRequest(cid, fs), M{"filters": cs}
	}},
	{api: "DescribeConfigs", versions: []int{0}, clientID: true, mk: func(g *gen, cid string) (healer.Request, M) {
		var rs []*healer.DescribeConfigsRequestResource
		a := A{}
		for i := g.n(); i > 0; i-- {
			x := &healer.DescribeConfigsRequestResource{ResourceType: uint8(g.i8()), ResourceName: g.str()}
			m := M{"resource_type": int8(x.ResourceType), "resource_name": x.ResourceName, "configuration_keys": nil}
			if g.flag() {
				x.ConfigNames = g.strs()
				m["configuration_keys"] = sa(x.ConfigNames)
			}
			rs = append(rs, x)
			a = append(a, m)
		}
		return healer.NewDescribeConfigsRequest(cid, rs), M{"resources": a}
	}},
	{api: "AlterConfigs", versions: []int{0}, clientID: true, mk: func(g *gen, cid string) (healer.Request, M) {
		r := healer.NewAlterConfigsRequest(cid)
		a := A{}
		for i := g.n(); i > 0; i-- {
			ty, name := uint8(g.i8()), g.name()
			cs := A{}
			for k := 1 + g.n(); k > 0; k-- {
				n, v := g.name(), g.str()
				r.AddConfig(ty, name, n, v)
				cs = append(cs, M{"name": n, "value": v})
			}
			a = append(a, M{"resource_type": int8(ty), "resource_name": name, "configs": cs})
		}
		v := g.boolean()
		r.SetValidateOnly(v)
		return r, M{"resources": a, "validate_only": v}
	}},
	{api: "DescribeLogDirs", versions: []int{0}, clientID: true, mk: func(g *gen, cid string) (healer.Request, M) {
		r := healer.NewDescribeLogDirsRequest(cid, nil)
		ts := A{}
		if g.flag() {
			name := g.name()
			r = healer.NewDescribeLogDirsRequest(cid, []string{name})
			ts = append(ts, M{"topic": name, "partitions": A{}})
		}
		for i := g.n(); i > 0; i-- {
			name, id := g.name(), g.id()
			r.AddTopicPartition(name, id)
			r.AddTopicPartition(name, id)
			p := A{id}
			if vrt.Choose(2) == 1 {
				r.AddTopicPartition(name, id+1)
				p = append(p, id+1)
			}
			ts = append(ts, M{"topic": name, "partitions": p})
		}
		return r, M{"topics": ts}
	}},
	{api: "SaslAuthenticate", versions: []int{0}, clientID: true, mk: func(g *gen, cid string) (healer.Request, M) {
		u, p := g.str(), g.str()
		return healer.NewSaslAuthenticateRequest(cid, u, p, []string{"plain", "PLAIN"}[vrt.Choose(2)]), M{"auth_bytes": []byte("\x00" + u + "\x00" + p)}
	}},
	{api: "CreatePartitions", versions: []int{0, 2}, clientID: true, mk: func(g *gen, cid string) (healer.Request, M) {
		to, v := g.i32(), g.boolean()
		r := healer.NewCreatePartitionsRequest(cid, uint32(to), v)
		a := A{}
		for i := g.n(); i > 0; i-- {
			name, cnt := g.str(), g.i32()
			var as [][]int32
			var aa any
			if g.flag() {
				as = [][]int32{}
				x := A{}
				for k := g.n(); k > 0; k-- {
					ids := g.ids()
					as = append(as, ids)
					x = append(x, M{"broker_ids": ia(ids)})
				}
				aa = x
			}
			r.AddTopic(name, cnt, as)
			a = append(a, M{"name": name, "count": cnt, "assignments": aa})
		}
		return r, M{"topics": a, "timeout_ms": to, "validate_only": v}
	}},
	{api: "DeleteGroups", versions: []int{0}, clientID: true, mk: func(g *gen, cid string) (healer.Request, M) {
		gs := g.strs()
		return healer.NewDeleteGroupsRequest(cid, gs), M{"groups_names": sa(gs)}
	}},
	{api: "ElectLeaders", versions: []int{0}, mk: func(g *gen, cid string) (healer.Request, M) {
		to := g.i32()
		r := healer.NewElectLeadersRequest(to)
		a := A{}
		for i := g.n(); i > 0; i-- {
			name := g.name()
			p := A{}
			for k := 1 + g.n(); k > 0; k-- {
				id := g.id()
				r.Add(name, id)
				p = append(p, id)
			}
			a = append(a, M{"topic": name, "partitions": p})
		}
		return &r, M{"topic_partitions": a, "timeout_ms": to}
	}},
	{api: "IncrementalAlterConfigs", versions: []int{0}, clientID: true, mk: func(g *gen, cid string) (healer.Request, M) {
		r := healer.NewIncrementalAlterConfigsRequest(cid)
		a := A{}
		for i := g.n(); i > 0; i-- {
			ty, name := uint8(g.i8()), g.name()
			cs := A{}
			for k := 1 + g.n(); k > 0; k-- {
				n, v := g.name(), g.str()
				r.AddConfig(ty, name, n, v)
				cs = append(cs, M{"name": n, "config_operation": int8(0), "value": v})
			}
			if op := vrt.Choose(4); op > 0 {
				r.Resources[len(r.Resources)-1].Entries[0].Operation = int8(op)
				cs[0].(M)["config_operation"] = int8(op)
			}
			a = append(a, M{"resource_type": int8(ty), "resource_name": name, "configs": cs})
		}
		v := g.boolean()
		r.SetValidateOnly(v)
		return r, M{"resources": a, "validate_only": v}
	}},
	{api: "AlterPartitionReassignments", versions: []int{0}, mk: func(g *gen, cid string) (healer.Request, M) {
		to := g.i32()
		r := healer.NewAlterPartitionReassignmentsRequest(to)
		a := A{}
		for i := g.n(); i > 0; i-- {
			name := g.name()
			p := A{}
			for k := 1 + g.n(); k > 0; k-- {
				id := g.id()
				var reps []int32
				var ra any
				if vrt.Choose(2) == 0 { // otherwise null: cancel the reassignment
					reps = append([]int32{g.id()}, g.ids()...)
					ra = ia(reps)
				}
				r.AddAssignment(name, id, reps)
				p = append(p, M{"partition_index": id, "replicas": ra})
			}
			a = append(a, M{"name": name, "partitions": p})
		}
		return &r, M{"timeout_ms": to, "topics": a}
	}},
	{api: "ListPartitionReassignments", versions: []int{0}, clientID: true, mk: func(g *gen, cid string) (healer.Request, M) {
		to := g.i32()
		r := healer.NewListPartitionReassignmentsRequest(cid, to)
		var ts any
		if n := g.n(); n > 0 {
			a := A{}
			for ; n > 0; n-- {
				name := g.name()
				p := A{}
				for k := 1 + g.n(); k > 0; k-- {
					id := g.id()
					r.AddTP(name, id)
					r.AddTP(name, id)
					p = append(p, id)
				}
				a = append(a, M{"name": name, "partition_indexes": p})
			}
			ts = a
		}
		return r, M{"timeout_ms": to, "topics": ts}
	}},
}
