package kfake

// admin answers administration requests with a success for every item.
func (cl *Cluster) admin(c *Call, answer func(M)) {
	b := c.Req.Body
	switch c.Name() {
	case "ListGroups":
		gs := A{}
		var names []string
		for n := range cl.Groups {
			names = append(names, n)
		}
		for _, n := range sorted(names) {
			if cl.Coord(n) == c.Node.ID {
				gs = append(gs, M{"group_id": n, "protocol_type": "consumer", "group_state": "Stable", "group_type": "classic"})
			}
		}
		answer(M{"error_code": 0, "groups": gs})
	case "DescribeGroups":
		gs := A{}
		for _, n := range arr(b["groups"]) {
			name := str(n)
			g := cl.Groups[name]
			if g == nil {
				gs = append(gs, M{"error_code": 0, "group_id": name, "group_state": "Dead", "protocol_type": "", "protocol_data": "", "members": A{}})
				continue
			}
			ms := A{}
			for _, id := range g.IDs() {
				m := g.Members[id]
				as := m.Assign
				if as == nil {
					as = []byte{}
				}
				meta := m.Meta
				if meta == nil {
					meta = []byte{}
				}
				ms = append(ms, M{"member_id": id, "client_id": m.ClientID, "client_host": "/10.0.0.1", "member_metadata": meta, "member_assignment": as})
			}
			st := map[int]string{Empty: "Empty", Preparing: "PreparingRebalance", Completing: "CompletingRebalance", Stable: "Stable"}[g.State]
			gs = append(gs, M{"error_code": 0, "group_id": name, "group_state": st, "protocol_type": "consumer", "protocol_data": "range", "members": ms})
		}
		answer(M{"groups": gs})
	case "CreateTopics":
		ts := A{}
		for _, t := range arr(b["topics"]) {
			ts = append(ts, M{"name": t.(M)["name"], "error_code": 0})
		}
		answer(M{"topics": ts})
	case "DeleteTopics":
		ts := A{}
		for _, t := range arr(b["topic_names"]) {
			ts = append(ts, M{"name": t, "error_code": 0})
		}
		answer(M{"responses": ts})
	case "DescribeAcls":
		answer(M{"error_code": 0, "error_message": nil, "resources": A{}})
	case "CreateAcls":
		rs := A{}
		for range arr(b["creations"]) {
			rs = append(rs, M{"error_code": 0, "error_message": nil})
		}
		answer(M{"results": rs})
	case "DeleteAcls":
		rs := A{}
		for range arr(b["filters"]) {
			rs = append(rs, M{"error_code": 0, "error_message": nil, "matching_acls": A{}})
		}
		answer(M{"filter_results": rs})
	case "DescribeConfigs":
		rs := A{}
		for _, r := range arr(b["resources"]) {
			rm := r.(M)
			rs = append(rs, M{"error_code": 0, "error_message": nil, "resource_type": rm["resource_type"], "resource_name": rm["resource_name"],
				"configs": A{M{"name": "retention.ms", "value": "1000", "read_only": false, "is_default": true, "is_sensitive": false}}})
		}
		answer(M{"results": rs})
	case "AlterConfigs", "IncrementalAlterConfigs":
		rs := A{}
		for _, r := range arr(b["resources"]) {
			rm := r.(M)
			rs = append(rs, M{"error_code": 0, "error_message": nil, "resource_type": rm["resource_type"], "resource_name": rm["resource_name"]})
		}
		answer(M{"responses": rs})
	case "DescribeLogDirs":
		if cl.LogDirs != nil {
			answer(M{"results": cl.LogDirs(c.Node)})
			return
		}
		answer(M{"results": A{M{"error_code": 0, "log_dir": "/data", "topics": A{}}}})
	case "CreatePartitions":
		rs := A{}
		for _, t := range arr(b["topics"]) {
			rs = append(rs, M{"name": t.(M)["name"], "error_code": 0, "error_message": nil})
		}
		answer(M{"results": rs})
	case "DeleteGroups":
		rs := A{}
		for _, g := range arr(b["groups_names"]) {
			rs = append(rs, M{"group_id": g, "error_code": 0})
		}
		answer(M{"results": rs})
	case "ElectLeaders":
		rs := A{}
		for _, t := range arr(b["topic_partitions"]) {
			tm := t.(M)
			ps := A{}
			for _, p := range arr(tm["partitions"]) {
				ps = append(ps, M{"partition_id": p, "error_code": 0, "error_message": nil})
			}
			rs = append(rs, M{"topic": tm["topic"], "partition_result": ps})
		}
		answer(M{"error_code": 0, "replica_election_results": rs})
	case "AlterPartitionReassignments":
		rs := A{}
		for _, t := range arr(b["topics"]) {
			tm := t.(M)
			ps := A{}
			for _, p := range arr(tm["partitions"]) {
				ps = append(ps, M{"partition_index": p.(M)["partition_index"], "error_code": 0, "error_message": nil})
			}
			rs = append(rs, M{"name": tm["name"], "partitions": ps})
		}
		answer(M{"error_code": 0, "error_message": nil, "responses": rs})
	case "ListPartitionReassignments":
		answer(M{"error_code": 0, "error_message": nil, "topics": A{}})
	default:
		answer(M{})
	}
}

func sorted(s []string) []string {
	for i := range s {
		for j := i + 1; j < len(s); j++ {
			if s[j] < s[i] {
				s[i], s[j] = s[j], s[i]
			}
		}
	}
	return s
}
