package kref

// APIs is the protocol definition of every request kind the client knows.
var APIs []*API

// ByKey finds an API.
var ByKey = map[int]*API{}

// ByName finds an API.
var ByName = map[string]*API{}

func def(key int, name string, flex int, versions []int, req, resp string) {
	a := &API{Key: key, Name: name, Flex: flex, Versions: versions, Req: parseStruct(req), Resp: parseStruct(resp)}
	APIs = append(APIs, a)
	ByKey[key] = a
	ByName[name] = a
}

const never = 1 << 20

func init() {
	def(0, "Produce", 9, []int{0, 9},
		"transactional_id:?string@3+ acks:i16 timeout_ms:i32 topics: [ name:string partitions: [ index:i32 records:?bytes ] ]",
		"responses: [ name:string partition_responses: [ index:i32 error_code:i16 base_offset:i64 log_append_time_ms:i64@2+ log_start_offset:i64@5+ record_errors: [ batch_index:i32 message:?string ] @8+ error_message:?string@8+ ] ] throttle_time_ms:i32@1+")
	def(1, "Fetch", 12, []int{0, 7, 10},
		"replica_id:i32 max_wait_ms:i32 min_bytes:i32 max_bytes:i32@3+ isolation_level:i8@4+ session_id:i32@7+ session_epoch:i32@7+ topics: [ topic:string partitions: [ partition:i32 current_leader_epoch:i32@9+ fetch_offset:i64 log_start_offset:i64@5+ partition_max_bytes:i32 ] ] forgotten: [ topic:string partitions: [ i32 ] ] @7+ rack_id:string@11+",
		"throttle_time_ms:i32@1+ error_code:i16@7+ session_id:i32@7+ responses: [ topic:string partitions: [ partition_index:i32 error_code:i16 high_watermark:i64 last_stable_offset:i64@4+ log_start_offset:i64@5+ aborted_transactions:? [ producer_id:i64 first_offset:i64 ] @4+ preferred_read_replica:i32@11+ records:?bytes ] ]")
	def(2, "ListOffsets", 6, []int{0, 1},
		"replica_id:i32 isolation_level:i8@2+ topics: [ name:string partitions: [ partition_index:i32 current_leader_epoch:i32@4+ timestamp:i64 max_num_offsets:i32@0-0 ] ]",
		"throttle_time_ms:i32@2+ topics: [ name:string partitions: [ partition_index:i32 error_code:i16 old_style_offsets: [ i64 ] @0-0 timestamp:i64@1+ offset:i64@1+ leader_epoch:i32@4+ ] ]")
	def(3, "Metadata", 9, []int{1, 4, 7},
		"topics:? [ name:string ] allow_auto_topic_creation:bool@4+",
		"throttle_time_ms:i32@3+ brokers: [ node_id:i32 host:string port:i32 rack:?string@1+ ] cluster_id:?string@2+ controller_id:i32@1+ topics: [ error_code:i16 name:string is_internal:bool@1+ partitions: [ error_code:i16 partition_index:i32 leader_id:i32 leader_epoch:i32@7+ replica_nodes: [ i32 ] isr_nodes: [ i32 ] offline_replicas: [ i32 ] @5+ ] ]")
	def(8, "OffsetCommit", 8, []int{0, 2},
		"group_id:string generation_id:i32@1+ member_id:string@1+ retention_time_ms:i64@2-4 topics: [ name:string partitions: [ partition_index:i32 committed_offset:i64 commit_timestamp:i64@1-1 committed_metadata:?string ] ]",
		"throttle_time_ms:i32@3+ topics: [ name:string partitions: [ partition_index:i32 error_code:i16 ] ]")
	def(9, "OffsetFetch", 6, []int{0, 1},
		"group_id:string topics: [ name:string partition_indexes: [ i32 ] ]",
		"throttle_time_ms:i32@3+ topics: [ name:string partitions: [ partition_index:i32 committed_offset:i64 metadata:?string error_code:i16 ] ] error_code:i16@2+")
	def(10, "FindCoordinator", 3, []int{0},
		"key:string",
		"error_code:i16 node_id:i32 host:string port:i32")
	def(11, "JoinGroup", 6, []int{0},
		"group_id:string session_timeout_ms:i32 rebalance_timeout_ms:i32@1+ member_id:string protocol_type:string protocols: [ name:string metadata:bytes ]",
		"throttle_time_ms:i32@2+ error_code:i16 generation_id:i32 protocol_name:string leader:string member_id:string members: [ member_id:string metadata:bytes ]")
	def(12, "Heartbeat", 4, []int{0},
		"group_id:string generation_id:i32 member_id:string",
		"throttle_time_ms:i32@1+ error_code:i16")
	def(13, "LeaveGroup", 4, []int{0},
		"group_id:string member_id:string",
		"throttle_time_ms:i32@1+ error_code:i16")
	def(14, "SyncGroup", 4, []int{0},
		"group_id:string generation_id:i32 member_id:string assignments: [ member_id:string assignment:bytes ]",
		"throttle_time_ms:i32@1+ error_code:i16 assignment:bytes")
	def(15, "DescribeGroups", 5, []int{0},
		"groups: [ string ]",
		"throttle_time_ms:i32@1+ groups: [ error_code:i16 group_id:string group_state:string protocol_type:string protocol_data:string members: [ member_id:string client_id:string client_host:string member_metadata:bytes member_assignment:bytes ] ]")
	def(16, "ListGroups", 3, []int{0, 1, 2, 3, 4, 5},
		"states_filter: [ string ] @4+ types_filter: [ string ] @5+",
		"throttle_time_ms:i32@1+ error_code:i16 groups: [ group_id:string protocol_type:string group_state:string@4+ group_type:string@5+ ]")
	def(17, "SaslHandshake", never, []int{0, 1},
		"mechanism:string",
		"error_code:i16 mechanisms: [ string ]")
	def(18, "ApiVersions", 3, []int{0},
		"",
		"error_code:i16 api_keys: [ api_key:i16 min_version:i16 max_version:i16 ] throttle_time_ms:i32@1+")
	def(19, "CreateTopics", 5, []int{0},
		"topics: [ name:string num_partitions:i32 replication_factor:i16 assignments: [ partition_index:i32 broker_ids: [ i32 ] ] configs: [ name:string value:?string ] ] timeout_ms:i32 validate_only:bool@1+",
		"throttle_time_ms:i32@2+ topics: [ name:string error_code:i16 error_message:?string@1+ ]")
	def(20, "DeleteTopics", 4, []int{0},
		"topic_names: [ string ] timeout_ms:i32",
		"throttle_time_ms:i32@1+ responses: [ name:string error_code:i16 ]")
	def(29, "DescribeAcls", 2, []int{0, 1, 2},
		"resource_type_filter:i8 resource_name_filter:?string pattern_type_filter:i8@1+ principal_filter:?string host_filter:?string operation:i8 permission_type:i8",
		"throttle_time_ms:i32 error_code:i16 error_message:?string resources: [ resource_type:i8 resource_name:string pattern_type:i8@1+ acls: [ principal:string host:string operation:i8 permission_type:i8 ] ]")
	def(30, "CreateAcls", 2, []int{0, 1, 2, 3},
		"creations: [ resource_type:i8 resource_name:string resource_pattern_type:i8@1+ principal:string host:string operation:i8 permission_type:i8 ]",
		"throttle_time_ms:i32 results: [ error_code:i16 error_message:?string ]")
	def(31, "DeleteAcls", 2, []int{0, 1, 2, 3},
		"filters: [ resource_type_filter:i8 resource_name_filter:?string pattern_type_filter:i8@1+ principal_filter:?string host_filter:?string operation:i8 permission_type:i8 ]",
		"throttle_time_ms:i32 filter_results: [ error_code:i16 error_message:?string matching_acls: [ error_code:i16 error_message:?string resource_type:i8 resource_name:string pattern_type:i8@1+ principal:string host:string operation:i8 permission_type:i8 ] ]")
	def(32, "DescribeConfigs", 4, []int{0},
		"resources: [ resource_type:i8 resource_name:string configuration_keys:? [ string ] ]",
		"throttle_time_ms:i32 results: [ error_code:i16 error_message:?string resource_type:i8 resource_name:string configs: [ name:string value:?string read_only:bool is_default:bool@0-0 is_sensitive:bool ] ]")
	def(33, "AlterConfigs", 2, []int{0},
		"resources: [ resource_type:i8 resource_name:string configs: [ name:string value:?string ] ] validate_only:bool",
		"throttle_time_ms:i32 responses: [ error_code:i16 error_message:?string resource_type:i8 resource_name:string ]")
	def(35, "DescribeLogDirs", 2, []int{0},
		"topics:? [ topic:string partitions: [ i32 ] ]",
		"throttle_time_ms:i32 results: [ error_code:i16 log_dir:string topics: [ name:string partitions: [ partition_index:i32 partition_size:i64 offset_lag:i64 is_future_key:bool ] ] ]")
	def(36, "SaslAuthenticate", 2, []int{0},
		"auth_bytes:bytes",
		"error_code:i16 error_message:?string auth_bytes:bytes session_lifetime_ms:i64@1+")
	def(37, "CreatePartitions", 2, []int{0, 2},
		"topics: [ name:string count:i32 assignments:? [ broker_ids: [ i32 ] ] ] timeout_ms:i32 validate_only:bool",
		"throttle_time_ms:i32 results: [ name:string error_code:i16 error_message:?string ]")
	def(42, "DeleteGroups", 2, []int{0},
		"groups_names: [ string ]",
		"throttle_time_ms:i32 results: [ group_id:string error_code:i16 ]")
	def(43, "ElectLeaders", 2, []int{0},
		"election_type:i8@1+ topic_partitions:? [ topic:string partitions: [ i32 ] ] timeout_ms:i32",
		"throttle_time_ms:i32 error_code:i16@1+ replica_election_results: [ topic:string partition_result: [ partition_id:i32 error_code:i16 error_message:?string ] ]")
	def(44, "IncrementalAlterConfigs", 1, []int{0},
		"resources: [ resource_type:i8 resource_name:string configs: [ name:string config_operation:i8 value:?string ] ] validate_only:bool",
		"throttle_time_ms:i32 responses: [ error_code:i16 error_message:?string resource_type:i8 resource_name:string ]")
	def(45, "AlterPartitionReassignments", 0, []int{0},
		"timeout_ms:i32 topics: [ name:string partitions: [ partition_index:i32 replicas:? [ i32 ] ] ]",
		"throttle_time_ms:i32 error_code:i16 error_message:?string responses: [ name:string partitions: [ partition_index:i32 error_code:i16 error_message:?string ] ]")
	def(46, "ListPartitionReassignments", 0, []int{0},
		"timeout_ms:i32 topics:? [ name:string partition_indexes: [ i32 ] ]",
		"throttle_time_ms:i32 error_code:i16 error_message:?string topics: [ name:string partitions: [ partition_index:i32 replicas: [ i32 ] adding_replicas: [ i32 ] removing_replicas: [ i32 ] ] ]")
}
