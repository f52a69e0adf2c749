#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = state
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("P01", "Partition consumption is ordered, gapless, duplicate-free and byte-exact",
  "A partition consumer started at a given offset delivers exactly the records stored at or after that offset, each once, in offset order, with the stored offset, timestamp, key, value and headers. This holds however the log is cut into batches and fetch responses: any mix of record formats and compression codecs, several batches per response, a response cut off in the middle of a batch, batches that begin before the requested offset, offset gaps left by compaction, empty responses, and any way the network fragments the bytes.",
  ["inputs", "histories"],
  "every log layout of up to 4 small batches (format x codec x gap pattern), every start offset in it, every truncation point of the tail of a fetch response, every single fragmentation point of a response",
  "tests decode a few canned responses; the guarantee is over all batch layouts, cut points and read fragmentations combined with the running consume loop",
  ["simple_consumer.go", "fetch_response.go", "record.go", "message.go"],
  [("fetch loop and offset advance", "simple_consumer.go consumeLoop/consumeMessages"), ("streaming fetch decoder", "fetch_response.go streamDecode"), ("record and message decoding", "record.go DecodeToRecord, message.go DecodeToMessageSet")],
  "next offset to fetch", "message channel returned by Consume; fetch requests seen by the broker")

p("P02", "Consumption survives faults without losing, repeating or reordering records",
  "While a partition consumer runs, any sequence of connection losses, refused connections, timeouts, retriable error codes, leader moves and truncated responses still ends with every record delivered exactly once and in order once the cluster is healthy again. The consumer neither gets stuck, nor crashes, nor skips ahead.",
  ["fault_sequences", "schedules"],
  "every placement of up to 2 faults (EOF, reset, refused dial, silent broker, broken pipe, error codes on fetch/metadata/offset requests, leader move) over the network operations of a consumption run, with scheduler deviations",
  "a test injects one fault at one place; here every network operation of the run is a fault point and the oracle is the delivered stream",
  ["simple_consumer.go", "broker.go", "brokers.go", "fetch_response.go"],
  [("error handling of the consume loop", "simple_consumer.go consumeMessages"), ("reconnect", "broker.go ensureOpen/createConnAndAuth"), ("leader lookup", "brokers.go findLeader/NewBroker")],
  "offset, leader connection", "delivered messages, fetch requests at the brokers")

p("P03", "Committed offsets never run ahead of delivery, and a restart resumes from them",
  "Whatever the timing of automatic commits, explicit commits, delivery and shutdown, the offset committed for a partition never passes a record that was not yet handed to the application and is never smaller than the offset consumption started from; negative offsets are never committed. With automatic commits, everything handed out is committed when the consumer is stopped, or a group member has to join again, while the coordinator accepts commits (a commit that failed is made up for later), so it is not delivered again. A consumer of the same group started without an explicit offset resumes exactly at the committed offset, so no record is lost across a restart.",
  ["schedules", "histories", "fault_sequences"],
  "all placements of commit ticks, explicit commits, consumer stops and commit failures relative to record deliveries (scheduler and timer deviations up to the bound), followed by a restart",
  "commit timing depends on the interleaving of three goroutines and timers; tests check single canned request encodings",
  ["simple_consumer.go", "group_consumer.go", "offset_commit_request.go", "offset_fetch_request.go", "offset_fetch_response.go"],
  [("commit", "simple_consumer.go CommitOffset/commitOffset, group_consumer.go commitOffset"), ("resume", "simple_consumer.go getCommitedOffet")],
  "current offset / committed offset", "OffsetCommit and OffsetFetch requests at the coordinator")

p("P04", "A group member follows the membership protocol through every error and rebalance",
  "A group consumer joins, syncs and heartbeats with the member id and generation the coordinator last gave it, and fetches or commits only partitions assigned to it in the generation it is currently in. On any rebalance, unknown-member, illegal-generation, coordinator-moved or connection error it stops its partition consumers before it rejoins (dropping a member id the coordinator no longer knows and looking the coordinator up again when it moved) and resumes consuming its new assignment; it never gets permanently stuck while the coordinator is reachable.",
  ["histories", "fault_sequences", "schedules"],
  "every sequence of up to 2 coordinator answers (error codes 14,15,16,22,25,27, connection loss) over the join, sync, heartbeat and commit requests of a member, rebalances with changed assignments, with scheduler deviations",
  "protocol histories are combinatorial; the tests stub single calls",
  ["group_consumer.go", "joingroup_request.go", "sync_group_request.go", "heartbeat_request.go", "joingroup_response.go", "sync_group_response.go"],
  [("membership state machine", "group_consumer.go joinAndSync/heartbeat/restart")],
  "member id, generation, assignment", "requests at the coordinator and at partition leaders")

p("P05", "Group assignment gives every partition to exactly one subscribed member, evenly",
  "When a group consumer is elected leader, the assignment it distributes gives every partition of every existing subscribed topic to exactly one member that subscribes to that topic and gives no member a partition of a topic it did not subscribe to. Per topic each member gets a contiguous range of partition ids, in member id order, with sizes differing by at most one; the result depends only on the set of members, subscriptions and partitions, not on the order they are listed in nor on which partitions have a leader at the moment, and every member gets an entry.",
  ["inputs"],
  "all groups of up to 4 members, up to 3 topics with 0..5 partitions, all subscription patterns, all listing orders; groups of up to 13 members with up to 130 partitions, with leaderless partitions and sparse ids",
  "the test checks two examples; the guarantee ranges over all subscription patterns and orders",
  ["assign.go", "group.go", "group_consumer.go"],
  [("range strategy", "assign.go"), ("assignment wire format", "group.go")],
  None, "SyncGroup request sent by the elected leader")

p("P06", "Stopping or closing a consumer always completes and is final",
  "Stop or Close on a partition, multi-partition or group consumer, called at any moment (before, during or after the start of consumption, during a fetch, a rebalance, an error retry or a blocked delivery), returns without crashing: Close and AwaitClose within the given (or default) timeout, Stop once the request in flight is answered or has timed out. After it returns nothing more is delivered and no further fetch or heartbeat reaches a broker, and a group member that had joined has told the coordinator it leaves.",
  ["schedules", "fault_sequences"],
  "all positions of the stop call relative to the steps of the consumer goroutines (scheduler deviations up to the bound), with the application reading or not reading, brokers answering or silent",
  "shutdown races live in specific interleavings of 3-6 goroutines",
  ["simple_consumer.go", "consumer.go", "group_consumer.go", "broker.go"],
  [("stop", "simple_consumer.go Stop, consumer.go AwaitClose, group_consumer.go AwaitClose/leave")],
  "goroutines, connections, membership", "return of Stop/Close, requests at the brokers afterwards")

p("P07", "Producers send every accepted message exactly once, in order, or report failure",
  "Every message a producer accepts reaches the partition leader exactly once, byte for byte, in the order it was accepted, at the latest when the size threshold, the flush interval, an explicit flush or close is reached; if the broker rejects a batch or the connection fails, the AddMessage or Flush call that sent it returns the error (a batch sent by the flush timer or by Close has no caller to tell). This holds for any interleaving of concurrent adds, flushes, the flush timer, metadata refresh and close; after close, adds are refused with the producer-closed error and changing buffers after an add does not change what is sent.",
  ["schedules", "fault_sequences"],
  "2-3 concurrent adders, flush timer, explicit flush and close in all interleavings up to the deviation bound; batch thresholds 1..3; every produce answer (ok, error code, connection loss)",
  "loss and duplication happen only in particular interleavings of add, timer and close",
  ["simple_producer.go", "producer.go"],
  [("record buffer", "simple_producer.go AddMessage/Flush/flush/Close"), ("current producer rotation", "producer.go updateCurrentSimpleProducer/AddMessage")],
  "pending records, closed flag", "produce requests at the leader, errors returned")

p("P08", "Keyed messages go to one partition per key; all messages go to usable partitions",
  "For a fixed set of partitions, all messages with the same key are sent to the same partition, computed from the key bytes alone as the key's hash modulo the number of partitions, and they go to that partition's leader; messages without a key go to a partition the cluster reports as healthy. A message is never sent to a partition that does not exist or to a broker that does not lead it.",
  ["inputs", "configurations"],
  "all keys over a small alphabet up to length 4, partition counts 1..5, all leader placements over 3 brokers, subsets of partitions in error, any metadata listing order",
  "tests never drive the keyed path; the property ranges over keys, partition counts and cluster layouts",
  ["producer.go", "simple_producer.go"],
  [("partition choice", "producer.go getSimpleProducer/getLeaderID/updateCurrentSimpleProducer")],
  None, "produce requests at the brokers")

p("P09", "A caller gets the answer to its own request, never somebody else's",
  "Every request issued on a broker connection is answered with the response the broker produced for that very request, or with an error. This holds with several goroutines sharing a connection, and after any timeout, connection loss, partial, late or mismatched response: bytes left over from an abandoned request are never taken for the answer to a later one.",
  ["schedules", "fault_sequences"],
  "2-3 goroutines issuing 1-2 requests on one shared connection, in all interleavings up to the bound, with one or two of: late answer, lost connection, reset, partial answer, malformed answer, concurrent close",
  "crossed answers need a specific interleaving or a fault in the middle of an answer",
  ["broker.go", "response.go", "brokers.go"],
  [("request serialisation", "broker.go RequestAndGet"), ("connection teardown", "broker.go Close/ensureOpen"), ("response reading", "response.go Read")],
  "connection, pending response bytes", "values returned by requests")

p("P10", "No request is sent on a connection before negotiation and authentication succeed",
  "On every connection, first or re-established, the client completes API version negotiation and, when SASL is configured, the SASL handshake and authentication with the configured credentials, before any other request is sent on it. If any of these steps fails the caller gets an error, the connection is not used for anything else and is closed, and the next request starts again on a new connection; when TLS is configured no connection is made without it.",
  ["fault_sequences", "configurations", "schedules"],
  "sasl on/off x tls on/off x every placement of up to 2 faults (eof, reset, timeout, error code, refused dial) over connection setup, initially and on every reconnect",
  "needs faults during reconnect and concurrent users of the connection",
  ["broker.go", "sasl_handshake_request.go", "sasl_authenticate_request.go", "apiversions_response.go"],
  [("setup", "broker.go createConnAndAuth/sendSaslAuthenticate/newConn"), ("reopen", "broker.go ensureOpen")],
  "connection state", "bytes on every connection at the broker")

p("P11", "No call waits longer than the configured timeouts for a broker",
  "When a broker accepts a connection and stops answering at any point (never answers, sends only part of an answer, stops reading), every request returns a timeout error within the configured timeout for that kind of request, counted from the last byte received, and connecting gives up within the configured connect timeout. The next request on that broker uses a fresh connection and succeeds if the broker answers again.",
  ["fault_sequences", "configurations"],
  "every request kind x every point of silence (before the answer, inside the length prefix, inside the body) x default and per-request timeouts",
  "needs controlled time and silence at every byte position",
  ["broker.go", "response.go", "config.go"],
  [("deadlines", "response.go Read, broker.go requestStreamingly/Request"), ("timeouts configuration", "config.go resetTimeoutMSForEachAPI")],
  None, "virtual time at which calls return")

p("P12", "Each request uses the highest protocol version both sides support",
  "For every kind of request and every combination of version ranges a broker may announce, the version used is the highest one that both the client implements and that broker's announced range contains; the request is encoded and its response decoded in exactly that version. Different brokers of one cluster may announce different ranges, a broker may announce a new range after a reconnect, and a request object that is reused against another broker is encoded for that broker's version.",
  ["configurations"],
  "all announced ranges [lo,hi] in 0..12 for every request kind, pairs of brokers with different ranges, change of range across a reconnect",
  "tests cover one announced range",
  ["broker.go", "request.go", "response.go"],
  [("negotiation", "broker.go getHighestAvailableAPIVersion/Request"), ("header versions", "request.go headerVersion, response.go responseHeaderVersion")],
  None, "request bytes at the broker, decoded response")

p("P13", "Every request on the wire is exactly what the Kafka protocol specifies",
  "For every request kind and every version the client may use, the bytes sent are a complete, correctly framed Kafka request of that version (length prefix, header with api key, version, correlation id and client id, then the body) and decode, by an independent implementation of the protocol, to exactly the values the caller supplied, with nothing missing and nothing left over.",
  ["inputs"],
  "every request kind and negotiable version x all combinations of small field values (0-2 elements per list, empty/short/long strings, null where the protocol allows null, boundary integers)",
  "round trips through the project's own decoder cannot see errors made on both sides; tests cover few versions and shapes",
  ["request.go", "primitive_type_encode.go", "tagged_fields.go", "produce_request.go", "fetch_request.go", "offset_request.go", "metadata_request.go", "create_topics_request.go", "create_partitions_request.go", "describe_configs_request.go", "alter_config_request.go", "delete_acls_request.go", "create_acls_request.go", "describe_acls_request.go"],
  [("encoders", "*_request.go Encode"), ("header", "request.go EncodeTo/WriteTo")],
  None, "request bytes at the broker")

p("P14", "Every response is decoded to exactly the values the broker sent",
  "For every request kind and every version the client may use, a well-formed response of that version is decoded to exactly the values the broker put into it, whatever the number of topics, partitions, members or other entries, and whatever optional fields are null, empty or present.",
  ["inputs"],
  "every response kind and negotiable version x all combinations of 0-2 entries per list, null/empty/non-empty strings and byte fields, boundary integers",
  "tests decode responses produced by the project's own encoders with one entry",
  ["response.go", "primitive_types_decode.go", "metadata_response.go", "produce_response.go", "offset_response.go", "joingroup_response.go", "describe_groups_response.go", "list_groups_response.go", "desscribe_acls_response.go", "describe_configs_response.go", "describe_logdirs_response.go"],
  [("decoders", "*_response.go New*Response")],
  None, "values returned to the caller")

p("P15", "Error codes in responses always reach the caller",
  "If any part of a response (top level, any topic, partition, group, resource or result entry, at any position) carries a non-zero error code, the caller of that request gets an error, and that error identifies the Kafka error code; if no part does, the caller gets no error.",
  ["inputs"],
  "every response kind and version, every position of an error among up to 3 entries, all defined error codes plus an undefined one",
  "tests put one error in one place",
  ["errorcode.go", "response.go", "broker.go", "brokers.go", "offset_commit_response.go", "offset_fetch_response.go", "delete_groups_response.go", "create_topics_response.go"],
  [("Error() of responses", "*_response.go Error"), ("error table", "errorcode.go")],
  None, "error returned to the caller")

p("P16", "What is produced is what is consumed, with every compression codec",
  "A batch of messages sent by a producer, with any mix of keys and values (null, empty, short, long, binary) and with any supported compression type, is a valid record batch (length, checksum, counts, offsets, timestamps) for an independent implementation of the record format, and comes back from a consumer with the same keys and values in the same order.",
  ["inputs"],
  "all batches of 1..3 messages over a small alphabet of keys and values plus sizes around varint boundaries, batch sizes up to 130, all codecs",
  "tests compare two fixed batches with the project's own decoder",
  ["record.go", "simple_producer.go", "compress.go", "fetch_response.go", "produce_request.go"],
  [("record batch encoding", "record.go Encode"), ("compression", "compress*.go"), ("decoding", "fetch_response.go")],
  None, "produce request bytes; consumed messages")

p("P17", "Requests go to the broker responsible for them",
  "Offset lookups and fetches go to the current leader of the partition, group requests to the group's coordinator, and topic, partition, ACL and reassignment administration to the controller, each as the client's current view of the cluster has it; asking for the offsets of all partitions of a topic returns exactly one answer per partition, each obtained from its leader. A request for a broker unknown to the cached cluster view causes the view to be refreshed, and metadata and coordinator lookups succeed as long as one known broker answers.",
  ["configurations", "fault_sequences"],
  "all placements of up to 4 partitions, coordinator and controller over 3 brokers, every subset of brokers down, broker set changes, every order of asking brokers",
  "tests use a single mocked broker",
  ["brokers.go", "client.go", "simple_consumer.go", "group_consumer.go"],
  [("broker lookup", "brokers.go GetBroker/NewBroker/refreshMetadata"), ("offsets of all partitions", "brokers.go RequestOffsets")],
  None, "requests at each broker, values returned")

p("P18", "Administration calls do what was asked or return an error, and never crash",
  "Every administration call (topics, partitions, groups, ACLs, configs, log dirs, reassignments, leader election) sends exactly the operation the caller described, returns the result the cluster reported, and returns an error (never a crash, a hang or a silent success) when the brokers refuse it, answer with an error code, drop the connection or do not answer.",
  ["inputs", "fault_sequences"],
  "every call x small argument shapes x every single fault at every network operation it performs and every error code position",
  "tests mock the transport and check the happy path",
  ["client.go", "brokers.go"],
  [("client calls", "client.go"), ("controller calls", "brokers.go AlterPartitionReassignments/ElectLeaders")],
  None, "requests at the brokers, returned values and errors")

p("P19", "Configuration is applied as given, validated, and not shared between clients",
  "Every option given as a map or as a struct takes effect as given, every option not given keeps its documented default, the map and struct forms are equivalent, and invalid configurations (no bootstrap servers, no group id, unknown compression, non-positive batch count, flush, commit, session or metadata interval, bad offset storage, wrong config type) are refused with an error where the documentation says they are required. Creating or configuring one client never changes the configuration of another or of the defaults.",
  ["configurations", "histories"],
  "every option x several values in both forms, all pairs of options, all sequences of up to 3 client creations",
  "aliasing shows only across sequences of creations; option combinations are combinatorial",
  ["config.go"],
  [("config decoding", "config.go createConsumerConfig/createProducerConfig"), ("per-request timeouts", "config.go resetTimeoutMSForEachAPI")],
  "default configurations", "behaviour on the wire")

p("P20", "A multi-partition consumer consumes exactly the partitions asked for",
  "A consumer given topics consumes every partition of those topics, and one given an explicit assignment consumes exactly the assigned partitions (all of a topic's partitions when none are listed); each from its committed offset when it has one, otherwise from the beginning or the end as configured. All records of each partition are delivered on the returned channel, in order per partition and labelled with the right topic and partition.",
  ["configurations", "schedules"],
  "all assignments over 2 topics with 1..3 partitions, fromBeginning x committed offsets present or not, with scheduler deviations",
  "tests do not run the multi-partition consumer at all",
  ["consumer.go", "simple_consumer.go"],
  [("assignment", "consumer.go Consume/Assign/Subscribe"), ("start offset", "simple_consumer.go Consume/initOffset")],
  None, "delivered messages, fetch requests")

p("P21", "Truncated or corrupt broker data never crashes the client",
  "Whatever bytes a broker answers with (any truncation of a valid response, any length, count or null marker replaced by a boundary value), the process does not crash: the affected call returns an error or a value within its timeouts, a consumer that got a recognisably malformed response goes on and loses no record, and the next request on that broker works.",
  ["inputs", "fault_sequences"],
  "every strict prefix of a valid response of every kind and version, and every 2- and 4-byte field overwritten with boundary values",
  "tests use well-formed responses",
  ["response.go", "fetch_response.go", "record.go", "message.go", "primitive_types_decode.go"],
  [("parsing", "response.go Parse, fetch_response.go streamDecode")],
  None, "panics, returned errors")

p("P22", "Start positions are honoured: earliest, latest, explicit, out-of-range reset",
  "A partition consumer without a committed offset starts at the earliest record when asked for the beginning, after the last record present when asked for the end, and exactly at an explicit offset. When the broker says the offset is out of range, consumption continues from the earliest or the latest available offset according to the same setting, and never from anywhere else.",
  ["histories", "configurations", "fault_sequences"],
  "start position {earliest, latest, explicit} x committed offset {none, valid, out of range} x log ranges x faults on the offset lookups",
  "needs retention moving the log start during consumption and faults on offset lookups",
  ["simple_consumer.go", "offset_request.go", "offset_response.go"],
  [("offset initialisation", "simple_consumer.go initOffset/getOffset"), ("out of range handling", "simple_consumer.go consumeMessages")],
  "offset", "fetch and list-offset requests, delivered messages")

p("P23", "Command line tools report and change offsets exactly",
  "The pending command prints for every partition of the selected group and topic the end offset, the committed offset and their difference (zero when the end is unknown), and totals that are the sums; the reset command commits for exactly the selected partitions exactly the offset the cluster returned for the requested time, and fails without committing anything if that lookup fails or there is no such offset; the offsets command prints every partition once with the leader's answer.",
  ["inputs", "fault_sequences"],
  "all layouts of up to 3 partitions over 2 brokers x committed offsets (none, behind, equal) x requested times x partition selections x a fault at every network operation",
  "no tests drive the commands",
  ["command/healer/cmd/get-pending.go", "command/healer/cmd/reset-offset.go", "command/healer/cmd/get-offsets.go"],
  [("lag computation", "get-pending.go getPending"), ("offset reset", "reset-offset.go")],
  None, "printed output, commit requests at the coordinator")

p("P24", "HTTP API answers truthfully and admits only authorized requests",
  "Every request to the HTTP API is turned into exactly the cluster operation that its path, query and body describe, sent where the cluster needs it; it is answered with status 200 only when the cluster confirmed the operation, with the cluster's own data (metadata, offsets, lag, groups, configurations, acls, reassignments), and otherwise with an error status; a request that cannot be understood gets a client error and sends nothing; concurrent requests to different clusters do not mix; with credentials configured, no request without exactly these credentials has any effect or gets any data, except reading methods when these are allowed; the command fails if it cannot listen or its credentials are unusable.",
  ["inputs", "fault_sequences", "interleavings"],
  "every route x request shapes (valid and malformed) x faults at every network operation; all credentials x authorization headers x methods; two concurrent requests",
  "no tests drive the HTTP server",
  ["command/healer/cmd/api.go", "command/healer/cmd/apicontrollers"],
  [("routes, credentials, CORS", "api.go"), ("operations", "apicontrollers/*.go")],
  None, "HTTP answers, requests at the brokers")

p("P25", "Administration commands do exactly what their arguments say",
  "Every administration command (topics, partitions, configurations, groups, acls, reassignments, leader elections, log directories, metadata) sends exactly the operation that its arguments describe, with every documented name understood and every string taken literally, to the broker that is in charge; it exits with 0 only when the cluster confirmed it, and then prints the cluster's answer; it exits with an error and sends nothing for arguments it cannot understand, and with an error when the cluster cannot be reached, stops answering, or refuses.",
  ["inputs", "fault_sequences"],
  "every command x argument shapes (each enumeration value, each malformed value) x a fault at every network operation x the cluster dying after each request",
  "no tests drive the commands",
  ["command/healer/cmd", "acl_types.go", "client.go"],
  [("commands", "command/healer/cmd/*.go"), ("acl names", "acl_types.go UnmarshalText")],
  None, "exit status, printed output, requests at the brokers")

p("P26", "Console commands move every message, exactly and nothing else",
  "console-producer and simple-producer store every line of their input (up to the maximal line length) as one message without a key, unchanged, in order, in the given partition (or one partition at a time of the topic), and exit with an error if a full batch, or the rest at the end of the input, is not taken; a longer line is refused. simple-consumer, console-consumer and group-consumer print exactly the records of the selected topic, partitions and offsets, in the order of each partition, in the selected format, and end after exactly max-messages records or before stopoffset, whatever single broker failure happens; group-consumer ends on an interrupt, leaves the group, and a later run of the same group prints every record that the first one did not; so do runs of simple-consumer and console-consumer which are given a group.id and no stopoffset. Options given by --config take effect; malformed ones, and missing topics or groups, are refused before anything is sent.",
  ["inputs", "fault_sequences", "histories"],
  "every command x selections x formats x limits x inputs, a fault at every network operation, an interrupt after each request, followed by a second run",
  "no tests drive the commands",
  ["command/healer/cmd", "simple_consumer.go", "consumer.go", "group_consumer.go", "simple_producer.go", "producer.go"],
  [("consumers", "command/healer/cmd/{simple,console,group}-consumer.go"), ("producers", "command/healer/cmd/{simple,console}-producer.go")],
  None, "printed output, exit status, records at the brokers, committed offsets")

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
