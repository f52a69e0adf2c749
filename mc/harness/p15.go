package main

import (
	"fmt"
	"reflect"
	"strings"
	"time"

	"github.com/childe/healer"
	"github.com/childe/healer/kfake"
	"github.com/childe/healer/kref"
	"github.com/childe/healer/vrt"
)

// errNames are the names of the error codes -1, 1, 2, ... of the protocol.
var errNames = strings.Fields(`
UNKNOWN_SERVER_ERROR OFFSET_OUT_OF_RANGE CORRUPT_MESSAGE UNKNOWN_TOPIC_OR_PARTITION INVALID_FETCH_SIZE LEADER_NOT_AVAILABLE
NOT_LEADER_OR_FOLLOWER REQUEST_TIMED_OUT BROKER_NOT_AVAILABLE REPLICA_NOT_AVAILABLE MESSAGE_TOO_LARGE STALE_CONTROLLER_EPOCH
OFFSET_METADATA_TOO_LARGE NETWORK_EXCEPTION COORDINATOR_LOAD_IN_PROGRESS COORDINATOR_NOT_AVAILABLE NOT_COORDINATOR INVALID_TOPIC_EXCEPTION
RECORD_LIST_TOO_LARGE NOT_ENOUGH_REPLICAS NOT_ENOUGH_REPLICAS_AFTER_APPEND INVALID_REQUIRED_ACKS ILLEGAL_GENERATION INCONSISTENT_GROUP_PROTOCOL
INVALID_GROUP_ID UNKNOWN_MEMBER_ID INVALID_SESSION_TIMEOUT REBALANCE_IN_PROGRESS INVALID_COMMIT_OFFSET_SIZE TOPIC_AUTHORIZATION_FAILED
GROUP_AUTHORIZATION_FAILED CLUSTER_AUTHORIZATION_FAILED INVALID_TIMESTAMP UNSUPPORTED_SASL_MECHANISM ILLEGAL_SASL_STATE UNSUPPORTED_VERSION
TOPIC_ALREADY_EXISTS INVALID_PARTITIONS INVALID_REPLICATION_FACTOR INVALID_REPLICA_ASSIGNMENT INVALID_CONFIG NOT_CONTROLLER
INVALID_REQUEST UNSUPPORTED_FOR_MESSAGE_FORMAT POLICY_VIOLATION OUT_OF_ORDER_SEQUENCE_NUMBER DUPLICATE_SEQUENCE_NUMBER INVALID_PRODUCER_EPOCH
INVALID_TXN_STATE INVALID_PRODUCER_ID_MAPPING INVALID_TRANSACTION_TIMEOUT CONCURRENT_TRANSACTIONS TRANSACTION_COORDINATOR_FENCED TRANSACTIONAL_ID_AUTHORIZATION_FAILED
SECURITY_DISABLED OPERATION_NOT_ATTEMPTED KAFKA_STORAGE_ERROR LOG_DIR_NOT_FOUND SASL_AUTHENTICATION_FAILED UNKNOWN_PRODUCER_ID
REASSIGNMENT_IN_PROGRESS DELEGATION_TOKEN_AUTH_DISABLED DELEGATION_TOKEN_NOT_FOUND DELEGATION_TOKEN_OWNER_MISMATCH DELEGATION_TOKEN_REQUEST_NOT_ALLOWED DELEGATION_TOKEN_AUTHORIZATION_FAILED
DELEGATION_TOKEN_EXPIRED INVALID_PRINCIPAL_TYPE NON_EMPTY_GROUP GROUP_ID_NOT_FOUND FETCH_SESSION_ID_NOT_FOUND INVALID_FETCH_SESSION_EPOCH
LISTENER_NOT_FOUND TOPIC_DELETION_DISABLED FENCED_LEADER_EPOCH UNKNOWN_LEADER_EPOCH UNSUPPORTED_COMPRESSION_TYPE STALE_BROKER_EPOCH
OFFSET_NOT_AVAILABLE MEMBER_ID_REQUIRED PREFERRED_LEADER_NOT_AVAILABLE GROUP_MAX_SIZE_REACHED FENCED_INSTANCE_ID ELIGIBLE_LEADERS_NOT_AVAILABLE
ELECTION_NOT_NEEDED NO_REASSIGNMENT_IN_PROGRESS GROUP_SUBSCRIBED_TO_TOPIC INVALID_RECORD UNSTABLE_OFFSET_COMMIT THROTTLING_QUOTA_EXCEEDED
PRODUCER_FENCED RESOURCE_NOT_FOUND DUPLICATE_RESOURCE UNACCEPTABLE_CREDENTIAL INCONSISTENT_VOTER_SET INVALID_UPDATE_VERSION
FEATURE_UPDATE_FAILED PRINCIPAL_DESERIALIZATION_FAILURE SNAPSHOT_NOT_FOUND POSITION_OUT_OF_RANGE UNKNOWN_TOPIC_ID DUPLICATE_BROKER_REGISTRATION
BROKER_ID_NOT_REGISTERED INCONSISTENT_TOPIC_ID INCONSISTENT_CLUSTER_ID TRANSACTIONAL_ID_NOT_FOUND FETCH_SESSION_TOPIC_ID_ERROR INELIGIBLE_REPLICA
NEW_LEADER_ELECTED OFFSET_MOVED_TO_TIERED_STORAGE FENCED_MEMBER_EPOCH UNRELEASED_INSTANCE_ID UNSUPPORTED_ASSIGNOR STALE_MEMBER_EPOCH
MISMATCHED_ENDPOINT_TYPE UNSUPPORTED_ENDPOINT_TYPE UNKNOWN_CONTROLLER_ID UNKNOWN_SUBSCRIPTION_ID TELEMETRY_TOO_LARGE INVALID_REGISTRATION`)

// errCodes are all defined error codes and some undefined ones.
var errCodes = func() (out []int16) {
	for i := range errNames {
		if i == 0 {
			out = append(out, -1)
		} else {
			out = append(out, int16(i))
		}
	}
	return append(out, -2, 999, 0x7fff, -0x8000)
}()

// hasErr reports whether the response has an error code in a version.
func hasErr(st *kref.Struct, ver int) bool {
	for _, f := range st.Fields {
		if f.In(ver) && (f.Name == "error_code" || f.Elem != nil && hasErr(f.Elem, ver)) {
			return true
		}
	}
	return false
}

func init() {
	for _, k := range wireKinds {
		k := k
		if k.api == "Fetch" || k.api == "ApiVersions" {
			continue // Fetch: see P01 and P22; ApiVersions: see P10
		}
		api := kref.ByName[k.api]
		if !hasErr(api.Resp, k.versions[len(k.versions)-1]) {
			continue
		}
		run := func(t *T, codes func(g *respGen), maxN int) {
			ver := k.versions[vrt.Input(len(k.versions))]
			var body M
			b := respBroker(t, k, ver, false, &body)
			if b == nil {
				return
			}
			g := &respGen{gen: &gen{maxN: maxN}, api: api, ver: ver, noErr: true, noLeaf: true}
			g.nulls = vrt.Input(2) == 1
			codes(g)
			body = g.strct(api.Resp, 1)
			if g.errAt > g.errN || g.errAt2 > g.errN {
				t.Trivial()
				return
			}
			req, _ := k.mk(&gen{big: 1000}, "cid")
			resp, err := b.RequestAndGet(req)
			t.CheckBad()
			switch {
			case len(g.errs) == 0 && err != nil:
				t.Fail("%s v%d: %s: error %v", api.Name, ver, short(kref.Show(body)), err)
			case len(g.errs) == 0 && (resp == nil || reflect.ValueOf(resp).Kind() == reflect.Pointer && reflect.ValueOf(resp).IsNil()):
				t.Fail("%s v%d: %s: no response", api.Name, ver, short(kref.Show(body)))
			case len(g.errs) > 0 && err == nil:
				t.Fail("%s v%d: %s: no error", api.Name, ver, short(kref.Show(body)))
			case len(g.errs) > 0 && !kafkaErr(err, g.errs):
				t.Fail("%s v%d: %s: the error does not identify the code: %v", api.Name, ver, short(kref.Show(body)), err)
			}
			t.Out("%v %s", g.errs, short(kref.Show(body)))
		}
		// every code at every position of every shape
		reg(&Scenario{Prop: "P15", Name: "one-" + k.api, Quick: Bound{Dev: 0}, Thorough: Bound{Dev: 0}, Run: func(t *T) {
			run(t, func(g *respGen) {
				g.errAt = vrt.Input(9)
				if g.errAt > 0 {
					if t.tier == "quick" {
						g.errVal = []int16{-1, 3, 16, 41, 60, 119, 999, -0x8000}[vrt.Input(8)]
					} else {
						g.errVal = errCodes[vrt.Input(len(errCodes))]
					}
				}
			}, 2)
		}})
		// every code
		reg(&Scenario{Prop: "P15", Name: "codes-" + k.api, Quick: Bound{Dev: 0}, Thorough: Bound{Dev: 0}, Run: func(t *T) {
			run(t, func(g *respGen) {
				g.big = 1000
				g.errAt, g.errVal = 1+vrt.Input(4), errCodes[vrt.Input(len(errCodes))]
			}, 2)
		}})
		// two errors
		reg(&Scenario{Prop: "P15", Name: "two-" + k.api, Quick: Bound{Dev: 0}, Thorough: Bound{Dev: 0}, Run: func(t *T) {
			run(t, func(g *respGen) {
				g.errAt = 1 + vrt.Input(8)
				g.errAt2 = g.errAt + 1 + vrt.Input(3)
				g.errVal, g.errV2 = 3, []int16{-1, 7, 999}[vrt.Input(3)]
			}, 2)
		}})
	}
	// the calls a user makes: an error code in the answers reaches the caller
	brokersCalls := []struct {
		name string
		do   func(bs *healer.Brokers) (any, error)
	}{
		{"RequestMetaData", func(bs *healer.Brokers) (any, error) { return bs.RequestMetaData("cid", []string{"t"}) }},
		{"RequestMetaData all", func(bs *healer.Brokers) (any, error) { return bs.RequestMetaData("cid", nil) }},
		{"FindCoordinator", func(bs *healer.Brokers) (any, error) { return bs.FindCoordinator("cid", "g2") }},
		{"RequestOffsets", func(bs *healer.Brokers) (any, error) { return bs.RequestOffsets("cid", "t", 1, -1, 1) }},
		{"RequestOffsets all", func(bs *healer.Brokers) (any, error) { return bs.RequestOffsets("cid", "t", -1, -2, 1) }},
		{"Request", func(bs *healer.Brokers) (any, error) {
			return bs.Request(healer.NewFindCoordinatorRequest("cid", "g2"))
		}},
		{"Request metadata", func(bs *healer.Brokers) (any, error) {
			return bs.Request(healer.NewMetadataRequest("cid", []string{"t"}))
		}},
		{"AlterPartitionReassignments", func(bs *healer.Brokers) (any, error) {
			r := healer.NewAlterPartitionReassignmentsRequest(3000)
			r.AddAssignment("t", 1, []int32{1, 3})
			return bs.AlterPartitionReassignments(&r)
		}},
		{"ElectLeaders", func(bs *healer.Brokers) (any, error) {
			r := healer.NewElectLeadersRequest(3000)
			r.Add("t", 1)
			return bs.ElectLeaders(&r)
		}},
	}
	reg(&Scenario{Prop: "P15", Name: "calls", Quick: Bound{Dev: 0}, Thorough: Bound{Dev: 1, Caps: map[byte]int{'S': 0}}, Horizon: 2 * time.Hour, Run: func(t *T) {
		cl := adminWorld(t)
		var name string
		var do func() (any, error)
		if i := vrt.Input(len(adminCalls) + len(brokersCalls)); i < len(adminCalls) {
			a := adminCalls[i]
			shape := vrt.Input(a.shapes)
			name = fmt.Sprintf("%s shape %d", a.name, shape)
			c, err := healer.NewClient(cl.Bootstrap(), "cid")
			if err != nil {
				t.Fail("NewClient: %v", err)
				return
			}
			do = func() (any, error) { return a.do(c, shape) }
		} else {
			b := brokersCalls[i-len(adminCalls)]
			name = b.name
			bs := brokersOf(t, cl)
			if bs == nil {
				return
			}
			do = func() (any, error) { return b.do(bs) }
		}
		code := []int16{-1, 3, 5, 9, 15, 16, 29, 41, 999}[vrt.Input(9)]
		// from the at-th request on, whatever it is: all the answers, or the
		// last error code in them
		at, last := vrt.Input(4), vrt.Input(2) == 1
		n, hit := 0, ""
		cl.Decide = func(c *kfake.Call) *kfake.Fault {
			if c.Name() == "ApiVersions" {
				return nil
			}
			n++
			if n <= at || hit != "" && hit != c.Name() {
				return nil
			}
			hit = c.Name()
			if last {
				return fk("lasterr", kfake.Fault{Mutate: func(c *kfake.Call) {
					if lastErr(c.Body, int(code)) {
						c.Err = code
					}
				}})
			}
			return errFaults(code)[0]
		}
		t.Sample = fmt.Sprintf("%s: error %d from request %d on, last %v", name, code, at+1, last)
		from := len(cl.Calls)
		var res any
		var err error
		if !call(name, 10*time.Minute, func() { res, err = do() }) {
			t.Fail("%s does not return", name)
			return
		}
		bad := 0
		for _, c := range cl.Calls[from:] {
			if c.Err == code {
				bad++
			}
		}
		switch {
		case bad == 0 && err != nil:
			t.Fail("%s: error %v though the brokers answered without one", name, err)
		case bad > 0 && err == nil:
			t.Fail("%s: no error though %s was answered with %d", name, hit, code)
		case bad > 0 && !kafkaErr(err, []int16{code}):
			t.Fail("%s: %s was answered with %d, which the error does not identify: %v", name, hit, code, err)
		}
		t.Out("%s %s %v %v", name, hit, bad > 0, res != nil)
		t.CheckBad()
	}})

	// what an error says
	reg(&Scenario{Prop: "P15", Name: "text", Quick: Bound{Dev: 0}, Thorough: Bound{Dev: 0}, Run: func(t *T) {
		i := vrt.Input(len(errCodes))
		e := healer.KafkaError(errCodes[i])
		if i < len(errNames) && !strings.Contains(e.Error(), errNames[i]) {
			t.Fail("error code %d is reported as %q, want %s", errCodes[i], e.Error(), errNames[i])
		}
		for j, n := range errNames {
			if j != i && strings.HasPrefix(e.Error(), n+":") {
				t.Fail("error code %d is reported as %q", errCodes[i], e.Error())
			}
		}
		t.Out("%d", errCodes[i])
	}})
}
