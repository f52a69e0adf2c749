package main

import (
	"bytes"
	"errors"
	"fmt"
	"os"
	"reflect"
	"sort"
	"strings"

	"github.com/childe/healer"
	"github.com/childe/healer/kfake"
	"github.com/childe/healer/kref"
	"github.com/childe/healer/vrt"
)

// respGen makes a response body from the protocol definition.
type respGen struct {
	*gen
	api    *kref.API
	ver    int
	errs   []int16 // error codes that were put in
	errAt  int     // >0: this error_code field (counted from 1) gets errVal
	errVal int16
	errN   int
	noErr  bool // error codes only from errAt
	errAt2 int
	errV2  int16
	nulls  bool // optional values are null
	noLeaf bool // leaf values have their default
}

var assignmentVariants = [][]byte{
	kref.EncodeStruct(kref.AssignmentSchema, M{"topics": A{M{"topic": "t", "partitions": A{int64(0), int64(3)}}}, "user_data": []byte("u")}),
	{},
	{0, 0, 0, 0, 0, 0, 0, 0, 0, 0},
	kref.EncodeStruct(kref.AssignmentSchema, M{}),
}

func (g *respGen) count(depth int) int {
	if g.big > 0 || depth <= 2 {
		return g.n()
	}
	if g.noLeaf {
		return 1
	}
	return [...]int{1, 0, 2}[vrt.Choose(3)]
}

func (g *respGen) leaf(ty, name string) any {
	if g.noLeaf {
		g.k++
		switch ty {
		case "bool":
			return false
		case "string":
			return fmt.Sprintf("s%d", g.k)
		case "bytes":
			if name == "member_assignment" {
				return assignmentVariants[0]
			}
			return []byte("b")
		}
		return int64(g.k)
	}
	switch ty {
	case "bool":
		return g.boolean()
	case "i8":
		return int64(g.i8())
	case "i16":
		return int64(g.i16())
	case "i32":
		return int64(g.i32())
	case "i64":
		return g.i64()
	case "string":
		if name == "name" || name == "topic" { // keys of maps
			return g.name()
		}
		return g.str()
	case "bytes":
		if name == "member_assignment" {
			return assignmentVariants[vrt.Choose(len(assignmentVariants))]
		}
		return g.bytes()
	}
	panic(ty)
}

func (g *respGen) strct(st *kref.Struct, depth int) M {
	m := M{}
	for _, f := range st.Fields {
		if !f.In(g.ver) {
			continue
		}
		switch {
		case f.Name == "error_code":
			g.errN++
			code := int16(0)
			if g.errN == g.errAt {
				code = g.errVal
			} else if g.errN == g.errAt2 {
				code = g.errV2
			} else if !g.noErr {
				code = [...]int16{0, 7, -1, 300}[vrt.Choose(4)]
			}
			if code != 0 {
				g.errs = append(g.errs, code)
			}
			m[f.Name] = int64(code)
		case f.Type == "array":
			arr := A{}
			for i := g.count(depth); i > 0; i-- {
				if f.Elem != nil {
					arr = append(arr, g.strct(f.Elem, depth+1))
				} else {
					arr = append(arr, g.leaf(f.ElemType, f.Name))
				}
			}
			m[f.Name] = arr
		case f.Nullable && !g.noLeaf && vrt.Choose(2) == 1, f.Nullable && g.noLeaf && g.nulls:
			g.k++
			m[f.Name] = nil
		default:
			m[f.Name] = g.leaf(f.Type, f.Name)
		}
	}
	return m
}

// respAlias names the Go field for a protocol field where they differ; a
// field that is not found under its own name or alias is not exposed.
var respAlias = map[string][]string{
	"Produce.responses":                           {"ProduceResponses"},
	"Produce.partition_responses":                 {"Partitions"},
	"Produce.message":                             {"BatchIndexErrorMessage"},
	"Metadata.topics":                             {"TopicMetadatas"},
	"Metadata.partitions":                         {"PartitionMetadatas"},
	"Metadata.error_code":                         {"TopicErrorCode", "PartitionErrorCode"},
	"Metadata.leader_id":                          {"Leader"},
	"Metadata.replica_nodes":                      {"Replicas"},
	"Metadata.isr_nodes":                          {"Isr"},
	"JoinGroup.protocol_name":                     {"GroupProtocol"},
	"JoinGroup.leader":                            {"LeaderID"},
	"JoinGroup.metadata":                          {"MemberMetadata"},
	"SyncGroup.assignment":                        {"MemberAssignment"},
	"DescribeGroups.protocol_data":                {"Protocol"},
	"DescribeGroups.group_state":                  {"State"},
	"DescribeGroups.member_assignment":            {"RawMemberAssignment"},
	"SaslHandshake.mechanisms":                    {"EnabledMechanisms"},
	"SaslAuthenticate.auth_bytes":                 {"SaslAuthBytes"},
	"CreateTopics.topics":                         {"TopicErrors"},
	"DeleteTopics.responses":                      {"Results"},
	"AlterConfigs.responses":                      {"Resources"},
	"IncrementalAlterConfigs.responses":           {"Resources"},
	"DescribeConfigs.results":                     {"Resources"},
	"DescribeConfigs.configs":                     {"ConfigEntries"},
	"DescribeConfigs.name":                        {"ConfigName"},
	"DescribeConfigs.value":                       {"ConfigValue"},
	"DescribeLogDirs.partition_size":              {"Size"},
	"ElectLeaders.partition_result":               {"PartitionResults"},
	"OffsetFetch.committed_offset":                {"Offset"},
	"AlterPartitionReassignments.error_message":   {"ErrorMsg"},
	"ListPartitionReassignments.partition_index":  {"Pid"},
	"AlterPartitionReassignments.partition_index": {"PartitionID"},
	"*.index":           {"PartitionID"},
	"*.partition_index": {"PartitionID", "Partition"},
	"*.name":            {"Name", "Topic", "TopicName"},
}

// skipSeen counts protocol fields the response types do not expose.
var skipSeen = map[string]int{}

func canon(s string) string { return strings.ToLower(strings.ReplaceAll(s, "_", "")) }

// findField finds the Go field of a protocol field, also in embedded or nested single structs.
func findField(v reflect.Value, api, name string) (reflect.Value, bool) {
	cands := append([]string{}, respAlias[api+"."+name]...)
	cands = append(append(cands, name), respAlias["*."+name]...)
	for _, c := range cands {
		for i := 0; i < v.NumField(); i++ {
			if canon(v.Type().Field(i).Name) == canon(c) && v.Type().Field(i).IsExported() {
				return v.Field(i), true
			}
		}
	}
	for i := 0; i < v.NumField(); i++ {
		if f := v.Field(i); f.Kind() == reflect.Struct && v.Type().Field(i).IsExported() && v.Type().Field(i).Name != "ResponseHeader" {
			if r, ok := findField(f, api, name); ok {
				return r, true
			}
		}
	}
	return reflect.Value{}, false
}

type respCmp struct {
	api     *kref.API
	ver     int
	skipped map[string]bool
	diff    string
}

func (c *respCmp) fail(path, format string, a ...any) {
	if c.diff == "" {
		c.diff = path + ": " + fmt.Sprintf(format, a...)
	}
}

func (c *respCmp) prim(v reflect.Value, want any, path string) {
	if v.Kind() == reflect.Pointer {
		if want == nil || v.IsNil() {
			if (want == nil) != v.IsNil() {
				c.fail(path, "null or not differs (sent %s)", kref.Show(want))
			}
			return
		}
		v = v.Elem()
	}
	switch v.Kind() {
	case reflect.String:
		w, _ := want.(string)
		if v.String() != w {
			c.fail(path, "decoded %q, sent %q", v.String(), w)
		}
	case reflect.Bool:
		if w, _ := want.(bool); w != v.Bool() {
			c.fail(path, "decoded %v, sent %v", v.Bool(), w)
		}
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Int:
		if w := kref.ToInt(want); w != v.Int() {
			c.fail(path, "decoded %d, sent %d", v.Int(), w)
		}
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if w := uint64(kref.ToInt(want)) << (64 - v.Type().Bits()) >> (64 - v.Type().Bits()); w != v.Uint() {
			c.fail(path, "decoded %d, sent %d", v.Uint(), w)
		}
	case reflect.Slice:
		w, _ := want.([]byte)
		if v.Type().Elem().Kind() != reflect.Uint8 || !bytes.Equal(v.Bytes(), w) {
			c.fail(path, "decoded %v, sent %v", v, w)
		}
	default:
		c.fail(path, "kind %v", v.Kind())
	}
}

func (c *respCmp) strct(v reflect.Value, st *kref.Struct, want M, path string) {
	for v.Kind() == reflect.Pointer || v.Kind() == reflect.Interface {
		if v.IsNil() {
			c.fail(path, "is nil")
			return
		}
		v = v.Elem()
	}
	for _, f := range st.Fields {
		if !f.In(c.ver) {
			continue
		}
		p := path + "." + f.Name
		if c.api.Name == "ListOffsets" && f.Name == "topics" {
			c.offsets(v, f, want, p)
			continue
		}
		g, ok := findField(v, c.api.Name, f.Name)
		if !ok {
			c.skipped[path+"."+f.Name] = true
			continue
		}
		if f.Type != "array" {
			c.prim(g, want[f.Name], p)
			continue
		}
		arr := kref.ToA(want[f.Name])
		if g.Kind() != reflect.Slice {
			c.fail(p, "kind %v", g.Kind())
			return
		}
		if g.Len() != len(arr) {
			c.fail(p, "decoded %d entries, sent %d", g.Len(), len(arr))
			return
		}
		if c.api.Name == "Metadata" && f.Elem != nil && f.Name != "brokers" { // is sorted by the client
			key := map[string]string{"topics": "name", "partitions": "partition_index"}[f.Name]
			arr = append(A{}, arr...)
			sort.SliceStable(arr, func(i, j int) bool {
				a, b := arr[i].(M)[key], arr[j].(M)[key]
				if s, ok := a.(string); ok {
					return s < b.(string)
				}
				return kref.ToInt(a) < kref.ToInt(b)
			})
		}
		for i := range arr {
			if f.Elem != nil {
				c.strct(g.Index(i), f.Elem, arr[i].(M), fmt.Sprintf("%s[%d]", p, i))
			} else {
				c.prim(g.Index(i), arr[i], fmt.Sprintf("%s[%d]", p, i))
			}
		}
	}
}

// offsets compares the map of a ListOffsets response.
func (c *respCmp) offsets(v reflect.Value, f *kref.Field, want M, path string) {
	m, ok := v.Interface().(healer.OffsetsResponse)
	if !ok {
		c.fail(path, "type %v", v.Type())
		return
	}
	arr := kref.ToA(want[f.Name])
	if len(m.TopicPartitionOffsets) != len(arr) {
		c.fail(path, "decoded %d topics, sent %d", len(m.TopicPartitionOffsets), len(arr))
		return
	}
	for i, x := range arr {
		p := fmt.Sprintf("%s[%d]", path, i)
		ps := m.TopicPartitionOffsets[x.(M)["name"].(string)]
		w := kref.ToA(x.(M)["partitions"])
		if len(ps) != len(w) {
			c.fail(p, "decoded %d partitions, sent %d", len(ps), len(w))
			return
		}
		for j := range ps {
			c.strct(reflect.ValueOf(ps[j]), f.Elem.Fields[1].Elem, w[j].(M), fmt.Sprintf("%s[%d]", p, j))
		}
	}
}

// cmpResponse compares a decoded response with what was sent.
func cmpResponse(api *kref.API, ver int, resp healer.Response, body M) (diff string, skipped map[string]bool) {
	c := &respCmp{api: api, ver: ver, skipped: map[string]bool{}}
	c.strct(reflect.ValueOf(resp), api.Resp, body, api.Name)
	return c.diff, c.skipped
}

// respBroker is a broker that answers the request kind with the body.
func respBroker(t *T, k *wireKind, ver int, extra bool, body *M) *healer.Broker {
	cl := t.Cluster(1)
	cl.Loose = true
	cl.ExtraTags = extra
	api := kref.ByName[k.api]
	only(cl, api.Key, ver)
	cl.Override = func(c *kfake.Call) (M, bool) { return *body, c.Name() == k.api }
	b, err := healer.NewBroker("b1:9091", 1, healer.DefaultBrokerConfig())
	if err != nil {
		t.Fail("NewBroker: %v", err)
		return nil
	}
	return b
}

// kafkaErr checks that err carries one of the codes.
func kafkaErr(err error, codes []int16) bool {
	var ke healer.KafkaError
	if !errors.As(err, &ke) {
		return false
	}
	for _, c := range codes {
		if int16(ke) == c {
			return true
		}
	}
	return false
}

func init() {
	for _, k := range wireKinds {
		k := k
		if k.api == "Fetch" || k.api == "ApiVersions" {
			continue // streamed, see P09; not exposed, see P12
		}
		api := kref.ByName[k.api]
		for _, many := range []bool{false, true} {
			many := many
			name, bound, tb := k.api, 1, 2
			if many {
				name, bound, tb = k.api+"-many", 0, 1
			}
			reg(&Scenario{Prop: "P14", Name: name, Quick: Bound{Dev: bound, Caps: map[byte]int{'S': 0}}, Thorough: Bound{Dev: tb, Caps: map[byte]int{'S': 0}}, Run: func(t *T) {
				ver := k.versions[vrt.Input(len(k.versions))]
				extra := api.FlexAt(ver) && vrt.Input(2) == 1
				var body M
				b := respBroker(t, k, ver, extra, &body)
				if b == nil {
					return
				}
				g := &respGen{gen: &gen{maxN: 2}, api: api, ver: ver}
				if many {
					g.big = 1 + vrt.Input(6)
				}
				body = g.strct(api.Resp, 1)
				req, _ := k.mk(&gen{big: 1000}, "cid")
				resp, err := b.RequestAndGet(req)
				t.CheckBad()
				if err != nil && len(g.errs) == 0 { // see P15 for what an error code leads to
					t.Fail("%s v%d: %s: error %v", api.Name, ver, short(kref.Show(body)), err)
					return
				}
				if err == nil || (resp != nil && !reflect.ValueOf(resp).IsZero()) {
					diff, skipped := cmpResponse(api, ver, resp, body)
					if diff != "" {
						t.Fail("%s v%d: %s: %s", api.Name, ver, short(kref.Show(body)), diff)
					}
					for s := range skipped {
						if skipSeen[s] = skipSeen[s] + 1; skipSeen[s] == 1 && os.Getenv("VERIF_SKIPPED") != "" {
							fmt.Fprintln(os.Stderr, "not exposed:", s)
						}
					}
				}
				t.Out("%s", short(kref.Show(body)))
			}})
		}
	}
}
