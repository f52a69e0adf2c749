package kfake

import (
	"encoding/binary"
	"fmt"
	"time"

	"github.com/childe/healer/kref"
	"github.com/childe/healer/vrt"
)

func str(v any) string { s, _ := v.(string); return s }

func arr(v any) A { a, _ := v.(A); return a }

// setErr sets every error_code of a body.
func setErr(v any, code int16) {
	switch x := v.(type) {
	case M:
		for k, e := range x {
			if k == "error_code" {
				x[k] = int(code)
			} else {
				setErr(e, code)
			}
		}
	case A:
		for _, e := range x {
			setErr(e, code)
		}
	}
}

// SetErr sets every error code in a body.
func SetErr(v any, code int16) { setErr(v, code) }

// errorBody is an answer in which the request was refused with code.
func (cl *Cluster) errorBody(c *Call, code int16) M {
	b := c.Req.Body
	e := int(code)
	switch c.Name() {
	case "Produce":
		return cl.produceBody(c, func(topic string, idx int64) M {
			return M{"index": idx, "error_code": e, "base_offset": -1, "log_append_time_ms": -1, "log_start_offset": -1}
		})
	case "Fetch":
		var ts A
		for _, t := range arr(b["topics"]) {
			tm := t.(M)
			var ps A
			for _, p := range arr(tm["partitions"]) {
				ps = append(ps, M{"partition_index": p.(M)["partition"], "error_code": e, "high_watermark": -1, "last_stable_offset": -1, "log_start_offset": -1, "aborted_transactions": A{}, "records": []byte{}})
			}
			ts = append(ts, M{"topic": tm["topic"], "partitions": ps})
		}
		return M{"responses": ts}
	case "ListOffsets":
		return cl.listOffsetsBody(c, func(p *Part, ts int64) (int, int64) { return e, -1 })
	case "Metadata":
		body := cl.metadataBody(c)
		for _, t := range arr(body["topics"]) {
			t.(M)["error_code"] = e
			t.(M)["partitions"] = A{}
		}
		return body
	case "OffsetCommit":
		return cl.commitBody(c, e)
	case "OffsetFetch":
		return cl.offsetFetchBody(c, e)
	case "FindCoordinator":
		return M{"error_code": e, "node_id": -1, "host": "", "port": -1}
	case "JoinGroup":
		return M{"error_code": e, "generation_id": -1, "protocol_name": "", "leader": "", "member_id": b["member_id"], "members": A{}}
	case "SyncGroup":
		return M{"error_code": e, "assignment": []byte{}}
	case "ApiVersions":
		return M{"error_code": e, "api_keys": A{}}
	case "SaslAuthenticate":
		return M{"error_code": e, "error_message": "refused", "auth_bytes": []byte{}}
	case "ListGroups":
		return M{"error_code": e, "groups": A{}}
	}
	// generic: the default answer with every error code set
	var body M
	cl.dispatch(c, func(b M) { body = b })
	if body != nil {
		setErr(body, code)
	}
	return body
}

func (cl *Cluster) dispatch(c *Call, answer func(M)) {
	b := c.Req.Body
	switch c.Name() {
	case "ApiVersions":
		var keys A
		for k := 0; k < 100; k++ {
			if r, ok := c.Node.Versions[k]; ok {
				keys = append(keys, M{"api_key": k, "min_version": r[0], "max_version": r[1]})
			}
		}
		answer(M{"error_code": 0, "api_keys": keys})
	case "SaslHandshake":
		if cl.SASL == nil || str(b["mechanism"]) != cl.SASL.Mechanism {
			answer(M{"error_code": 33, "mechanisms": A{"PLAIN"}})
			return
		}
		answer(M{"error_code": 0, "mechanisms": A{cl.SASL.Mechanism}})
	case "SaslAuthenticate":
		tok, _ := b["auth_bytes"].([]byte)
		if cl.SASL != nil && string(tok) == "\x00"+cl.SASL.User+"\x00"+cl.SASL.Password {
			answer(M{"error_code": 0, "error_message": nil, "auth_bytes": []byte{}})
			return
		}
		answer(M{"error_code": 58, "error_message": "bad credentials", "auth_bytes": []byte{}})
	case "Metadata":
		answer(cl.metadataBody(c))
	case "ListOffsets":
		answer(cl.listOffsetsBody(c, func(p *Part, ts int64) (int, int64) {
			if p == nil || p.Leader != c.Node.ID {
				return 6, -1
			}
			return 0, p.OffsetFor(ts)
		}))
	case "Fetch":
		cl.fetch(c, answer)
	case "Produce":
		cl.produce(c, answer)
	case "FindCoordinator":
		id := cl.Coord(str(b["key"]))
		n := cl.Node(id)
		if n == nil {
			answer(M{"error_code": 15, "node_id": -1, "host": "", "port": -1})
			return
		}
		answer(M{"error_code": 0, "node_id": n.ID, "host": n.Host, "port": n.Port})
	case "OffsetCommit":
		cl.offsetCommit(c, answer)
	case "OffsetFetch":
		if cl.Coord(str(b["group_id"])) != c.Node.ID {
			answer(cl.offsetFetchBody(c, 16))
			return
		}
		answer(cl.offsetFetchBody(c, 0))
	case "JoinGroup", "SyncGroup", "Heartbeat", "LeaveGroup":
		cl.group(c, answer)
	default:
		cl.admin(c, answer)
	}
}

func (cl *Cluster) metadataBody(c *Call) M {
	var bs A
	for _, n := range cl.Nodes {
		if !n.Hidden {
			bs = append(bs, M{"node_id": n.ID, "host": n.Host, "port": n.Port, "rack": nil})
		}
	}
	var names []string
	want := c.Req.Body["topics"]
	if want == nil || (c.Req.Ver == 0 && len(arr(want)) == 0) {
		names = sortedTopics(cl.Topics)
	} else {
		for _, t := range arr(want) {
			names = append(names, str(t.(M)["name"]))
		}
	}
	ts := A{}
	for _, nm := range names {
		t := cl.Topics[nm]
		if t == nil {
			ts = append(ts, M{"error_code": 3, "name": nm, "is_internal": false, "partitions": A{}})
			continue
		}
		var ps A
		for _, p := range t.Parts {
			e, l := int(p.Err), p.Leader
			if l < 0 && e == 0 {
				e = 5
			}
			isr := p.Isr
			if isr == nil {
				isr = p.Replicas
			}
			ps = append(ps, M{"error_code": e, "partition_index": p.ID, "leader_id": l, "leader_epoch": p.Epoch, "replica_nodes": p.Replicas, "isr_nodes": isr, "offline_replicas": A{}})
		}
		if ps == nil {
			ps = A{}
		}
		ts = append(ts, M{"error_code": int(t.Err), "name": nm, "is_internal": false, "partitions": ps})
	}
	if bs == nil {
		bs = A{}
	}
	return M{"brokers": bs, "cluster_id": cl.ClusterID, "controller_id": cl.Controller, "topics": ts}
}

// OffsetFor answers a ListOffsets timestamp.
func (p *Part) OffsetFor(ts int64) int64 {
	switch ts {
	case -1:
		return p.End
	case -2:
		return p.Start
	}
	for _, c := range p.Chunks {
		for _, r := range c.Recs {
			if r.Timestamp >= ts {
				return r.Offset
			}
		}
	}
	return -1
}

func (cl *Cluster) listOffsetsBody(c *Call, f func(p *Part, ts int64) (int, int64)) M {
	ts := A{}
	for _, t := range arr(c.Req.Body["topics"]) {
		tm := t.(M)
		ps := A{}
		for _, p := range arr(tm["partitions"]) {
			pm := p.(M)
			part := cl.Part(str(tm["name"]), int32(num(pm["partition_index"])))
			e, off := f(part, num(pm["timestamp"]))
			if part != nil && str(tm["name"]) == "t" && cl.EndUnknown[part.ID] && num(pm["timestamp"]) == -1 {
				off = -1
			}
			rts := int64(-1)
			if part != nil && e == 0 && num(pm["timestamp"]) >= 0 && off >= 0 {
				for _, r := range part.Recs(off) {
					rts = r.Timestamp
					break
				}
			}
			offs := A{}
			if off >= 0 {
				offs = A{off}
			}
			ps = append(ps, M{"partition_index": pm["partition_index"], "error_code": e, "old_style_offsets": offs, "timestamp": rts, "offset": off})
		}
		ts = append(ts, M{"name": tm["name"], "partitions": ps})
	}
	return M{"topics": ts}
}

// ---- fetch / produce --------------------------------------------------------

func (cl *Cluster) fetch(c *Call, answer func(M)) {
	b := c.Req.Body
	build := func() (M, bool) {
		ready := false
		ts := A{}
		for _, t := range arr(b["topics"]) {
			tm := t.(M)
			ps := A{}
			for _, p := range arr(tm["partitions"]) {
				pm := p.(M)
				part := cl.Part(str(tm["topic"]), int32(num(pm["partition"])))
				r := M{"partition_index": pm["partition"], "error_code": 0, "high_watermark": -1, "last_stable_offset": -1, "log_start_offset": -1, "aborted_transactions": nil, "records": []byte{}}
				off := num(pm["fetch_offset"])
				switch {
				case part == nil:
					r["error_code"] = 3
					ready = true
				case part.Leader != c.Node.ID:
					r["error_code"] = 6
					ready = true
				case c.Req.Ver >= 9 && num(pm["current_leader_epoch"]) >= 0 && int32(num(pm["current_leader_epoch"])) < part.Epoch:
					r["error_code"] = 74
					ready = true
				case c.Req.Ver >= 9 && int32(num(pm["current_leader_epoch"])) > part.Epoch:
					r["error_code"] = 75
					ready = true
				case off < part.Start || off > part.End:
					r["error_code"] = 1
					ready = true
				default:
					r["high_watermark"] = part.End
					r["last_stable_offset"] = part.End
					r["log_start_offset"] = part.Start
					r["aborted_transactions"] = part.Aborted
					data := part.read(off, int(num(pm["partition_max_bytes"])), c.Req.Ver)
					r["records"] = data
					if len(data) > 0 {
						ready = true
					}
				}
				ps = append(ps, r)
			}
			ts = append(ts, M{"topic": tm["topic"], "partitions": ps})
		}
		return M{"responses": ts}, ready
	}
	body, ready := build()
	if ready {
		answer(body)
		return
	}
	// long poll
	done := false
	fin := func() {
		if done {
			return
		}
		done = true
		body, _ := build()
		answer(body)
	}
	vrt.AfterFn(time.Duration(num(b["max_wait_ms"]))*time.Millisecond, fin)
	for _, t := range arr(b["topics"]) {
		tm := t.(M)
		for _, p := range arr(tm["partitions"]) {
			if part := cl.Part(str(tm["topic"]), int32(num(p.(M)["partition"]))); part != nil {
				part.waiting = append(part.waiting, fin)
			}
		}
	}
}

// read returns the stored bytes from the batch containing off.
func (p *Part) read(off int64, max int, ver int) []byte {
	var out []byte
	n := 0
	for _, c := range p.Chunks {
		if c.Last < off {
			continue
		}
		if p.NChunks > 0 && n >= p.NChunks {
			break
		}
		lim := max
		if p.MaxResp > 0 && p.MaxResp < lim {
			lim = p.MaxResp
		}
		if len(out)+len(c.Bytes) > lim {
			if p.CutExact || ver < 3 || (p.CutTail && n > 0) {
				if k := lim - len(out); k > 0 {
					out = append(out, c.Bytes[:k]...)
				}
				break
			}
			if n > 0 { // the first batch is always returned whole
				break
			}
		}
		out = append(out, c.Bytes...)
		n++
	}
	return out
}

func (cl *Cluster) produceBody(c *Call, f func(topic string, idx int64) M) M {
	ts := A{}
	for _, t := range arr(c.Req.Body["topics"]) {
		tm := t.(M)
		ps := A{}
		for _, p := range arr(tm["partitions"]) {
			ps = append(ps, f(str(tm["name"]), num(p.(M)["index"])))
		}
		ts = append(ts, M{"name": tm["name"], "partition_responses": ps})
	}
	return M{"responses": ts}
}

func (cl *Cluster) produce(c *Call, answer func(M)) {
	recs := map[string][]byte{}
	for _, t := range arr(c.Req.Body["topics"]) {
		tm := t.(M)
		for _, p := range arr(tm["partitions"]) {
			pm := p.(M)
			d, _ := pm["records"].([]byte)
			recs[fmt.Sprintf("%s-%d", tm["name"], num(pm["index"]))] = d
		}
	}
	body := cl.produceBody(c, func(topic string, idx int64) M {
		r := M{"index": idx, "error_code": 0, "base_offset": -1, "log_append_time_ms": -1, "log_start_offset": 0}
		part := cl.Part(topic, int32(idx))
		switch {
		case part == nil:
			r["error_code"] = 3
			return r
		case part.Leader != c.Node.ID:
			r["error_code"] = 6
			return r
		}
		bs, err := kref.DecodeBatches(recs[fmt.Sprintf("%s-%d", topic, idx)])
		if err != nil {
			cl.Bad = append(cl.Bad, fmt.Sprintf("produce to %s-%d: invalid records: %v", topic, idx, err))
			r["error_code"] = 87
			return r
		}
		base := part.End
		for i := range bs {
			for j := range bs[i].Recs {
				bs[i].Recs[j].Offset = part.End + int64(j)
			}
			n := len(bs[i].Recs)
			part.Produced = append(part.Produced, bs[i].Recs...)
			if cl.StoreRaw { // keep the client's bytes; a broker only sets the base offset and the epoch
				raw := append([]byte{}, bs[i].Raw...)
				binary.BigEndian.PutUint64(raw, uint64(part.End))
				binary.BigEndian.PutUint32(raw[12:], uint32(part.Epoch))
				part.Append(&Chunk{Base: part.End, Last: part.End + int64(n) - 1, Bytes: raw, Recs: bs[i].Recs})
				continue
			}
			part.AddBatch(kref.BatchOpts{BaseOffset: part.End, LastOffset: part.End + int64(n) - 1, Codec: bs[i].Attributes & 7}, bs[i].Recs)
		}
		part.ProdReqs = append(part.ProdReqs, ProdReq{base, bs, vrt.NowD(), c.Req.Ver})
		r["base_offset"] = base
		return r
	})
	if num(c.Req.Body["acks"]) == 0 {
		answer(nil)
		return
	}
	answer(body)
}
