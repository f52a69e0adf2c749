package kfake

import (
	"fmt"
	"sort"
	"time"

	"github.com/childe/healer/vrt"
)

// Group states.
const (
	Empty = iota
	Preparing
	Completing
	Stable
)

// Member of a group.
type Member struct {
	ID       string
	Meta     []byte
	Assign   []byte
	join     func(M)
	sync     func(M)
	deadline int // session timer sequence
	Session  time.Duration
	ClientID string
	Ghost    bool
}

// Group is one consumer group.
type Group struct {
	cl        *Cluster
	Name      string
	State     int
	Gen       int32
	Leader    string
	Proto     string
	Members   map[string]*Member
	Committed map[string]int64
	Commits   []Commit
	History   []string
	prepSeq   int
	// LastAssign is the assignment of the last leader sync, decoded lazily by checks.
	LastAssign map[string][]byte
	SyncBy     string
}

// Commit is one accepted offset commit.
type Commit struct {
	Topic  string
	Part   int32
	Offset int64
	Gen    int64
	Member string
	At     time.Duration
	Seq    int
}

// Group finds or creates a group.
func (cl *Cluster) Group(name string) *Group {
	g := cl.Groups[name]
	if g == nil {
		g = &Group{cl: cl, Name: name, Members: map[string]*Member{}, Committed: map[string]int64{}}
		cl.Groups[name] = g
	}
	return g
}

func tp(t string, p int32) string { return fmt.Sprintf("%s-%d", t, p) }

// CommittedOffset returns the committed offset or -1.
func (g *Group) CommittedOffset(t string, p int32) int64 {
	if o, ok := g.Committed[tp(t, p)]; ok {
		return o
	}
	return -1
}

// SetCommitted presets a committed offset.
func (g *Group) SetCommitted(t string, p int32, o int64) { g.Committed[tp(t, p)] = o }

// IDs lists the member ids in order.
func (g *Group) IDs() []string {
	var ids []string
	for id := range g.Members {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	return ids
}

func (g *Group) log(format string, a ...any) {
	s := fmt.Sprintf(format, a...)
	g.History = append(g.History, s)
	vrt.X.Event("group %s: %s", g.Name, s)
}

func (g *Group) touch(m *Member) {
	m.deadline++
	seq := m.deadline
	if m.Session <= 0 || m.Ghost {
		return
	}
	vrt.AfterFn(m.Session, func() {
		if g.Members[m.ID] == m && m.deadline == seq && m.join == nil && m.sync == nil {
			g.log("member %s session expired", m.ID)
			g.remove(m.ID)
		}
	})
}

func (g *Group) remove(id string) {
	m := g.Members[id]
	if m == nil {
		return
	}
	delete(g.Members, id)
	if len(g.Members) == 0 {
		g.State = Empty
		g.Gen++
		return
	}
	g.prepare()
}

// Kick removes a member as if its session expired.
func (g *Group) Kick(id string) { g.log("member %s removed", id); g.remove(id) }

// Rebalance forces a rebalance.
func (g *Group) Rebalance() {
	if g.State == Stable || g.State == Completing {
		g.prepare()
	}
}

func (g *Group) prepare() {
	if g.State != Preparing {
		g.State = Preparing
		g.prepSeq++
		g.log("preparing rebalance")
		for _, id := range g.IDs() {
			m := g.Members[id]
			if m.sync != nil {
				f := m.sync
				m.sync = nil
				f(M{"error_code": 27, "assignment": []byte{}})
				g.touch(m)
			}
		}
		seq := g.prepSeq
		max := time.Duration(0)
		for _, m := range g.Members {
			if m.Session > max {
				max = m.Session
			}
		}
		vrt.AfterFn(max, func() {
			if g.State == Preparing && g.prepSeq == seq {
				for _, id := range g.IDs() {
					if g.Members[id].join == nil && !g.Members[id].Ghost {
						g.log("member %s did not rejoin in time", id)
						delete(g.Members, id)
					}
				}
				g.complete()
			}
		})
	}
	g.maybeComplete()
}

func (g *Group) maybeComplete() {
	if g.State != Preparing {
		return
	}
	for _, m := range g.Members {
		if m.join == nil && !m.Ghost {
			return
		}
	}
	g.complete()
}

func (g *Group) complete() {
	if len(g.Members) == 0 {
		g.State = Empty
		return
	}
	g.Gen++
	g.State = Completing
	ids := g.IDs()
	if g.Members[g.Leader] == nil || g.Members[g.Leader].Ghost {
		g.Leader = ""
		for _, id := range ids {
			if !g.Members[id].Ghost {
				g.Leader = id
				break
			}
		}
		if g.Leader == "" {
			g.Leader = ids[0]
		}
	}
	g.Proto = "range"
	var all A
	for _, id := range ids {
		all = append(all, M{"member_id": id, "metadata": g.Members[id].Meta})
	}
	g.log("generation %d leader %s members %v", g.Gen, g.Leader, ids)
	for _, id := range ids {
		m := g.Members[id]
		if m.join == nil {
			continue
		}
		f := m.join
		m.join = nil
		ms := A{}
		if id == g.Leader {
			ms = all
		}
		f(M{"error_code": 0, "generation_id": g.Gen, "protocol_name": g.Proto, "leader": g.Leader, "member_id": id, "members": ms})
		g.touch(m)
	}
}

// AddGhost adds a member that is played by the harness: it always rejoins at
// once; meta is its subscription.
func (g *Group) AddGhost(id string, meta []byte) {
	g.Members[id] = &Member{ID: id, Meta: meta, Ghost: true, Session: 30 * time.Second}
	if g.State == Stable || g.State == Completing {
		g.prepare()
	}
}

// RemoveGhost removes it again.
func (g *Group) RemoveGhost(id string) { g.log("ghost %s leaves", id); g.remove(id) }

func (cl *Cluster) group(c *Call, answer func(M)) {
	b := c.Req.Body
	name := str(b["group_id"])
	errOnly := func(code int) {
		switch c.Name() {
		case "JoinGroup":
			answer(M{"error_code": code, "generation_id": -1, "protocol_name": "", "leader": "", "member_id": b["member_id"], "members": A{}})
		case "SyncGroup":
			answer(M{"error_code": code, "assignment": []byte{}})
		default:
			answer(M{"error_code": code})
		}
	}
	if cl.Coord(name) != c.Node.ID {
		errOnly(16)
		return
	}
	g := cl.Group(name)
	id := str(b["member_id"])
	m := g.Members[id]
	switch c.Name() {
	case "JoinGroup":
		if id != "" && m == nil {
			g.log("join by unknown member %s", id)
			errOnly(25)
			return
		}
		if m == nil {
			cl.memberSeq++
			id = fmt.Sprintf("m%02d", cl.memberSeq)
			m = &Member{ID: id, ClientID: str(c.Req.ClientID)}
			g.Members[id] = m
		}
		m.Session = time.Duration(num(b["session_timeout_ms"])) * time.Millisecond
		if ps := arr(b["protocols"]); len(ps) > 0 {
			m.Meta, _ = ps[0].(M)["metadata"].([]byte)
		}
		g.log("join %s", id)
		m.join = answer
		first := g.State == Empty
		if first && cl.JoinWait > 0 {
			g.State = Preparing
			g.prepSeq++
			vrt.AfterFn(cl.JoinWait, g.maybeComplete)
			return
		}
		g.prepare()
	case "SyncGroup":
		switch {
		case m == nil:
			errOnly(25)
			return
		case int32(num(b["generation_id"])) != g.Gen:
			errOnly(22)
			return
		case g.State == Preparing:
			errOnly(27)
			return
		case g.State == Stable:
			answer(M{"error_code": 0, "assignment": m.Assign})
			g.touch(m)
			return
		}
		m.sync = answer
		if id == g.Leader {
			g.LastAssign = map[string][]byte{}
			g.SyncBy = id
			for _, a := range arr(b["assignments"]) {
				am := a.(M)
				v, _ := am["assignment"].([]byte)
				g.LastAssign[str(am["member_id"])] = v
			}
			g.State = Stable
			g.log("assignment by %s", id)
			for _, mid := range g.IDs() {
				mm := g.Members[mid]
				mm.Assign = g.LastAssign[mid]
				if mm.Assign == nil {
					mm.Assign = []byte{}
				}
				if mm.sync != nil {
					f := mm.sync
					mm.sync = nil
					f(M{"error_code": 0, "assignment": mm.Assign})
					g.touch(mm)
				}
			}
		}
	case "Heartbeat":
		switch {
		case m == nil:
			errOnly(25)
		case int32(num(b["generation_id"])) != g.Gen:
			errOnly(22)
		case g.State == Preparing:
			g.touch(m)
			errOnly(27)
		default:
			g.touch(m)
			errOnly(0)
		}
	case "LeaveGroup":
		if m == nil {
			errOnly(25)
			return
		}
		g.log("leave %s", id)
		g.remove(id)
		errOnly(0)
	}
}

func (cl *Cluster) commitBody(c *Call, code int) M {
	ts := A{}
	for _, t := range arr(c.Req.Body["topics"]) {
		tm := t.(M)
		ps := A{}
		for _, p := range arr(tm["partitions"]) {
			ps = append(ps, M{"partition_index": p.(M)["partition_index"], "error_code": code})
		}
		ts = append(ts, M{"name": tm["name"], "partitions": ps})
	}
	return M{"topics": ts}
}

func (cl *Cluster) offsetCommit(c *Call, answer func(M)) {
	b := c.Req.Body
	name := str(b["group_id"])
	if cl.Coord(name) != c.Node.ID {
		answer(cl.commitBody(c, 16))
		return
	}
	g := cl.Group(name)
	gen := int64(-1)
	member := ""
	if c.Req.Ver >= 1 {
		gen = num(b["generation_id"])
		member = str(b["member_id"])
		code := 0
		switch {
		case gen < 0 && len(g.Members) == 0:
		case gen < 0 && len(g.Members) > 0:
			code = 25
		case g.Members[member] == nil:
			code = 25
		case int32(gen) != g.Gen:
			code = 22
		case g.State == Completing:
			code = 27
		}
		if code != 0 {
			answer(cl.commitBody(c, code))
			return
		}
		if m := g.Members[member]; m != nil {
			g.touch(m)
		}
	}
	for _, t := range arr(b["topics"]) {
		tm := t.(M)
		for _, p := range arr(tm["partitions"]) {
			pm := p.(M)
			pid := int32(num(pm["partition_index"]))
			off := num(pm["committed_offset"])
			g.Committed[tp(str(tm["name"]), pid)] = off
			g.Commits = append(g.Commits, Commit{str(tm["name"]), pid, off, gen, member, vrt.NowD(), c.Seq})
		}
	}
	answer(cl.commitBody(c, 0))
}

func (cl *Cluster) offsetFetchBody(c *Call, code int) M {
	g := cl.Group(str(c.Req.Body["group_id"]))
	ts := A{}
	for _, t := range arr(c.Req.Body["topics"]) {
		tm := t.(M)
		ps := A{}
		for _, p := range arr(tm["partition_indexes"]) {
			off := g.CommittedOffset(str(tm["name"]), int32(num(p)))
			if code != 0 {
				off = -1
			}
			ps = append(ps, M{"partition_index": p, "committed_offset": off, "metadata": "", "error_code": code})
		}
		ts = append(ts, M{"name": tm["name"], "partitions": ps})
	}
	return M{"topics": ts}
}
