// Package kfake is an in-memory Kafka cluster behind the vrt network.  It
// decodes every request with kref (independently of the client under test),
// keeps real broker state and answers like a broker, or with a fault the
// scenario chooses.
package kfake

import (
	"crypto/tls"
	"fmt"
	"io"
	"sort"
	"syscall"
	"time"

	"github.com/childe/healer/kref"
	"github.com/childe/healer/vrt"
)

// M is a struct value.
type M = kref.M

// A is an array value.
type A = kref.A

// Node is one broker.
type Node struct {
	ID       int32
	Host     string
	Port     int
	Up       bool // accepts connections
	Hidden   bool // not listed in metadata
	Versions map[int][2]int
	Conns    []*SConn
}

// Addr is host:port.
func (n *Node) Addr() string { return fmt.Sprintf("%s:%d", n.Host, n.Port) }

// Chunk is one stored batch (or message set) of a partition.
type Chunk struct {
	Base, Last int64
	Bytes      []byte
	Recs       []kref.Rec
}

// Part is one partition.
type Part struct {
	Topic    string
	ID       int32
	Leader   int32
	Epoch    int32
	Err      int16
	Start    int64 // log start offset
	End      int64 // high watermark / next offset
	Chunks   []*Chunk
	Replicas []int32
	Isr      []int32 // in sync; nil: all replicas
	waiting  []func()
	Produced []kref.Rec // everything appended by produce requests, in order
	ProdReqs []ProdReq
	MaxResp  int  // >0: cap of record bytes per response
	CutExact bool // a response may end in the middle of a batch
	NChunks  int  // >0: max whole chunks per response
	Aborted  any  // aborted_transactions of fetch answers (nil: null)
	CutTail  bool // a response may end in the middle of a batch other than the first
}

// ProdReq is one accepted produce request for the partition.
type ProdReq struct {
	Base    int64
	Batches []kref.Batch
	At      time.Duration
	Ver     int
}

// Topic is one topic.
type Topic struct {
	Name  string
	Err   int16
	Parts []*Part
}

// Call is one request received by a broker.
type Call struct {
	Seq    int
	At     time.Duration
	Node   *Node
	Conn   *SConn
	Req    *kref.Request
	Raw    []byte
	Body   M      // response body (default answer)
	Sent   []byte // full response frame, when sent
	Err    int16  // error code injected
	Fault  string
	Done   bool
	Answer time.Duration // when the answer was sent (or -1)
	AnsSeq int           // number of requests received before the answer was sent
}

// Name is the request kind.
func (c *Call) Name() string { return c.Req.API.Name }

// Fault is a deviation from the default answer.
type Fault struct {
	Name    string
	Err     int16         // answer with this error code everywhere
	Drop    bool          // never answer
	Skip    bool          // do not process the request
	Hang    error         // hang up instead of answering (io.EOF, ECONNRESET)
	Partial int           // send only that many bytes (negative: all but), then stall, or hang up with Hang
	Delay   time.Duration // delay the answer
	Mutate  func(c *Call) // change c.Body
	Raw     func(frame []byte, marks []kref.Mark) []byte
	Chunks  []int         // fragment sizes of the answer
	Gap     time.Duration // pause between fragments
}

// Cluster is the fake cluster.
type Cluster struct {
	// EndUnknown: partitions (of any topic t) whose end ListOffsets does not tell.
	EndUnknown map[int32]bool
	Nodes      []*Node
	Topics     map[string]*Topic
	Controller int32
	ClusterID  any
	Groups     map[string]*Group
	Calls      []*Call
	Bad        []string // protocol violations by the client
	Dials      []string
	AllConns   []*SConn

	Decide     func(c *Call) *Fault // fault chooser (may be nil)
	DialHook   func(n *Node, addr string) (delay time.Duration, err error, handled bool)
	WriteHook  func(c *SConn) error
	Override   func(c *Call) (body M, ok bool) // replaces the default handler
	Coord      func(group string) int32
	Latency    time.Duration // default answer delay (0: immediately)
	Frag       func(frame []byte) []int
	SASL       *SASL
	WantTLS    bool
	JoinWait   time.Duration // initial rebalance delay
	AutoCreate bool
	Loose      bool // sasl requests are taken at any time
	ExtraTags  bool
	StoreRaw   bool // produced batches are stored as they were sent
	memberSeq  int
	LogDirs    func(node *Node) A
	Admin      map[string]int // admin operations seen
}

// SASL is the credentials the brokers want.
type SASL struct{ Mechanism, User, Password string }

// New creates a cluster with n brokers (ids 1..n).
func New(n int) *Cluster {
	cl := &Cluster{Topics: map[string]*Topic{}, Groups: map[string]*Group{}, Controller: 1, ClusterID: "cluster-x", Admin: map[string]int{}}
	for i := 1; i <= n; i++ {
		cl.Nodes = append(cl.Nodes, &Node{ID: int32(i), Host: fmt.Sprintf("b%d", i), Port: 9090 + i, Up: true, Versions: DefaultVersions()})
	}
	cl.Coord = func(string) int32 { return 1 }
	return cl
}

// DefaultVersions are the ranges a modern broker announces.
func DefaultVersions() map[int][2]int {
	return map[int][2]int{0: {0, 9}, 1: {0, 12}, 2: {0, 6}, 3: {0, 11}, 8: {0, 8}, 9: {0, 7}, 10: {0, 3}, 11: {0, 7}, 12: {0, 4}, 13: {0, 4}, 14: {0, 5}, 15: {0, 5},
		16: {0, 5}, 17: {0, 1}, 18: {0, 3}, 19: {0, 7}, 20: {0, 6}, 29: {0, 2}, 30: {0, 3}, 31: {0, 3}, 32: {0, 4}, 33: {0, 2}, 35: {0, 2}, 36: {0, 2}, 37: {0, 3}, 42: {0, 2}, 43: {0, 2}, 44: {0, 1}, 45: {0, 0}, 46: {0, 0}}
}

// Bootstrap is the bootstrap server list.
func (cl *Cluster) Bootstrap() string {
	s := ""
	for i, n := range cl.Nodes {
		if i > 0 {
			s += ","
		}
		s += n.Addr()
	}
	return s
}

// Node finds a broker.
func (cl *Cluster) Node(id int32) *Node {
	for _, n := range cl.Nodes {
		if n.ID == id {
			return n
		}
	}
	return nil
}

// AddTopic creates a topic; leaders gives the leader of each partition.
func (cl *Cluster) AddTopic(name string, leaders ...int32) *Topic {
	t := &Topic{Name: name}
	for i, l := range leaders {
		t.Parts = append(t.Parts, &Part{Topic: name, ID: int32(i), Leader: l, Epoch: []int32{5, 3, 8, 4}[i%4], Replicas: []int32{l}})
	}
	cl.Topics[name] = t
	return t
}

// Part finds a partition.
func (cl *Cluster) Part(topic string, id int32) *Part {
	t := cl.Topics[topic]
	if t == nil {
		return nil
	}
	for _, p := range t.Parts {
		if p.ID == id {
			return p
		}
	}
	return nil
}

// Append adds a chunk to the log.
func (p *Part) Append(c *Chunk) {
	p.Chunks = append(p.Chunks, c)
	if c.Last+1 > p.End {
		p.End = c.Last + 1
	}
	p.wake()
}

func (p *Part) wake() {
	w := p.waiting
	p.waiting = nil
	for _, f := range w {
		f()
	}
}

// AddRecs appends one magic 2 batch with the given values at consecutive offsets.
func (p *Part) AddRecs(vals ...string) {
	var recs []kref.Rec
	for i, v := range vals {
		recs = append(recs, kref.Rec{Offset: p.End + int64(i), Timestamp: 1000 + p.End + int64(i), Value: []byte(v)})
	}
	p.AddBatch(kref.BatchOpts{BaseOffset: p.End, LastOffset: p.End + int64(len(vals)) - 1}, recs)
}

// AddBatch appends one magic 2 batch.
func (p *Part) AddBatch(o kref.BatchOpts, recs []kref.Rec) {
	p.Append(&Chunk{Base: o.BaseOffset, Last: o.LastOffset, Bytes: kref.EncodeBatch(o, recs), Recs: recs})
}

// Recs lists all records at or after off.
func (p *Part) Recs(off int64) []kref.Rec {
	var out []kref.Rec
	for _, c := range p.Chunks {
		for _, r := range c.Recs {
			if r.Offset >= off && r.Offset >= p.Start {
				out = append(out, r)
			}
		}
	}
	return out
}

// ---- network ----------------------------------------------------------------

// SConn is the server side of a connection.
type SConn struct {
	cl    *Cluster
	Node  *Node
	C     *vrt.Conn
	buf   []byte
	TLS   bool
	stage int // 0 nothing, 1 api versions answered, 2 handshake ok, 3 authenticated
	NReq  int
	Auths int
	Busy  int // requests received and not answered yet
	hung  bool
}

// Dial implements vrt.Network.
func (cl *Cluster) Dial(addr string, tc *tls.Config) (vrt.Server, time.Duration, error) {
	cl.Dials = append(cl.Dials, addr)
	var node *Node
	for _, n := range cl.Nodes {
		if n.Addr() == addr {
			node = n
		}
	}
	if node == nil {
		return nil, 0, syscall.ECONNREFUSED
	}
	if cl.DialHook != nil {
		if d, err, ok := cl.DialHook(node, addr); ok {
			if err != nil || d > 0 {
				return &SConn{cl: cl, Node: node, TLS: tc != nil}, d, err
			}
		}
	}
	if !node.Up {
		return nil, 0, syscall.ECONNREFUSED
	}
	if cl.WantTLS != (tc != nil) {
		cl.Bad = append(cl.Bad, fmt.Sprintf("dial %s with tls=%v, configured tls=%v", addr, tc != nil, cl.WantTLS))
	}
	s := &SConn{cl: cl, Node: node, TLS: tc != nil}
	return s, 0, nil
}

// Opened implements vrt.Server.
func (s *SConn) Opened(c *vrt.Conn) {
	s.C = c
	s.Node.Conns = append(s.Node.Conns, s)
	s.cl.AllConns = append(s.cl.AllConns, s)
}

// Fault implements vrt.Server.
func (s *SConn) Fault(c *vrt.Conn, op string) error {
	if op == "write" && s.cl.WriteHook != nil {
		return s.cl.WriteHook(s)
	}
	return nil
}

// Closed implements vrt.Server.
func (s *SConn) Closed(c *vrt.Conn) {}

// Data implements vrt.Server.
func (s *SConn) Data(c *vrt.Conn, b []byte) {
	if s.hung {
		return
	}
	s.buf = append(s.buf, b...)
	for {
		if len(s.buf) < 4 {
			return
		}
		n := int(int32(uint32(s.buf[0])<<24 | uint32(s.buf[1])<<16 | uint32(s.buf[2])<<8 | uint32(s.buf[3])))
		if n < 8 || n > 1<<26 {
			s.bad("request frame length %d", n)
			return
		}
		if len(s.buf) < 4+n {
			return
		}
		frame := append([]byte(nil), s.buf[4:4+n]...)
		s.buf = s.buf[4+n:]
		s.handle(frame)
		if s.hung {
			return
		}
	}
}

func (s *SConn) bad(format string, a ...any) {
	m := fmt.Sprintf("broker %d: ", s.Node.ID) + fmt.Sprintf(format, a...)
	s.cl.Bad = append(s.cl.Bad, m)
	vrt.X.Event("PROTOCOL VIOLATION %s", m)
	s.hang(io.EOF)
}

func (s *SConn) hang(err error) {
	s.hung = true
	s.C.HangUp(err)
}

// Hang ends the connection from the server side.
func (s *SConn) Hang(err error) { s.hang(err) }

// Hung reports that the server ended the connection.
func (s *SConn) Hung() bool { return s.hung }

func (s *SConn) handle(frame []byte) {
	cl := s.cl
	req, err := kref.DecodeRequest(frame)
	if err != nil {
		key, ver, _, _ := kref.PeekHeader(frame)
		s.bad("malformed request key=%d version=%d: %v [% x]", key, ver, err, frame)
		return
	}
	call := &Call{Seq: len(cl.Calls), At: vrt.NowD(), Node: s.Node, Conn: s, Req: req, Raw: frame, Answer: -1}
	cl.Calls = append(cl.Calls, call)
	s.NReq++
	if vrt.X.Trace {
		vrt.X.Event("-> b%d conn#%d %s v%d corr=%d %s", s.Node.ID, s.C.ID, req.API.Name, req.Ver, req.Corr, short(kref.Show(req.Body)))
	}
	// version must be inside the announced range
	if r, ok := s.Node.Versions[req.API.Key]; !ok || req.Ver < r[0] || req.Ver > r[1] {
		if req.API.Key != 18 {
			s.bad("%s v%d is outside the announced range %v", req.API.Name, req.Ver, r)
			return
		}
	}
	// negotiation and authentication come first
	switch {
	case req.API.Key == 18:
	case cl.SASL != nil && s.stage < 3 && req.API.Key != 17 && req.API.Key != 36:
		s.bad("%s before authentication completed (stage %d)", req.API.Name, s.stage)
		return
	case s.stage < 1:
		s.bad("%s before api version negotiation", req.API.Name)
		return
	case cl.Loose:
	case req.API.Key == 36 && s.stage != 2:
		s.bad("SaslAuthenticate although the handshake has not succeeded (stage %d)", s.stage)
		return
	case cl.SASL == nil && (req.API.Key == 17 || req.API.Key == 36):
		s.bad("%s although no sasl is configured", req.API.Name)
		return
	}
	s.Busy++
	var f *Fault
	if cl.Decide != nil {
		f = cl.Decide(call)
	}
	if f == nil {
		f = &Fault{}
	}
	call.Fault = f.Name
	if f.Name != "" {
		vrt.X.Event("FAULT %s on %s", f.Name, req.API.Name)
	}
	if f.Skip {
		s.reply(call, nil, f)
		return
	}
	answer := func(body M) { s.reply(call, body, f) }
	if cl.Override != nil {
		if body, ok := cl.Override(call); ok {
			answer(body)
			return
		}
	}
	if f.Err != 0 {
		body := cl.errorBody(call, f.Err)
		if body != nil {
			call.Err = f.Err
			answer(body)
			return
		}
	}
	cl.dispatch(call, answer)
}

func short(s string) string {
	if len(s) > 300 {
		return s[:300] + "..."
	}
	return s
}

// reply sends the response to call, with the fault applied.
func (s *SConn) reply(call *Call, body M, f *Fault) {
	cl := s.cl
	if body == nil && !f.Skip { // no answer by design (acks=0)
		s.Busy--
		return
	}
	call.Body = body
	if f.Mutate != nil && body != nil {
		f.Mutate(call)
	}
	if f.Drop {
		return
	}
	if body == nil || (f.Hang != nil && f.Partial == 0) {
		err := f.Hang
		if err == nil {
			err = io.EOF
		}
		s.hang(err)
		return
	}
	send := func() {
		if s.hung || s.C.Dead() {
			return
		}
		frame, marks := kref.EncodeResponse(call.Req.API, call.Req.Ver, call.Req.Corr, call.Body, cl.ExtraTags)
		if f.Raw != nil {
			frame = f.Raw(frame, marks)
		}
		s.Busy--
		call.Answer = vrt.NowD()
		call.AnsSeq = len(cl.Calls)
		call.Sent = frame
		if vrt.X.Trace {
			vrt.X.Event("<- b%d conn#%d %s v%d corr=%d %s", s.Node.ID, s.C.ID, call.Name(), call.Req.Ver, call.Req.Corr, short(kref.Show(call.Body)))
		}
		n := len(frame)
		if f.Partial > 0 && f.Partial < n {
			n = f.Partial
		} else if f.Partial < 0 && n+f.Partial >= 0 {
			n += f.Partial
		}
		part := frame[:n]
		frag := f.Chunks
		if frag == nil && cl.Frag != nil {
			frag = cl.Frag(part)
		}
		for i, k := range append(frag, len(part)) {
			if k > len(part) {
				k = len(part)
			}
			b := part[:k]
			part = part[k:]
			if f.Gap > 0 && i > 0 {
				vrt.AfterFn(f.Gap*time.Duration(i), func() { s.C.Deliver(b) })
			} else {
				s.C.Deliver(b)
			}
		}
		if n < len(frame) {
			call.Answer = -1
			if f.Hang != nil {
				s.hang(f.Hang)
			}
			return
		}
		call.Done = true
		s.after(call)
	}
	d := cl.Latency + f.Delay
	if d > 0 {
		vrt.AfterFn(d, send)
	} else {
		send()
	}
}

// after updates the connection stage once an answer was sent.
func (s *SConn) after(call *Call) {
	code := int64(0)
	if v, ok := call.Body["error_code"]; ok {
		code = num(v)
	}
	switch call.Req.API.Key {
	case 18:
		if code == 0 {
			if s.stage == 0 {
				s.stage = 1
			}
		}
	case 17:
		if code == 0 {
			s.stage = 2
		}
	case 36:
		s.Auths++
		if code == 0 && s.stage == 2 {
			s.stage = 3
		}
	}
}

func num(v any) int64 {
	switch n := v.(type) {
	case int:
		return int64(n)
	case int16:
		return int64(n)
	case int32:
		return int64(n)
	case int64:
		return n
	}
	return 0
}

// Num converts a decoded integer.
func Num(v any) int64 { return num(v) }

// CallsOf lists the calls of one kind.
func (cl *Cluster) CallsOf(name string) []*Call {
	var out []*Call
	for _, c := range cl.Calls {
		if c.Name() == name {
			out = append(out, c)
		}
	}
	return out
}

// LiveConns counts connections not closed by either side.
func (cl *Cluster) LiveConns() int {
	n := 0
	for _, s := range cl.AllConns {
		if !s.C.Dead() {
			n++
		}
	}
	return n
}

func sortedTopics(m map[string]*Topic) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
