package vrt

import (
	"context"
	"crypto/tls"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"syscall"
	"time"
)

// Network is the far side of dialing, provided by the harness.
type Network interface {
	// Dial decides the connection attempt: a server end, or an error; delay is
	// how long the attempt takes (compared with timeout by the caller).
	Dial(addr string, tls *tls.Config) (srv Server, delay time.Duration, err error)
}

// Server is the server end of one connection; callbacks run in the client's
// goroutine and must not block.
type Server interface {
	Opened(c *Conn)
	// Data is called after the client wrote bytes.
	Data(c *Conn, b []byte)
	// Fault may inject an error into a client operation ("write", "read").
	// For "read" it is asked when the client starts reading.
	Fault(c *Conn, op string) error
	Closed(c *Conn) // client closed its end
}

// Dialer replaces net.Dialer.
type Dialer struct {
	Timeout       time.Duration
	Deadline      time.Time
	LocalAddr     net.Addr
	DualStack     bool
	FallbackDelay time.Duration
	KeepAlive     time.Duration
	Resolver      *net.Resolver
	Cancel        <-chan struct{}
	Control       func(network, address string, c syscall.RawConn) error
}

// Dial dials.
func (d *Dialer) Dial(network, address string) (net.Conn, error) {
	return dial(d, context.Background(), address, nil)
}

// DialContext dials.
func (d *Dialer) DialContext(ctx context.Context, network, address string) (net.Conn, error) {
	return dial(d, ctx, address, nil)
}

// NetDial replaces net.Dial.
func NetDial(network, address string) (net.Conn, error) { return (&Dialer{}).Dial(network, address) }

// NetDialTimeout replaces net.DialTimeout.
func NetDialTimeout(network, address string, timeout time.Duration) (net.Conn, error) {
	return (&Dialer{Timeout: timeout}).Dial(network, address)
}

// TLSDialWithDialer replaces tls.DialWithDialer.
func TLSDialWithDialer(d *Dialer, network, address string, c *tls.Config) (net.Conn, error) {
	if c == nil {
		c = &tls.Config{}
	}
	return dial(d, context.Background(), address, c)
}

// TLSDial replaces tls.Dial.
func TLSDial(network, address string, c *tls.Config) (net.Conn, error) {
	return TLSDialWithDialer(&Dialer{}, network, address, c)
}

// TLSDialer replaces tls.Dialer.
type TLSDialer struct {
	NetDialer *Dialer
	Config    *tls.Config
}

// Dial dials.
func (d *TLSDialer) Dial(network, address string) (net.Conn, error) {
	return d.DialContext(context.Background(), network, address)
}

// DialContext dials.
func (d *TLSDialer) DialContext(ctx context.Context, network, address string) (net.Conn, error) {
	nd, c := d.NetDialer, d.Config
	if nd == nil {
		nd = &Dialer{}
	}
	if c == nil {
		c = &tls.Config{}
	}
	return dial(nd, ctx, address, c)
}

// TLSConn replaces *tls.Conn of a client.
type TLSConn struct{ net.Conn }

// Handshake does nothing.
func (c *TLSConn) Handshake() error { return nil }

// HandshakeContext does nothing.
func (c *TLSConn) HandshakeContext(ctx context.Context) error { return ctx.Err() }

// NetConn is the connection below.
func (c *TLSConn) NetConn() net.Conn { return c.Conn }

// TLSClient replaces tls.Client.
func TLSClient(conn net.Conn, c *tls.Config) *TLSConn {
	if v, ok := conn.(*Conn); ok {
		if c == nil {
			c = &tls.Config{}
		}
		v.TLS = c
	}
	return &TLSConn{conn}
}

type timeoutError struct{}

func (timeoutError) Error() string   { return "i/o timeout" }
func (timeoutError) Timeout() bool   { return true }
func (timeoutError) Temporary() bool { return true }
func (timeoutError) Is(err error) bool {
	return err == context.DeadlineExceeded || err == os.ErrDeadlineExceeded
}

func operr(op, addr string, err error) error {
	return &net.OpError{Op: op, Net: "tcp", Addr: vaddr(addr), Err: err}
}

type vaddr string

func (a vaddr) Network() string { return "tcp" }
func (a vaddr) String() string  { return string(a) }

func dial(d *Dialer, ctx context.Context, address string, tc *tls.Config) (net.Conn, error) {
	x, t := enter()
	x.point(t, KSched)
	if x.Net == nil {
		return nil, operr("dial", address, syscall.ENETUNREACH)
	}
	srv, delay, err := x.Net.Dial(address, tc)
	lim := d.Timeout
	if !d.Deadline.IsZero() {
		if u := Until(d.Deadline); lim == 0 || u < lim {
			lim = u
		}
	}
	if dl, ok := ctx.Deadline(); ok {
		if u := Until(dl); lim == 0 || u < lim {
			lim = max(u, 1)
		}
	}
	if lim > 0 && delay >= lim {
		Sleep(lim)
		return nil, operr("dial", address, timeoutError{})
	}
	if delay > 0 {
		Sleep(delay)
	}
	if err != nil {
		return nil, operr("dial", address, err)
	}
	if ctx.Err() != nil {
		return nil, operr("dial", address, ctx.Err())
	}
	x.connSeq++
	c := &Conn{Addr: address, ID: x.connSeq, srv: srv, TLS: tc, Opened: time.Duration(x.now), KeepAlive: d.KeepAlive}
	x.Event("conn#%d open %s", c.ID, address)
	srv.Opened(c)
	return c, nil
}

// Conn is the client end of a virtual connection.
type Conn struct {
	Addr      string
	ID        int
	TLS       *tls.Config
	Opened    time.Duration
	KeepAlive time.Duration

	srv     Server
	in      [][]byte // chunks the client can read; one Read returns at most one chunk
	inEOF   error    // io.EOF or reset once in is drained
	closed  bool     // closed by client
	rdl     time.Time
	wdl     time.Time
	rdTimer *timer
	wrTimer *timer
	reading *Thread

	Stalled bool // the peer does not read: writes block

	NRead, NWritten int
}

// Deliver makes bytes readable by the client as one chunk.
func (c *Conn) Deliver(b []byte) {
	if len(b) == 0 || c.inEOF != nil {
		return
	}
	c.in = append(c.in, append([]byte(nil), b...))
}

// HangUp ends the server side: the client reads what is pending, then err
// (io.EOF for an orderly close).
func (c *Conn) HangUp(err error) {
	if c.inEOF == nil {
		c.inEOF = err
		if err != io.EOF {
			c.in = nil
		}
	}
}

// IsClosed reports that the client closed the connection.
func (c *Conn) IsClosed() bool { return c.closed }

// Dead reports that either side closed the connection.
func (c *Conn) Dead() bool { return c.closed || c.inEOF != nil }

// Pending is the number of unread bytes.
func (c *Conn) Pending() int {
	n := 0
	for _, b := range c.in {
		n += len(b)
	}
	return n
}

func (c *Conn) expired() bool { return !c.rdl.IsZero() && !Now().Before(c.rdl) }

// Read implements net.Conn.
func (c *Conn) Read(p []byte) (int, error) {
	x, t := enter()
	x.point(t, KSched)
	if c.closed {
		return 0, operr("read", c.Addr, net.ErrClosed)
	}
	if len(p) == 0 {
		return 0, nil
	}
	if err := c.srv.Fault(c, "read"); err != nil {
		c.HangUp(err)
	}
	if c.reading != nil && c.reading != t {
		x.Event("conn#%d concurrent reads", c.ID)
	}
	c.reading = t
	x.block(t, fmt.Sprintf("read conn#%d %s", c.ID, c.Addr), func() bool {
		return len(c.in) > 0 || c.inEOF != nil || c.closed || c.expired()
	})
	c.reading = nil
	switch {
	case c.closed:
		return 0, operr("read", c.Addr, net.ErrClosed)
	case c.expired():
		x.Event("conn#%d read timeout", c.ID)
		return 0, operr("read", c.Addr, timeoutError{})
	case len(c.in) > 0:
		n := copy(p, c.in[0])
		if n == len(c.in[0]) {
			c.in = c.in[1:]
		} else {
			c.in[0] = c.in[0][n:]
		}
		c.NRead += n
		return n, nil
	case c.inEOF == io.EOF:
		x.Event("conn#%d read EOF", c.ID)
		return 0, io.EOF
	default:
		x.Event("conn#%d read %v", c.ID, c.inEOF)
		return 0, operr("read", c.Addr, c.inEOF)
	}
}

// Write implements net.Conn.
func (c *Conn) Write(p []byte) (int, error) {
	x, t := enter()
	x.point(t, KSched)
	if c.closed {
		return 0, operr("write", c.Addr, net.ErrClosed)
	}
	if err := c.srv.Fault(c, "write"); err != nil {
		x.Event("conn#%d write fault %v", c.ID, err)
		c.HangUp(syscall.ECONNRESET)
		return 0, operr("write", c.Addr, err)
	}
	if c.inEOF != nil {
		x.Event("conn#%d write after peer close", c.ID)
		return 0, operr("write", c.Addr, os.NewSyscallError("write", syscall.EPIPE))
	}
	if c.Stalled {
		wexpired := func() bool { return !c.wdl.IsZero() && !Now().Before(c.wdl) }
		if !c.wdl.IsZero() && c.wrTimer == nil {
			c.wrTimer = x.addTimer(Until(c.wdl), func() {})
		}
		x.block(t, fmt.Sprintf("write conn#%d %s", c.ID, c.Addr), func() bool {
			return !c.Stalled || c.inEOF != nil || c.closed || wexpired()
		})
		switch {
		case c.closed:
			return 0, operr("write", c.Addr, net.ErrClosed)
		case c.inEOF != nil:
			return 0, operr("write", c.Addr, os.NewSyscallError("write", syscall.EPIPE))
		case wexpired():
			x.Event("conn#%d write timeout", c.ID)
			return 0, operr("write", c.Addr, timeoutError{})
		}
	}
	c.NWritten += len(p)
	c.srv.Data(c, append([]byte(nil), p...))
	return len(p), nil
}

// Close implements net.Conn.
func (c *Conn) Close() error {
	if over() {
		return nil
	}
	x, t := enter()
	x.point(t, KSched)
	if c.closed {
		return operr("close", c.Addr, net.ErrClosed)
	}
	c.closed = true
	x.Event("conn#%d closed by client", c.ID)
	c.srv.Closed(c)
	return nil
}

// LocalAddr implements net.Conn.
func (c *Conn) LocalAddr() net.Addr { return vaddr("127.0.0.1:1") }

// RemoteAddr implements net.Conn.
func (c *Conn) RemoteAddr() net.Addr { return vaddr(c.Addr) }

// SetDeadline implements net.Conn.
func (c *Conn) SetDeadline(t time.Time) error {
	c.SetWriteDeadline(t)
	return c.SetReadDeadline(t)
}

// SetReadDeadline implements net.Conn.
func (c *Conn) SetReadDeadline(t time.Time) error {
	if over() {
		return nil
	}
	x, th := enter()
	x.point(th, KSched)
	if c.closed {
		return operr("set", c.Addr, net.ErrClosed)
	}
	c.rdl = t
	if c.rdTimer != nil {
		c.rdTimer.stopped = true
		c.rdTimer = nil
	}
	if !t.IsZero() {
		c.rdTimer = x.addTimer(Until(t), func() {})
	}
	return nil
}

// SetWriteDeadline implements net.Conn.
func (c *Conn) SetWriteDeadline(t time.Time) error {
	if over() {
		return nil
	}
	x, _ := enter()
	if c.closed {
		return operr("set", c.Addr, net.ErrClosed)
	}
	c.wdl = t
	if c.wrTimer != nil {
		c.wrTimer.stopped = true
		c.wrTimer = nil
	}
	if !t.IsZero() && c.Stalled { // only a stalled write can run into it
		c.wrTimer = x.addTimer(Until(t), func() {})
	}
	return nil
}

var _ net.Conn = (*Conn)(nil)
var errUnused = errors.New("unused")

// SetKeepAlivePeriod is the method of net.TCPConn.
func (c *Conn) SetKeepAlivePeriod(d time.Duration) error { c.KeepAlive = d; return nil }
