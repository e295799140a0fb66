//go:build go1.21

// Package snet is a simulated stream network: hosts that serve connections with
// one simulated goroutine each, clients that dial them. Latency and every fault
// are recorded choices of the run.
package snet

import (
	"context"
	"errors"
	"io"
	"net"
	"time"

	"github.com/chanjarster/gears/zzsim/hk"
	rt "github.com/chanjarster/gears/zzsim/rt"
)

// Faults: chances out of 1000, per dial or per write.
type Faults struct {
	LatMin, LatMax int64
	DialRefuse     int
	DialHang       int
	ResetReq       int // the connection breaks instead of delivering what the client wrote
	ResetRep       int // ... what the server wrote
	DropReq        int // what the client wrote, and all that follows, is lost
	DropRep        int
	TornRep        int // only a part of what the server wrote arrives, then the connection breaks
	ShortRep       int // what the server wrote arrives in two pieces
}

// Net connects clients to hosts.
type Net struct {
	F      Faults
	X      *hk.X
	HangTO int64 // how long a dial without deadline hangs
	// Window is how much may be under way or unread before writes block (0: no limit).
	Window int
	// KeepAlive is how long it takes to find out that data was lost for good (0: for ever).
	KeepAlive int64
	// OnDial sees every dial, with the time it may take at most (0: no limit).
	OnDial func(addr string, limit int64)
	// OnWrite sees every write of a client.
	OnWrite func(c *Conn)
	hosts   map[string]*Host
	all     []*Conn
	nconn   int
}

// Host is a server.
type Host struct {
	n      *Net
	Addr   string
	Down   bool // nobody listens
	Parted bool // nothing gets through
	serve  func(c *Conn)
	conns  []*Conn // server ends
}

// Listen makes a host that serves addr.
func (n *Net) Listen(addr string, serve func(c *Conn)) *Host {
	if n.hosts == nil {
		n.hosts = map[string]*Host{}
	}
	h := &Host{n: n, Addr: addr, serve: serve}
	n.hosts[addr] = h
	return h
}

// Open is the number of connections the clients have not closed.
func (n *Net) Open() int {
	k := 0
	for _, c := range n.all {
		if !c.Closed {
			k++
		}
	}
	return k
}

// Open is the number of connections to the host the clients have not closed.
func (h *Host) Open() int {
	k := 0
	for _, c := range h.n.all {
		if !c.Closed && c.h == h {
			k++
		}
	}
	return k
}

// Made is the number of connections ever made to the host.
func (h *Host) Made() int {
	k := 0
	for _, c := range h.n.all {
		if c.h == h {
			k++
		}
	}
	return k
}

// Conns are the client ends of all connections ever made.
func (n *Net) Conns() []*Conn { return n.all }

// Conn is one end of a connection.
type Conn struct {
	n        *Net
	h        *Host
	ID       int
	client   bool
	peer     *Conn
	in       []byte
	eof      bool
	err      error
	flight   []segment // on their way to the peer
	last     int64
	lost     bool
	under    int // bytes in flight
	Closed   bool
	ClosedAt int64
	MadeAt   int64
	Bytes    int // read so far
	rdl, wdl int64
	gate     rt.Gate
	Tag      interface{} // for the server's use, on the client end as well
}

type segment struct {
	b     []byte
	fin   bool
	reset bool
}

func (n *Net) chance(p int, name string) bool {
	if p <= 0 || !rt.Chance(p, 1000) {
		return false
	}
	if n.X != nil {
		n.X.Fault(name)
	}
	return true
}

func (n *Net) lat() int64 {
	l := n.F.LatMin
	if d := n.F.LatMax - n.F.LatMin; d > 0 {
		l += d * int64(rt.Choose(5)) / 4
	}
	return l
}

var (
	errReset  = &net.OpError{Op: "read", Net: "tcp", Err: errors.New("connection reset by peer")}
	errClosed = &net.OpError{Op: "read", Net: "tcp", Err: net.ErrClosed}
)

type timeoutErr struct{}

func (timeoutErr) Error() string   { return "i/o timeout" }
func (timeoutErr) Timeout() bool   { return true }
func (timeoutErr) Temporary() bool { return true }

type addr struct {
	net.Addr
	s string
}

func (a addr) Network() string { return "tcp" }
func (a addr) String() string  { return a.s }

// Dial connects to a host.
func (n *Net) Dial(ctx context.Context, network, a string) (net.Conn, error) {
	rt.YH()
	limit := int64(0)
	if ctx != nil {
		if d, ok := ctx.Deadline(); ok {
			if limit = dl(d) - rt.Mono(); limit <= 0 {
				limit = 1
			}
		}
	}
	if n.OnDial != nil {
		n.OnDial(a, limit)
	}
	tmo := &net.OpError{Op: "dial", Net: network, Addr: addr{s: a}, Err: timeoutErr{}}
	h := n.hosts[a]
	if h != nil && h.Parted || n.chance(n.F.DialHang, "dial_hang") {
		to := n.HangTO
		if limit > 0 && limit < to {
			to = limit
		}
		rt.Sleep(to)
		return nil, tmo
	}
	if l := 2 * n.lat(); l > 0 {
		if limit > 0 && l > limit {
			rt.Sleep(limit)
			return nil, tmo
		}
		rt.Sleep(l)
	}
	if h == nil {
		return nil, &net.OpError{Op: "dial", Net: network, Err: &net.DNSError{Err: "no such host", Name: a, IsNotFound: true}}
	}
	if h.Down || n.chance(n.F.DialRefuse, "dial_refused") {
		return nil, &net.OpError{Op: "dial", Net: network, Addr: addr{s: a}, Err: errors.New("connect: connection refused")}
	}
	if ctx != nil && ctx.Err() != nil {
		return nil, &net.OpError{Op: "dial", Net: network, Addr: addr{s: a}, Err: ctx.Err()}
	}
	n.nconn++
	c := &Conn{n: n, h: h, ID: n.nconn, client: true, MadeAt: rt.Mono()}
	s := &Conn{n: n, h: h, ID: n.nconn, peer: c, MadeAt: rt.Mono()}
	c.peer = s
	n.all = append(n.all, c)
	h.conns = append(h.conns, s)
	rt.Spawn("server", func() {
		h.serve(s)
		s.Close()
	})
	return c, nil
}

// Client is the client's end of a connection.
func (c *Conn) Client() *Conn {
	if c.client {
		return c
	}
	return c.peer
}

func (c *Conn) name(client bool) net.Addr {
	if client {
		return addr{s: "10.0.0.1:4000"}
	}
	return addr{s: c.h.Addr}
}
func (c *Conn) LocalAddr() net.Addr  { return c.name(c.client) }
func (c *Conn) RemoteAddr() net.Addr { return c.name(!c.client) }

func dl(t time.Time) int64 {
	if t.IsZero() {
		return 0
	}
	m := rt.Mono() + int64(t.Sub(rt.MkTime(rt.Wall(), rt.Mono())))
	if m <= 0 {
		m = 1
	}
	return m
}

func (c *Conn) SetDeadline(t time.Time) error {
	c.rdl, c.wdl = dl(t), dl(t)
	c.gate.WakeAll()
	return nil
}
func (c *Conn) SetReadDeadline(t time.Time) error {
	c.rdl = dl(t)
	c.gate.WakeAll()
	return nil
}
func (c *Conn) SetWriteDeadline(t time.Time) error {
	c.wdl = dl(t)
	c.gate.WakeAll()
	return nil
}

// ReadLimit and WriteLimit are the deadlines as times left (0: none).
func (c *Conn) ReadLimit() int64 {
	if c.rdl == 0 {
		return 0
	}
	return c.rdl - rt.Mono()
}

// WriteLimit: see ReadLimit.
func (c *Conn) WriteLimit() int64 {
	if c.wdl == 0 {
		return 0
	}
	return c.wdl - rt.Mono()
}

func (c *Conn) Close() error {
	rt.YH()
	if c.Closed {
		return errClosed
	}
	c.Closed = true
	c.ClosedAt = rt.Mono()
	c.gate.WakeAll()
	c.peer.gate.WakeAll()
	if c.err == nil {
		c.send(segment{fin: true}, c.n.lat())
	}
	return nil
}

func (c *Conn) Read(b []byte) (int, error) {
	rt.YH()
	for {
		if c.Closed || !rt.On() {
			return 0, errClosed
		}
		if c.rdl != 0 && rt.Mono() >= c.rdl {
			return 0, &net.OpError{Op: "read", Net: "tcp", Err: timeoutErr{}}
		}
		if len(c.in) > 0 {
			k := copy(b, c.in)
			c.in = c.in[k:]
			c.Bytes += k
			if c.n.Window > 0 {
				c.peer.gate.WakeAll()
			}
			return k, nil
		}
		if c.err != nil {
			return 0, c.err
		}
		if c.eof {
			return 0, io.EOF
		}
		d := int64(-1)
		if c.rdl != 0 {
			d = c.rdl - rt.Mono()
		}
		c.gate.Wait(d)
	}
}

func (c *Conn) Write(b []byte) (int, error) {
	if c.n.Window <= 0 {
		return c.write(b)
	}
	done := 0
	for {
		room := c.n.Window - c.under - len(c.peer.in)
		if room <= 0 && c.peer.Closed && !c.Closed && rt.On() {
			return done, errReset
		}
		if room <= 0 && !c.Closed && c.err == nil && !c.lost && rt.On() && !(c.wdl != 0 && rt.Mono() >= c.wdl) {
			d := int64(-1)
			if c.wdl != 0 {
				d = c.wdl - rt.Mono()
			}
			c.gate.Wait(d)
			continue
		}
		k := len(b) - done
		if room > 0 && k > room {
			k = room
		}
		n, err := c.write(b[done : done+k])
		done += n
		if err != nil || done == len(b) {
			return done, err
		}
	}
}

func (c *Conn) write(b []byte) (int, error) {
	rt.YH()
	if c.Closed || !rt.On() {
		return 0, errClosed
	}
	if c.err != nil {
		return 0, c.err
	}
	if c.wdl != 0 && rt.Mono() >= c.wdl {
		return 0, &net.OpError{Op: "write", Net: "tcp", Err: timeoutErr{}}
	}
	n := c.n
	if c.client && n.OnWrite != nil {
		n.OnWrite(c)
	}
	f, reset, drop := &n.F, n.F.ResetReq, n.F.DropReq
	if !c.client {
		reset, drop = f.ResetRep, f.DropRep
	}
	switch {
	case c.lost || c.h.Parted:
		c.lose()
		return len(b), nil
	case n.chance(drop, "data_lost"):
		c.lose()
		return len(b), nil
	case n.chance(reset, "connection_reset"):
		c.Reset()
		return len(b), nil
	}
	msg := append([]byte(nil), b...)
	l := n.lat()
	if !c.client && len(b) > 1 {
		if n.chance(f.TornRep, "reply_torn") {
			k := 1 + rt.Choose(len(b)-1)
			c.send(segment{b: msg[:k]}, l)
			c.send(segment{reset: true}, l)
			return len(b), nil
		}
		if n.chance(f.ShortRep, "reply_in_pieces") {
			k := 1 + rt.Choose(len(b)-1)
			c.send(segment{b: msg[:k]}, l)
			c.send(segment{b: msg[k:]}, l+1+f.LatMax/2)
			return len(b), nil
		}
	}
	c.send(segment{b: msg}, l)
	return len(b), nil
}

func (c *Conn) lose() {
	if !c.lost && c.n.KeepAlive > 0 {
		rt.SimTimer(c.n.KeepAlive, c.Reset)
	}
	c.lost = true
}

func (c *Conn) send(sg segment, l int64) {
	at := rt.Mono() + l
	if at < c.last {
		at = c.last
	}
	c.last = at
	c.under += len(sg.b)
	c.flight = append(c.flight, sg)
	rt.SimTimer(at-rt.Mono(), func() {
		sg := c.flight[0]
		c.flight = c.flight[1:]
		c.under -= len(sg.b)
		p := c.peer
		if c.h.Parted || c.lost {
			c.lose()
			return
		}
		if p.err != nil || p.Closed {
			return
		}
		switch {
		case sg.reset:
			c.Reset()
			return
		case sg.fin:
			p.eof = true
		default:
			p.in = append(p.in, sg.b...)
		}
		p.gate.WakeAll()
	})
}

// Reset breaks the connection for both sides.
func (c *Conn) Reset() {
	for _, e := range []*Conn{c, c.peer} {
		if e.err == nil {
			e.err = errReset
		}
		e.gate.WakeAll()
	}
}

// BreakAll resets every connection to the host.
func (h *Host) BreakAll() {
	for _, c := range h.conns {
		if c.err == nil && !(c.Closed && c.peer.Closed) {
			c.Reset()
		}
	}
	h.conns = nil
}

// Restart crashes the host; it is back after d.
func (h *Host) Restart(d int64) {
	h.BreakAll()
	if d > 0 {
		h.Down = true
		rt.SimTimer(d, func() { h.Down = false })
	}
	if h.n.X != nil {
		h.n.X.Fault("server_restart")
	}
}
