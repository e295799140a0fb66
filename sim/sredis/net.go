//go:build go1.21

package sredis

import (
	"context"
	"errors"
	"io"
	"net"
	"strconv"
	"strings"
	"time"

	"github.com/chanjarster/gears/zzsim/hk"
	rt "github.com/chanjarster/gears/zzsim/rt"
)

// Faults says which faults may happen, each with a chance out of 1000 per
// message (or dial). Every decision is a recorded choice of the run.
type Faults struct {
	LatMin, LatMax int64 // one way latency
	DialRefuse     int   // connection refused
	DialHang       int   // no answer to a dial
	DropReq        int   // the request and all that follows on the connection is lost
	ResetBefore    int   // connection reset before the server read the request
	ResetAfter     int   // connection reset after execution, before the reply
	DropReply      int   // executed, but the reply and all that follows is lost
	Slow           int   // the request takes SlowBy longer to reach the server
	SlowReply      int   // the reply takes SlowBy longer
	SlowBy         int64
	ErrReply       int // the server answers with an error instead of executing
	Short          int // the reply arrives in small pieces
	TornReply      int // the connection breaks in the middle of a reply
}

// Net connects clients to a server.
type Net struct {
	S        *Server
	F        Faults
	X        *hk.X
	Down     bool // nobody listens: dials are refused
	Parted   bool // partition: nothing gets through, in either direction
	conns    []*conn
	all      []*conn
	nconn    int
	DialTO   int64
	Restarts int
	// ClusterMode: the keys of a script must share a slot.
	ClusterMode bool
	// OnCmd sees every command that is executed, with the connection's state.
	OnCmd func(args []string, db int, authed bool)
}

// Open is the number of connections the client has not closed.
func (n *Net) Open() int {
	k := 0
	for _, c := range n.all {
		if !c.closed {
			k++
		}
	}
	return k
}

type segment struct {
	b     []byte
	reset bool
	ex    *Exec // the reply to it is complete with this segment
}

type conn struct {
	n        *Net
	id       int
	in       []byte    // at the server, unparsed
	out      []byte    // at the client, unread
	reqQ     []segment // in flight to the server, in order
	repQ     []segment // in flight to the client, in order
	lastReq  int64
	lastRep  int64
	closed   bool  // by the client
	err      error // connection broken, seen by the client after out is read
	srvDead  bool
	lostReq  bool
	lostRep  bool
	rdl, wdl int64 // deadlines in wall time ns, 0 none
	gate     rt.Gate
	multi    bool
	queue    [][]string
	dirty    bool
	expired  bool // a read on it has timed out at the client
	db       int
	authed   bool
}

func (n *Net) chance(p int, name string) bool {
	if p <= 0 || !rt.Chance(p, 1000) {
		return false
	}
	if n.X != nil {
		n.X.Fault(name)
	}
	return true
}

func (n *Net) lat() int64 {
	l := n.F.LatMin
	if d := n.F.LatMax - n.F.LatMin; d > 0 {
		l += d * int64(rt.Choose(5)) / 4
	}
	return l
}

var errRefused = &net.OpError{Op: "dial", Net: "tcp", Err: errors.New("connect: connection refused")}
var errReset = &net.OpError{Op: "read", Net: "tcp", Err: errors.New("read: connection reset by peer")}
var errClosed = &net.OpError{Op: "read", Net: "tcp", Err: errors.New("use of closed network connection")}

type timeoutErr struct{}

func (timeoutErr) Error() string   { return "i/o timeout" }
func (timeoutErr) Timeout() bool   { return true }
func (timeoutErr) Temporary() bool { return true }

// Dial is a dialer for go-redis.
func (n *Net) Dial(ctx context.Context, network, addr string) (net.Conn, error) {
	rt.YH()
	if n.Parted || n.chance(n.F.DialHang, "dial_hang") {
		to := n.DialTO
		if to <= 0 {
			to = 5e9
		}
		rt.Sleep(to)
		return nil, &net.OpError{Op: "dial", Net: "tcp", Err: timeoutErr{}}
	}
	if l := n.lat(); l > 0 {
		rt.Sleep(2 * l)
	}
	if n.Down || n.chance(n.F.DialRefuse, "dial_refused") {
		return nil, errRefused
	}
	n.nconn++
	c := &conn{n: n, id: n.nconn}
	n.conns = append(n.conns, c)
	n.all = append(n.all, c)
	return c, nil
}

func (c *conn) LocalAddr() net.Addr {
	return &net.TCPAddr{IP: net.IPv4(10, 0, 0, 1), Port: 1000 + c.id}
}
func (c *conn) RemoteAddr() net.Addr { return &net.TCPAddr{IP: net.IPv4(10, 0, 0, 2), Port: 6379} }

func dl(t time.Time) int64 {
	if t.IsZero() {
		return 0
	}
	// a deadline far in the past or without monotonic part is still comparable on the wall clock
	d := int64(t.Sub(rt.MkTime(rt.Wall(), rt.Mono())))
	m := rt.Mono() + d
	if m <= 0 {
		m = 1
	}
	return m
}
func (c *conn) SetDeadline(t time.Time) error {
	c.rdl, c.wdl = dl(t), dl(t)
	return nil
}
func (c *conn) SetReadDeadline(t time.Time) error  { c.rdl = dl(t); return nil }
func (c *conn) SetWriteDeadline(t time.Time) error { c.wdl = dl(t); return nil }

func (c *conn) Close() error {
	rt.YH()
	if c.closed {
		return errClosed
	}
	c.closed = true
	c.gate.WakeAll()
	return nil
}

func (c *conn) Read(b []byte) (int, error) {
	rt.YH()
	for {
		if c.closed || !rt.On() {
			return 0, errClosed
		}
		if len(c.out) > 0 {
			k := copy(b, c.out)
			c.out = c.out[k:]
			return k, nil
		}
		if c.err != nil {
			return 0, c.err
		}
		if c.rdl != 0 && rt.Mono() >= c.rdl {
			c.expired = true
			return 0, &net.OpError{Op: "read", Net: "tcp", Err: timeoutErr{}}
		}
		d := int64(-1)
		if c.rdl != 0 {
			d = c.rdl - rt.Mono()
		}
		c.gate.Wait(d)
	}
}

func (c *conn) Write(b []byte) (int, error) {
	rt.YH()
	if c.closed {
		return 0, errClosed
	}
	if c.err != nil {
		return 0, errReset
	}
	if c.wdl != 0 && rt.Mono() >= c.wdl {
		return 0, &net.OpError{Op: "write", Net: "tcp", Err: timeoutErr{}}
	}
	n := c.n
	if c.lostReq || n.Parted {
		c.lostReq = true
		return len(b), nil
	}
	if n.chance(n.F.DropReq, "request_lost") {
		c.lostReq = true
		return len(b), nil
	}
	if n.chance(n.F.ResetBefore, "reset_before_execution") {
		c.reset()
		return len(b), nil
	}
	msg := append([]byte(nil), b...)
	l := n.lat()
	if n.chance(n.F.Slow, "request_delayed") {
		l += n.F.SlowBy
	}
	at := rt.Mono() + l
	if at < c.lastReq {
		at = c.lastReq
	}
	c.lastReq = at
	c.reqQ = append(c.reqQ, segment{b: msg})
	rt.SimTimer(at-rt.Mono(), func() {
		sg := c.reqQ[0]
		c.reqQ = c.reqQ[1:]
		c.deliver(sg.b)
	})
	return len(b), nil
}

// reset breaks the connection for both sides.
func (c *conn) reset() {
	c.srvDead = true
	if c.err == nil {
		c.err = errReset
	}
	c.gate.WakeAll()
}

// deliver runs in scheduler context: the bytes reach the server.
func (c *conn) deliver(b []byte) {
	n := c.n
	if c.srvDead {
		return
	}
	if n.Parted {
		c.lostReq = true
		return
	}
	c.in = append(c.in, b...)
	for {
		args, rest, ok, bad := parseReq(c.in)
		if bad {
			c.reset()
			return
		}
		if !ok {
			return
		}
		c.in = rest
		if !c.handle(args) {
			return
		}
	}
}

func parseReq(b []byte) (args []string, rest []byte, ok, bad bool) {
	line := func() (string, bool) {
		i := strings.Index(string(b), "\r\n")
		if i < 0 {
			return "", false
		}
		s := string(b[:i])
		b = b[i+2:]
		return s, true
	}
	if len(b) == 0 {
		return nil, b, false, false
	}
	l, k := line()
	if !k {
		return nil, nil, false, false
	}
	if l == "" || l[0] != '*' {
		return nil, nil, false, true
	}
	n, err := strconv.Atoi(l[1:])
	if err != nil || n < 1 {
		return nil, nil, false, true
	}
	for i := 0; i < n; i++ {
		l, k := line()
		if !k {
			return nil, nil, false, false
		}
		if l == "" || l[0] != '$' {
			return nil, nil, false, true
		}
		m, err := strconv.Atoi(l[1:])
		if err != nil || m < 0 {
			return nil, nil, false, true
		}
		if len(b) < m+2 {
			return nil, nil, false, false
		}
		args = append(args, string(b[:m]))
		b = b[m+2:]
	}
	return args, b, true, false
}

func (c *conn) handle(args []string) bool {
	n := c.n
	var r reply
	var ex *Exec
	up := strings.ToUpper(args[0])
	switch {
	case (up == "AUTH" || up == "SELECT" && !c.multi) && n.chance(n.F.ErrReply, "error_reply"):
		r = rErr("LOADING Redis is loading the dataset in memory")
		ex = n.S.note(c.id, args, r)
	case up == "AUTH":
		switch {
		case n.S.Pass == "":
			r = rErr("ERR Client sent AUTH, but no password is set")
		case args[len(args)-1] == n.S.Pass && len(args) <= 3:
			c.authed = true
			r = rOK
		default:
			c.authed = false
			r = rErr("WRONGPASS invalid username-password pair")
		}
		ex = n.S.note(c.id, args, r)
	case n.S.Pass != "" && !c.authed:
		r = rErr("NOAUTH Authentication required.")
		ex = n.S.note(c.id, args, r)
	case up == "SELECT" && len(args) == 2 && !c.multi:
		if d, err := strconv.Atoi(args[1]); err != nil || d < 0 || d > 999 {
			r = rErr("ERR DB index is out of range")
		} else {
			c.db = d
			r = rOK
		}
		ex = n.S.note(c.id, args, r)
	case up == "MULTI":
		c.multi, c.queue, c.dirty = true, nil, false
		r = rOK
	case up == "DISCARD" && c.multi:
		c.multi, c.queue = false, nil
		r = rOK
	case up == "EXEC" && c.multi:
		c.multi = false
		if c.dirty {
			r = rErr("EXECABORT Transaction discarded because of previous errors.")
			break
		}
		r = reply{k: '*'}
		for _, q := range c.queue {
			var x reply
			x, ex = c.run(q)
			r.a = append(r.a, x)
		}
		c.queue = nil
	case c.multi:
		if _, ok := arity[up]; !ok && up != "PING" && up != "TIME" {
			c.dirty = true
			r = rErr("ERR unknown command '" + args[0] + "'")
		} else {
			c.queue = append(c.queue, args)
			r = reply{k: '+', s: "QUEUED"}
		}
	default:
		if n.chance(n.F.ErrReply, "error_reply") {
			e := []string{"LOADING Redis is loading the dataset in memory", "OOM command not allowed when used memory > 'maxmemory'.",
				"READONLY You can't write against a read only replica.", "ERR max number of clients reached", "NOAUTH Authentication required."}
			r = rErr(e[rt.Choose(len(e))])
			ex = n.S.note(c.id, args, r)
		} else {
			r, ex = c.run(args)
		}
	}
	if n.chance(n.F.ResetAfter, "reset_after_execution") {
		c.reset()
		return false
	}
	if c.lostRep || n.chance(n.F.DropReply, "reply_lost") {
		c.lostRep = true
		return true
	}
	b := r.enc(nil)
	l := n.lat()
	if n.chance(n.F.SlowReply, "reply_delayed") {
		l += n.F.SlowBy
	}
	at := rt.Mono() + l
	if at < c.lastRep {
		at = c.lastRep
	}
	put := func(b []byte, at int64, reset bool, ex *Exec) {
		c.lastRep = at
		c.repQ = append(c.repQ, segment{b, reset, ex})
		rt.SimTimer(at-rt.Mono(), func() {
			sg := c.repQ[0]
			c.repQ = c.repQ[1:]
			if n.Parted {
				c.lostRep = true
			}
			if c.srvDead || c.lostRep {
				return
			}
			c.out = append(c.out, sg.b...)
			if sg.ex != nil && !c.closed && !c.expired {
				sg.ex.Delivered = true
			}
			c.gate.WakeAll()
			if sg.reset {
				c.reset()
			}
		})
	}
	if len(b) > 1 && n.chance(n.F.TornReply, "reply_torn") {
		k := 1 + rt.Choose(len(b)-1)
		put(b[:k], at, true, nil)
		return false
	}
	if n.chance(n.F.Short, "reply_in_pieces") {
		k := 1 + rt.Choose(len(b)-1)
		put(b[:k], at, false, nil)
		put(b[k:], at+1+n.F.LatMax/2, false, ex)
		return true
	}
	put(b, at, false, ex)
	return true
}

func (c *conn) run(args []string) (reply, *Exec) {
	var r reply
	if c.n.ClusterMode && crossSlot(args) {
		r = rErr("CROSSSLOT Keys in request don't hash to the same slot")
	} else {
		if c.n.OnCmd != nil {
			c.n.OnCmd(args, c.db, c.authed)
		}
		c.n.S.DB(c.db, func() { r = c.n.S.exec(args) })
	}
	return r, c.n.S.note(c.id, args, r)
}

// note logs an executed request.
func (s *Server) note(conn int, args []string, r reply) *Exec {
	e := &Exec{Conn: conn, At: rt.Mono(), Args: args}
	if r.k == '-' {
		e.Err = r.s
	}
	e.Seq = rt.Rec("redis", int64(conn), 0, args[0], nil)
	s.Log = append(s.Log, e)
	return e
}

func slotPart(k string) string {
	if i := strings.IndexByte(k, '{'); i >= 0 {
		if j := strings.IndexByte(k[i+1:], '}'); j > 0 {
			return k[i+1 : i+1+j]
		}
	}
	return k
}

func crossSlot(a []string) bool {
	up := strings.ToUpper(a[0])
	if up != "EVAL" && up != "EVALSHA" || len(a) < 3 {
		return false
	}
	n, err := strconv.Atoi(a[2])
	if err != nil || n < 2 || n > len(a)-3 {
		return false
	}
	for _, k := range a[4 : 3+n] {
		if slotPart(k) != slotPart(a[3]) {
			return true
		}
	}
	return false
}

// BreakAll resets every connection (server crash, failover).
func (n *Net) BreakAll() {
	for _, c := range n.conns {
		if !c.srvDead {
			c.reset()
		}
	}
	n.conns = nil
}

// Restart crashes the server; it is back after d.
func (n *Net) Restart(loseData bool, d int64) {
	n.Restarts++
	n.S.Restart(loseData)
	n.BreakAll()
	if d > 0 {
		n.Down = true
		rt.SimTimer(d, func() { n.Down = false })
	}
	if n.X != nil {
		if loseData {
			n.X.Fault("server_restart_data_lost")
		} else {
			n.X.Fault("server_restart")
		}
	}
}

// Partition cuts the network for d.
func (n *Net) Partition(d int64) {
	n.Parted = true
	rt.SimTimer(d, func() { n.Parted = false })
	if n.X != nil {
		n.X.Fault("partition")
	}
}

var _ net.Conn = (*conn)(nil)
var _ = io.EOF
