//go:build go1.21

// Scenarios of the Redis rate limiter (C19, C20): several go-redis clients over a
// simulated network to a simulated Redis server.
package main

import (
	"context"
	"fmt"
	"io"
	"log"
	"strings"
	"time"

	rl "github.com/chanjarster/gears/ratelimiter"
	"github.com/chanjarster/gears/simplelog"
	"github.com/chanjarster/gears/zzsim/hk"
	rt "github.com/chanjarster/gears/zzsim/rt"
	"github.com/chanjarster/gears/zzsim/sredis"
	"github.com/go-redis/redis/v7"
)

const sec = int64(1e9)
const ms = int64(1e6)

type params struct{ cap, win, exp int }

func (p *params) GetCapacity() int          { return p.cap }
func (p *params) GetWindowSizeSeconds() int { return p.win }
func (p *params) GetTimeoutSeconds() int    { return p.exp }

type world struct {
	x     *hk.X
	p     *hk.Plan
	srv   *sredis.Server
	net   *sredis.Net
	cl    []*redis.Client
	lims  []rl.TtlRateLimiter
	prm   *params
	calls []*call
}

// call is one request as the client saw it.
type call struct {
	t, lim        int
	kind          string // should, is
	key, blk      string
	msg           string
	call, ret     int
	callT, retT   int64
	res           rl.Result
	done          bool
	cap, win, exp int
	cancelled     bool
	faulty        bool // made while faults were possible
}

func (c *call) String() string {
	return fmt.Sprintf("%s(%s,%s,%q)@%v..%v #%d..%d -> %+v", c.kind, c.key, c.blk, c.msg, time.Duration(c.callT), time.Duration(c.retT), c.call, c.ret, c.res)
}

func (w *world) text() string {
	var sb strings.Builder
	for i, c := range w.calls {
		if i > 24 {
			sb.WriteString("...")
			break
		}
		sb.WriteString(c.String() + "; ")
	}
	return sb.String()
}

const (
	dialTO = 500 * ms
	readTO = 1000 * ms
	poolTO = 700 * ms
)

func newWorld(p *hk.Plan, x *hk.X) *world {
	w := &world{x: x, p: p, srv: sredis.NewServer(), prm: &params{p.I("cap"), p.I("win"), p.I("exp")}}
	w.net = &sredis.Net{S: w.srv, X: x, DialTO: dialTO}
	w.srv.Skew = p.C("skew")
	w.net.ClusterMode = p.C("tag") > 0
	var prm rl.TtlRateLimiterParams = w.prm
	if p.C("fixed") == 1 {
		prm = rl.NewFixedTtlRateLimiterParams(w.prm.cap, w.prm.win, w.prm.exp)
	}
	for i := 0; i < p.I("clients"); i++ {
		o := &redis.Options{Addr: "redis:6379", Dialer: w.net.Dial, DialTimeout: time.Duration(dialTO), ReadTimeout: time.Duration(readTO),
			PoolTimeout: time.Duration(poolTO), PoolSize: p.I("pool"), MaxRetries: p.I("retries"), MinIdleConns: p.I("minidle")}
		if p.C("idle") == 0 {
			o.IdleTimeout = -1
		}
		c := redis.NewClient(o)
		w.cl = append(w.cl, c)
		tag := []string{"", "t", "{t}", "{app1", "x:y"}[p.C("tag")]
		if tag == "" {
			w.lims = append(w.lims, rl.NewRedisTtlRateLimiter(c, prm))
		} else {
			w.lims = append(w.lims, rl.NewRedisTtlRateLimiterCluster(c, prm, tag))
		}
	}
	rl.LoadScript(w.cl[0])
	w.net.F.LatMin, w.net.F.LatMax = p.C("latmin"), p.C("latmax")
	w.net.F.Short = p.I("short")
	return w
}

func (w *world) close() {
	for _, c := range w.cl {
		c.Close()
	}
}

// keys beginning with "_rl:" are left out, the limiter's own keys begin like that
var keyNames = []string{"a", "b", "user:42", "k e y\r\n", "日本", "a:bl", "b:bl:bl"}

// names of key k and its block key
func (w *world) names(k int64) (string, string) {
	key := keyNames[(k+w.p.C("koff"))%int64(len(keyNames))]
	switch w.p.C("share") {
	case 1: // all keys share one block key
		return key, "shared"
	case 2: // the first two share
		if k < 2 {
			return key, "ab"
		}
	}
	return key, key
}

func (w *world) issue(c *call) {
	w.calls = append(w.calls, c)
	c.cap, c.win, c.exp = w.prm.cap, w.prm.win, w.prm.exp
	c.callT = rt.Mono()
	c.call = rt.Rec(c.kind, int64(c.t), int64(c.lim), c.key+"/"+c.blk, c.msg)
	l := w.lims[c.lim]
	ctx := context.Background()
	var r *rl.Result
	if c.cancelled {
		x, cancel := rt.CtxWithCancel(ctx)
		cancel()
		ctx = x
	}
	pan := hk.Catch(func() {
		switch {
		case c.kind == "is" && !c.cancelled && (c.t+len(w.calls))%2 == 0:
			r = l.IsBlocked(c.blk)
		case c.kind == "is":
			r = l.IsBlockedContext(ctx, c.blk)
		case c.key == c.blk && !c.cancelled && len(c.msg)%2 == 0:
			r = l.ShouldBlock(c.key, c.msg)
		case c.key == c.blk && len(c.msg)%3 == 0:
			r = l.ShouldBlockContext(ctx, c.key, c.msg)
		case c.cancelled || len(c.msg)%2 == 1:
			r = l.ShouldBlock2Context(ctx, c.key, c.blk, c.msg)
		default:
			r = l.ShouldBlock2(c.key, c.blk, c.msg)
		}
	})
	if !rt.On() {
		return
	}
	if pan != nil {
		w.x.Fail("panic", "%s panicked: %v", c.String(), pan)
		return
	}
	if r == nil {
		w.x.Fail("nil-result", "%s returned nil", c.String())
		return
	}
	c.res = *r
	c.done = true
	c.retT = rt.Mono()
	c.ret = rt.Rec("result", int64(c.t), 0, fmt.Sprintf("%+v", *r), nil)
	// the three documented forms
	z := c.res
	switch {
	case !z.Block && !z.Triggered && z.Ttl == 0 && z.Msg == "":
	case z.Block && z.Ttl > 0:
	default:
		w.x.Fail("illegal-result", "%s: not one of the documented results", c.String())
	}
}

// ---- sequential specification -------------------------------------------------

type ival struct{ lo, hi int64 }

type kstate struct {
	list []ival
}
type bstate struct {
	on  bool
	end ival
	msg string
}
type state struct {
	k map[string]kstate
	b map[string]bstate
}

func (s *state) clone() *state {
	n := &state{map[string]kstate{}, map[string]bstate{}}
	for k, v := range s.k {
		n.k[k] = v
	}
	for k, v := range s.b {
		n.b[k] = v
	}
	return n
}

func (s *state) key() string {
	var sb strings.Builder
	for _, k := range keyNames {
		if v, ok := s.k[k]; ok {
			fmt.Fprintf(&sb, "%s%v", k, v.list)
		}
	}
	for _, k := range append([]string{"shared", "ab", "fresh"}, keyNames...) {
		if v, ok := s.b[k]; ok {
			fmt.Fprintf(&sb, "|%s%v%v%s", k, v.on, v.end, v.msg)
		}
	}
	return sb.String()
}

// lop is one atomic effect: between lo and hi in time.
type lop struct {
	c      *call
	lo, hi int64
	now    ival // when the client may have read its clock
	mode   byte // 's' the result is the client's, 'f' the outcome is not known to anybody, 'w' all data lost
}

// step gives the states in which o may leave st.
func step(si interface{}, lo *hk.LinOp) []interface{} {
	st := si.(*state)
	o := lo.Out.(*lop)
	if o.mode == 'w' {
		return []interface{}{&state{map[string]kstate{}, map[string]bstate{}}}
	}
	c := o.c
	var out []interface{}
	r := c.res
	strict := o.mode == 's'
	if c.cap <= 0 || c.win <= 0 || c.exp <= 0 {
		if c.kind == "should" && (!strict || !r.Block) {
			return []interface{}{st}
		}
		if c.kind == "should" {
			return nil
		}
	}
	b := st.b[c.blk]
	mayBlocked := b.on && o.lo < b.end.hi
	mayFree := !b.on || o.hi >= b.end.lo-ms
	blockedOK := func() bool {
		rmin, rmax := b.end.lo-o.hi, b.end.hi-o.lo
		ttl := int64(r.Ttl) * sec
		return r.Block && !r.Triggered && r.Msg == b.msg && r.Ttl >= 1 && (r.Ttl == 1 && rmin <= sec || ttl > rmin-sec-ms) && ttl < rmax+sec+ms
	}
	if mayBlocked && (!strict || blockedOK()) {
		out = append(out, st)
	}
	if !mayFree {
		return out
	}
	if c.kind == "is" {
		if !strict || !r.Block {
			out = append(out, st)
		}
		return out
	}
	win := int64(c.win) * sec
	ks := st.k[c.key].list
	if len(ks) > c.cap {
		ks = ks[len(ks)-c.cap:]
	}
	pass := len(ks) < c.cap || o.now.hi-ks[0].lo > win
	trig := len(ks) >= c.cap && o.now.lo-ks[0].hi < win+sec
	if pass && (!strict || !r.Block) {
		n := st.clone()
		l := append(append([]ival(nil), ks...), o.now)
		if len(l) > c.cap {
			l = l[len(l)-c.cap:]
		}
		n.k[c.key] = kstate{l}
		delete(n.b, c.blk)
		out = append(out, n)
	}
	if trig && (!strict || r.Block && r.Triggered && r.Msg == c.msg && r.Ttl == c.exp) {
		n := st.clone()
		n.k[c.key] = kstate{ks}
		e := int64(c.exp) * sec
		n.b[c.blk] = bstate{true, ival{o.lo + e, o.hi + e}, c.msg}
		out = append(out, n)
	}
	return out
}

func initState() *state { return &state{map[string]kstate{}, map[string]bstate{}} }

func (w *world) check(ops []*hk.LinOp, what string) {
	r := hk.CheckLin(ops, hk.LinModel{Init: initState(), Step: step, Key: func(s interface{}) string { return s.(*state).key() }}, 60000)
	switch r {
	case 0:
		w.x.Fail(what, "no order of the requests explains the results (capacity %d, window %ds, timeout %ds): %s", w.prm.cap, w.prm.win, w.prm.exp, w.text())
	case -1:
		w.x.Inconclusive()
	}
}

// ---- C19 -------------------------------------------------------------------

func genC19(netw bool) func(r *hk.Rng) *hk.Plan {
	return func(r *hk.Rng) *hk.Plan {
		cap, win, exp := r.Pick(1, 1, 2, 2, 3, 5), r.Pick(1, 1, 2, 3, 5, 10, 60), r.Pick(1, 1, 2, 3, 5, 10, 60)
		if r.P(1, 40) {
			switch r.N(3) {
			case 0:
				cap = r.Pick(0, -1)
			case 1:
				win = r.Pick(0, -1)
			case 2:
				exp = r.Pick(0, -1)
			}
		}
		nk := r.R(1, 4)
		p := &hk.Plan{Cfg: map[string]int64{"cap": cap, "win": win, "exp": exp, "tag": r.Pick(0, 0, 1, 2, 3, 4), "clients": int64(r.R(1, 2)), "share": int64(r.N(3)), "koff": r.Pick(0, 0, 1, 2, 4, 5, 6),
			"pool": 10, "retries": r.Pick(-1, 3), "idle": int64(r.N(2)), "minidle": r.Pick(0, 0, 0, 1), "skew": r.Pick(0, 0, 3600*sec, -7*sec/2)}}
		if netw {
			p.Cfg["latmin"] = r.Pick(0, ms, 20*ms)
			p.Cfg["latmax"] = p.Cfg["latmin"] + r.Pick(0, ms, 50*ms, 300*ms)
			p.Cfg["short"] = r.Pick(0, 200)
		}
		if r.P(1, 150) { // a large capacity, one client
			cap = r.Pick(10, 16, 20, 33)
			p.Cfg["cap"], p.Cfg["clients"] = cap, 1
			var ops []hk.Op
			pause := r.Pick(0, 0, 1, win*sec/cap, win*sec/cap+1)
			for i := int64(0); i < cap+r.Pick(1, 5, 12, 25); i++ {
				op := hk.Op{K: "should", S: fmt.Sprintf("%d", i), C: pause}
				if r.P(1, 10) {
					op.C = r.Pick(win*sec, (win+1)*sec, exp*sec, exp*sec+1, sec)
				}
				ops = append(ops, op)
			}
			p.Ops = [][]hk.Op{ops}
			p.Sim = hk.GenSim(r, 3000, false, 0)
			return p
		}
		nt := r.R(1, 4)
		p.Cfg["fixed"] = int64(r.N(2))
		w, e := win*sec, exp*sec
		for t := 0; t < nt; t++ {
			var ops []hk.Op
			for i, n := 0, r.R(2, 14); i < n; i++ {
				d := r.Pick(0, 0, 0, 0, 0, 1, ms, sec/2, sec-1, sec, w-1, w-ms, w, w+1, w+sec-1, w+sec, w+2*sec, e/2, e-sec/3, e-ms, e-1, e, e+1, e+ms, 2*e, 2*e+1, 2*e+sec, w-e)
				if d < 0 {
					d = 0
				}
				op := hk.Op{K: "should", A: int64(r.N(nk)), B: int64(r.N(2)), C: d, S: fmt.Sprintf("%d-%d", t, i) + r.PickS("", "", "", " x", "\r\n", "é", strings.Repeat("long", 1500))}
				switch {
				case r.P(1, 4):
					op.K, op.S = "is", ""
				case nt == 1 && p.Cfg["fixed"] == 0 && r.P(1, 12):
					op = hk.Op{K: "cap", A: r.Pick(1, 2, 3, 4, 0)}
				}
				ops = append(ops, op)
			}
			p.Ops = append(p.Ops, ops)
		}
		p.Sim = hk.GenSim(r, 800, false, 0)
		return p
	}
}

func runC19(p *hk.Plan, x *hk.X) {
	w := newWorld(p, x)
	x.RunOps(func(t int, op hk.Op) {
		if x.Failed() {
			return
		}
		if op.K == "cap" {
			if len(p.Ops) == 1 && p.C("fixed") == 0 {
				w.prm.cap = int(op.A)
			}
			return
		}
		if op.C > 0 {
			rt.Sleep(op.C)
		}
		key, blk := w.names(op.A)
		w.issue(&call{t: t, lim: int(op.B) % len(w.lims), kind: op.K, key: key, blk: blk, msg: op.S})
	})
	x.Join()
	w.close()
	l := w.lims[0]
	if l.GetCapacity() != w.prm.cap || l.GetWindowSizeSeconds() != w.prm.win || l.GetTimeoutSeconds() != w.prm.exp {
		x.Fail("params", "the limiter reports capacity %d window %d timeout %d", l.GetCapacity(), l.GetWindowSizeSeconds(), l.GetTimeoutSeconds())
	}
	// independent parts: the keys of one block key
	parts := map[string][]*hk.LinOp{}
	for _, c := range w.calls {
		if !c.done {
			continue
		}
		if c.res.Triggered {
			x.Probe("block_triggered")
		} else if c.res.Block {
			x.Probe("blocked")
		}
		parts[c.blk] = append(parts[c.blk], &hk.LinOp{Call: c.call, Ret: c.ret, Out: &lop{c, c.callT, c.retT, ival{c.callT, c.retT}, 's'}})
	}
	for _, b := range append([]string{"shared", "ab"}, keyNames...) {
		if o := parts[b]; len(o) > 0 && !x.Failed() {
			w.check(o, "wrong-decision")
		}
	}
}

// ---- C20 -------------------------------------------------------------------

func genC20(r *hk.Rng) *hk.Plan {
	cap, win, exp := r.Pick(1, 1, 2, 3), r.Pick(1, 2, 5, 60), r.Pick(1, 2, 5, 60)
	nk := r.R(1, 3)
	p := &hk.Plan{Cfg: map[string]int64{"cap": cap, "win": win, "exp": exp, "tag": r.Pick(0, 0, 1), "clients": int64(r.R(1, 2)), "share": int64(r.N(3)),
		"pool": r.Pick(10, 10, 3, 1), "retries": r.Pick(-1, -1, 3, 1), "idle": int64(r.N(2)), "minidle": 0,
		"latmin": r.Pick(0, 0, ms), "latmax": r.Pick(ms, 5*ms, 400*ms), "slowby": r.Pick(200*ms, readTO-ms, readTO, readTO+ms, 3*readTO, 9*sec)}}
	base := r.Pick(0, 10, 30, 100, 300)
	for _, f := range []string{"refuse", "hang", "dropreq", "rbefore", "rafter", "droprep", "slow", "slowrep", "errrep", "short", "torn"} {
		if r.P(1, 3) {
			p.Cfg[f] = base
		}
	}
	nt := r.R(1, 3)
	w, e := win*sec, exp*sec
	for t := 0; t < nt; t++ {
		var ops []hk.Op
		for i, n := 0, r.R(2, 10); i < n; i++ {
			d := r.Pick(0, 0, 0, 0, ms, sec/2, sec, w, w+sec, e-ms, e, e+ms, 2*readTO)
			if d > 10*sec {
				d = sec
			}
			op := hk.Op{K: "should", A: int64(r.N(nk)), B: int64(r.N(2)), C: d, S: fmt.Sprintf("m%d-%d", t, i) + r.PickS("", ".", "..")}
			if r.P(1, 6) {
				op.K, op.S = "is", ""
			} else if r.P(1, 15) {
				op.K = "cancelled"
			}
			ops = append(ops, op)
		}
		p.Ops = append(p.Ops, ops)
	}
	// the operator of the Redis server
	var chaos []hk.Op
	for i, n := 0, r.R(0, 4); i < n; i++ {
		d := r.Pick(0, 0, ms, sec/2, sec, 3*sec)
		chaos = append(chaos, hk.Op{K: r.PickS("restart", "restart", "part", "flush", "break"), A: int64(r.N(2)), B: r.Pick(0, ms, sec/2, 3*sec), C: d})
	}
	p.Ops = append(p.Ops, chaos)
	p.Sim = hk.GenSim(r, 900, false, 0)
	return p
}

func runC20(p *hk.Plan, x *hk.X) {
	w := newWorld(p, x)
	f := &w.net.F
	f.DialRefuse, f.DialHang, f.DropReq, f.ResetBefore, f.ResetAfter, f.DropReply = p.I("refuse"), p.I("hang"), p.I("dropreq"), p.I("rbefore"), p.I("rafter"), p.I("droprep")
	f.Slow, f.SlowReply, f.ErrReply, f.Short, f.TornReply, f.SlowBy = p.I("slow"), p.I("slowrep"), p.I("errrep"), p.I("short"), p.I("torn"), p.C("slowby")
	var lin []*hk.LinOp
	retries := p.I("retries")
	if retries < 0 {
		retries = 0
	}
	// a call may use the script's hash and then the script: two commands with all their attempts
	limit := 2*int64(retries+1)*(dialTO+readTO+poolTO+600*ms+2*f.LatMax) + sec
	x.RunOps(func(t int, op hk.Op) {
		if x.Failed() {
			return
		}
		if op.C > 0 {
			rt.Sleep(op.C)
		}
		switch op.K {
		case "restart":
			s := rt.Rec("restart", op.A, op.B, "", nil)
			w.net.Restart(op.A == 1, op.B)
			if op.A == 1 {
				lin = append(lin, &hk.LinOp{Call: s, Ret: s, Out: &lop{mode: 'w'}})
			}
			return
		case "part":
			if op.B > 0 {
				rt.Rec("partition", 0, op.B, "", nil)
				w.net.Partition(op.B)
			}
			return
		case "flush":
			rt.Rec("script flush", 0, 0, "", nil)
			x.Fault("scripts_lost")
			w.srv.FlushScripts()
			return
		case "break":
			rt.Rec("break connections", 0, 0, "", nil)
			x.Fault("connections_broken")
			w.net.BreakAll()
			return
		}
		key, blk := w.names(op.A)
		c := &call{t: t, lim: int(op.B) % len(w.lims), kind: op.K, key: key, blk: blk, msg: op.S, faulty: true}
		if op.K == "cancelled" {
			c.kind, c.cancelled = "should", true
		}
		w.issue(c)
		if c.done && c.retT-c.callT > limit {
			x.Fail("too-slow", "%s took %v, the client's limits add up to %v", c.String(), time.Duration(c.retT-c.callT), time.Duration(limit))
		}
	})
	x.Join()
	if x.Failed() {
		w.close()
		return
	}
	// the faults are over; what is still on its way arrives, and the client notices that the
	// server is back (it tries once a second)
	lat := f.LatMax
	*f = sredis.Faults{}
	rt.Sleep(f.SlowBy + 2*lat + 14*sec + dialTO)
	n0 := len(w.calls)
	if !w.net.Down && !w.net.Parted {
		// connections that broke while idle are found out by their next use; a client with
		// fewer retries than broken connections pays with some calls
		if retries < p.I("pool") {
			for i := range w.lims {
				for j := 0; j < p.I("pool"); j++ {
					w.lims[i].IsBlocked("warm")
				}
			}
			n0 = len(w.calls)
		}
		for i := 0; i <= w.prm.cap+1 && !x.Failed(); i++ {
			c := &call{lim: i % len(w.lims), kind: "should", key: "fresh", blk: "fresh", msg: fmt.Sprintf("fresh%d", i)}
			w.issue(c)
			if c.done {
				if want := i >= w.prm.cap; c.res.Block != want || c.res.Triggered != (i == w.prm.cap) {
					x.Fail("not-limiting-again", "after the faults request %d for a new key (capacity %d) got %+v: %s", i+1, w.prm.cap, c.res, w.text())
				}
			}
		}
		c := &call{kind: "is", key: "fresh", blk: "fresh", lim: 0}
		w.issue(c)
		if c.done && (!c.res.Block || c.res.Msg != fmt.Sprintf("fresh%d", w.prm.cap)) {
			x.Fail("not-limiting-again", "after the faults IsBlocked of a blocked key got %+v: %s", c.res, w.text())
		}
	}
	w.close()
	if x.Failed() {
		return
	}
	// what the server executed, matched by message, against what the clients were told
	for _, c := range w.calls[:n0] {
		if !c.done {
			continue
		}
		if c.kind == "is" {
			if c.res.Block {
				lin = append(lin, &hk.LinOp{Call: c.call, Ret: c.ret, Out: &lop{c, c.callT, c.retT, ival{c.callT, c.retT}, 's'}})
			}
			continue
		}
		var last *hk.LinOp
		for _, e := range w.srv.Log {
			if e.Err != "" || !carries(e.Args, c.msg) {
				continue
			}
			o := &hk.LinOp{Call: e.Seq, Ret: e.Seq, Out: &lop{c, e.At, e.At, ival{c.callT, e.At}, 'f'}}
			lin = append(lin, o)
			if e.Delivered && e.Seq < c.ret {
				last = o
			} else {
				x.Probe("executed_but_not_answered")
			}
		}
		switch {
		case last != nil:
			last.Out.(*lop).mode = 's'
		case c.res.Block:
			lin = append(lin, &hk.LinOp{Call: c.call, Ret: c.ret, Out: &lop{c, c.callT, c.retT, ival{c.callT, c.retT}, 's'}})
		default:
			x.Probe("failed_open")
		}
	}
	w.check(lin, "wrong-decision")
}

func carries(args []string, msg string) bool {
	for _, a := range args {
		if a == msg {
			return true
		}
	}
	return false
}

const real19 = "ratelimiter.NewRedisTtlRateLimiter(Cluster), LoadScript and its Lua scripts; go-redis v7 client, pool, protocol (transformed copy)"
const stub19 = "Redis server incl. Lua interpreter, TCP, clocks, Go scheduler (simulated)"

func main() {
	hk.Bystander = bystander
	hk.EachRun = func() {
		simplelog.StdLogger.SetOutput(io.Discard)
		simplelog.ErrLogger.SetOutput(io.Discard)
	}
	redis.SetLogger(log.New(io.Discard, "", 0))
	hk.Main("redisrl", []*hk.Scenario{
		{Prop: "C19", Name: "rl-exact", Runs: 60000, Gen: genC19(false), Run: runC19, Real: real19, Stub: stub19},
		{Prop: "C19", Name: "rl-net", Runs: 60000, Gen: genC19(true), Run: runC19, Real: real19, Stub: stub19},
		{Prop: "C20", Name: "rl-faults", Runs: 80000, Gen: genC20, Run: runC20, Real: real19, Stub: stub19},
	})
}
