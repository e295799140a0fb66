//go:build go1.21

// Scenarios of the SkyWalking integration: the Redis tracing hook (C26), the HTTP server
// middleware and the HTTP client helper (C27). The tracer is the real go2sky library
// (transformed), its reporter collects the segments.
package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/base64"
	"errors"
	"fmt"
	"io"
	"log"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/SkyAPM/go2sky"
	"github.com/SkyAPM/go2sky/reporter"
	"github.com/chanjarster/gears/skywalking"
	swhttp "github.com/chanjarster/gears/skywalking/fasthttp"
	swroute "github.com/chanjarster/gears/skywalking/fasthttp-routing"
	swredis "github.com/chanjarster/gears/skywalking/redis"
	"github.com/chanjarster/gears/zzsim/hk"
	rt "github.com/chanjarster/gears/zzsim/rt"
	"github.com/chanjarster/gears/zzsim/sredis"
	"github.com/go-redis/redis/v7"
	routing "github.com/qiangxue/fasthttp-routing"
	"github.com/valyala/fasthttp"
)

const sec = int64(1e9)
const ms = int64(1e6)

// ---- reporter and sampler ---------------------------------------------------

type collector struct {
	segs [][]go2sky.ReportedSpan
	svc  []string
}

func (c *collector) Boot(s, i string, _ []go2sky.AgentConfigChangeWatcher) {
	c.svc = append(c.svc, s+"@"+i)
}
func (c *collector) Send(s []go2sky.ReportedSpan) { c.segs = append(c.segs, s) }
func (c *collector) Close()                       {}

// sampler leaves out every n-th trace.
type sampler struct{ n, every int64 }

func (s *sampler) IsSampled(string) bool {
	s.n++
	return s.every == 0 || s.n%s.every != 0
}

func newTracer(p *hk.Plan, c *collector) *go2sky.Tracer {
	opts := []go2sky.TracerOption{go2sky.WithInstance("me"), go2sky.WithCustomSampler(&sampler{every: p.C("sample")})}
	if p.C("norep") == 0 {
		opts = append(opts, go2sky.WithReporter(c))
	}
	t, err := go2sky.NewTracer("svc", opts...)
	if err != nil {
		panic(err)
	}
	return t
}

// factoryTracer makes the tracer as an application does, with the module's own factory.
func factoryTracer(p *hk.Plan, x *hk.X, c *collector) *go2sky.Tracer {
	conf := &skywalking.Conf{ServerAddr: "oap:11800", ServiceName: "svc", ServiceInstance: "me", ServiceNamespace: "ns"}
	dials, fail := "", p.C("factory") == 2
	reporter.SimDial = func(addr string, check, cds time.Duration) (go2sky.Reporter, error) {
		dials += addr + ";"
		if fail {
			x.Fault("reporter_dial_failed")
			return nil, errors.New("no route")
		}
		return c, nil
	}
	if p.C("factory") == 3 { // nowhere to report to
		for _, cf := range []*skywalking.Conf{nil, {ServiceName: "svc", ServiceInstance: "me", ServiceNamespace: "ns"}} {
			var rep go2sky.Reporter
			var err error
			pan := hk.Catch(func() {
				rep, err = skywalking.NewGrpcOrNoopReporter(cf)
				if err == nil && rep != nil {
					t, _ := skywalking.NewTracer(conf, rep)
					s, ctx, _ := t.CreateLocalSpan(context.Background())
					s2, _, _ := t.CreateLocalSpan(ctx)
					s2.End()
					s.End()
					rep.Close()
				}
			})
			if pan != nil || err != nil || rep == nil || dials != "" {
				x.Fail("factory", "without a server address: reporter %v error %v panic %v, connected to %q", rep, err, pan, dials)
				return nil
			}
		}
		x.Probe("reporting_nowhere")
		if rt.On() {
			return newTracer(p, c)
		}
		return nil
	}
	rep, err := skywalking.NewGrpcOrNoopReporter(conf)
	if dials != conf.ServerAddr+";" {
		x.Fail("factory", "a reporter for %q connects to %q", conf.ServerAddr, dials)
		return nil
	}
	if fail {
		if err == nil {
			x.Fail("factory", "the connection failed, error %v", err)
		}
		fail, dials = false, ""
		if rep, err = skywalking.NewGrpcOrNoopReporter(conf); err != nil {
			x.Fail("factory", "connected, but error %v", err)
			return nil
		}
	}
	if err != nil || rep != go2sky.Reporter(c) {
		x.Fail("factory", "a reporter for %q: %v error %v", conf.ServerAddr, rep, err)
		return nil
	}
	t, err := skywalking.NewTracer(conf, rep)
	if err != nil || t == nil || len(c.svc) != 1 || c.svc[0] != "ns::svc@me" {
		x.Fail("factory", "NewTracer(%v): error %v, reports as %q", conf, err, c.svc)
		return nil
	}
	x.Probe("factory_tracer")
	return t
}

// where a span is in its trace
type place struct {
	trace, seg string
	span       int32
	sampled    bool
}

func placeOf(s go2sky.Span) place {
	r, ok := s.(go2sky.ReportedSpan)
	if !ok {
		return place{}
	}
	c := r.Context()
	return place{c.TraceID, c.SegmentID, c.SpanID, true}
}

func tag(s go2sky.ReportedSpan, k go2sky.Tag) string {
	for _, t := range s.Tags() {
		if t.Key == string(k) {
			return t.Value
		}
	}
	return ""
}

func texts(s go2sky.ReportedSpan, withLogs bool) string {
	var sb strings.Builder
	sb.WriteString(s.OperationName() + "\x00")
	for _, t := range s.Tags() {
		sb.WriteString(t.Key + "=" + t.Value + "\x00")
	}
	if withLogs {
		sb.WriteString(logText(s))
	}
	return sb.String()
}

func logText(s go2sky.ReportedSpan) string {
	var sb strings.Builder
	for _, l := range s.Logs() {
		for _, d := range l.Data {
			sb.WriteString(d.Key + "\x00" + d.Value + "\x00")
		}
	}
	return sb.String()
}

func show(s go2sky.ReportedSpan) string {
	return fmt.Sprintf("{%s parent=%d start=%d end=%d err=%v tags=%v log=%q}", s.OperationName(), s.Context().ParentSpanID, s.StartTime(), s.EndTime(), s.IsError(), s.Tags(), logText(s))
}

// match finds a perfect matching of wants and spans (small sets).
func match(nw, ns int, ok func(w, s int) string) (int, string) {
	bs := make([]int, ns)
	for i := range bs {
		bs[i] = -1
	}
	var try func(w int, seen []bool) bool
	try = func(w int, seen []bool) bool {
		for s := 0; s < ns; s++ {
			if seen[s] || ok(w, s) != "" {
				continue
			}
			seen[s] = true
			if bs[s] < 0 || try(bs[s], seen) {
				bs[s] = w
				return true
			}
		}
		return false
	}
	for w := 0; w < nw; w++ {
		if !try(w, make([]bool, ns)) {
			why := "none reported"
			for s := 0; s < ns; s++ {
				why = ok(w, s)
				if nw == 1 {
					break
				}
			}
			return w, why
		}
	}
	return -1, ""
}

// ---- C26 Redis hook -----------------------------------------------------------

// exec is one command or pipeline going through the client's hooks.
type exec struct {
	names         []string
	args          []string // marked arguments
	parent        place
	noParent      bool
	before, z     int64 // wall clock around the tracing hook's Before
	after, zend   int64 // and After
	ran           bool
	errs          []string
	state, zstate string
	pipe          bool
	stmt          string
	call          *rcall
	zseen         bool
	key           string
	blind         bool // the context was cut off
}

type rcall struct {
	t     int
	op    hk.Op
	par   place
	nopar bool
	execs []*exec
	ret   int64
}

type callKey struct{}
type execKey struct{}

func cmdState(cs []redis.Cmder) string {
	var sb strings.Builder
	for _, c := range cs {
		fmt.Fprintf(&sb, "%s|%v;", c.String(), c.Err())
	}
	return sb.String()
}

func errTexts(cs []redis.Cmder) (out []string) {
	for _, c := range cs {
		if e := c.Err(); e != nil {
			out = append(out, e.Error())
		}
	}
	return
}

// outer is installed before the hook under test: it sees every command first, and its outcome
// before the hook under test gets it.
type outer struct{ w *rworld }

func (h outer) begin(ctx context.Context, cs []redis.Cmder, pipe bool) (context.Context, error) {
	call, _ := ctx.Value(callKey{}).(*rcall)
	if call == nil {
		return ctx, nil
	}
	e := &exec{call: call, parent: call.par, noParent: call.nopar, before: rt.Wall(), pipe: pipe}
	for _, c := range cs {
		e.names = append(e.names, c.Name())
		for _, a := range c.Args() {
			if s, ok := a.(string); ok && strings.HasPrefix(s, "arg") {
				e.args = append(e.args, s)
			}
		}
	}
	e.state = cmdState(cs)
	call.execs = append(call.execs, e)
	h.w.execs = append(h.w.execs, e)
	return context.WithValue(ctx, execKey{}, e), nil
}

func (h outer) end(ctx context.Context, cs []redis.Cmder) error {
	e, _ := ctx.Value(execKey{}).(*exec)
	if e == nil {
		return nil
	}
	e.after = rt.Wall()
	e.ran = true
	e.errs = errTexts(cs)
	e.state = cmdState(cs)
	return nil
}

func (h outer) BeforeProcess(ctx context.Context, c redis.Cmder) (context.Context, error) {
	return h.begin(ctx, []redis.Cmder{c}, false)
}
func (h outer) AfterProcess(ctx context.Context, c redis.Cmder) error {
	return h.end(ctx, []redis.Cmder{c})
}
func (h outer) BeforeProcessPipeline(ctx context.Context, cs []redis.Cmder) (context.Context, error) {
	return h.begin(ctx, cs, true)
}
func (h outer) AfterProcessPipeline(ctx context.Context, cs []redis.Cmder) error {
	return h.end(ctx, cs)
}

// inner is installed after the hook under test.
type inner struct{ w *rworld }

func (h inner) begin(ctx context.Context, cs []redis.Cmder) (context.Context, error) {
	if n := len(h.w.execs); n > 0 && ctx.Value(callKey{}) == nil {
		// (commands outside of the workload carry no call either)
		return ctx, nil
	}
	e, _ := ctx.Value(execKey{}).(*exec)
	if e == nil {
		h.w.x.Fail("context-lost", "the hook passes on a context without the caller's values")
		return ctx, nil
	}
	e.zseen = true
	e.z = rt.Wall()
	if st := cmdState(cs); st != e.state {
		h.w.x.Fail("command-changed", "the hook changed the command before it was run: %q, before %q", st, e.state)
	}
	if d, ok := ctx.Value(doneKey{}).(<-chan struct{}); ok && d != ctx.Done() {
		h.w.x.Fail("context-lost", "the hook passes on a context without the caller's cancellation")
	}
	return ctx, nil
}

type doneKey struct{}

func (h inner) end(ctx context.Context, cs []redis.Cmder) error {
	e, _ := ctx.Value(execKey{}).(*exec)
	if e == nil {
		return nil
	}
	e.zend = rt.Wall()
	if st := cmdState(cs); st != e.state {
		h.w.x.Fail("result-changed", "the hook changed the result: %q, was %q", st, e.state)
	}
	return nil
}

func (h inner) BeforeProcess(ctx context.Context, c redis.Cmder) (context.Context, error) {
	return h.begin(ctx, []redis.Cmder{c})
}
func (h inner) AfterProcess(ctx context.Context, c redis.Cmder) error {
	return h.end(ctx, []redis.Cmder{c})
}
func (h inner) BeforeProcessPipeline(ctx context.Context, cs []redis.Cmder) (context.Context, error) {
	return h.begin(ctx, cs)
}
func (h inner) AfterProcessPipeline(ctx context.Context, cs []redis.Cmder) error {
	return h.end(ctx, cs)
}

type rworld struct {
	x     *hk.X
	p     *hk.Plan
	srv   *sredis.Server
	net   *sredis.Net
	cl    []*redis.Client
	execs []*exec
	tr    *go2sky.Tracer
	col   *collector
	roots []place
}

func genC26(faults bool) func(r *hk.Rng) *hk.Plan {
	return func(r *hk.Rng) *hk.Plan {
		p := &hk.Plan{Cfg: map[string]int64{"clients": int64(r.R(1, 2)), "addr": r.Pick(1, 1, 1, 1, 1, 0), "logerr": int64(r.N(2)), "args": int64(r.N(2)), "db": r.Pick(-1, 0, 5),
			"sample": r.Pick(0, 0, 0, 1, 2, 3), "norep": r.Pick(0, 0, 0, 0, 0, 0, 1), "pool": r.Pick(10, 10, 2, 1), "retries": r.Pick(-1, -1, 2), "latmin": r.Pick(0, 0, ms, 20*ms), "latmax": r.Pick(ms, 5*ms)}}
		if p.Cfg["latmax"] < p.Cfg["latmin"] {
			p.Cfg["latmax"] = p.Cfg["latmin"]
		}
		if faults {
			p.Cfg["latmax"] = r.Pick(ms, 5*ms, 400*ms)
			base := r.Pick(10, 50, 200)
			for _, f := range []string{"refuse", "hang", "dropreq", "rbefore", "rafter", "droprep", "slow", "slowrep", "errrep", "short", "torn"} {
				if r.P(1, 3) {
					p.Cfg[f] = base
				}
			}
			p.Cfg["slowby"] = r.Pick(200*ms, 1001*ms)
		}
		nt := r.R(1, 4)
		for t := 0; t < nt; t++ {
			var ops []hk.Op
			for i, n := 0, r.R(1, 6); i < n; i++ {
				o := hk.Op{K: r.PickS("get", "set", "nil", "wrong", "unknown", "pipe", "pipe", "tx", "watch", "cancel", "empty", "mget"), A: int64(r.N(3)), B: int64(r.N(4)), S: fmt.Sprintf("arg%d-%d", t, i)}
				if o.K == "pipe" || o.K == "tx" {
					o.A = int64(r.R(1, 4))
				}
				if r.P(1, 3) {
					o.C = r.Pick(ms, 5*ms, 100*ms, sec)
				}
				ops = append(ops, o)
			}
			p.Ops = append(p.Ops, ops)
		}
		p.Sim = hk.GenSim(r, 600, r.P(1, 4), 50*ms)
		return p
	}
}

func (w *rworld) hook() redis.Hook {
	var o []swredis.Option
	if w.p.C("addr") == 1 {
		o = append(o, swredis.WithAddr("redis-peer:1"))
	}
	if w.p.C("logerr") == 1 {
		o = append(o, swredis.WithLogError())
	}
	if w.p.C("args") == 1 {
		o = append(o, swredis.WithArgsReport())
	}
	if w.p.C("db") >= 0 {
		o = append(o, swredis.WithDb(w.p.I("db")))
	}
	return swredis.NewHook(w.tr, o...)
}

func runC26(p *hk.Plan, x *hk.X) {
	w := &rworld{x: x, p: p, srv: sredis.NewServer(), col: &collector{}}
	w.net = &sredis.Net{S: w.srv, X: x, DialTO: 500 * ms}
	w.tr = newTracer(p, w.col)
	h := w.hook()
	for i := 0; i < p.I("clients"); i++ {
		c := redis.NewClient(&redis.Options{Addr: "redis:6379", Dialer: w.net.Dial, DialTimeout: time.Duration(500 * ms), ReadTimeout: time.Duration(sec),
			PoolTimeout: time.Duration(700 * ms), PoolSize: p.I("pool"), MaxRetries: p.I("retries"), IdleTimeout: -1})
		c.AddHook(outer{w})
		c.AddHook(h)
		c.AddHook(inner{w})
		w.cl = append(w.cl, c)
	}
	w.srv.HSetDirect("arghash", "f", "v")
	f := &w.net.F
	f.LatMin, f.LatMax = p.C("latmin"), p.C("latmax")
	f.DialRefuse, f.DialHang, f.DropReq, f.ResetBefore, f.ResetAfter, f.DropReply = p.I("refuse"), p.I("hang"), p.I("dropreq"), p.I("rbefore"), p.I("rafter"), p.I("droprep")
	f.Slow, f.SlowReply, f.ErrReply, f.Short, f.TornReply, f.SlowBy = p.I("slow"), p.I("slowrep"), p.I("errrep"), p.I("short"), p.I("torn"), p.C("slowby")
	// one trace shared by all threads, and one for each
	ssp, sctx, err := w.tr.CreateLocalSpan(context.Background(), go2sky.WithOperationName("shared"))
	if err != nil {
		panic(err)
	}
	w.roots = append(w.roots, placeOf(ssp))
	left := len(p.Ops)
	x.RunOpsDone(func(t int) func(op hk.Op) {
		tsp, tctx, err := w.tr.CreateLocalSpan(context.Background(), go2sky.WithOperationName("thread"))
		if err != nil {
			panic(err)
		}
		w.roots = append(w.roots, placeOf(tsp))
		n := len(p.Ops[t])
		if n == 0 {
			tsp.End()
		}
		return func(op hk.Op) {
			n--
			if op.C > 0 {
				rt.Sleep(op.C)
			}
			w.do(t, op, ssp, sctx, tsp, tctx)
			if n == 0 {
				tsp.End()
			}
		}
	})
	x.Join()
	_ = left
	ssp.End()
	for _, c := range w.cl {
		c.Close()
	}
	*f = sredis.Faults{}
	rt.Sleep(30 * sec)
	if !x.Failed() {
		w.checkSpans()
	}
}

func (w *rworld) do(t int, op hk.Op, ssp go2sky.Span, sctx context.Context, tsp go2sky.Span, tctx context.Context) {
	call := &rcall{t: t, op: op}
	ctx := context.Background()
	var own go2sky.Span
	switch op.B {
	case 0:
		own, ctx, _ = w.tr.CreateLocalSpan(tctx, go2sky.WithOperationName("own"))
		call.par = placeOf(own)
	case 1:
		ctx = tctx
		call.par = placeOf(tsp)
	case 2:
		ctx = sctx
		call.par = placeOf(ssp)
	case 3:
		call.nopar = true
	}
	ctx = context.WithValue(ctx, callKey{}, call)
	cctx, cancel := rt.CtxWithCancel(ctx)
	if op.K == "cancel" {
		cancel()
	}
	ctx = context.WithValue(cctx, doneKey{}, cctx.Done())
	base := w.cl[int(op.A)%len(w.cl)]
	c := base.WithContext(ctx)
	rt.Rec("call", int64(t), op.A, op.K+" "+op.S, nil)
	var cmds []redis.Cmder
	var err error
	want := 1
	pan := hk.Catch(func() {
		switch op.K {
		case "get", "cancel":
			cmd := c.Get("arg" + fmt.Sprint(op.A))
			cmds, err = []redis.Cmder{cmd}, cmd.Err()
		case "nil":
			cmd := c.Get(op.S)
			cmds, err = []redis.Cmder{cmd}, cmd.Err()
		case "set":
			cmd := c.Set("arg"+fmt.Sprint(op.A), op.S, 0)
			cmds, err = []redis.Cmder{cmd}, cmd.Err()
		case "mget":
			cmd := c.MGet("arg0", "arg1", op.S)
			cmds, err = []redis.Cmder{cmd}, cmd.Err()
		case "wrong":
			cmd := c.Incr("arghash")
			cmds, err = []redis.Cmder{cmd}, cmd.Err()
		case "unknown":
			cmd := c.Do("nosuch", op.S)
			cmds, err = []redis.Cmder{cmd}, cmd.Err()
		case "empty":
			want = 0
			cmds, err = c.Pipelined(func(redis.Pipeliner) error { return nil })
		case "pipe", "tx":
			fn := func(pl redis.Pipeliner) error {
				for i := int64(0); i < op.A; i++ {
					switch (int64(len(op.S)) + i + int64(t)) % 4 {
					case 0:
						pl.Get("arg" + fmt.Sprint(i))
					case 1:
						pl.Set("arg"+fmt.Sprint(i), op.S, 0)
					case 2:
						pl.Incr("arghash")
					case 3:
						pl.Get(op.S)
					}
				}
				return nil
			}
			if op.K == "pipe" {
				cmds, err = c.Pipelined(fn)
			} else {
				cmds, err = c.TxPipelined(fn)
			}
		case "watch":
			want = -1
			err = c.Watch(func(tx *redis.Tx) error {
				e := tx.Get("arg1").Err()
				if e != nil && e != redis.Nil {
					return e
				}
				_, e = tx.TxPipelined(func(pl redis.Pipeliner) error {
					pl.Set("arg1", op.S, 0)
					return nil
				})
				return e
			}, "arg1")
		}
	})
	if !rt.On() {
		return
	}
	call.ret = rt.Wall()
	cancel()
	if own != nil {
		own.End()
	}
	if pan != nil {
		w.x.Fail("panic", "%s panicked: %v", op, pan)
		return
	}
	rt.Rec("ret", int64(t), op.A, fmt.Sprint(err), nil)
	if want >= 0 && len(call.execs) != want {
		w.x.Fail("command-count", "%s went through the client %d times", op, len(call.execs))
		return
	}
	for _, e := range call.execs {
		if !e.ran {
			w.x.Fail("command-suppressed", "%s: %v was not run because of the hook (%v)", op, e.names, err)
			return
		}
	}
	if want == 1 {
		e := call.execs[0]
		st := cmdState(cmds)
		if op.K == "tx" {
			// the caller gets the commands without the surrounding MULTI and EXEC
			if !strings.Contains(e.state, st) {
				w.x.Fail("result-changed", "%s: the caller gets %q, the commands gave %q", op, st, e.state)
			}
		} else if st != e.state {
			w.x.Fail("result-changed", "%s: the caller gets %q, the command gave %q", op, st, e.state)
		}
		if (err != nil) != (len(e.errs) > 0) && op.K != "tx" {
			w.x.Fail("result-changed", "%s: the caller gets error %v, the command had %v", op, err, e.errs)
		}
		if op.K != "tx" && err != nil && (len(cmds) == 1 && cmds[0].Err() != nil && w.p.I("retries") < 0 || len(cmds) > 1 && w.p.I("retries") < 0) {
			// the error is one of the commands' (when the client sends a pipeline again, it can also be one of the connection)
			found := false
			for _, c := range cmds {
				found = found || c.Err() == err
			}
			if !found {
				w.x.Fail("result-changed", "%s: the caller gets error %v, the command had %v", op, err, e.errs)
			}
		}
		if len(e.errs) > 0 {
			w.x.Probe("command_failed")
		}
	}
}

func (w *rworld) checkSpans() {
	x, p := w.x, w.p
	// where the reported exit spans are
	type pk struct {
		seg  string
		span int32
	}
	got := map[pk][]go2sky.ReportedSpan{}
	var alone []go2sky.ReportedSpan
	rootSeen := map[string]int{}
	for _, sg := range w.col.segs {
		ids := map[int32]bool{}
		for _, s := range sg {
			c := s.Context()
			if ids[c.SpanID] {
				x.Fail("span-twice", "span %s reported twice in its segment", show(s))
				return
			}
			ids[c.SpanID] = true
		}
		root := sg[len(sg)-1]
		rootSeen[root.Context().SegmentID]++
		for _, s := range sg {
			if int32(s.SpanType()) != int32(go2sky.SpanTypeExit) {
				continue
			}
			if s.Context().ParentSpanID < 0 {
				alone = append(alone, s)
				if len(sg) != 1 {
					x.Fail("span-mixed", "a command without a trace of its own is in a segment of %d spans", len(sg))
					return
				}
			} else {
				k := pk{s.Context().SegmentID, s.Context().ParentSpanID}
				got[k] = append(got[k], s)
			}
		}
	}
	for _, r := range w.roots {
		if r.sampled && rootSeen[r.seg] != 1 {
			x.Fail("span-not-ended", "the segment of a caller was reported %d times: a span in it was not ended, or ended too often", rootSeen[r.seg])
			return
		}
	}
	traced := p.C("addr") == 1 && p.C("norep") == 0
	want := map[pk][]*exec{}
	var keys []pk
	var wantAlone []*exec
	for _, e := range w.execs {
		switch {
		case !traced:
		case e.noParent:
			wantAlone = append(wantAlone, e)
		case e.parent.sampled:
			k := pk{e.parent.seg, e.parent.span}
			if want[k] == nil {
				keys = append(keys, k)
			}
			want[k] = append(want[k], e)
			x.Probe("traced_command")
		default:
			x.Probe("unsampled_command")
		}
	}
	ok := func(e *exec, s go2sky.ReportedSpan) string { return w.fits(e, s) }
	n := 0
	for _, k := range keys {
		es, ss := want[k], got[k]
		n += len(ss)
		if len(es) != len(ss) {
			x.Fail("span-count", "%d exit spans below one caller's span for %d commands: %s", len(ss), len(es), showAll(ss))
			return
		}
		if i, why := match(len(es), len(ss), func(a, b int) string { return ok(es[a], ss[b]) }); i >= 0 {
			x.Fail("span-wrong", "no exit span fits %v (errors %q, at %d..%d): %s; reported %s", es[i].names, es[i].errs, es[i].before/ms, es[i].zend/ms, why, showAll(ss))
			return
		}
	}
	total := 0
	for _, ss := range got {
		total += len(ss)
	}
	if total != n {
		x.Fail("span-mixed", "%d exit spans are not below their caller's span", total-n)
		return
	}
	// without a parent the sampler decides
	if p.C("sample") == 0 && len(alone) != len(wantAlone) || len(alone) > len(wantAlone) {
		x.Fail("span-count", "%d exit spans for %d commands outside of a trace: %s", len(alone), len(wantAlone), showAll(alone))
		return
	}
	if i, why := match(len(alone), len(wantAlone), func(a, b int) string { return ok(wantAlone[b], alone[a]) }); i >= 0 {
		x.Fail("span-wrong", "exit span %s fits no command: %s", show(alone[i]), why)
	}
}

func showAll(ss []go2sky.ReportedSpan) string {
	var o []string
	for _, s := range ss {
		o = append(o, show(s))
	}
	sort.Strings(o)
	return strings.Join(o, ", ")
}

func (w *rworld) fits(e *exec, s go2sky.ReportedSpan) string {
	p := w.p
	if s.OperationName() != strings.Join(e.names, "|") {
		return "it names " + s.OperationName()
	}
	if s.Peer() != "redis-peer:1" {
		return "its peer is " + s.Peer()
	}
	if p.C("db") >= 0 && tag(s, go2sky.TagDBInstance) != fmt.Sprint(p.C("db")) {
		return "its db is " + tag(s, go2sky.TagDBInstance)
	}
	if !e.noParent && s.Context().TraceID != e.parent.trace {
		return "it is in another trace"
	}
	if s.StartTime() < e.before/ms || s.StartTime() > e.z/ms {
		return fmt.Sprintf("it starts at %d", s.StartTime())
	}
	if s.EndTime() < e.after/ms || s.EndTime() > e.zend/ms {
		return fmt.Sprintf("it ends at %d", s.EndTime())
	}
	if s.IsError() != (len(e.errs) > 0) {
		return fmt.Sprintf("it is marked error=%v", s.IsError())
	}
	tx := texts(s, false)
	if p.C("args") == 0 {
		if strings.Contains(tx, "arg") {
			return "it reports the arguments"
		}
		if !strings.Contains(tag(s, go2sky.TagDBStatement), e.names[0]) {
			return "its statement is " + tag(s, go2sky.TagDBStatement)
		}
	} else {
		for _, a := range e.args {
			if !strings.Contains(tag(s, go2sky.TagDBStatement), a) {
				return "its statement does not report argument " + a
			}
		}
	}
	lt := logText(s)
	for _, t := range e.errs {
		if has := strings.Contains(lt, t); has != (p.C("logerr") == 1) {
			return fmt.Sprintf("error text reported: %v", has)
		}
	}
	return ""
}

// ---- C27 HTTP -------------------------------------------------------------------

type reqRun struct {
	op       hk.Op
	t        int
	id       string
	events   []string
	resp     string
	status   int
	pan      interface{}
	entered  int64 // wall clock when the request came in
	lastIn   int64 // when the last handler behind the middleware was left
	left     int64
	chainErr error
	place    place
	atMid    int // status when the middleware is left
	bodyMid  string
	noted    bool
	clients  []*cliRun
	ctx      context.Context
}

type cliRun struct {
	url     string
	par     place
	nopar   bool
	name    string
	host    string
	status  int
	err     string
	body    string
	failed  bool
	start   [2]int64
	end     [2]int64
	sent    place
	sampled bool
	resend  bool
}

type hworld struct {
	x      *hk.X
	p      *hk.Plan
	tr     *go2sky.Tracer
	col    *collector
	help   *swhttp.ClientSpanHelper
	with   *routing.Router
	wo     *routing.Router
	cur    map[*fasthttp.RequestCtx]*reqRun
	reqs   []*reqRun
	calls  []*cliRun
	strays int
	outs   int
}

func genC27(r *hk.Rng) *hk.Plan {
	p := &hk.Plan{Cfg: map[string]int64{"logerr": int64(r.N(2)), "log4": int64(r.N(2)), "sample": r.Pick(0, 0, 0, 1, 2, 3), "norep": r.Pick(0, 0, 0, 0, 0, 0, 1), "nil": r.Pick(0, 0, 0, 0, 0, 0, 1), "outer": int64(r.N(3)), "factory": r.Pick(0, 0, 0, 1, 1, 2, 3)}}
	for t, n := 0, r.R(1, 4); t < n; t++ {
		var ops []hk.Op
		for i, m := 0, r.R(1, 5); i < m; i++ {
			o := hk.Op{K: r.PickS("ok", "ok", "created", "404", "400", "399", "500", "err", "err", "herr", "err500", "panic", "swallow", "abort", "nomatch", "late500", "errok"), A: r.Pick(0, 0, 1, 1, 2, 3), B: int64(r.N(8)), S: fmt.Sprintf("id%d-%d", t, i)}
			if r.P(1, 2) {
				o.C = r.Pick(1, ms, 3*ms, 20*ms)
			}
			ops = append(ops, o)
		}
		p.Ops = append(p.Ops, ops)
	}
	p.Sim = hk.GenSim(r, 300, r.P(1, 4), 20*ms)
	return p
}

var errHandler = errors.New("handler error text")

func (w *hworld) handlers(traced bool) *routing.Router {
	r := routing.New()
	get := func(c *routing.Context) *reqRun { return w.cur[c.RequestCtx] }
	ev := func(q *reqRun, f string, a ...interface{}) { q.events = append(q.events, fmt.Sprintf(f, a...)) }
	var mw []routing.Handler
	mw = append(mw, func(c *routing.Context) error {
		q := get(c)
		ev(q, "first>")
		if traced && w.p.C("outer") == 2 && q.op.B >= 6 {
			// a context of the application's own
			swroute.SetSwContext(c, context.WithValue(context.Background(), callKey{}, q.id))
		}
		err := c.Next()
		if q.lastIn == 0 {
			q.lastIn = rt.Wall()
		}
		ev(q, "first<%v %d", err, c.Response.StatusCode())
		return err
	})
	if traced {
		mw = append(mw, w.middleware())
	}
	mw = append(mw, func(c *routing.Context) error {
		q := get(c)
		ev(q, "second>")
		rt.YH()
		// what the middleware sees is the state when this handler is left
		defer func() {
			q.lastIn = rt.Wall()
			q.atMid, q.bodyMid, q.noted = c.Response.StatusCode(), string(c.Response.Body()), true
		}()
		var err error
		if q.op.K == "abort" {
			c.SetStatusCode(202)
			c.Abort()
		} else {
			err = c.Next()
		}
		if q.op.K == "swallow" {
			ev(q, "swallowed %v", err)
			c.SetStatusCode(200)
			err = nil
		}
		if q.op.K == "late500" {
			c.SetStatusCode(503)
		}
		rt.YH()
		ev(q, "second<%v", err)
		q.chainErr = err
		return err
	})
	r.Use(mw...)
	h := func(c *routing.Context) error {
		q := get(c)
		ev(q, "handler %s", c.Param("id"))
		if traced {
			q.ctx = swroute.GetSwContext(c)
			if w.p.C("outer") == 2 && q.op.B >= 6 && q.ctx.Value(callKey{}) != q.id {
				w.x.Fail("context-lost", "%s: the context the application had set for its request is lost", q.op)
			}
			w.outgoing(q)
		}
		if q.op.C > 0 {
			rt.Sleep(q.op.C)
		}
		rt.YH()
		c.Response.Header.Set("X-Id", q.id)
		c.SetBodyString("body of " + q.id)
		switch q.op.K {
		case "created":
			c.SetStatusCode(201)
		case "404":
			c.SetStatusCode(404)
		case "400":
			c.SetStatusCode(400)
		case "399":
			c.SetStatusCode(399)
		case "500":
			c.SetStatusCode(500)
		case "err500":
			c.SetStatusCode(500)
			return fmt.Errorf("handler error text of %s", q.id)
		case "err", "swallow":
			return fmt.Errorf("handler error text of %s", q.id)
		case "errok":
			return errHandler
		case "herr":
			return routing.NewHTTPError(403, "forbidden "+q.id)
		case "panic":
			panic("panic of " + q.id)
		}
		return nil
	}
	r.Get("/r/<id>", h, func(c *routing.Context) error {
		ev(get(c), "last")
		return nil
	})
	r.Post("/r/<id>", h)
	return r
}

func (w *hworld) middleware() routing.Handler {
	var o []swroute.Option
	if w.p.C("logerr") == 1 {
		o = append(o, swroute.WithLogError())
	}
	if w.p.C("log4") == 1 {
		o = append(o, swroute.WithLog4xxBody())
	}
	return swroute.NewMiddleware(w.tr, o...)
}

func sw8(id string) string {
	e := func(s string) string { return base64.StdEncoding.EncodeToString([]byte(s)) }
	return strings.Join([]string{"1", e("trace-" + id), e("seg-" + id), "7", e("up"), e("upi"), e("/up"), e("peer")}, "-")
}

func (w *hworld) request(q *reqRun) *fasthttp.RequestCtx {
	var req fasthttp.Request
	path := "/r/" + q.id
	if q.op.K == "nomatch" {
		path = "/none/" + q.id
	}
	req.SetRequestURI("http://host" + path + "?q=" + q.id)
	req.Header.SetMethod("GET")
	if q.op.B%2 == 1 {
		req.Header.SetMethod("POST")
		req.SetBodyString("payload " + q.id)
	}
	switch q.op.A {
	case 1, 3:
		req.Header.Set("sw8", sw8(q.id))
		if q.op.B >= 4 {
			req.Header.Set("sw8-correlation", base64.StdEncoding.EncodeToString([]byte("k"))+":"+base64.StdEncoding.EncodeToString([]byte(q.id)))
		}
	case 2:
		req.Header.Set("sw8", []string{"garbage", "1-2-3", "x-" + sw8(q.id)[2:], sw8(q.id)[:20] + "-a-b-c-d-e-f-g"}[q.op.B%4])
	}
	c := &fasthttp.RequestCtx{}
	c.Init(&req, nil, quiet{})
	return c
}

type quiet struct{}

func (quiet) Printf(string, ...interface{}) {}

func (w *hworld) serve(q *reqRun, r *routing.Router) {
	c := w.request(q)
	w.cur[c] = q
	q.entered = rt.Wall()
	q.pan = hk.Catch(func() { r.HandleRequest(c) })
	if !rt.On() {
		return
	}
	q.left = rt.Wall()
	delete(w.cur, c)
	q.status = c.Response.StatusCode()
	q.resp = noDate(c.Response.Header.String()) + string(c.Response.Body())
}

// noDate leaves out the Date header: fasthttp takes it from a real clock.
func noDate(h string) string {
	var o []string
	for _, l := range strings.Split(h, "\r\n") {
		if !strings.HasPrefix(l, "Date:") {
			o = append(o, l)
		}
	}
	return strings.Join(o, "\r\n")
}

// outgoing makes client requests on behalf of an incoming one.
func (w *hworld) outgoing(q *reqRun) {
	n := int(q.op.B) % 3
	if q.op.K == "nomatch" {
		n = 0
	}
	for i := 0; i < n; i++ {
		w.client(q, i)
	}
	if (int(q.op.B)+len(q.id)+len(q.op.K))%5 == 0 {
		w.hostless(q)
	}
}

// hostless is a request to nowhere: no span can be created for it.
func (w *hworld) hostless(q *reqRun) {
	req := &fasthttp.Request{}
	req.SetRequestURI("/out/nowhere")
	req.Header.SetMethod("PUT")
	before := req.Header.String()
	pan := hk.Catch(func() {
		sp, err := w.help.CreateSpan(q.ctx, req)
		if err != nil {
			w.x.Probe("client_span_failed")
		}
		if err != nil || sp == nil {
			if h := req.Header.String(); h != before {
				w.x.Fail("request-changed", "no span, but the request is %q, was %q", h, before)
			}
		}
		if q.op.B%2 == 0 {
			w.help.EndSpanError(sp, errors.New("no host"))
		} else {
			w.help.EndSpan(sp, &fasthttp.Response{})
		}
	})
	if rt.On() && pan != nil {
		w.x.Fail("panic", "a request without host: the client helper panicked: %v", pan)
	}
}

func wire(r *fasthttp.Request) string {
	var b bytes.Buffer
	bw := bufio.NewWriter(&b)
	c := &fasthttp.Request{}
	r.CopyTo(c)
	c.URI()
	c.Write(bw)
	bw.Flush()
	return b.String()
}

func (w *hworld) client(q *reqRun, i int) {
	x := w.x
	req := &fasthttp.Request{}
	k := (int(q.op.B) + i*3 + len(q.op.K) + int(q.op.C%7)) % 8
	req.SetRequestURI(fmt.Sprintf("http://backend%d/out/%s/%d?x=%s", i, q.id, i, q.id))
	req.Header.SetMethod("PUT")
	req.Header.Set("X-Custom", q.id)
	req.SetBodyString("out " + q.id)
	c := &cliRun{name: fmt.Sprintf("PUT:/out/%s/%d", q.id, i), host: fmt.Sprintf("backend%d", i)}
	c.url = req.URI().String()
	sends := 1
	if k >= 5 {
		sends = 2 // sent again with the same request object
	}
	before := wire(req)
	for n := 0; n < sends; n++ {
		c := &cliRun{name: c.name, host: c.host, url: c.url}
		c.start[0] = rt.Wall()
		sp, err := w.help.CreateSpan(q.ctx, req)
		c.start[1] = rt.Wall()
		rt.YH()
		if err != nil {
			x.Fail("client-span", "CreateSpan for %s: %v", c.name, err)
			return
		}
		plain := &fasthttp.Request{}
		req.CopyTo(plain)
		hs := map[string][]string{}
		plain.Header.VisitAll(func(k, v []byte) {
			if s := strings.ToLower(string(k)); strings.HasPrefix(s, "sw8") {
				hs[s] = append(hs[s], string(v))
			}
		})
		plain.Header.Del("sw8")
		plain.Header.Del("sw8-correlation")
		if s := wire(plain); s != before {
			x.Fail("request-changed", "the client helper changed the request: %q, was %q", s, before)
			return
		}
		if w.p.C("nil") == 1 {
			if sp != nil || len(hs) > 0 {
				x.Fail("request-changed", "without a tracer there is a span %v and headers %v", sp, hs)
				return
			}
		} else {
			pl := placeOf(sp)
			c.sent, c.sampled = pl, pl.sampled
			if !pl.sampled && n == 0 && len(hs) > 0 {
				x.Fail("request-changed", "trace headers %v in a request of a trace that is not sampled", hs)
				return
			}
			if pl.sampled {
				if len(hs["sw8"]) != 1 || len(hs["sw8-correlation"]) != 1 {
					x.Fail("headers", "trace headers %v", hs)
					return
				}
				pt := strings.Split(hs["sw8"][0], "-")
				d := func(i int) string {
					b, _ := base64.StdEncoding.DecodeString(pt[i])
					return string(b)
				}
				if len(pt) != 8 || d(1) != pl.trace || d(2) != pl.seg || pt[3] != fmt.Sprint(pl.span) || d(7) != c.host {
					x.Fail("headers", "header %q does not lead to the span %+v of host %s", hs["sw8"][0], pl, c.host)
					return
				}
			}
		}
		if q.op.C > 0 {
			rt.Sleep(q.op.C / 2)
		}
		res := &fasthttp.Response{}
		c.body = fmt.Sprintf("answer body to %s %d.%d", q.id, i, n)
		full := c.body
		if w.outs++; w.outs%3 == 0 {
			full += strings.Repeat(".", 9000)
		}
		res.SetBodyString(full)
		c.end[0] = rt.Wall()
		switch k {
		case 0, 5:
			res.SetStatusCode(200)
		case 1:
			res.SetStatusCode(404)
		case 2:
			res.SetStatusCode(399)
		case 3:
			res.SetStatusCode(502)
		case 6:
			res.SetStatusCode(400)
		case 7:
			res.SetStatusCode(500)
		case 4:
			c.err = "transport error text " + q.id
		}
		if k == 4 {
			w.help.EndSpanError(sp, errors.New(c.err))
			c.failed = true
		} else {
			c.status = res.StatusCode()
			c.failed = c.status >= 400
			w.help.EndSpan(sp, res)
			if string(res.Body()) != full || res.StatusCode() != c.status {
				x.Fail("request-changed", "the client helper changed the response")
				return
			}
		}
		c.end[1] = rt.Wall()
		q.clients = append(q.clients, c)
	}
}

func runC27(p *hk.Plan, x *hk.X) {
	w := &hworld{x: x, p: p, col: &collector{}, cur: map[*fasthttp.RequestCtx]*reqRun{}}
	if p.C("nil") == 0 {
		if p.C("factory") > 0 && p.C("sample") == 0 && p.C("norep") == 0 {
			w.tr = factoryTracer(p, x, w.col)
			if x.Failed() {
				return
			}
		} else {
			w.tr = newTracer(p, w.col)
		}
	}
	var o []swhttp.Option
	if p.C("logerr") == 1 {
		o = append(o, swhttp.WithLogError())
	}
	if p.C("log4") == 1 {
		o = append(o, swhttp.WithLog4xxBody())
	}
	w.help = swhttp.NewClientSpanHelper(w.tr, o...)
	w.with, w.wo = w.handlers(true), w.handlers(false)
	x.RunOps(func(t int, op hk.Op) {
		if x.Failed() {
			return
		}
		q := &reqRun{op: op, t: t, id: op.S}
		w.reqs = append(w.reqs, q)
		rt.Rec("request", int64(t), op.A, op.K+" "+op.S, nil)
		w.serve(q, w.with)
		if !rt.On() {
			return
		}
		rt.Rec("response", int64(t), int64(q.status), op.S, nil)
		// the same request without tracing
		r := &reqRun{op: op, t: t, id: op.S}
		w.serve(r, w.wo)
		if !rt.On() || x.Failed() {
			return
		}
		if fmt.Sprint(q.pan) != fmt.Sprint(r.pan) {
			x.Fail("panic", "%s: panic %v, without tracing %v", op, q.pan, r.pan)
		} else if a, b := strings.Join(q.events, " "), strings.Join(r.events, " "); a != b {
			x.Fail("handlers", "%s: handlers ran as %q, without tracing %q", op, a, b)
		} else if q.resp != r.resp {
			x.Fail("response", "%s: response %q, without tracing %q", op, q.resp, r.resp)
		}
	})
	x.Join()
	rt.Sleep(10 * sec)
	if !x.Failed() {
		w.check()
	}
}

func (w *hworld) check() {
	x, p := w.x, w.p
	traced := p.C("nil") == 0 && p.C("norep") == 0
	segs := map[string]bool{}
	entries := map[string][]go2sky.ReportedSpan{}
	type ex struct {
		s    go2sky.ReportedSpan
		root bool
	}
	exits := map[string][]ex{}
	for _, sg := range w.col.segs {
		id := sg[0].Context().SegmentID
		if segs[id] {
			x.Fail("span-twice", "segment reported twice")
			return
		}
		segs[id] = true
		ids := map[int32]bool{}
		for _, s := range sg {
			if ids[s.Context().SpanID] || s.Context().SegmentID != id {
				x.Fail("span-mixed", "span %s reported twice, or in a wrong segment", show(s))
				return
			}
			ids[s.Context().SpanID] = true
			switch go2sky.SpanType(s.SpanType()) {
			case go2sky.SpanTypeEntry:
				entries[s.OperationName()] = append(entries[s.OperationName()], s)
			case go2sky.SpanTypeExit:
				exits[s.OperationName()] = append(exits[s.OperationName()], ex{s, s.Context().ParentSpanID < 0})
			default:
				x.Fail("span-wrong", "unexpected span %s", show(s))
				return
			}
		}
	}
	ne, nx := 0, 0
	for _, q := range w.reqs {
		m := "GET"
		if q.op.B%2 == 1 {
			m = "POST"
		}
		path := "/r/" + q.id
		if q.op.K == "nomatch" {
			path = "/none/" + q.id
		}
		name := m + ":" + path
		es := entries[name]
		ne += len(es)
		bad := q.op.A == 2 // its trace header cannot be read
		forced := q.op.A == 1 || q.op.A == 3
		switch {
		case q.op.K == "panic" && q.pan != nil:
			// a panicking handler leaves its span open
			if len(es) > 1 {
				x.Fail("span-count", "%s: %d entry spans", q.op, len(es))
				return
			}
		case !traced || bad:
			if len(es) != 0 {
				x.Fail("span-count", "%s: %d entry spans for a request that is not traced", q.op, len(es))
				return
			}
		case p.C("sample") == 0 || forced:
			if len(es) != 1 {
				x.Fail("span-count", "%s: %d entry spans: not ended, or none created", q.op, len(es))
				return
			}
		case len(es) > 1:
			x.Fail("span-count", "%s: %d entry spans", q.op, len(es))
			return
		}
		var ent go2sky.ReportedSpan
		if len(es) == 1 {
			ent = es[0]
			x.Probe("traced_request")
			if why := w.entryFits(q, ent); why != "" {
				x.Fail("span-wrong", "%s: entry span %s: %s", q.op, show(ent), why)
				return
			}
		}
		byName := map[string][]*cliRun{}
		var names []string
		for _, c := range q.clients {
			if byName[c.name] == nil {
				names = append(names, c.name)
			}
			byName[c.name] = append(byName[c.name], c)
		}
		for _, cn := range names {
			cs, got := byName[cn], exits[cn]
			nx += len(got)
			var want []*cliRun
			for _, c := range cs {
				if c.sampled {
					want = append(want, c)
				}
			}
			if q.pan != nil && len(got) == 0 {
				continue // the segment stays open with the request's span
			}
			if len(got) != len(want) {
				x.Fail("span-count", "%s: %d exit spans for %d client requests", cn, len(got), len(want))
				return
			}
			i, why := match(len(want), len(got), func(a, b int) string {
				c, s := want[a], got[b].s
				switch {
				case s.Context().SegmentID != c.sent.seg || s.Context().SpanID != c.sent.span:
					return "another span"
				case ent != nil && (s.Context().SegmentID != ent.Context().SegmentID || s.Context().ParentSpanID != ent.Context().SpanID || s.Context().TraceID != ent.Context().TraceID):
					return "it is not below the request's entry span"
				case s.Peer() != c.host:
					return "its peer is " + s.Peer()
				case tag(s, go2sky.TagHTTPMethod) != "PUT":
					return "its method is " + tag(s, go2sky.TagHTTPMethod)
				case tag(s, go2sky.TagURL) != c.url:
					return "its url is " + tag(s, go2sky.TagURL)
				case s.StartTime() < c.start[0]/ms || s.StartTime() > c.start[1]/ms || s.EndTime() < c.end[0]/ms || s.EndTime() > c.end[1]/ms:
					return fmt.Sprintf("its times are not %d..%d", c.start[0]/ms, c.end[1]/ms)
				case s.IsError() != c.failed:
					return fmt.Sprintf("it is marked error=%v", s.IsError())
				case c.status > 0 && tag(s, go2sky.TagStatusCode) != strconv.Itoa(c.status):
					return "its status is " + tag(s, go2sky.TagStatusCode)
				case strings.Contains(logText(s), "answer body") != (c.status >= 400 && p.C("log4") == 1):
					return "the response body in its log"
				case c.status >= 400 && p.C("log4") == 1 && !strings.Contains(logText(s), c.body):
					return "the body of another response in its log"
				case c.err != "" && strings.Contains(logText(s), c.err) != (p.C("logerr") == 1):
					return "the error text in its log"
				}
				return ""
			})
			if i >= 0 {
				x.Fail("span-wrong", "no exit span fits the client request %+v: %s", *want[i], why)
				return
			}
		}
	}
	te, tx := 0, 0
	for _, s := range entries {
		te += len(s)
	}
	for _, s := range exits {
		tx += len(s)
	}
	if te != ne || tx != nx {
		x.Fail("span-mixed", "%d entry spans and %d exit spans of no request", te-ne, tx-nx)
	}
}

func (w *hworld) entryFits(q *reqRun, s go2sky.ReportedSpan) string {
	p := w.p
	if q.op.A == 1 || q.op.A == 3 {
		if s.Context().TraceID != "trace-"+q.id || len(s.Refs()) != 1 || s.Refs()[0].ParentSegmentID != "seg-"+q.id || s.Refs()[0].ParentSpanID != 7 {
			return "it does not continue the caller's trace"
		}
	} else if len(s.Refs()) != 0 || strings.HasPrefix(s.Context().TraceID, "trace-") {
		return "it continues a trace it does not belong to"
	}
	if s.Context().ParentSpanID >= 0 {
		return "it has a parent"
	}
	if m := strings.SplitN(s.OperationName(), ":", 2)[0]; tag(s, go2sky.TagHTTPMethod) != m {
		return "its method is " + tag(s, go2sky.TagHTTPMethod)
	}
	if !strings.Contains(tag(s, go2sky.TagURL), "q="+q.id) {
		return "it has another url"
	}
	if q.pan != nil {
		return ""
	}
	if q.op.K == "nomatch" {
		// the router's not found handler returns an error
		if !s.IsError() {
			return "it is not marked as error"
		}
		return ""
	}
	failed := q.chainErr != nil || q.atMid >= 400
	if s.IsError() != failed {
		return fmt.Sprintf("it is marked error=%v", s.IsError())
	}
	if tag(s, go2sky.TagStatusCode) != strconv.Itoa(q.atMid) {
		return fmt.Sprintf("its status is not %d", q.atMid)
	}
	if s.StartTime() < q.entered/ms || s.EndTime() < q.lastIn/ms || s.EndTime() > q.left/ms {
		return fmt.Sprintf("its times are not %d..%d", q.entered/ms, q.left/ms)
	}
	lt := logText(s)
	if q.chainErr != nil && strings.Contains(lt, q.chainErr.Error()) != (p.C("logerr") == 1) {
		return "the error text in its log"
	}
	if q.chainErr == nil && strings.Contains(lt, "body of") != (failed && p.C("log4") == 1) {
		return "the response body in its log"
	}
	if q.chainErr == nil && failed && p.C("log4") == 1 && !strings.Contains(lt, q.bodyMid) {
		return "the body of another response in its log"
	}
	return ""
}

const realSky = "skywalking/redis hook, skywalking/fasthttp-routing middleware, skywalking/fasthttp client helper; go2sky tracer, go-redis v7 client and pool, fasthttp-routing (transformed copies), fasthttp requests and responses"
const stubSky = "SkyWalking reporter (collects), Redis server, TCP, clocks, Go scheduler (simulated); no fasthttp server or client runs"

func main() {
	hk.Bystander = bystander
	redis.SetLogger(log.New(io.Discard, "", 0))
	hk.Main("sky", []*hk.Scenario{
		{Prop: "C26", Name: "sky-redis", Runs: 100000, Gen: genC26(false), Run: runC26, Real: realSky, Stub: stubSky},
		{Prop: "C26", Name: "sky-redis-faults", Runs: 100000, Gen: genC26(true), Run: runC26, Real: realSky, Stub: stubSky},
		{Prop: "C27", Name: "sky-http", Runs: 150000, Gen: genC27, Run: runC27, Real: realSky, Stub: stubSky},
	})
}
