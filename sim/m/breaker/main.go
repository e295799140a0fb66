//go:build go1.21

// Scenarios of the circuitbreaker package (C01, C02, C03).
package main

import (
	"errors"
	"fmt"
	"runtime"
	"time"

	cb "github.com/chanjarster/gears/circuitbreaker"
	"github.com/chanjarster/gears/zzsim/hk"
	rt "github.com/chanjarster/gears/zzsim/rt"
)

const real = "circuitbreaker.SyncCircuitBreaker, circuitbreaker.NeverOpen, util/time (all code)"
const stub = "Go scheduler, sync.RWMutex, wall clock (simulated); tasks and callbacks are generated"

// one Do call as seen from outside
type call struct {
	t, i                int
	op                  hk.Op
	callSeq, retSeq     int
	callW, retW         [2]int64 // wall clock range
	beginSeq, endSeq    int      // task
	beginW, endW        int64
	ran, errd, opened   int
	errSeq, openSeq     int
	errW, openW         int64
	gotErr, wantErr     error
	panicked            interface{}
	done                bool
	goexit              bool
	beginTime, callTime int64
	retTime             int64
	order               []string
	nested              bool
}

type world struct {
	x     *hk.X
	do    func(task func() error, onError func(error), onOpen func())
	calls []*call
	jumps []jump
	inUse int
}

type jump struct {
	seq  int
	a, b int64
}

// wallRange is the range of values the wall clock had between two events.
func (w *world) wallRange(s0 int, w0 int64, s1 int, w1 int64) (int64, int64) {
	lo, hi := w0, w0
	add := func(v int64) {
		if v < lo {
			lo = v
		}
		if v > hi {
			hi = v
		}
	}
	add(w1)
	for _, j := range w.jumps {
		if j.seq >= s0 && j.seq <= s1 {
			add(j.a)
			add(j.b)
		}
	}
	return lo, hi
}

func (w *world) jump(d int64) {
	a := rt.Wall()
	rt.JumpWall(d)
	b := rt.Wall()
	w.jumps = append(w.jumps, jump{rt.Rec("jump", d, 0, "", nil), a, b})
}

type taskErr struct{ n int }

func (e *taskErr) Error() string { return fmt.Sprint("task error ", e.n) }

var errShared = errors.New("shared error")

// run performs one op: K: ok, err, panic, exit; A: time in the task; B: nested call kind; C: 1 = time in callbacks
func (w *world) run(t int, op hk.Op) *call {
	c := &call{t: t, op: op, i: len(w.calls)}
	w.calls = append(w.calls, c)
	switch c.i % 3 {
	case 0:
		c.wantErr = &taskErr{c.i}
	case 1:
		c.wantErr = errShared
	default:
		c.wantErr = fmt.Errorf("wrapped %d: %w", c.i, errShared)
	}
	c.callTime = rt.Mono()
	c.callW[0] = rt.Wall()
	c.callSeq = rt.Rec("do", int64(t), int64(c.i), op.K, nil)
	fin := func() {
		c.retW[0] = rt.Wall()
		c.retTime = rt.Mono()
		c.retSeq = rt.Rec("ret", int64(t), int64(c.i), fmt.Sprint(c.order), nil)
		c.done = true
	}
	body := func() {
		w.do(func() error {
			c.ran++
			c.order = append(c.order, "task")
			c.beginTime = rt.Mono()
			c.beginW = rt.Wall()
			c.beginSeq = rt.Rec("begin", int64(t), int64(c.i), "", nil)
			if op.B == 1 {
				w.run(t, hk.Op{K: "ok"}).nested = true
			}
			if op.A > 0 {
				rt.Sleep(op.A)
			} else {
				rt.YH()
			}
			c.endW = rt.Wall()
			c.endSeq = rt.Rec("end", int64(t), int64(c.i), "", nil)
			switch op.K {
			case "err":
				return c.wantErr
			case "panic":
				panic(c.wantErr)
			case "exit":
				runtime.Goexit()
			}
			return nil
		}, func(e error) {
			c.errd++
			c.order = append(c.order, "onError")
			c.gotErr = e
			c.errW = rt.Wall()
			c.errSeq = rt.Rec("onError", int64(t), int64(c.i), "", nil)
			if op.B == 2 {
				w.run(t, hk.Op{K: "ok"}).nested = true
			}
			if op.C > 0 {
				rt.Sleep(op.C)
			}
			rt.YH()
		}, func() {
			c.opened++
			c.order = append(c.order, "onOpen")
			c.openW = rt.Wall()
			c.openSeq = rt.Rec("onOpen", int64(t), int64(c.i), "", nil)
			if op.B == 3 {
				w.run(t, hk.Op{K: "err"}).nested = true
			}
			if op.C > 0 {
				rt.Sleep(op.C)
			}
			rt.YH()
		})
	}
	if op.K == "exit" {
		// the goroutine that runs the task ends in it
		c.goexit = true
		ended := false
		done := make(chan struct{})
		rt.Spawn("goexit", func() {
			defer func() { ended = true; rt.Close(done) }()
			body()
		})
		rt.Recv2(done)
		_ = ended
	} else {
		c.panicked = hk.Catch(body)
	}
	fin()
	return c
}

// routing: every Do ends in exactly one of the three ways
func (w *world) routing() {
	for _, c := range w.calls {
		if !c.done {
			continue
		}
		o := fmt.Sprint(c.order)
		switch {
		case c.opened > 0:
			if o != "[onOpen]" {
				w.x.Fail("routing", "call %d (%s): with the breaker open the outcome was %s, not just onOpen", c.i, c.op.K, o)
			}
			if c.panicked != nil {
				w.x.Fail("routing", "call %d: panic %v though the task was not run", c.i, c.panicked)
			}
		case c.op.K == "ok":
			if o != "[task]" {
				w.x.Fail("routing", "call %d: a successful task led to %s", c.i, o)
			}
		case c.op.K == "err":
			if o != "[task onError]" {
				w.x.Fail("routing", "call %d: a failed task led to %s", c.i, o)
			} else if c.gotErr != c.wantErr {
				w.x.Fail("routing", "call %d: onError got %v, the task returned %v", c.i, c.gotErr, c.wantErr)
			}
		case c.op.K == "panic":
			if o != "[task]" {
				w.x.Fail("routing", "call %d: a panicking task led to %s", c.i, o)
			} else if c.panicked != error(c.wantErr) {
				w.x.Fail("routing", "call %d: the task panicked with %v, Do with %v", c.i, c.wantErr, c.panicked)
			}
		case c.op.K == "exit":
			if o != "[task]" {
				w.x.Fail("routing", "call %d: a task that ended its goroutine led to %s", c.i, o)
			}
		}
		if c.op.K != "panic" && c.panicked != nil {
			w.x.Fail("routing", "call %d (%s): unexpected panic %v", c.i, c.op.K, c.panicked)
		}
	}
}

type bst struct {
	fails  int64
	lo, hi int64 // when the latest failure was recorded
}

// lin checks the state machine: threshold failures in a row open the breaker
// for resetTimeout after the latest failure.
func (w *world) lin(threshold, reset int64) {
	var ops []*hk.LinOp
	type meta struct{ lo, hi int64 }
	for _, c := range w.calls {
		if !c.done && c.ran == 0 && c.opened == 0 {
			continue
		}
		end, ew, out := c.beginSeq, c.beginW, "run"
		if c.opened > 0 {
			end, ew, out = c.openSeq, c.openW, "open"
		} else if c.ran == 0 {
			w.x.Fail("routing", "call %d: neither run nor refused", c.i)
			return
		}
		lo, hi := w.wallRange(c.callSeq, c.callW[0], end, ew)
		ops = append(ops, &hk.LinOp{Call: c.callSeq, Ret: end, In: hk.Op{K: "admit", A: lo, B: hi, C: int64(c.i)}, Out: out, Thread: c.t})
		if out == "run" && c.endSeq > 0 {
			rs, rw := c.retSeq, c.retW[0]
			if c.errd > 0 {
				rs, rw = c.errSeq, c.errW
			}
			k := c.op.K
			if k == "exit" {
				k = "panic"
			}
			lo, hi := w.wallRange(c.endSeq, c.endW, rs, rw)
			lop := &hk.LinOp{Call: c.endSeq, Ret: rs, In: hk.Op{K: k, A: lo, B: hi, C: int64(c.i)}, Thread: c.t}
			if rs == 0 {
				lop.Pending = true
			}
			ops = append(ops, lop)
		}
	}
	m := hk.LinModel{Init: bst{}, Key: func(s interface{}) string { return fmt.Sprint(s) },
		Step: func(s interface{}, o *hk.LinOp) []interface{} {
			b := s.(bst)
			switch o.In.K {
			case "admit":
				open := b.fails >= threshold
				if o.Out == "run" {
					if !open || o.In.B-b.lo > reset {
						return []interface{}{b}
					}
					return nil
				}
				if open && o.In.A-b.hi <= reset {
					return []interface{}{b}
				}
				return nil
			case "ok":
				return []interface{}{bst{}}
			case "err":
				return []interface{}{bst{b.fails + 1, o.In.A, o.In.B}}
			default: // a task that did not return: either way
				return []interface{}{b, bst{b.fails + 1, o.In.A, o.In.B}}
			}
		}}
	switch hk.CheckLin(ops, m, 300000) {
	case 0:
		w.x.Fail("state", "no order of these steps explains the outcomes with threshold %d and reset timeout %v: %s", threshold, time.Duration(reset), w.text(ops))
	case -1:
		w.x.Inconclusive()
	}
}

func (w *world) text(ops []*hk.LinOp) string {
	t := ""
	base := int64(0)
	for i, o := range ops {
		if i == 0 {
			base = o.In.A
		}
		t += fmt.Sprintf("[call%d %s", o.In.C, o.In.K)
		if o.Out != nil {
			t += fmt.Sprint("=", o.Out)
		}
		t += fmt.Sprintf(" at +%v..+%v #%d..%d] ", time.Duration(o.In.A-base), time.Duration(o.In.B-base), o.Call, o.Ret)
	}
	return t
}

func (w *world) probes(threshold int64) {
	opens, half := 0, 0
	for _, c := range w.calls {
		if c.opened > 0 {
			opens++
		}
	}
	seenOpen := false
	for _, c := range w.calls {
		if c.opened > 0 {
			seenOpen = true
		} else if seenOpen && c.ran > 0 {
			half++
		}
	}
	if opens > 0 {
		w.x.Probe("opened")
	}
	if half > 0 {
		w.x.Probe("ran_again_after_open")
	}
}

// ---- C01/C02: state machine -----------------------------------------------------

func genState(r *hk.Rng, stalls bool) *hk.Plan {
	reset := r.Pick(1, 2, 5, 10, 10, 20, 50, 1000, 1e6, 1e9, 60e9)
	thr := r.Pick(1, 1, 2, 2, 3, 3, 4, 5, 8)
	p := &hk.Plan{Cfg: map[string]int64{"threshold": thr, "reset": reset}}
	nt := r.R(1, 4)
	bad := r.R(2, 9)
	budget := 22
	for t := 0; t < nt; t++ {
		var ops []hk.Op
		n := r.R(2, 12)
		if nt > 2 {
			n = r.R(1, 6)
		}
		for i := 0; i < n && budget > 0; i++ {
			switch k := r.N(10); {
			case k < 2:
				// step around the reset timeout
				ops = append(ops, hk.Op{K: "sleep", A: r.Pick(reset, reset, reset+1, reset+1, reset-1, reset/2, reset/2+1, 1, 2*reset+1)})
			default:
				budget--
				o := hk.Op{K: "ok"}
				if r.N(10) < bad {
					o.K = "err"
				}
				if r.P(1, 20) {
					o.K = "panic"
				}
				if r.P(1, 3) {
					o.A = r.Pick(1, reset/2, reset, reset+1, reset*2)
				}
				if r.P(1, 10) {
					o.C = r.Pick(1, reset, reset+1)
				}
				if r.P(1, 15) {
					o.B = int64(r.R(1, 3))
				}
				ops = append(ops, o)
			}
		}
		p.Ops = append(p.Ops, ops)
	}
	if r.P(1, 5) {
		// a clock that jumps
		var ops []hk.Op
		for i, n := 0, r.R(1, 3); i < n; i++ {
			ops = append(ops, hk.Op{K: "sleep", A: r.Pick(0, 1, reset/2, reset)})
			ops = append(ops, hk.Op{K: "jump", A: r.Pick(1, -1, reset, -reset, reset+1, -reset-1, reset*3, -reset*3)})
		}
		p.Ops = append(p.Ops, ops)
	}
	p.Sim = hk.GenSim(r, 400, stalls, max(reset*2, 10))
	return p
}

func max(a, b int64) int64 {
	if a > b {
		return a
	}
	return b
}

func newWorld(p *hk.Plan, x *hk.X) *world {
	w := &world{x: x}
	b := cb.NewSyncCircuitBreaker(int(p.C("threshold")), time.Duration(p.C("reset")))
	w.do = b.Do
	return w
}

func (w *world) drive() {
	w.x.RunOps(func(t int, op hk.Op) {
		switch op.K {
		case "sleep":
			rt.Sleep(op.A)
		case "jump":
			w.jump(op.A)
		default:
			w.run(t, op)
		}
	})
}

func runState(p *hk.Plan, x *hk.X) {
	w := newWorld(p, x)
	w.drive()
	x.Join()
	w.routing()
	if !x.Failed() {
		w.lin(p.C("threshold"), p.C("reset"))
	}
	w.probes(p.C("threshold"))
}

func runRouting(p *hk.Plan, x *hk.X) {
	w := newWorld(p, x)
	w.drive()
	x.Join()
	w.routing()
	w.probes(p.C("threshold"))
}

// long sequential-in-time histories with one thread: cheap, long
func genSeq(r *hk.Rng) *hk.Plan {
	reset := r.Pick(1, 3, 10, 100, 1e6, 5e9, 3600e9)
	thr := r.Pick(1, 2, 3, 5, 10, 20)
	p := &hk.Plan{Cfg: map[string]int64{"threshold": thr, "reset": reset}}
	var ops []hk.Op
	big := r.P(1, 20)
	if big {
		thr = r.Pick(64, 100, 130, 260, 1001)
		p.Cfg["threshold"] = thr
	}
	bad := r.R(3, 10)
	for i, n := 0, r.R(10, 60); i < n; i++ {
		switch r.N(8) {
		case 1:
			if big {
				ops = append(ops, hk.Op{K: "errs", A: r.Pick(thr, thr-1, thr/2, 1)})
			}
		case 0:
			ops = append(ops, hk.Op{K: "sleep", A: r.Pick(reset, reset+1, reset-1, reset/2, 2*reset, 1)})
		default:
			o := hk.Op{K: "ok"}
			if r.N(10) < bad {
				o.K = "err"
			}
			if r.P(1, 6) {
				o.A = r.Pick(1, reset, reset+1)
			}
			ops = append(ops, o)
		}
	}
	p.Ops = [][]hk.Op{ops}
	p.Sim = hk.GenSim(r, 400, false, 0)
	return p
}

func runSeq(p *hk.Plan, x *hk.X) {
	w := newWorld(p, x)
	fails, last := int64(0), int64(0)
	w.x.RunOps(func(t int, op hk.Op) {
		if op.K == "sleep" {
			rt.Sleep(op.A)
			return
		}
		n := int64(1)
		if op.K == "errs" {
			n, op.K = op.A, "err"
			op.A = 0
		}
		for ; n > 0; n-- {
			if n%50 == 1 {
				rt.WaitIdle()
			}
			now := rt.Wall()
			open := fails >= p.C("threshold") && now-last <= p.C("reset")
			c := w.run(t, op)
			if open != (c.opened > 0) {
				x.Fail("state", "call %d, %v after the latest failure, %d failures in a row (threshold %d, reset timeout %v): open=%v expected %v",
					c.i, time.Duration(now-last), fails, p.C("threshold"), time.Duration(p.C("reset")), c.opened > 0, open)
			}
			if c.ran > 0 {
				if op.K == "err" {
					fails++
					last = rt.Wall()
				} else {
					fails = 0
				}
			}
		}
	})
	x.Join()
	w.routing()
	w.probes(p.C("threshold"))
}

// ---- C01: NeverOpen ---------------------------------------------------------------

func genNever(r *hk.Rng) *hk.Plan {
	p := &hk.Plan{Cfg: map[string]int64{}}
	for t, n := 0, r.R(1, 3); t < n; t++ {
		var ops []hk.Op
		for i, k := 0, r.R(1, 8); i < k; i++ {
			ops = append(ops, hk.Op{K: r.PickS("ok", "err", "err", "err", "panic"), A: r.Pick(0, 0, 1, 100), B: r.Pick(0, 0, 0, 1, 2)})
		}
		p.Ops = append(p.Ops, ops)
	}
	p.Sim = hk.GenSim(r, 200, false, 0)
	return p
}

func runNever(p *hk.Plan, x *hk.X) {
	w := &world{x: x, do: cb.NeverOpen.Do}
	w.drive()
	x.Join()
	w.routing()
	for _, c := range w.calls {
		if c.opened > 0 {
			x.Fail("neveropen", "a breaker that never opens refused call %d", c.i)
		}
	}
}

// ---- C03: isolation -----------------------------------------------------------------

func genIso(r *hk.Rng) *hk.Plan {
	p := &hk.Plan{Cfg: map[string]int64{"threshold": r.Pick(1, 2, 3, 5), "reset": r.Pick(10, 1000, 1e9)}}
	// slow ones first: tasks and callbacks that hang for an hour
	ns := r.R(1, 3)
	for t := 0; t < ns; t++ {
		o := hk.Op{K: r.PickS("ok", "err", "panic", "exit")}
		if r.P(2, 3) {
			o.A = 3600e9
		} else {
			o.C = 3600e9
		}
		ops := []hk.Op{}
		for i, n := 0, r.N(4); i < n; i++ {
			ops = append(ops, hk.Op{K: r.PickS("ok", "err", "err", "panic", "exit")})
		}
		p.Ops = append(p.Ops, append(ops, o))
	}
	p.Cfg["slow"] = int64(ns)
	for t, n := 0, r.R(1, 3); t < n; t++ {
		var ops []hk.Op
		for i, k := 0, r.R(1, 6); i < k; i++ {
			if r.P(1, 4) {
				ops = append(ops, hk.Op{K: "sleep", A: r.Pick(1, p.C("reset"), p.C("reset")+1)})
				continue
			}
			ops = append(ops, hk.Op{K: r.PickS("ok", "err", "err", "panic", "exit"), B: r.Pick(0, 0, 0, 1, 2, 3)})
		}
		p.Ops = append(p.Ops, ops)
	}
	p.Sim = hk.GenSim(r, 300, false, 0)
	return p
}

func runIso(p *hk.Plan, x *hk.X) {
	w := newWorld(p, x)
	slow := p.I("slow")
	x.RunOps(func(t int, op hk.Op) {
		if op.K == "sleep" {
			rt.Sleep(op.A)
			return
		}
		c := w.run(t, op)
		if t >= slow && c.retTime != c.callTime {
			x.Fail("blocked", "call %d took %v although its own task takes no time: another caller's task or callback held it up", c.i, time.Duration(c.retTime-c.callTime))
		}
		if t < slow && op.A == 0 && op.C == 0 && c.retTime != c.callTime {
			x.Fail("blocked", "call %d took %v although its own task takes no time", c.i, time.Duration(c.retTime-c.callTime))
		}
	})
	if !x.JoinFor(4 * 3600e9) {
		x.Fail("blocked", "a call never returned")
		return
	}
	// still usable: after the reset timeout a successful task runs and closes it
	rt.Sleep(p.C("reset") + 1)
	c := w.run(99, hk.Op{K: "ok"})
	if c.ran != 1 {
		x.Fail("stuck", "the reset timeout has passed since the latest failure but the task was not run")
		return
	}
	c = w.run(99, hk.Op{K: "ok"})
	if c.ran != 1 {
		x.Fail("stuck", "not closed after a success")
	}
}

func main() {
	hk.Bystander = bystander
	hk.Main("breaker", []*hk.Scenario{
		{Prop: "C01", Name: "brk-routing", Runs: 150000, Gen: func(r *hk.Rng) *hk.Plan { return genState(r, r.P(1, 3)) }, Run: runRouting, Real: real, Stub: stub},
		{Prop: "C01", Name: "brk-never", Runs: 50000, Gen: genNever, Run: runNever, Real: real, Stub: stub},
		{Prop: "C02", Name: "brk-state", Runs: 150000, Gen: func(r *hk.Rng) *hk.Plan { return genState(r, false) }, Run: runState, Real: real, Stub: stub},
		{Prop: "C02", Name: "brk-state-stall", Runs: 60000, Gen: func(r *hk.Rng) *hk.Plan { return genState(r, true) }, Run: runState, Real: real, Stub: stub},
		{Prop: "C02", Name: "brk-seq", Runs: 60000, Gen: genSeq, Run: runSeq, Real: real, Stub: stub},
		{Prop: "C03", Name: "brk-iso", Runs: 150000, Gen: genIso, Run: runIso, Real: real, Stub: stub},
	})
}
