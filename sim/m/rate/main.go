//go:build go1.21

// Scenarios of the in-memory rate limiters (C15-C18).
package main

import (
	"fmt"
	"strings"
	"time"

	rl "github.com/chanjarster/gears/ratelimiter"
	"github.com/chanjarster/gears/zzsim/hk"
	rt "github.com/chanjarster/gears/zzsim/rt"
)

const stub = "Go scheduler, sync, sync/atomic, wall clock (simulated)"
const sec = int64(1e9)

// acq is one Acquire call as seen by the caller.
type acq struct {
	t                    int
	callW, retW          int64 // wall clock
	call, ret            int
	ok                   bool
	done                 bool
	callT, retT          int64 // steady clock
	lateOld, jumpedInOut bool
}

type rec struct {
	x    *hk.X
	lim  rl.Interface
	acqs []*acq
}

func (c *rec) acquire(t int) bool {
	a := &acq{t: t, callW: rt.Wall(), callT: rt.Mono()}
	c.acqs = append(c.acqs, a)
	a.call = rt.Rec("acquire", int64(t), 0, "", nil)
	a.ok = c.lim.Acquire()
	a.retW, a.retT = rt.Wall(), rt.Mono()
	a.ret = rt.Rec("acquired", int64(t), 0, fmt.Sprint(a.ok), nil)
	a.done = true
	return a.ok
}

func (c *rec) text() string {
	var sb strings.Builder
	for i, a := range c.acqs {
		if i > 40 {
			sb.WriteString("...")
			break
		}
		fmt.Fprintf(&sb, "[T%d %v at %d..%d #%d..%d] ", a.t, a.ok, a.callW, a.retW, a.call, a.ret)
	}
	return sb.String()
}

func wallBase(r *hk.Rng) int64 {
	switch r.N(6) {
	case 0:
		return r.R64(1, 1000)
	case 1:
		return 4e18 + r.R64(0, 1e17)
	}
	return hk.Base + r.R64(0, 3e9)
}

// ---- C15 -------------------------------------------------------------------

// ops: "acq" after sleeping A; "edge": sleep to the next window boundary + A (-1, 0, 1), then acquire;
// "jump" moves the wall clock forward by A; "many": A acquires in a row.
func genFW(stall bool) func(r *hk.Rng) *hk.Plan {
	return func(r *hk.Rng) *hk.Plan {
		ws := r.Pick(1, 2, 3, 7, 10, 100, 999, 1000, 1000000, 33333333, 100*1000000, sec, sec+1, 60*sec, 3600*sec, 86400*sec)
		if stall && ws < 100 {
			ws *= 1000
		}
		p := &hk.Plan{Cfg: map[string]int64{"win": ws, "cap": r.Pick(1, 1, 1, 2, 2, 3, 5, 10, 0, -1)}}
		nt := r.R(1, 5)
		for t := 0; t < nt; t++ {
			var ops []hk.Op
			for i, n := 0, r.R(1, 9); i < n; i++ {
				switch r.N(10) {
				case 0, 1, 2:
					ops = append(ops, hk.Op{K: "acq", A: r.Pick(0, 0, 0, 1, ws/3, ws-1, ws, ws+1, 2*ws, 1000*ws+1)})
				case 3, 4, 5, 6:
					ops = append(ops, hk.Op{K: "edge", A: r.Pick(-1, 0, 0, 1)})
				case 7, 8:
					ops = append(ops, hk.Op{K: "many", A: int64(r.R(1, 5))})
				default:
					ops = append(ops, hk.Op{K: "jump", A: r.Pick(1, ws-1, ws, ws+1, 5*ws, 1000000*ws, sec)})
				}
			}
			p.Ops = append(p.Ops, ops)
		}
		p.Sim = hk.GenSim(r, 150, stall, r.Pick(ws/3+1, ws, 2*ws))
		p.Sim.WallBase = wallBase(r)
		return p
	}
}

func runFW(stall bool) func(p *hk.Plan, x *hk.X) {
	return func(p *hk.Plan, x *hk.X) {
		win, cap := p.C("win"), p.C("cap")
		if win <= 0 {
			return
		}
		l := rl.NewSyncFixedWindow(int(cap), time.Duration(win))
		c := &rec{x: x, lim: l}
		if l.Capacity() != int(cap) || l.WindowSize() != time.Duration(win) {
			x.Fail("config", "Capacity() = %d, WindowSize() = %v", l.Capacity(), l.WindowSize())
		}
		x.RunOps(func(t int, op hk.Op) {
			switch op.K {
			case "acq":
				if op.A > 0 {
					rt.Sleep(op.A)
				}
				c.acquire(t)
			case "edge":
				w := rt.Wall()
				d := (w+win-1)/win*win - w + op.A
				if d > 0 {
					rt.Sleep(d)
				}
				if m := rt.Wall() % win; m == 0 {
					x.Probe("on_boundary")
				}
				c.acquire(t)
			case "many":
				for i := int64(0); i < op.A; i++ {
					c.acquire(t)
				}
			case "jump":
				if op.A > 0 && rt.Wall() < 4e18 {
					rt.JumpWall(op.A)
				}
			}
		})
		x.Join()
		// windows by number: k covers ((k-1)*win, k*win]
		num := func(w int64) int64 { return (w-1)/win + 1 }
		if cap < 0 {
			cap = 0
		}
		type wstat struct{ n, ok int64 }
		ws := map[int64]*wstat{}
		for _, a := range c.acqs {
			k := num(a.callW)
			if num(a.retW) != k {
				continue
			}
			if ws[k] == nil {
				ws[k] = &wstat{}
			}
			ws[k].n++
			if a.ok {
				ws[k].ok++
			}
		}
		for _, a := range c.acqs { // in order of calls, to be deterministic
			k := num(a.callW)
			if num(a.retW) != k {
				x.Probe("call_across_boundary")
				continue
			}
			w := ws[k]
			if w.ok > cap {
				x.Fail("over", "window %d of %dns admitted %d with capacity %d: %s", k, win, w.ok, cap, c.text())
				return
			}
			if !stall {
				want := w.n
				if cap < want {
					want = cap
					x.Probe("window_full")
				}
				// calls that are not all at one instant with a jump in between
				if w.ok != want && allInside(c, k, num) {
					x.Fail("under", "window %d of %dns admitted %d of %d with capacity %d: %s", k, win, w.ok, w.n, cap, c.text())
					return
				}
			}
			if a.ok {
				continue
			}
			over := int64(0)
			for _, b := range c.acqs {
				if b.ok && num(b.retW) >= k && num(b.callW) <= k {
					over++
				}
				if !stall && b.ok && num(b.callW) == k && num(b.retW) == k && a.ret < b.call {
					x.Fail("order", "a request of window %d was refused although a later one was admitted: %s", k, c.text())
					return
				}
			}
			if over < cap {
				x.Fail("refused", "a request of window %d was refused with %d of %d admitted: %s", k, over, cap, c.text())
				return
			}
		}
	}
}

// allInside: no call that touches window k is partly outside of it.
func allInside(c *rec, k int64, num func(int64) int64) bool {
	for _, a := range c.acqs {
		if num(a.callW) != num(a.retW) && num(a.callW) <= k && num(a.retW) >= k {
			return false
		}
	}
	return true
}

// ---- C16 -------------------------------------------------------------------

func genSW(kind string) func(r *hk.Rng) *hk.Plan {
	return func(r *hk.Rng) *hk.Plan {
		win := r.Pick(1, 5, 10, 100, 1000, sec, 60*sec)
		if kind == "stall" {
			win = r.Pick(1000, 100000, sec)
		}
		p := &hk.Plan{Cfg: map[string]int64{"win": win, "cap": r.Pick(1, 1, 2, 2, 3, 4, 6)}}
		if kind == "lin" && r.P(1, 8) {
			p.Cfg["cap"] = r.Pick(0, -1, -5)
		}
		nt, per := r.R(2, 4), 7
		if kind == "seq" {
			nt, per = 1, 40
		}
		if kind == "stall" {
			nt, per = r.R(2, 6), 8
		}
		for t := 0; t < nt; t++ {
			var ops []hk.Op
			for i, n := 0, r.R(1, per); i < n; i++ {
				k := r.N(16)
				switch {
				case k < 11 || kind == "stall":
					ops = append(ops, hk.Op{K: "acq", A: r.Pick(0, 0, 0, 0, 1, win/2, win/3, win-1, win, win, win+1, win+1, 2*win)})
				case k < 13:
					ops = append(ops, hk.Op{K: "cfg", A: r.Pick(0, 1, 1, 2, 3, 5, -2), B: r.Pick(win, win, win/2, 2*win, win+1)})
				case k == 13:
					ops = append(ops, hk.Op{K: "cap"})
				case k == 14:
					ops = append(ops, hk.Op{K: "size"})
				default:
					ops = append(ops, hk.Op{K: "jump", A: r.Pick(1, win-1, win, win+1, 100*win)})
				}
			}
			p.Ops = append(p.Ops, ops)
		}
		p.Sim = hk.GenSim(r, 150, kind == "stall", r.Pick(win/3+1, win, 2*win))
		p.Sim.WallBase = wallBase(r)
		return p
	}
}

type swState struct {
	cap, win int64
	recs     []int64
}

func runSW(p *hk.Plan, x *hk.X) {
	win, cap := p.C("win"), p.C("cap")
	if win <= 0 {
		return
	}
	l := rl.NewSyncSlidingWindow(int(cap), time.Duration(win))
	var ops []*hk.LinOp
	walls := []int64{} // values of the clock after each jump
	x.RunOps(func(t int, op hk.Op) {
		if op.A > 0 && op.K == "acq" {
			rt.Sleep(op.A)
		}
		if op.K == "jump" {
			if op.A > 0 && rt.Wall() < 4e18 {
				rt.JumpWall(op.A)
				walls = append(walls, rt.Wall())
			}
			return
		}
		lo := &hk.LinOp{In: op, Thread: t, CallT: rt.Wall()}
		ops = append(ops, lo)
		lo.Call = rt.Rec("call "+op.K, op.A, op.B, "", nil)
		switch op.K {
		case "acq":
			lo.Out = l.Acquire()
		case "cfg":
			l.UpdateConfig(int(op.A), time.Duration(op.B))
		case "cap":
			lo.Out = int64(l.Capacity())
		case "size":
			lo.Out = int64(l.WindowSize())
		}
		lo.RetT = rt.Wall()
		lo.Ret = rt.Rec("ret "+op.K, 0, 0, fmt.Sprint(lo.Out), nil)
	})
	x.Join()
	if len(ops) > 60 {
		x.Inconclusive()
		return
	}
	if cap < 0 {
		cap = 0
	}
	m := hk.LinModel{Init: swState{cap, win, nil}, Key: func(s interface{}) string { return fmt.Sprint(s) },
		Step: func(s interface{}, o *hk.LinOp) []interface{} {
			v := s.(swState)
			switch o.In.K {
			case "cap":
				if o.Out != v.cap {
					return nil
				}
			case "size":
				if o.Out != v.win {
					return nil
				}
			case "cfg":
				n := swState{o.In.A, o.In.B, v.recs}
				if n.cap < 0 {
					n.cap = 0
				}
				if int64(len(n.recs)) > n.cap {
					n.recs = n.recs[int64(len(n.recs))-n.cap:]
				}
				return []interface{}{n}
			case "acq":
				ts := []int64{o.CallT}
				if o.RetT != o.CallT {
					for _, w := range walls { // the clock was set during the call
						if w > o.CallT && w <= o.RetT {
							ts = append(ts, w)
						}
					}
				}
				var out []interface{}
				for _, now := range ts {
					n, ok := v, true
					if v.cap > 0 {
						ok = int64(len(v.recs)) < v.cap || now-v.recs[0] > v.win
						if ok {
							n.recs = append(append([]int64(nil), v.recs...), now)
							if int64(len(n.recs)) > n.cap {
								n.recs = n.recs[1:]
							}
						}
					}
					if ok == (o.Out == true) {
						out = append(out, n)
					}
				}
				return out
			}
			return []interface{}{v}
		}}
	switch hk.CheckLin(ops, m, 300000) {
	case 0:
		t := ""
		for _, o := range ops {
			t += fmt.Sprintf("[T%d %v=%v at %d #%d..%d] ", o.Thread, o.In, o.Out, o.CallT, o.Call, o.Ret)
		}
		x.Fail("window", "no order of these calls is explained by a sliding window of capacity %d and %dns: %s", cap, win, t)
	case -1:
		x.Inconclusive()
	}
}

func runSWStall(p *hk.Plan, x *hk.X) {
	win, cap := p.C("win"), p.C("cap")
	if win <= 0 || cap <= 0 {
		return
	}
	c := &rec{x: x, lim: rl.NewSyncSlidingWindow(int(cap), time.Duration(win))}
	x.RunOps(func(t int, op hk.Op) {
		if op.A > 0 {
			rt.Sleep(op.A)
		}
		c.acquire(t)
	})
	x.Join()
	// admissions whose calls lie inside a span not longer than the window
	for _, a := range c.acqs {
		if !a.ok {
			continue
		}
		n := int64(0)
		for _, b := range c.acqs {
			if b.ok && b.callW >= a.callW && b.retW <= a.callW+win {
				n++
			}
		}
		if n > cap {
			x.Fail("over", "%d admissions within %dns with capacity %d: %s", n, win, cap, c.text())
			return
		}
	}
	// a refused call has capacity many admissions it can have seen
	for _, a := range c.acqs {
		if a.ok {
			continue
		}
		x.Probe("refused")
		n := int64(0)
		for _, b := range c.acqs {
			if b.ok && b.call < a.ret {
				n++
			}
		}
		if n < cap {
			x.Fail("refused", "refused with only %d of %d admitted: %s", n, cap, c.text())
			return
		}
	}
}

// ---- C17, C18 -----------------------------------------------------------------

func bucket(p *hk.Plan) rl.TokenBucket {
	if p.C("kind") == 0 {
		return rl.NewSyncTokenBucket(p.I("cap"), p.I("rate"))
	}
	return rl.NewAtomicTokenBucket(p.I("cap"), p.I("rate"))
}

const (
	day  = 86400 * sec
	year = 365 * day
)

// anyRate: mostly rates at which the bucket runs empty, now and then very high ones (the tokens due
// after a long idle time are then far beyond 32 bits, though never beyond 63).
func anyRate(r *hk.Rng, min int64) int64 {
	if r.P(1, 4) {
		return r.Pick(100, 1000, 60000, 1000000, 1<<20, 1<<26, 100000000, r.Pick(1<<31-1, 1<<31, 1<<40, 1<<62, 1<<63-1, 1<<63-5))
	}
	return r.Pick(min, 1, 1, 2, 3, 5, 20)
}

// anyCap may be so large that nothing is ever refused.
func anyCap(r *hk.Rng, some ...int64) int64 {
	if r.P(1, 20) {
		return r.Pick(1<<31-1, 1<<31, 1<<62, 1<<63-1)
	}
	return r.Pick(some...)
}

func genTB(stall bool) func(r *hk.Rng) *hk.Plan {
	return func(r *hk.Rng) *hk.Plan {
		p := &hk.Plan{Cfg: map[string]int64{"kind": int64(r.N(2)), "cap": anyCap(r, 0, 1, 1, 2, 3, 5, 10), "rate": anyRate(r, 0)}}
		nt := r.R(1, 5)
		for t := 0; t < nt; t++ {
			var ops []hk.Op
			for i, n := 0, r.R(1, 7); i < n; i++ {
				ops = append(ops, hk.Op{K: "acq", A: r.Pick(0, 0, 0, 1, sec/2, sec-1, sec, sec, sec+1, 2*sec, 3*sec+1, 10*sec, 100*sec, r.Pick(day, 100*day, 20*year)), B: r.Pick(1, 1, 1, 2, 3, 6)})
			}
			p.Ops = append(p.Ops, ops)
		}
		p.Sim = hk.GenSim(r, 200, stall, r.Pick(sec/3, sec, 3*sec))
		return p
	}
}

func runTB(p *hk.Plan, x *hk.X) {
	cap, rate := p.C("cap"), p.C("rate")
	b := bucket(p)
	if b.Capacity() != int(cap) {
		x.Fail("config", "Capacity() = %d instead of %d", b.Capacity(), cap)
	}
	c := &rec{x: x, lim: b}
	x.RunOps(func(t int, op hk.Op) {
		if op.A > 0 {
			rt.Sleep(op.A)
		}
		for i := int64(0); i < op.B; i++ {
			c.acquire(t)
		}
	})
	x.Join()
	if len(c.acqs) > 0 {
		n := int64(0)
		for _, a := range c.acqs {
			if a.ok {
				n++
			}
		}
		if n > cap {
			x.Probe("refilled")
		}
	}
	from := map[int64]bool{} // instants already judged
	for _, a := range c.acqs {
		if !a.ok {
			x.Probe("refused")
			continue
		}
		if from[a.callT] {
			continue
		}
		from[a.callT] = true
		to := map[int64]bool{}
		for _, e := range c.acqs {
			if !e.ok || e.retT < a.callT || to[e.retT] {
				continue
			}
			to[e.retT] = true
			span := e.retT - a.callT
			if rate > 0 && span/sec+1 > (1<<63-1-cap)/rate {
				continue // more than anyone can ask for
			}
			lim := cap + rate*(span/sec+1)
			if span == 0 {
				lim = cap
			}
			n := int64(0)
			for _, o := range c.acqs {
				if o.ok && o.callT >= a.callT && o.retT <= e.retT {
					n++
				}
			}
			if n > lim {
				x.Fail("over", "%d admissions within %v by a bucket of capacity %d and rate %d/s: %s", n, time.Duration(span), cap, rate, c.text())
				return
			}
		}
	}
}

// Each op list is one burst: op 0 {K: "phase", A: sleep before, B: jump of the wall clock before the
// sleep, C: jump in the middle of the burst}, the others {A: acquires} are its threads.
func genRefill(r *hk.Rng) *hk.Plan {
	p := &hk.Plan{Cfg: map[string]int64{"kind": int64(r.N(2)), "cap": anyCap(r, 1, 1, 2, 3, 5, 10, 24), "rate": anyRate(r, 1)}}
	for i, n := 0, r.R(1, 6); i < n; i++ {
		ph := hk.Op{K: "phase", A: r.Pick(0, 1, sec/2, sec-1, sec, sec, sec, sec+1, 2*sec, 7*sec, 3600*sec, r.Pick(day, 400*day, 20*year))}
		if r.P(1, 3) {
			ph.B = r.Pick(-1, -sec, -3600*sec, -400*86400*sec, 1, sec, 3600*sec, 400*day, 10*year)
		}
		if r.P(1, 8) {
			ph.C = r.Pick(-sec, -100*sec, 100*sec, -86400*sec)
		}
		ops := []hk.Op{ph}
		for t, nt := 0, r.R(1, 4); t < nt; t++ {
			ops = append(ops, hk.Op{K: "acq", A: int64(r.R(1, 6))})
		}
		p.Ops = append(p.Ops, ops)
	}
	p.Sim = hk.GenSim(r, 200, false, 0)
	return p
}

func runRefill(p *hk.Plan, x *hk.X) {
	cap, rate := p.C("cap"), p.C("rate")
	c := &rec{x: x, lim: bucket(p)}
	last := int64(-1) // time of the last touch
	back := false     // the wall clock was set back since then
	fresh := true
	for k, ops := range p.Ops {
		if len(ops) == 0 || ops[0].K != "phase" {
			continue
		}
		ph := ops[0]
		if ph.B != 0 {
			rt.JumpWall(ph.B)
			if ph.B < 0 {
				back = true
			}
		}
		if ph.A > 0 {
			rt.Sleep(ph.A)
		}
		at := rt.Mono()
		from := len(c.acqs)
		for t := 1; t < len(ops); t++ {
			t, op := t, ops[t]
			x.Thread("T", func() {
				for i := int64(0); i < op.A; i++ {
					rt.YH()
					c.acquire(t)
				}
			})
		}
		if ph.C != 0 {
			x.Thread("J", func() { rt.JumpWall(ph.C) })
		}
		x.Join()
		asked := int64(len(c.acqs) - from)
		if asked == 0 {
			continue
		}
		got := int64(0)
		for _, a := range c.acqs[from:] {
			if a.ok {
				got++
			}
		}
		want := int64(0)
		switch {
		case ph.C < 0:
			// the clock is set back in the middle: nothing is promised for this burst
		case fresh:
			want = cap
		case !back && at-last >= sec:
			want = cap
			if rate < want {
				want = rate
			}
		}
		if asked < want {
			want = asked
		}
		if back && want == 0 {
			x.Probe("clock_set_back")
		}
		if got < want {
			x.Fail("starved", "burst %d: %d of %d requests admitted, %d were due (capacity %d, rate %d/s, %v after the last request): %s", k, got, asked, want, cap, rate, time.Duration(at-last), c.text())
			return
		}
		// the first that ask are the ones admitted
		for i, a := range c.acqs[from:] {
			if a.ok || want == 0 || ph.C != 0 {
				continue
			}
			n := int64(0)
			for _, b := range c.acqs[from:] {
				if b.call < a.ret {
					n++
				}
			}
			if n <= want && n <= asked {
				// every request that had begun by then, this one included, was entitled
				x.Fail("starved", "burst %d: request %d refused although at most %d had asked and %d were due (capacity %d, rate %d/s): %s", k, i, n, want, cap, rate, c.text())
				return
			}
		}
		last, fresh, back = at, false, ph.C < 0
	}
}

// steady: requests at any pace, the clock stepped at any moment; a request is refused only if the
// last second's tokens have been used.
func genSteady(r *hk.Rng) *hk.Plan {
	p := &hk.Plan{Cfg: map[string]int64{"kind": int64(r.N(2)), "cap": anyCap(r, 1, 1, 2, 3, 5, 10, 24), "rate": anyRate(r, 1)}}
	step := r.Pick(sec/2, sec/3, sec-1, sec/10, sec)
	jumps := r.P(1, 2)
	for t, nt := 0, r.R(1, 4); t < nt; t++ {
		var ops []hk.Op
		for i, n := 0, r.R(1, 12); i < n; i++ {
			if jumps && r.P(1, 10) {
				ops = append(ops, hk.Op{K: "jump", A: r.Pick(-1, -sec/2, -sec, -3600*sec, -400*86400*sec, 1, sec, 3600*sec)})
				continue
			}
			ops = append(ops, hk.Op{K: "acq", A: r.Pick(0, 0, step, step, step, 1, sec-1, sec, 2*sec+1, r.Pick(3600*sec, day, 400*day)), B: r.Pick(1, 1, 1, 2, 4)})
		}
		p.Ops = append(p.Ops, ops)
	}
	p.Sim = hk.GenSim(r, 200, false, 0)
	return p
}

func runSteady(p *hk.Plan, x *hk.X) {
	cap, rate := p.C("cap"), p.C("rate")
	c := &rec{x: x, lim: bucket(p)}
	var backs []int // the wall clock was set back at these points of the history
	x.RunOps(func(t int, op hk.Op) {
		if op.K == "jump" {
			if op.A != 0 {
				rt.JumpWall(op.A)
			}
			if op.A < 0 {
				backs = append(backs, rt.Rec("set back", op.A, 0, "", nil))
			}
			return
		}
		if op.A > 0 {
			rt.Sleep(op.A)
		}
		for i := int64(0); i < op.B; i++ {
			c.acquire(t)
		}
	})
	x.Join()
	want := cap
	if rate < want {
		want = rate
	}
	for i, a := range c.acqs {
		if a.ok {
			continue
		}
		excused := false
		for _, b := range backs {
			// until a second after the first request that ends after the step
			if b > a.ret {
				continue
			}
			// the first request that begins after the step and after all that were going on then
			first, busy := int64(1)<<62, b
			for _, f := range c.acqs {
				if f.call < b && f.ret > busy {
					busy = f.ret
				}
			}
			for _, f := range c.acqs {
				if f.call > busy {
					first = f.callT
					break
				}
			}
			excused = excused || a.callT < first+sec
		}
		if excused {
			x.Probe("clock_set_back")
			continue
		}
		n := int64(0)
		for _, b := range c.acqs {
			if b.ok && b.callT > a.callT-sec && b.call < a.ret {
				n++
			}
		}
		x.Probe("refused")
		if n < want {
			x.Fail("starved", "request %d refused at %v although only %d of %d due in a second had been admitted in the last second (capacity %d, rate %d/s): %s", i, time.Duration(a.callT), n, want, cap, rate, c.text())
			return
		}
	}
}

// ---- large capacities ----------------------------------------------------------

func bigCap(r *hk.Rng) int64 {
	return r.Pick(16, 31, 33, 50, 64, 100, 127, 128, 129, 200, 255, 256, 257, 300)
}

func genFWBig(r *hk.Rng) *hk.Plan {
	ws, n := r.Pick(1, 10, 1000, sec, 60*sec), bigCap(r)
	p := &hk.Plan{Cfg: map[string]int64{"win": ws, "cap": n}}
	for t, nt := 0, r.R(1, 3); t < nt; t++ {
		var ops []hk.Op
		for i, k := 0, r.R(1, 5); i < k; i++ {
			ops = append(ops, hk.Op{K: "edge", A: r.Pick(-1, 0, 1)}, hk.Op{K: "many", A: r.Pick(1, n/2, n-2, n-1, n, n+1)})
		}
		p.Ops = append(p.Ops, ops)
	}
	p.Sim = hk.GenSim(r, 1500, false, 0)
	p.Sim.WallBase = wallBase(r)
	return p
}

func genSWBig(r *hk.Rng) *hk.Plan {
	win, n := r.Pick(1, 10, 1000, sec, 60*sec), bigCap(r)
	p := &hk.Plan{Cfg: map[string]int64{"win": win, "cap": n}, Ops: [][]hk.Op{nil}}
	for i, k := 0, r.R(2, 9); i < k; i++ {
		switch r.N(4) {
		case 0:
			p.Ops[0] = append(p.Ops[0], hk.Op{K: "cfg", A: r.Pick(0, 1, n/2, n-1, n, n+1, 2*n, 1000), B: r.Pick(win, win, win/2, 2*win)})
		default:
			p.Ops[0] = append(p.Ops[0], hk.Op{K: "many", A: r.Pick(1, n/2, n-2, n-1, n, n+1, 2*n), B: r.Pick(0, 0, 1, win/2, win-1, win, win+1), C: r.Pick(0, 0, 1, win/n+1)})
		}
	}
	p.Sim = hk.GenSim(r, 1500, false, 0)
	p.Sim.WallBase = wallBase(r)
	return p
}

func runSWBig(p *hk.Plan, x *hk.X) {
	win, cap := p.C("win"), p.C("cap")
	if win <= 0 || len(p.Ops) != 1 {
		return
	}
	l := rl.NewSyncSlidingWindow(int(cap), time.Duration(win))
	var recs []int64
	n := 0
	x.RunOps(func(t int, op hk.Op) {
		if x.Failed() {
			return
		}
		if op.K == "cfg" {
			cap, win = op.A, op.B
			l.UpdateConfig(int(cap), time.Duration(win))
			if int64(len(recs)) > cap {
				recs = recs[int64(len(recs))-cap:]
			}
			if l.Capacity() != int(cap) || l.WindowSize() != time.Duration(win) {
				x.Fail("window", "after UpdateConfig(%d, %dns) the limiter has capacity %d and window %v", cap, win, l.Capacity(), l.WindowSize())
			}
			return
		}
		rt.Sleep(op.B)
		for i := int64(0); i < op.A; i++ {
			if op.C > 0 {
				rt.Sleep(op.C)
			}
			now := rt.Wall()
			want := cap <= 0 || int64(len(recs)) < cap || now-recs[0] > win
			if cap > 0 && want {
				recs = append(recs, now)
				if int64(len(recs)) > cap {
					recs = recs[1:]
				}
			}
			if !want {
				x.Probe("refused")
			}
			if got := l.Acquire(); got != want {
				x.Fail("window", "request %d of a single client (op %v) got %v, with %d admissions remembered, capacity %d and %dns", n, op, got, len(recs), cap, win)
				return
			}
			n++
		}
	})
	x.Join()
}

func genTBBig(r *hk.Rng) *hk.Plan {
	n := r.Pick(30, 33, 64, 100, 127, 128, 129)
	p := &hk.Plan{Cfg: map[string]int64{"kind": int64(r.N(2)), "cap": n, "rate": r.Pick(1, n/2, n-1, n, n+1, 1000)}}
	for t, nt := 0, r.R(1, 2); t < nt; t++ {
		var ops []hk.Op
		for i, k := 0, r.R(1, 3); i < k; i++ {
			ops = append(ops, hk.Op{K: "acq", A: r.Pick(0, 0, sec/2, sec-1, sec, sec+1, 10*sec, year), B: r.Pick(1, n/2, n, n+1)})
		}
		p.Ops = append(p.Ops, ops)
	}
	p.Sim = hk.GenSim(r, 1000, false, 0)
	return p
}

func genRefillBig(r *hk.Rng) *hk.Plan {
	n := bigCap(r)
	p := &hk.Plan{Cfg: map[string]int64{"kind": int64(r.N(2)), "cap": n, "rate": r.Pick(1, n/2, n-1, n, n+1, 1000)}}
	for i, k := 0, r.R(1, 4); i < k; i++ {
		ops := []hk.Op{{K: "phase", A: r.Pick(0, sec-1, sec, sec, sec+1, 2*sec, year)}}
		for t, nt := 0, r.R(1, 3); t < nt; t++ {
			ops = append(ops, hk.Op{K: "acq", A: r.Pick(1, n/3, n/2, n)})
		}
		p.Ops = append(p.Ops, ops)
	}
	p.Sim = hk.GenSim(r, 1000, false, 0)
	return p
}

func main() {
	hk.Bystander = bystander
	hk.Main("rate", []*hk.Scenario{
		{Prop: "C15", Name: "fw-exact", Runs: 300000, Gen: genFW(false), Run: runFW(false), Real: "ratelimiter.SyncFixedWindow, util/time (all code)", Stub: stub},
		{Prop: "C15", Name: "fw-stall", Runs: 150000, Gen: genFW(true), Run: runFW(true), Real: "ratelimiter.SyncFixedWindow, util/time (all code)", Stub: stub},
		{Prop: "C15", Name: "fw-big", Runs: 1500, Cost: 40, Gen: genFWBig, Run: runFW(false), Real: "ratelimiter.SyncFixedWindow, util/time (all code)", Stub: stub},
		{Prop: "C16", Name: "sw-big", Runs: 2000, Cost: 40, Gen: genSWBig, Run: runSWBig, Real: "ratelimiter.SyncSlidingWindow, util/time (all code)", Stub: stub},
		{Prop: "C16", Name: "sw-lin", Runs: 200000, Gen: genSW("lin"), Run: runSW, Real: "ratelimiter.SyncSlidingWindow, util/time (all code)", Stub: stub},
		{Prop: "C16", Name: "sw-seq", Runs: 100000, Gen: genSW("seq"), Run: runSW, Real: "ratelimiter.SyncSlidingWindow, util/time (all code)", Stub: stub},
		{Prop: "C16", Name: "sw-stall", Runs: 150000, Gen: genSW("stall"), Run: runSWStall, Real: "ratelimiter.SyncSlidingWindow, util/time (all code)", Stub: stub},
		{Prop: "C17", Name: "tb-big", Runs: 600, Cost: 40, Gen: genTBBig, Run: runTB, Real: "ratelimiter.SyncTokenBucket, AtomicTokenBucket, util/time (all code)", Stub: stub},
		{Prop: "C18", Name: "tb-refill-big", Runs: 1500, Cost: 40, Gen: genRefillBig, Run: runRefill, Real: "ratelimiter.SyncTokenBucket, AtomicTokenBucket, util/time (all code)", Stub: stub},
		{Prop: "C17", Name: "tb-exact", Runs: 250000, Gen: genTB(false), Run: runTB, Real: "ratelimiter.SyncTokenBucket, AtomicTokenBucket, util/time (all code)", Stub: stub},
		{Prop: "C17", Name: "tb-stall", Runs: 200000, Gen: genTB(true), Run: runTB, Real: "ratelimiter.SyncTokenBucket, AtomicTokenBucket, util/time (all code)", Stub: stub},
		{Prop: "C18", Name: "tb-steady", Runs: 300000, Gen: genSteady, Run: runSteady, Real: "ratelimiter.SyncTokenBucket, AtomicTokenBucket, util/time (all code)", Stub: stub},
		{Prop: "C18", Name: "tb-refill", Runs: 300000, Gen: genRefill, Run: runRefill, Real: "ratelimiter.SyncTokenBucket, AtomicTokenBucket, util/time (all code)", Stub: stub},
	})
}
