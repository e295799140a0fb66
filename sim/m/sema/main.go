//go:build go1.21

// Scenarios of the concurrent package (C04, C05).
package main

import (
	"fmt"

	"github.com/chanjarster/gears/concurrent"
	"github.com/chanjarster/gears/zzsim/hk"
	rt "github.com/chanjarster/gears/zzsim/rt"
)

func mk(kind, permits int64) concurrent.Semaphore {
	if kind == 0 {
		return concurrent.NewChanSemaphore(permits)
	}
	return concurrent.NewLockSemaphore(permits)
}

const realSema = "concurrent.ChanSemaphore, concurrent.LockSemaphore (all code)"
const stubSema = "Go scheduler, channels, sync.Mutex, sync.Cond (simulated)"

// permits: 1 mostly, sometimes larger
func genPermits(r *hk.Rng) int64 { return r.Pick(1, 1, 1, 2, 2, 3, 4, 5, 7) }

// linearizability of the whole API against a counting model
func genLin(r *hk.Rng) *hk.Plan {
	p := &hk.Plan{Cfg: map[string]int64{"kind": int64(r.N(2)), "permits": r.Pick(1, 1, 2, 2, 3, 4)}}
	nt := r.R(2, 4)
	for t := 0; t < nt; t++ {
		var ops []hk.Op
		for i, n := 0, r.R(2, 6); i < n; i++ {
			switch r.N(10) {
			case 0, 1, 2:
				ops = append(ops, hk.Op{K: "acq"})
			case 3, 4, 5:
				ops = append(ops, hk.Op{K: "try"})
			default:
				ops = append(ops, hk.Op{K: "rel"})
			}
		}
		p.Ops = append(p.Ops, ops)
	}
	p.Sim = hk.GenSim(r, 300, false, 0)
	return p
}

func runLin(p *hk.Plan, x *hk.X) {
	sem := mk(p.C("kind"), p.C("permits"))
	var ops []*hk.LinOp
	x.RunOps(func(t int, op hk.Op) {
		lo := &hk.LinOp{In: op, Pending: true, Thread: t}
		ops = append(ops, lo)
		lo.Call = rt.Rec("call "+op.K, int64(t), 0, "", nil)
		switch op.K {
		case "acq":
			sem.Acquire()
		case "try":
			lo.Out = sem.TryAcquire()
		case "rel":
			sem.Release()
		}
		lo.Ret = rt.Rec("ret "+op.K, int64(t), 0, fmt.Sprint(lo.Out), nil)
		lo.Pending = false
	})
	// threads may end up blocked in Acquire for good reason: all permits held
	if !x.JoinFor(1e9) {
		x.Probe("blocked_acquire_at_end")
		for _, o := range ops {
			if o.Pending && o.In.K != "acq" {
				x.Fail("blocked", "%s blocked for ever", o.In.K)
			}
		}
	}
	permits := p.C("permits")
	m := hk.LinModel{Init: int64(0), Key: func(s interface{}) string { return fmt.Sprint(s) },
		Step: func(s interface{}, o *hk.LinOp) []interface{} {
			c := s.(int64)
			switch o.In.K {
			case "acq":
				if c < permits {
					return []interface{}{c + 1}
				}
			case "try":
				if c < permits && (o.Pending || o.Out == true) {
					return []interface{}{c + 1}
				}
				if c >= permits && (o.Pending || o.Out == false) {
					return []interface{}{c}
				}
			case "rel":
				if c > 0 {
					return []interface{}{c - 1}
				}
				return []interface{}{c}
			}
			return nil
		}}
	// a blocked Acquire has not taken effect: drop it
	var fin []*hk.LinOp
	stuck := 0
	for _, o := range ops {
		if o.Pending && o.In.K == "acq" {
			stuck++
			continue
		}
		fin = append(fin, o)
	}
	switch hk.CheckLin(fin, m, 400000) {
	case 0:
		x.Fail("linearizability", "history of semaphore kind=%d permits=%d has no sequential explanation: %s", p.C("kind"), permits, opsText(fin))
	case -1:
		x.Inconclusive()
	}
}

func opsText(ops []*hk.LinOp) string {
	t := ""
	for _, o := range ops {
		t += fmt.Sprintf("[T%d %s=%v %d..%d] ", o.Thread, o.In.K, o.Out, o.Call, o.Ret)
	}
	return t
}

// critical sections: never more than permits inside; everybody gets through
func genCS(r *hk.Rng) *hk.Plan {
	p := &hk.Plan{Cfg: map[string]int64{"kind": int64(r.N(2)), "permits": genPermits(r), "over": int64(r.N(4)), "work": r.Pick(0, 0, 1, 1000)}}
	nt := r.R(2, 8)
	for t := 0; t < nt; t++ {
		var ops []hk.Op
		for i, n := 0, r.R(1, 5); i < n; i++ {
			if r.P(1, 4) {
				ops = append(ops, hk.Op{K: "try"})
			} else {
				ops = append(ops, hk.Op{K: "acq"})
			}
		}
		p.Ops = append(p.Ops, ops)
	}
	p.Sim = hk.GenSim(r, 500, r.P(1, 3), 5000)
	return p
}

func runCS(p *hk.Plan, x *hk.X)     { critical(p, x, false) }
func runCSLive(p *hk.Plan, x *hk.X) { critical(p, x, true) }

// critical sections; live leaves out what is not about progress
func critical(p *hk.Plan, x *hk.X, live bool) {
	sem := mk(p.C("kind"), p.C("permits"))
	// releasing an idle semaphore must not mint permits
	for i := int64(0); i < p.C("over"); i++ {
		sem.Release()
		x.Probe("over_release")
	}
	inside, max := int64(0), int64(0)
	x.RunOps(func(t int, op hk.Op) {
		if op.K == "try" {
			if !sem.TryAcquire() {
				x.Probe("try_refused")
				return
			}
		} else {
			sem.Acquire()
		}
		inside++
		rt.Rec("enter", int64(t), inside, "", nil)
		if inside > max {
			max = inside
		}
		if inside > p.C("permits") && !live {
			x.Fail("bound", "%d holders with %d permits", inside, p.C("permits"))
		}
		if w := p.C("work"); w > 0 {
			rt.Sleep(w)
		}
		rt.YH()
		inside--
		rt.Rec("leave", int64(t), inside, "", nil)
		sem.Release()
	})
	x.Join()
	if max == p.C("permits") {
		x.Probe("all_permits_in_use")
	}
	// all permits are back, and no more than that
	rt.WaitIdle()
	for i := int64(0); i < p.C("permits"); i++ {
		if !sem.TryAcquire() {
			x.Fail("lost_permit", "only %d of %d permits available after every holder released", i, p.C("permits"))
			return
		}
	}
	if !live && sem.TryAcquire() {
		x.Fail("extra_permit", "more than %d permits available", p.C("permits"))
	}
}

// liveness: waiters are woken when permits come back
func genWake(r *hk.Rng) *hk.Plan {
	p := &hk.Plan{Cfg: map[string]int64{"kind": int64(r.N(2)), "permits": genPermits(r)}}
	nw := r.R(1, 7)
	for t := 0; t < nw; t++ {
		p.Ops = append(p.Ops, []hk.Op{{K: "wait", A: r.Pick(0, 0, 10, 20)}})
	}
	// releasers hand back exactly as many permits as waiters need, one by one
	p.Cfg["releasers"] = int64(r.R(1, 3))
	p.Sim = hk.GenSim(r, 300, r.P(1, 4), 100)
	return p
}

func runWake(p *hk.Plan, x *hk.X) {
	sem := mk(p.C("kind"), p.C("permits"))
	for i := int64(0); i < p.C("permits"); i++ {
		if !sem.TryAcquire() {
			x.Fail("lost_permit", "fresh semaphore refused permit %d of %d", i+1, p.C("permits"))
			return
		}
	}
	if sem.TryAcquire() {
		x.Fail("extra_permit", "fresh semaphore with %d permits granted one more", p.C("permits"))
		return
	}
	waiters := 0
	for i := range p.Ops {
		if len(p.Ops[i]) > 0 {
			waiters++
		}
	}
	got := 0
	x.RunOps(func(t int, op hk.Op) {
		rt.Sleep(op.A)
		sem.Acquire()
		got++
		rt.Rec("acquired", int64(t), int64(got), "", nil)
	})
	left := waiters
	nr := int(p.C("releasers"))
	held := int(p.C("permits"))
	rel := 0
	for k := 0; k < nr; k++ {
		x.Thread("rel", func() {
			for left > 0 {
				if rel-got >= held {
					// wait until someone took a returned permit
					rt.Sleep(5)
					continue
				}
				left--
				rel++
				rt.Rec("release", int64(rel), 0, "", nil)
				sem.Release()
				rt.Sleep(3)
			}
		})
	}
	if !x.JoinFor(1e9) {
		x.Fail("lost_wakeup", "%d of %d waiters still blocked in Acquire although %d permits were returned", waiters-got, waiters, rel)
		return
	}
	if got != waiters {
		x.Fail("count", "%d acquisitions for %d waiters", got, waiters)
	}
}

// progress under saturation: N threads loop acquire/release for ever-enough
func genTryNB(r *hk.Rng) *hk.Plan {
	p := &hk.Plan{Cfg: map[string]int64{"kind": int64(r.N(2)), "permits": genPermits(r), "waiters": int64(r.N(4))}}
	p.Ops = [][]hk.Op{}
	for t, n := 0, r.R(1, 4); t < n; t++ {
		var ops []hk.Op
		for i, k := 0, r.R(1, 5); i < k; i++ {
			ops = append(ops, hk.Op{K: "try"})
		}
		p.Ops = append(p.Ops, ops)
	}
	p.Sim = hk.GenSim(r, 200, false, 0)
	return p
}

// TryAcquire never blocks, even with every permit out and waiters queued; and
// no time passes in it.
func runTryNB(p *hk.Plan, x *hk.X) {
	sem := mk(p.C("kind"), p.C("permits"))
	for i := int64(0); i < p.C("permits"); i++ {
		sem.Acquire()
	}
	for i := int64(0); i < p.C("waiters"); i++ {
		rt.Spawn("waiter", func() { sem.Acquire() })
	}
	x.RunOps(func(t int, op hk.Op) {
		t0 := rt.Mono()
		if sem.TryAcquire() {
			x.Fail("bound", "TryAcquire succeeded with all %d permits out", p.C("permits"))
		}
		if rt.Mono() != t0 {
			x.Fail("blocked", "TryAcquire let %d ns pass", rt.Mono()-t0)
		}
	})
	if !x.JoinFor(1e9) {
		x.Fail("blocked", "TryAcquire blocked")
	}
}

// Release and TryAcquire never block, whatever is released how often by whom, and nobody is
// left waiting when a permit is free in the end.
func genNB(r *hk.Rng) *hk.Plan {
	p := &hk.Plan{Cfg: map[string]int64{"kind": int64(r.N(2)), "permits": genPermits(r), "held": int64(r.N(4)), "waiters": r.Pick(0, 0, 1, 2, 3)}}
	for t, n := 0, r.R(2, 5); t < n; t++ {
		var ops []hk.Op
		for i, k := 0, r.R(1, 5); i < k; i++ {
			ops = append(ops, hk.Op{K: []string{"rel", "rel", "try"}[r.N(3)]})
		}
		p.Ops = append(p.Ops, ops)
	}
	p.Sim = hk.GenSim(r, 200, false, 0)
	return p
}

func runNB(p *hk.Plan, x *hk.X) {
	sem := mk(p.C("kind"), p.C("permits"))
	for i := int64(0); i < p.C("held") && i < p.C("permits"); i++ {
		sem.Acquire()
	}
	waiting := 0
	for i := int64(0); i < p.C("waiters"); i++ {
		waiting++
		rt.Spawn("waiter", func() {
			sem.Acquire()
			waiting--
		})
	}
	x.RunOps(func(t int, op hk.Op) {
		t0 := rt.Mono()
		if op.K == "rel" {
			sem.Release()
			x.Probe("release")
		} else {
			sem.TryAcquire()
		}
		if rt.Mono() != t0 {
			x.Fail("blocked", "%s let %d ns pass", op.K, rt.Mono()-t0)
		}
	})
	if !x.JoinFor(1e9) {
		x.Fail("blocked", "a Release or TryAcquire never returned")
		return
	}
	rt.WaitIdle()
	if waiting > 0 && sem.TryAcquire() {
		x.Fail("lost_wakeup", "%d waiters are blocked in Acquire although a permit is free", waiting)
	}
}

// many permits: all of them can be held, and not one more, again and again
func genBig(r *hk.Rng) *hk.Plan {
	n := r.Pick(16, 31, 32, 33, 64, 100, 127, 128, 129, 255, 256, 257, 300, 1000)
	p := &hk.Plan{Cfg: map[string]int64{"kind": int64(r.N(2)), "permits": n, "waiters": r.Pick(0, 1, 5, 20, 40), "surplus": r.Pick(0, 1, n)}}
	for t, k := 0, r.R(1, 3); t < k; t++ {
		var ops []hk.Op
		for i, m := 0, r.R(1, 5); i < m; i++ {
			ops = append(ops, hk.Op{K: r.PickS("try", "try", "acq"), A: r.Pick(1, 2, 10, n/2, n-1, n, n+1)})
		}
		p.Ops = append(p.Ops, ops)
	}
	p.Sim = hk.GenSim(r, 3000, false, 0)
	return p
}

func runBig(p *hk.Plan, x *hk.X) {
	n := p.C("permits")
	sem := mk(p.C("kind"), n)
	out, wanting := int64(0), int64(0) // permits surely held, and permits asked for
	x.RunOps(func(t int, op hk.Op) {
		mine := int64(0)
		for i := int64(0); i < op.A && !x.Failed(); i++ {
			switch op.K {
			case "try":
				wanting++
				if sem.TryAcquire() {
					mine++
					out++
				}
				wanting--
			case "acq":
				// never wait for a permit nobody gives back
				if out+wanting < n {
					wanting++
					sem.Acquire()
					wanting--
					mine++
					out++
				}
			}
			if out > n {
				x.Fail("bound", "%d permits of %d are held", out, n)
			}
		}
		for ; mine > 0; mine-- {
			out--
			sem.Release()
		}
	})
	if !x.JoinFor(1e12) {
		x.Fail("blocked", "a thread is blocked although every permit comes back")
		return
	}
	if x.Failed() {
		return
	}
	for i := int64(0); i < p.C("surplus"); i++ {
		sem.Release() // changes nothing
	}
	for i := int64(0); i < n; i++ {
		if !sem.TryAcquire() {
			x.Fail("lost_permit", "all permits are back, but only %d of %d can be had", i, n)
			return
		}
	}
	if sem.TryAcquire() {
		x.Fail("extra_permit", "a semaphore with %d permits granted one more", n)
		return
	}
	x.Probe("all_permits_out")
	// a queue of waiters, served one by one
	got := int64(0)
	for i := int64(0); i < p.C("waiters"); i++ {
		rt.Spawn("waiter", func() {
			sem.Acquire()
			got++
		})
	}
	rt.WaitIdle()
	if got > 0 {
		x.Fail("bound", "%d permits are held, and %d more were granted", n, got)
		return
	}
	for i := int64(0); i < p.C("waiters"); i++ {
		sem.Release()
		rt.WaitIdle()
		if got != i+1 {
			x.Fail("lost_wakeup", "%d permits came back, %d of %d waiters have one", i+1, got, p.C("waiters"))
			return
		}
	}
}

func main() {
	hk.Bystander = bystander
	hk.Main("sema", []*hk.Scenario{
		{Prop: "C04", Name: "sema-lin", Runs: 60000, Gen: genLin, Run: runLin, Real: realSema, Stub: stubSema},
		{Prop: "C04", Name: "sema-cs", Runs: 40000, Gen: genCS, Run: runCS, Real: realSema, Stub: stubSema},
		{Prop: "C04", Name: "sema-big", Runs: 1500, Cost: 15, Gen: genBig, Run: runBig, Real: realSema, Stub: stubSema},
		{Prop: "C05", Name: "sema-wake", Runs: 60000, Gen: genWake, Run: runWake, Real: realSema, Stub: stubSema},
		{Prop: "C05", Name: "sema-try", Runs: 20000, Gen: genTryNB, Run: runTryNB, Real: realSema, Stub: stubSema},
		{Prop: "C05", Name: "sema-nb", Runs: 40000, Gen: genNB, Run: runNB, Real: realSema, Stub: stubSema},
		{Prop: "C05", Name: "sema-cs-live", Runs: 30000, Gen: genCS, Run: runCSLive, Real: realSema, Stub: stubSema},
	})
}
