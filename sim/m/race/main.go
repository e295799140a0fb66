//go:build go1.21

// Scenarios of C25: random calls on shared objects, judged by the race detector. The
// simulator announces the happens-before edges of every primitive it models; the harness
// itself is not instrumented and adds no edges between the threads.
package main

import (
	"errors"
	"io"
	"log"
	"time"

	"github.com/chanjarster/gears/circuitbreaker"
	"github.com/chanjarster/gears/concurrent"
	"github.com/chanjarster/gears/confstore"
	"github.com/chanjarster/gears/event"
	"github.com/chanjarster/gears/ratelimiter"
	"github.com/chanjarster/gears/schedule"
	"github.com/chanjarster/gears/simplelog"
	"github.com/chanjarster/gears/zzsim/hk"
	rt "github.com/chanjarster/gears/zzsim/rt"
)

const ms = int64(1e6)

func gen(kinds []string, nt, maxOps int, cfg func(r *hk.Rng) map[string]int64) func(r *hk.Rng) *hk.Plan {
	return func(r *hk.Rng) *hk.Plan {
		p := &hk.Plan{Cfg: cfg(r)}
		for t, n := 0, r.R(2, nt); t < n; t++ {
			var ops []hk.Op
			for i, m := 0, r.R(1, maxOps); i < m; i++ {
				o := hk.Op{K: r.PickS(kinds...), A: int64(r.N(4)), B: int64(r.N(4))}
				if r.P(1, 3) {
					o.C = r.Pick(1, ms, 3*ms, 10*ms, 11*ms, 1000*ms)
				}
				ops = append(ops, o)
			}
			p.Ops = append(p.Ops, ops)
		}
		p.Sim = hk.GenSim(r, 200, false, 0)
		return p
	}
}

func none(r *hk.Rng) map[string]int64 { return map[string]int64{"v": int64(r.N(4))} }

func pause(o hk.Op) {
	if o.C > 0 {
		rt.Sleep(o.C)
	}
}

var errTask = errors.New("task fails")

func runBreaker(p *hk.Plan, x *hk.X) {
	b := circuitbreaker.NewSyncCircuitBreaker(int(p.C("v"))+1, time.Duration(10*ms))
	x.RunOps(func(t int, o hk.Op) {
		pause(o)
		hk.Catch(func() {
			b.Do(func() error {
				rt.YH()
				switch {
				case o.A == 3:
					panic(errTask)
				case o.A >= 1:
					return errTask
				}
				return nil
			}, func(error) { rt.YH() }, func() { rt.YH() })
		})
	})
	x.Join()
}

func runSema(p *hk.Plan, x *hk.X) {
	var s concurrent.Semaphore
	if p.C("v")%2 == 0 {
		s = concurrent.NewChanSemaphore(p.C("v")/2 + 1)
	} else {
		s = concurrent.NewLockSemaphore(p.C("v")/2 + 1)
	}
	x.RunOps(func(t int, o hk.Op) {
		pause(o)
		switch o.K {
		case "acq":
			s.Acquire()
			rt.YH()
			s.Release()
		case "try":
			if s.TryAcquire() {
				rt.YH()
				s.Release()
			}
		case "rel":
			s.Release()
		}
	})
	x.Join()
}

func runBus(p *hk.Plan, x *hk.X) {
	b := event.NewFanOutBus(int(p.C("v")))
	names := []string{"a", "b", "c"}
	rs := make([]*event.Receiver, 3)
	for i := range rs {
		st := event.Drop
		if i == 2 {
			st = event.Block
		}
		rs[i] = b.NewRecvStrategy(names[i], i, st)
	}
	b.GoDispatch()
	if p.C("v")%2 == 0 {
		b.GoDispatch()
	}
	// the Block receiver is always drained
	x.Thread("drain", func() {
		for {
			if _, ok := rt.Recv2(rs[2].C); !ok {
				return
			}
		}
	})
	x.RunOps(func(t int, o hk.Op) {
		pause(o)
		r := rs[o.A%2]
		switch o.K {
		case "send":
			if !rt.On() {
				return
			}
			rt.SendTo(b.C)(o.A)
		case "new":
			b.NewRecvStrategy(names[o.A%2], int(o.B), event.Drop)
		case "close":
			r.Close()
		case "drain":
			r.Drain()
		case "collect":
			r.CollectTimeout(time.Duration(3 * ms))
		case "closeblock":
			rs[2].Close()
		}
	})
	n := len(p.Ops)
	_ = n
	x.Thread("end", func() {
		rt.Sleep(100e9) // after every operation: closing the bus under its senders is not allowed
		rs[0].Close()
		b.Close()
		rs[2].Close()
	})
	x.Join()
}

func job(d int64) schedule.JobFunc {
	return func(cancel <-chan struct{}) error {
		if d == 0 {
			return errTask
		}
		tm := rt.NewTimer(time.Duration(d))
		rt.Select(0, false, rt.RecvCase(cancel), rt.RecvCase(tm.C))
		tm.Stop()
		return nil
	}
}

func mkTask(name string, v int64) schedule.Task {
	to := []int64{0, ms, 30 * ms, 0}[v%4]
	d := []int64{0, 2 * ms, 15 * ms, 60 * ms}[(v/2)%4]
	if v%2 == 0 {
		return schedule.NewFixedDelayTask(name, job(d), time.Duration(10*ms), time.Duration(to))
	}
	return schedule.NewFixedRateTask(name, job(d), time.Duration(10*ms), time.Duration(to))
}

func runTask(p *hk.Plan, x *hk.X) {
	ts := []schedule.Task{mkTask("t", p.C("v")), mkTask("u", p.C("v")+1)}
	x.RunOps(func(t int, o hk.Op) {
		pause(o)
		k := ts[o.A%2]
		switch o.K {
		case "start":
			k.Start()
		case "stop":
			k.Stop()
		case "must":
			hk.Catch(k.MustStart)
		case "mustx":
			hk.Catch(k.MustStop)
		case "name":
			_ = k.Name()
		case "wait":
			rt.Sleep(35 * ms)
		}
	})
	x.Join()
	for _, k := range ts {
		k.Start()
	}
	rt.Sleep(50 * ms)
	for _, k := range ts {
		k.Stop()
	}
	rt.Sleep(200 * ms)
}

func runManager(p *hk.Plan, x *hk.X) {
	m := schedule.NewTaskManager()
	names := []string{"a", "b", "c"}
	x.RunOps(func(t int, o hk.Op) {
		pause(o)
		switch o.K {
		case "reg":
			m.Register(mkTask(names[o.A%3], o.B))
		case "unreg":
			m.Unregister(names[o.A%3])
		case "all":
			m.UnregisterAll()
		case "wait":
			rt.Sleep(35 * ms)
		}
	})
	x.Join()
	m.UnregisterAll()
	rt.Sleep(200 * ms)
}

func runRate(p *hk.Plan, x *hk.X) {
	var l ratelimiter.Interface
	win := time.Duration(10 * ms)
	switch p.C("kind") {
	case 0:
		l = ratelimiter.NewSyncFixedWindow(int(p.C("v")), win)
	case 1:
		l = ratelimiter.NewSyncSlidingWindow(int(p.C("v")), win)
	case 2:
		l = ratelimiter.NewSyncTokenBucket(int(p.C("v"))+1, 100)
	case 3:
		l = ratelimiter.NewAtomicTokenBucket(int(p.C("v"))+1, 100)
	}
	x.RunOps(func(t int, o hk.Op) {
		pause(o)
		switch o.K {
		case "acq":
			l.Acquire()
		case "cap":
			_ = l.Capacity()
		case "set":
			if c, ok := l.(ratelimiter.Configurable); ok {
				c.SetCapacity(int(o.A))
			}
			if c, ok := l.(ratelimiter.ConfigurableWindow); ok {
				c.UpdateConfig(int(o.A), time.Duration(o.B)*win)
			}
		case "win":
			if w, ok := l.(interface{ WindowSize() time.Duration }); ok {
				_ = w.WindowSize()
			}
		}
	})
	x.Join()
}

// per is a persister without memory of its own: it adds no ordering between the threads.
type per struct{ fail bool }

func (q *per) Load(s confstore.Interface) error {
	rt.YH()
	s.UpdateNoPersist("a", "5")
	rt.YH()
	s.UpdateNoPersist("b", "x")
	if q.fail && rt.Chance(1, 2) {
		return errTask
	}
	return nil
}
func (q *per) Save(k, v string) error               { rt.YH(); return nil }
func (q *per) BatchSave(l []*confstore.KVStr) error { rt.YH(); return errTask }
func (q *per) Delete(k string) error                { rt.YH(); return nil }

func runConf(p *hk.Plan, x *hk.X) {
	var pol confstore.LoadPolicy
	switch p.C("kind") {
	case 0:
		pol = confstore.NoopLoadPolicy
	case 1:
		pol = confstore.SimpleLoadPolicy
	default:
		pol = confstore.NewLoadPolicy(time.Duration(10 * ms))
	}
	q := &per{p.C("v")%2 == 0}
	s := confstore.NewStore(q, pol)
	s.RegisterKey("a", "1", confstore.Int)
	s.RegisterKey("b", "s", confstore.String)
	ks := []string{"a", "b", "c", "a"}
	vs := []string{"7", "x", "", "9"}
	x.RunOps(func(t int, o hk.Op) {
		pause(o)
		k := ks[o.A]
		switch o.K {
		case "reg":
			s.RegisterKey(k, vs[o.B], confstore.String)
		case "dereg":
			s.DeregisterKey(k)
		case "upd":
			s.Update(k, vs[o.B])
		case "updnp":
			s.UpdateNoPersist(k, vs[o.B])
		case "batch":
			s.BatchUpdate([]*confstore.KVStr{{Key: "a", Value: vs[o.B]}, {Key: "b", Value: vs[o.A]}})
		case "get":
			s.GetValue(k)
		case "gets":
			s.GetValueString(k)
		case "must":
			hk.Catch(func() { s.MustGetValue(k) })
		case "musts":
			hk.Catch(func() { s.MustGetValueString(k) })
		case "bget":
			s.BatchGetValues([]string{"a", "c", "b"})
		case "bgets":
			s.BatchGetValueString([]string{"a", "c", "b"})
		case "reset":
			s.ResetKey(k)
		case "load":
			pol.DoLoad(s, q)
		}
	})
	x.Join()
}

const stub = "Go scheduler, channels, sync, atomics, timers (simulated, their happens-before edges announced to the race detector)"

func main() {
	log.SetOutput(io.Discard)
	hk.Bystander = bystander
	hk.EachRun = func() {
		simplelog.StdLogger.SetOutput(io.Discard)
		simplelog.ErrLogger.SetOutput(io.Discard)
	}
	rateCfg := func(r *hk.Rng) map[string]int64 {
		return map[string]int64{"v": int64(r.N(4)), "kind": int64(r.N(4))}
	}
	hk.Main("race", []*hk.Scenario{
		{Prop: "C25", Name: "race-breaker", Runs: 40000, Race: true, Gen: gen([]string{"do"}, 4, 5, none), Run: runBreaker, Real: "circuitbreaker", Stub: stub},
		{Prop: "C25", Name: "race-sema", Runs: 40000, Race: true, Gen: gen([]string{"acq", "try", "rel"}, 4, 5, none), Run: runSema, Real: "concurrent", Stub: stub},
		{Prop: "C25", Name: "race-bus", Runs: 80000, Race: true, Gen: gen([]string{"send", "send", "send", "new", "close", "drain", "collect", "closeblock"}, 4, 5, none), Run: runBus, Real: "event", Stub: stub},
		{Prop: "C25", Name: "race-task", Runs: 80000, Race: true, Gen: gen([]string{"start", "start", "stop", "must", "mustx", "name", "wait"}, 3, 4, none), Run: runTask, Real: "schedule (tasks)", Stub: stub},
		{Prop: "C25", Name: "race-manager", Runs: 80000, Race: true, Gen: gen([]string{"reg", "reg", "unreg", "all", "wait"}, 3, 4, none), Run: runManager, Real: "schedule (manager)", Stub: stub},
		{Prop: "C25", Name: "race-rate", Runs: 80000, Race: true, Gen: gen([]string{"acq", "acq", "cap", "set", "win"}, 4, 5, rateCfg), Run: runRate, Real: "ratelimiter (windows, token buckets)", Stub: stub},
		{Prop: "C25", Name: "race-conf", Runs: 120000, Race: true, Gen: gen([]string{"reg", "dereg", "upd", "updnp", "batch", "get", "gets", "must", "musts", "bget", "bgets", "reset", "load"}, 4, 5, rateCfg), Run: runConf, Real: "confstore", Stub: stub + ", persister"},
	})
}
