//go:build go1.21

// Scenarios of the schedule package (C10-C14).
package main

import (
	"errors"
	"fmt"
	"io"
	"sort"
	"strings"
	"time"

	"github.com/chanjarster/gears/schedule"
	"github.com/chanjarster/gears/simplelog"
	"github.com/chanjarster/gears/zzsim/hk"
	rt "github.com/chanjarster/gears/zzsim/rt"
)

const realSched = "schedule.FixedDelayTask, FixedRateTask, TaskManager (all code)"
const stubSched = "Go scheduler, channels, sync, timers, tickers, contexts, clock (simulated); log output discarded"

const ms = int64(time.Millisecond)
const never = int64(1) << 62

// ---- jobs ------------------------------------------------------------------

// one run of a job as seen from the job
type run struct {
	begin, end, cancelled          int64 // simulated time, never if it has not happened
	beginSeq, endSeq, cancelledSeq int
}

// a task under test with its observed runs
type task struct {
	id                int
	kind              int64 // 0 fixed delay, 1 fixed rate
	t                 schedule.Task
	interval, timeout int64
	jobs              []hk.Op // behaviour of the k-th run, cycled
	runs              []*run
	active            int
	overlap           bool
	start             int64 // time of the call of the successful Start
	startRet          int64 // its return
	calm              int64 // no thread stalls from then on (0: unknown)
	stop              int64 // time at which the successful Stop returned
}

var errJob = errors.New("job failed")

// waitCancel waits for d at most and reports whether cancel was closed before.
func waitCancel(cancel <-chan struct{}, d int64) bool {
	if d >= never {
		rt.Recv(cancel)
		return true
	}
	tm := rt.NewTimer(time.Duration(d))
	i := rt.Select(0, false, rt.RecvCase(cancel), rt.RecvCase(tm.C))
	if i == 0 {
		tm.Stop()
		return true
	}
	return false
}

// Job kinds: "ign" sleeps A and ignores cancel, "coop" sleeps A or until cancelled, "hang" until
// cancelled, "late" until cancelled and then another A. B=1: returns an error.
func (tk *task) job(x *hk.X) schedule.JobFunc {
	return func(cancel <-chan struct{}) error {
		k := len(tk.runs)
		r := &run{begin: rt.Mono(), end: never, cancelled: never}
		tk.runs = append(tk.runs, r)
		r.beginSeq = rt.Rec("begin", int64(tk.id), int64(k), "", nil)
		tk.active++
		if tk.active > 1 {
			tk.overlap = true
			x.Probe("overlapping_runs")
		}
		rt.Spawn("watch", func() {
			rt.Recv2(cancel)
			r.cancelled = rt.Mono()
			r.cancelledSeq = rt.Rec("cancel", int64(tk.id), int64(k), "", nil)
		})
		op := tk.jobs[k%len(tk.jobs)]
		switch op.K {
		case "ign":
			if op.A > 0 {
				rt.Sleep(op.A)
			}
		case "coop":
			if waitCancel(cancel, op.A) {
				x.Probe("job_cancelled")
			}
		case "hang":
			waitCancel(cancel, never)
		case "late":
			waitCancel(cancel, never)
			rt.Sleep(op.A)
			x.Probe("job_outlives_cancel")
		}
		tk.active--
		r.end = rt.Mono()
		r.endSeq = rt.Rec("end", int64(tk.id), int64(k), "", nil)
		if op.B == 1 {
			x.Probe("job_error")
			return errJob
		}
		return nil
	}
}

func newTask(x *hk.X, id int, kind, interval, timeout int64, jobs []hk.Op) *task {
	tk := &task{id: id, kind: kind, interval: interval, timeout: timeout, jobs: jobs, start: never, stop: never}
	name := fmt.Sprintf("task%d", id)
	if kind == 0 {
		tk.t = schedule.NewFixedDelayTask(name, tk.job(x), time.Duration(interval), time.Duration(timeout))
	} else {
		tk.t = schedule.NewFixedRateTask(name, tk.job(x), time.Duration(interval), time.Duration(timeout))
	}
	return tk
}

// genJobs draws behaviours whose durations are interesting for the interval and timeout.
func genJobs(r *hk.Rng, interval, timeout int64) []hk.Op {
	var ops []hk.Op
	for i, n := 0, r.R(1, 4); i < n; i++ {
		d := r.Pick(0, 0, 1, interval/3, interval-1, interval, interval+1, 2*interval, 3*interval+7, timeout-1, timeout, timeout+1, 2*timeout)
		if d > 4*interval {
			d = 4 * interval
		}
		if d < 0 {
			d = 0
		}
		op := hk.Op{K: r.PickS("ign", "ign", "coop", "coop", "hang", "late"), A: d, B: r.Pick(0, 0, 1)}
		if (op.K == "hang" || op.K == "late") && timeout > 6*interval {
			op.K = "coop"
		}
		ops = append(ops, op)
	}
	return ops
}

func genTimes(r *hk.Rng) (interval, timeout int64) {
	interval = r.Pick(1, 7, 1000, ms, 10*ms, 10*ms+1, 33333333, 1e9, 60e9, 3600e9)
	timeout = r.Pick(1, interval/3+1, interval-1, interval, interval+1, 2*interval, 2*interval+3, 5*interval, 100*interval)
	if timeout <= 0 {
		timeout = 1
	}
	return
}

// ---- C10, C11, C12: the life of tasks -------------------------------------------

// Ops[0] is the list of tasks: K "delay" or "rate", A interval, B timeout, C time of start.
// Ops[1+i] are the job behaviours of task i. cfg "len": number of intervals observed.
func genLife(kinds string, stall bool) func(r *hk.Rng) *hk.Plan {
	return func(r *hk.Rng) *hk.Plan {
		p := &hk.Plan{Cfg: map[string]int64{"len": int64(r.R(2, 9)), "frac": r.Pick(0, 0, 1, 500, 999), "stop": r.Pick(0, 1, 1, 1)}}
		n := int(r.Pick(1, 1, 2, 3))
		var ts []hk.Op
		var jobs [][]hk.Op
		iv := int64(1)
		for i := 0; i < n; i++ {
			interval, timeout := genTimes(r)
			if i == 0 {
				iv = interval
			} else {
				// comparable lengths, otherwise one task makes millions of runs while the other makes one
				interval = r.Pick(iv, iv, iv+1, 2*iv, 2*iv-1)
				timeout = r.Pick(interval, interval/2+1, 3*interval, 10*interval)
			}
			k := kinds
			if kinds == "" {
				k = r.PickS("delay", "rate")
			}
			ts = append(ts, hk.Op{K: k, A: interval, B: timeout, C: r.Pick(0, 0, 0, 1, interval/2, interval)})
			jobs = append(jobs, genJobs(r, interval, timeout))
		}
		p.Ops = append([][]hk.Op{ts}, jobs...)
		if stall {
			p.Sim = hk.GenSim(r, 600, true, r.Pick(iv/10+1, iv/2+1, iv, 3*iv))
			p.Sim.MaxSteps = 60000
			p.Cfg["calm"] = int64(r.N(2))
		} else {
			p.Sim = hk.GenSim(r, 600, false, 0)
			if r.P(1, 100) { // a long life
				p.Cfg["len"] = r.Pick(40, 70, 140, 300)
			}
		}
		return p
	}
}

func runLife(prop string, exact bool) func(p *hk.Plan, x *hk.X) {
	return func(p *hk.Plan, x *hk.X) {
		if len(p.Ops) < 1 {
			return
		}
		var tasks []*task
		long := int64(0)
		for i, op := range p.Ops[0] {
			jobs := []hk.Op{{K: "ign"}}
			if i+1 < len(p.Ops) && len(p.Ops[i+1]) > 0 {
				jobs = p.Ops[i+1]
			}
			kind := int64(0)
			if op.K == "rate" {
				kind = 1
			}
			if op.A <= 0 || op.B <= 0 {
				return
			}
			tk := newTask(x, i, kind, op.A, op.B, jobs)
			tasks = append(tasks, tk)
			if op.A > long {
				long = op.A
			}
			x.Thread("starter", func() {
				if op.C > 0 {
					rt.Sleep(op.C)
				}
				tk.start = rt.Mono()
				rt.Rec("start", int64(tk.id), 0, "", nil)
				tk.t.MustStart()
				if exact && rt.Mono() != tk.start {
					x.Fail("start_waits", "Start took %v", time.Duration(rt.Mono()-tk.start))
				}
				rt.Rec("started", int64(tk.id), 0, "", nil)
				tk.startRet = rt.Mono()
				d := p.C("len")*op.A + p.C("frac")*op.A/1000
				rt.Sleep(d)
				if p.C("calm") == 1 {
					// the threads recover; from then on the runs keep exactly to the rate
					rt.CalmDown()
					rt.Sleep(p.Sim.StallMax + 2*op.A)
					tk.calm = rt.Mono()
					rt.Sleep(3 * op.A)
					x.Probe("recovered")
				}
				if p.C("stop") == 0 {
					return
				}
				t0 := rt.Mono()
				if err := tk.t.Stop(); err != nil {
					x.Fail("stop", "Stop of a started task failed: %v", err)
				}
				tk.stop = rt.Mono()
				rt.Rec("stopped", int64(tk.id), 0, "", nil)
				if exact && tk.stop != t0 {
					x.Fail("stop_waits", "Stop took %v", time.Duration(tk.stop-t0))
				}
			})
		}
		x.Join()
		if p.C("stop") != 0 {
			// see what happens after the stop
			rt.Sleep(2*long + 3)
		}
		if exact {
			rt.WaitIdle()
		}
		now := rt.Mono()
		for _, tk := range tasks {
			judge(x, tk, prop, exact, now)
		}
	}
}

func dur(t int64) string {
	if t >= never {
		return "never"
	}
	return "t=" + time.Duration(t).String()
}

// judge checks the recorded runs of one task against the property. now is a quiet moment: all
// that had to happen at or before it has happened.
func judge(x *hk.X, tk *task, prop string, exact bool, now int64) {
	name := fmt.Sprintf("task%d(interval %v, timeout %v, started at %v)", tk.id, time.Duration(tk.interval), time.Duration(tk.timeout), time.Duration(tk.start))
	switch {
	case prop == "C10":
		if tk.overlap {
			x.Fail("overlap", "%s: two runs of a fixed-delay task at the same time", name)
			return
		}
		next := tk.start
		for k, r := range tk.runs {
			if r.begin < next {
				x.Fail("early", "%s: run %d begins at %v, before %v", name, k, time.Duration(r.begin), time.Duration(next))
				return
			}
			if exact && r.begin > next {
				x.Fail("late", "%s: run %d begins at %v instead of %v", name, k, time.Duration(r.begin), time.Duration(next))
				return
			}
			if r.begin > tk.stop && exact {
				x.Fail("after_stop", "%s: run %d begins at %v, stopped at %v", name, k, time.Duration(r.begin), time.Duration(tk.stop))
				return
			}
			if r.end >= never {
				next = never
			} else {
				next = r.end + tk.interval
			}
		}
		if exact && next < tk.stop && next <= now {
			x.Fail("missing", "%s: run %d should have begun at %v (stop %s, now %v)", name, len(tk.runs), time.Duration(next), dur(tk.stop), time.Duration(now))
		}
	case prop == "C11":
		for k, r := range tk.runs {
			at := tk.start + int64(k)*tk.interval
			if r.begin < at {
				x.Fail("early", "%s: run %d begins at %v, before %v", name, k, time.Duration(r.begin), time.Duration(at))
				return
			}
			if exact && r.begin > at {
				x.Fail("late", "%s: run %d begins at %v instead of %v", name, k, time.Duration(r.begin), time.Duration(at))
				return
			}
			if r.begin > tk.stop && exact {
				x.Fail("after_stop", "%s: run %d begins at %v, stopped at %v", name, k, time.Duration(r.begin), time.Duration(tk.stop))
				return
			}
		}
		if !exact && tk.calm > 0 && tk.stop < never {
			// no drift: the runs are still at multiples of the interval after the start
			last, n := int64(-1), int64(0)
			for k, r := range tk.runs {
				if r.begin <= tk.calm || r.begin >= tk.stop {
					continue
				}
				if ph := (r.begin - tk.start) % tk.interval; ph > tk.startRet-tk.start && tk.startRet-tk.start < tk.interval {
					x.Fail("drift", "%s (Start returned at %v): after the threads recovered at %v run %d begins at %v, which is no multiple of the interval after the start", name, time.Duration(tk.startRet), time.Duration(tk.calm), k, time.Duration(r.begin))
					return
				}
				if last >= 0 && r.begin-last != tk.interval {
					x.Fail("gap", "%s: after the threads recovered at %v runs begin at %v and then at %v", name, time.Duration(tk.calm), time.Duration(last), time.Duration(r.begin))
					return
				}
				last = r.begin
				n++
			}
			if w := (tk.stop - tk.calm) / tk.interval; n < w-1 {
				x.Fail("missing", "%s: after the threads recovered at %v only %d runs until %v", name, time.Duration(tk.calm), n, time.Duration(tk.stop))
				return
			}
		}
		next := tk.start + int64(len(tk.runs))*tk.interval
		if exact && next < tk.stop && next <= now {
			x.Fail("missing", "%s: run %d should have begun at %v (stop %s, now %v)", name, len(tk.runs), time.Duration(next), dur(tk.stop), time.Duration(now))
		}
	case prop == "C12":
		for k, r := range tk.runs {
			due := r.begin + tk.timeout
			why := "timeout"
			if tk.stop < due {
				due, why = tk.stop, "stop"
				if due < r.begin {
					due = r.begin
				}
			}
			if r.cancelled < due && (r.cancelled < r.end || r.cancelled == r.end && r.cancelledSeq < r.endSeq) {
				x.Fail("cancel_early", "%s: run %d (%s to %s) is cancelled at %s, due at %s (%s)", name, k, dur(r.begin), dur(r.end), dur(r.cancelled), dur(due), why)
				return
			}
			if r.cancelled > due && due <= now && r.end > due {
				x.Fail("cancel_late", "%s: run %d (%s to %s) is cancelled at %s, due at %s (%s)", name, k, dur(r.begin), dur(r.end), dur(r.cancelled), dur(due), why)
				return
			}
			if r.end > due {
				x.Probe("cancelled_by_" + why)
			}
		}
	}
}

// ---- C13: Start and Stop ------------------------------------------------------------

// Ops[0]: one task. The others: threads of start, stop, mstart, mstop with delays A.
func genSS(r *hk.Rng) *hk.Plan {
	p := &hk.Plan{Cfg: map[string]int64{}}
	interval, timeout := genTimes(r)
	if interval < 1000 {
		interval *= 1000
	}
	p.Ops = append(p.Ops, []hk.Op{{K: r.PickS("delay", "rate"), A: interval, B: timeout}})
	jobs := genJobs(r, interval, timeout)
	if r.P(1, 4) {
		jobs[0] = hk.Op{K: r.PickS("jstop", "jstart"), A: 0}
	}
	p.Ops = append(p.Ops, jobs)
	nt := r.R(1, 4)
	for t := 0; t < nt; t++ {
		var ops []hk.Op
		for i, n := 0, r.R(1, 4); i < n; i++ {
			k := r.PickS("start", "start", "stop", "stop", "mstart", "mstop")
			if t == 0 && i == 0 {
				k = "start"
			}
			ops = append(ops, hk.Op{K: k, A: r.Pick(0, 0, 0, 0, 1, interval/2, interval-1, interval, interval, 2*interval, 3*interval, timeout, interval+timeout)})
		}
		p.Ops = append(p.Ops, ops)
	}
	p.Sim = hk.GenSim(r, 400, false, 0)
	return p
}

func runSS(p *hk.Plan, x *hk.X) {
	if len(p.Ops) < 3 || len(p.Ops[0]) != 1 || p.Ops[0][0].A <= 0 || p.Ops[0][0].B <= 0 {
		return
	}
	o := p.Ops[0][0]
	kind := int64(0)
	if o.K == "rate" {
		kind = 1
	}
	jobs := p.Ops[1]
	if len(jobs) == 0 {
		jobs = []hk.Op{{K: "ign"}}
	}
	var ops []*hk.LinOp
	var tk *task
	stopSeq := -1
	call := func(t int, k string) {
		lo := &hk.LinOp{In: hk.Op{K: strings.TrimPrefix(k, "m")}, Thread: t}
		ops = append(ops, lo)
		t0 := rt.Mono()
		lo.Call = rt.Rec("call "+k, int64(t), 0, "", nil)
		var err error
		pn := hk.Catch(func() {
			switch k {
			case "start":
				err = tk.t.Start()
			case "stop":
				err = tk.t.Stop()
			case "mstart":
				tk.t.MustStart()
			case "mstop":
				tk.t.MustStop()
			}
		})
		if pn != nil {
			if k[0] != 'm' {
				x.Fail("panic", "%s panicked: %v", k, pn)
			}
			err = fmt.Errorf("panic: %v", pn)
		}
		lo.Out = err == nil
		lo.Ret = rt.Rec("ret "+k, int64(t), 0, fmt.Sprint(lo.Out), nil)
		if rt.Mono() != t0 {
			x.Fail("waits", "%s took %v", k, time.Duration(rt.Mono()-t0))
		}
		if err == nil && k == "start" || err == nil && k == "mstart" {
			tk.start = t0
		}
		if err == nil && strings.HasSuffix(k, "stop") {
			tk.stop = t0
			stopSeq = lo.Ret
		}
	}
	tk = &task{kind: kind, interval: o.A, timeout: o.B, jobs: jobs, start: never, stop: never}
	inner := tk.job(x)
	job := func(cancel <-chan struct{}) error {
		op := jobs[len(tk.runs)%len(jobs)]
		if stopSeq >= 0 && rt.Mono() > tk.stop {
			x.Fail("after_stop", "a run begins at %v although the task was stopped at %v", time.Duration(rt.Mono()), time.Duration(tk.stop))
		}
		if op.K == "jstop" {
			x.Probe("stop_from_job")
			call(100, "stop")
		} else if op.K == "jstart" {
			call(100, "start")
		}
		return inner(cancel)
	}
	if kind == 0 {
		tk.t = schedule.NewFixedDelayTask("t", job, time.Duration(o.A), time.Duration(o.B))
	} else {
		tk.t = schedule.NewFixedRateTask("t", job, time.Duration(o.A), time.Duration(o.B))
	}
	for i := 2; i < len(p.Ops); i++ {
		i := i
		x.Thread(fmt.Sprintf("T%d", i), func() {
			for _, op := range p.Ops[i] {
				if op.A > 0 {
					rt.Sleep(op.A)
				}
				call(i, op.K)
			}
		})
	}
	x.Join()
	if stopSeq < 0 && tk.start < never {
		call(99, "stop")
	} else if tk.start >= never {
		x.Probe("never_started")
	}
	end := int64(0)
	for _, j := range jobs {
		if j.A > end {
			end = j.A
		}
	}
	rt.WaitIdle()
	// every job has returned by then (at the latest at its timeout plus its own tail)
	rt.Sleep(o.A + o.B + end + 1)
	rt.WaitIdle()
	for k, r := range tk.runs {
		if r.end >= never {
			x.Fail("job_stuck", "run %d was not told to cancel and is still running", k)
		}
	}
	if tk.start < never && stopSeq < 0 {
		x.Fail("stop_refused", "a started task could not be stopped")
	}
	judge(x, tk, "C12", true, rt.Mono())
	if n := rt.NumForeign(); n > 0 && !x.Failed() {
		x.Fail("leak", "%d goroutine(s) left after stop: %v", n, rt.ForeignStacks())
	}
	if len(ops) > 60 {
		x.Inconclusive()
		return
	}
	// 0 new, 1 started, 2 stopped
	m := hk.LinModel{Init: 0, Key: func(s interface{}) string { return fmt.Sprint(s) },
		Step: func(s interface{}, o *hk.LinOp) []interface{} {
			st := s.(int)
			ok := o.In.K == "start" && st == 0 || o.In.K == "stop" && st == 1
			if ok != (o.Out == true) {
				return nil
			}
			if ok {
				return []interface{}{st + 1}
			}
			return []interface{}{st}
		}}
	if hk.CheckLin(ops, m, 300000) == 0 {
		x.Fail("lifecycle", "Start/Stop results have no sequential explanation: %s", opsText(ops))
	}
}

func opsText(ops []*hk.LinOp) string {
	t := ""
	for _, o := range ops {
		t += fmt.Sprintf("[T%d %v=%v %d..%d] ", o.Thread, o.In, o.Out, o.Call, o.Ret)
	}
	return t
}

// ---- C14: the task manager --------------------------------------------------------------

// mock is a task that records what the manager does with it.
type mock struct {
	id      int
	name    string
	refuse  bool
	grumble bool // its Stop stops it, and returns an error
	status  int
	slow    int64
	starts  int
	stops   int
}

func (m *mock) Name() string { return m.name }
func (m *mock) Start() error {
	st := m.status
	m.pause()
	rt.Rec("task start", int64(m.id), int64(st), m.name, nil)
	if m.refuse || st != 0 {
		return errors.New("cannot start")
	}
	m.starts++
	m.status = 1
	return nil
}
func (m *mock) pause() {
	rt.YH()
	if m.slow > 0 {
		rt.Sleep(m.slow)
	}
}
func (m *mock) MustStart() {
	if err := m.Start(); err != nil {
		panic(err)
	}
}
func (m *mock) Stop() error {
	m.pause()
	rt.Rec("task stop", int64(m.id), int64(m.status), m.name, nil)
	m.stops++
	if m.status != 1 {
		return errors.New("not started")
	}
	m.status = 2
	if m.grumble {
		return errors.New("stopped, but")
	}
	return nil
}
func (m *mock) MustStop() {
	if err := m.Stop(); err != nil {
		panic(err)
	}
}

// Ops[0]: tasks (K mock, refuse, started, delay, rate; S name; A slowness). The others: threads of
// reg(A=task), unreg(S), unregall; cfg "phases": threads i with i%phases==k run in phase k.
func genTM(r *hk.Rng) *hk.Plan {
	p := &hk.Plan{Cfg: map[string]int64{"phases": int64(r.R(1, 3))}}
	names := []string{"a", "b", "c", "d"}[:r.R(1, 4)]
	var ts []hk.Op
	for i, n := 0, r.R(1, 6); i < n; i++ {
		ts = append(ts, hk.Op{K: r.PickS("mock", "mock", "mock", "grumble", "refuse", "started", "delay", "rate"), S: names[r.N(len(names))], A: r.Pick(0, 0, 0, 5)})
	}
	p.Ops = append(p.Ops, ts)
	for t, nt := 0, r.R(1, 6); t < nt; t++ {
		var ops []hk.Op
		for i, n := 0, r.R(1, 5); i < n; i++ {
			switch r.N(8) {
			case 0, 1, 2, 3:
				ops = append(ops, hk.Op{K: "reg", A: int64(r.N(len(ts)))})
			case 4, 5, 6:
				ops = append(ops, hk.Op{K: "unreg", S: names[r.N(len(names))]})
			default:
				ops = append(ops, hk.Op{K: "unregall"})
			}
		}
		p.Ops = append(p.Ops, ops)
	}
	p.Sim = hk.GenSim(r, 250, r.P(1, 3), 20)
	return p
}

type tmState struct {
	reg    string // "a=0;b=3" sorted
	status string // one digit per task
}

func runTM(p *hk.Plan, x *hk.X) {
	if len(p.Ops) < 1 || len(p.Ops[0]) == 0 {
		return
	}
	specs := p.Ops[0]
	tm := schedule.NewTaskManager()
	tasks := make([]schedule.Task, len(specs))
	mocks := make([]*mock, len(specs))
	begins := make([]int, len(specs))
	init := ""
	for i, sp := range specs {
		i := i
		job := func(c <-chan struct{}) error { begins[i]++; return nil }
		st := byte('0')
		switch sp.K {
		case "delay":
			tasks[i] = schedule.NewFixedDelayTask(sp.S, job, time.Hour, time.Second)
		case "rate":
			tasks[i] = schedule.NewFixedRateTask(sp.S, job, time.Hour, time.Second)
		default:
			mocks[i] = &mock{id: i, name: sp.S, refuse: sp.K == "refuse", grumble: sp.K == "grumble", slow: sp.A}
			if sp.K == "started" {
				mocks[i].status = 1
				st = '1'
			}
			tasks[i] = mocks[i]
		}
		init += string(st)
	}
	var ops []*hk.LinOp
	do := func(t int, op hk.Op) {
		lo := &hk.LinOp{In: op, Thread: t, Pending: true}
		ops = append(ops, lo)
		lo.Call = rt.Rec("call "+op.K, op.A, 0, op.S, nil)
		var err error
		pn := hk.Catch(func() {
			switch op.K {
			case "reg":
				err = tm.Register(tasks[op.A])
			case "unreg":
				tm.Unregister(op.S)
			case "unregall":
				tm.UnregisterAll()
			}
		})
		out := "ok"
		if pn != nil {
			out = "panic"
			x.Probe("register_panic")
		} else if err != nil {
			out = "err"
		}
		lo.Out, lo.Pending = out, false
		lo.Ret = rt.Rec("ret "+op.K, 0, 0, out, nil)
	}
	ph := p.I("phases")
	if ph < 1 {
		ph = 1
	}
	for k := 0; k < ph; k++ {
		for i := 1; i < len(p.Ops); i++ {
			if i%ph != k {
				continue
			}
			i := i
			x.Thread(fmt.Sprintf("T%d", i), func() {
				for _, op := range p.Ops[i] {
					if op.K == "reg" && op.A >= int64(len(tasks)) {
						continue
					}
					rt.YH()
					do(i, op)
				}
			})
		}
		x.Join()
		rt.WaitIdle()
		// a quiet moment: the tasks' states are part of the history
		st := []byte(init)
		for i, m := range mocks {
			if m != nil {
				st[i] = byte('0' + m.status)
			} else {
				st[i] = '?'
			}
		}
		lo := &hk.LinOp{In: hk.Op{K: "status"}, Out: string(st), Thread: 99}
		lo.Call = rt.Rec("status", 0, 0, string(st), nil)
		lo.Ret = rt.Rec("status", 0, 0, string(st), nil)
		ops = append(ops, lo)
	}
	// now ask the real tasks: a second Start fails if it was started, Stop succeeds if it is running
	st := []byte(init)
	for i, t := range tasks {
		if m := mocks[i]; m != nil {
			st[i] = byte('0' + m.status)
			lim := 1
			if m.starts > 1 || m.stops > lim {
				x.Fail("repeat", "task %d (%s) was started %d and stopped %d times by the manager", i, m.name, m.starts, m.stops)
			}
			continue
		}
		if t.Stop() == nil {
			st[i] = '1'
		} else if t.Start() == nil {
			st[i] = '0'
			t.Stop()
		} else {
			st[i] = '2'
		}
	}
	lo := &hk.LinOp{In: hk.Op{K: "status"}, Out: string(st), Thread: 99}
	lo.Call = rt.Rec("status", 0, 0, string(st), nil)
	lo.Ret = rt.Rec("status", 0, 0, string(st), nil)
	ops = append(ops, lo)
	if len(ops) > 60 {
		x.Inconclusive()
		return
	}
	m := hk.LinModel{Init: tmState{"", init}, Key: func(s interface{}) string { v := s.(tmState); return v.reg + "|" + v.status },
		Step: func(s interface{}, o *hk.LinOp) []interface{} {
			v := s.(tmState)
			reg := map[string]int{}
			for _, kv := range strings.Split(v.reg, ";") {
				if i := strings.IndexByte(kv, '='); i > 0 {
					var n int
					fmt.Sscan(kv[i+1:], &n)
					reg[kv[:i]] = n
				}
			}
			status := []byte(v.status)
			switch o.In.K {
			case "reg":
				i := int(o.In.A)
				want := "ok"
				if _, hit := reg[specs[i].S]; hit {
					want = "err"
				} else if status[i] != '0' || specs[i].K == "refuse" {
					want = "panic"
				} else {
					reg[specs[i].S] = i
					status[i] = '1'
				}
				// a task that cannot be started is refused by a panic; an error would do as well
				if o.Out != want && !(want == "panic" && o.Out == "err") {
					return nil
				}
			case "unreg":
				if o.Out != "ok" {
					return nil
				}
				if i, hit := reg[o.In.S]; hit {
					status[i] = '2'
					delete(reg, o.In.S)
				}
			case "unregall":
				if o.Out != "ok" {
					return nil
				}
				for _, i := range reg {
					status[i] = '2'
				}
				reg = map[string]int{}
			case "status":
				obs := o.Out.(string)
				for i := range status {
					if obs[i] != '?' && obs[i] != status[i] {
						return nil
					}
				}
			}
			var ks []string
			for k, i := range reg {
				ks = append(ks, fmt.Sprintf("%s=%d", k, i))
			}
			sort.Strings(ks)
			return []interface{}{tmState{strings.Join(ks, ";"), string(status)}}
		}}
	switch hk.CheckLin(ops, m, 300000) {
	case 0:
		x.Fail("registry", "no sequential explanation of the manager's history for tasks %v: %s", specs, opsText(ops))
	case -1:
		x.Inconclusive()
	}
}

// C14 with real tasks: a registered task runs until it is unregistered, an unregistered one never again
func genTMReal(r *hk.Rng) *hk.Plan {
	p := &hk.Plan{Cfg: map[string]int64{"all": int64(r.N(2))}}
	for i, n := 0, r.R(1, 5); i < n; i++ {
		iv := r.Pick(10, 10, 15, 100) * ms
		p.Ops = append(p.Ops, []hk.Op{{K: r.PickS("delay", "rate"), A: iv, B: r.Pick(iv/2, iv, 3*iv), C: r.Pick(0, 5, 50, 500) * ms}})
	}
	p.Sim = hk.GenSim(r, 400, false, 0)
	return p
}

func runTMReal(p *hk.Plan, x *hk.X) {
	tm := schedule.NewTaskManager()
	var tasks []*task
	for i, ops := range p.Ops {
		if len(ops) == 0 || ops[0].A <= 0 || ops[0].B <= 0 {
			return
		}
		op := ops[0]
		kind := int64(0)
		if op.K == "rate" {
			kind = 1
		}
		tk := newTask(x, i, kind, op.A, op.B, []hk.Op{{K: "coop", A: op.A / 3}})
		tasks = append(tasks, tk)
		x.Thread("T", func() {
			tk.start = rt.Mono()
			if err := tm.Register(tk.t); err != nil {
				x.Fail("register", "Register of a free name failed: %v", err)
			}
			if p.C("all") == 0 {
				rt.Sleep(op.C)
				tm.Unregister(tk.t.Name())
				tk.stop = rt.Mono()
			}
		})
	}
	x.Join()
	if p.C("all") == 1 {
		rt.Sleep(500 * ms)
		tm.UnregisterAll()
		for _, tk := range tasks {
			tk.stop = rt.Mono()
		}
	}
	rt.Sleep(400 * ms)
	rt.WaitIdle()
	for _, tk := range tasks {
		if tk.kind == 0 {
			judge(x, tk, "C10", true, rt.Mono())
		} else {
			judge(x, tk, "C11", true, rt.Mono())
		}
	}
	if n := rt.NumForeign(); n > 0 {
		x.Fail("leak", "%d goroutine(s) left after all tasks were unregistered: %v", n, rt.ForeignStacks())
	}
}

func main() {
	hk.Bystander = bystander
	hk.EachRun = func() {
		simplelog.StdLogger.SetOutput(io.Discard)
		simplelog.ErrLogger.SetOutput(io.Discard)
	}
	S := func(prop, name string, runs int, gen func(*hk.Rng) *hk.Plan, run func(*hk.Plan, *hk.X)) *hk.Scenario {
		return &hk.Scenario{NoLiveness: strings.HasSuffix(name, "-stall"), Prop: prop, Name: name, Runs: runs, Gen: gen, Run: run, Real: realSched, Stub: stubSched}
	}
	hk.Main("schedule", []*hk.Scenario{
		S("C10", "fd-exact", 100000, genLife("delay", false), runLife("C10", true)),
		S("C10", "fd-stall", 60000, genLife("delay", true), runLife("C10", false)),
		S("C11", "fr-exact", 100000, genLife("rate", false), runLife("C11", true)),
		S("C11", "fr-stall", 60000, genLife("rate", true), runLife("C11", false)),
		S("C12", "cancel", 120000, genLife("", false), runLife("C12", true)),
		S("C13", "startstop", 200000, genSS, runSS),
		S("C14", "tm-lin", 150000, genTM, runTM),
		S("C14", "tm-real", 30000, genTMReal, runTMReal),
	})
}
