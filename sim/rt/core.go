//go:build go1.21

// Package rt is the deterministic simulator's runtime: a cooperative scheduler
// over real goroutines (exactly one runs at a time, every switch is a decision
// taken from one seeded PRNG or from a replayed trace), a discrete-event clock,
// and faithful models of Go's channels, sync primitives, timers and contexts.
//
// This package is compiled without race instrumentation even in -race builds;
// the happens-before edges of the modelled primitives are announced to the race
// detector explicitly. For that reason it uses no maps and no growing appends
// on simulated paths (the Go runtime annotates those by itself).
package rt

import (
	"fmt"
	"runtime"
	"strings"
	"unsafe"
)

// Decision is one non-default choice: the I-th choice point took option C.
type Decision struct {
	I int `json:"i"`
	C int `json:"c"`
}

// Strategies.
const (
	StratRandom = 0
	StratPCT    = 1
	StratSerial = 2 // never pre-empt, run queue in order
)

// Config of one simulated run.
type Config struct {
	Seed     uint64
	Strategy int
	SwitchP  int // random: chance per yield (of 1024) to pre-empt
	PCTDepth int // PCT: number of priority change points
	PCTLen   int // PCT: expected run length in yields
	StallP   int // chance per yield (of 65536) that time passes while threads are runnable
	StallMax int64
	MaxSteps int
	WallBase int64 // unix nanoseconds of the wall clock at start
	Replay   []Decision
	IsReplay bool
	Trace    bool // keep a human readable trace of switches
}

// Result of one simulated run.
type Result struct {
	Decisions  []Decision
	NChoices   int
	Steps      int
	Switches   int
	SimNanos   int64
	Hash       uint64 // over every choice, switch, time step and log entry
	Interleave uint64 // over context switches only (from, site, to)
	Deadlock   bool
	StepLimit  bool
	Crash      string
	CrashG     string
	Blocked    []string
	Leaked     []string
	Stalls     int
	WallJumps  int
	TimerFires int
	MapPerms   int
	Trace      []string
}

const (
	gRunnable = iota
	gRunning
	gBlocked
	gDone
)

// G is a simulated goroutine.
type G struct {
	id      int
	name    string
	site    int
	wake    chan struct{}
	exited  chan struct{}
	state   int
	why     string
	whySite int
	by      bool // bystander, or started by one
	sys     bool // harness or infrastructure goroutine: not a leak
	prio    uint64
	started bool
	fn      func()
	next    *G // run queue
	allNext *G
	// waiting
	wt      *waiter // waiter that fired
	deadOps int
	foreign bool // spawned by code under test
	acq     unsafe.Pointer
	condTok int
	condSig bool
}

type simState struct {
	cfg   Config
	on    bool
	dead  bool
	epoch uint32

	rng  uint64
	rrng uint64

	cur      *G
	root     *G
	allHead  *G
	allTail  *G
	nextID   int
	rqHead   *G
	rqTail   *G
	rqLen    int
	mono     int64
	wallOff  int64
	steps    int
	lastIdle int // step of the last moment without a runnable goroutine
	lastMove int // step at which time passed last
	nchoice  int
	dec      []Decision
	decLen   int
	repPos   int
	switches int
	hash     uint64
	ihash    uint64
	stalls   int
	jumps    int
	fires    int
	mperms   int

	timers  []*tmr
	ntimers int
	tseq    uint64

	idleHead *G

	pctPts  [16]int
	pctN    int
	pctLow  uint64
	done    chan struct{}
	spawnCh chan *G

	crash     string
	crashG    string
	deadlock  bool
	stepLimit bool
	ended     bool

	trace    []string
	traceLen int

	stallOff    int // >0: stalls disabled
	noPre       int // >0: no preemption
	threadsDone int
	joinN       int
	joiner      *G
}

var s simState

// On reports whether a simulated run is in progress.
//
//go:norace
func On() bool { return s.on && !s.dead }

//go:norace
func mix(h, v uint64) uint64 {
	h ^= v + 0x9e3779b97f4a7c15 + (h << 6) + (h >> 2)
	h *= 0xff51afd7ed558ccd
	h ^= h >> 32
	return h
}

//go:norace
func (st *simState) next() uint64 {
	st.rng += 0x9e3779b97f4a7c15
	z := st.rng
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

//go:norace
func (st *simState) record(c int) {
	if st.decLen == len(st.dec) {
		nd := make([]Decision, 2*len(st.dec)+64)
		for i := 0; i < st.decLen; i++ {
			nd[i] = st.dec[i]
		}
		st.dec = nd
	}
	st.dec[st.decLen] = Decision{st.nchoice, c}
	st.decLen++
}

// decide registers a choice point with n options; pick is what the strategy
// wants. In replay the trace decides (0 where it is silent).
//
//go:norace
func (st *simState) decide(n int, pick int) int {
	c := 0
	if st.cfg.IsReplay {
		for st.repPos < len(st.cfg.Replay) && st.cfg.Replay[st.repPos].I < st.nchoice {
			st.repPos++
		}
		if st.repPos < len(st.cfg.Replay) && st.cfg.Replay[st.repPos].I == st.nchoice {
			c = st.cfg.Replay[st.repPos].C
			if c < 0 || c >= n {
				c = 0
			}
		}
	} else {
		c = pick
	}
	if c != 0 {
		st.record(c)
		st.hash = mix(st.hash, uint64(st.nchoice)<<8|uint64(c))
	}
	st.nchoice++
	return c
}

// Choose is a general recorded choice in [0,n), uniform in search mode, 0 by
// default. Used by fault points, select, and simulated devices.
//
//go:norace
func Choose(n int) int {
	if n <= 1 || !s.on || s.dead {
		return 0
	}
	p := 0
	if !s.cfg.IsReplay {
		p = int(s.next() % uint64(n))
	}
	return s.decide(n, p)
}

// Chance is a recorded biased coin: true with probability num/den.
//
//go:norace
func Chance(num, den int) bool {
	if !s.on || s.dead || num <= 0 {
		return false
	}
	p := 0
	if !s.cfg.IsReplay && int(s.next()%uint64(den)) < num {
		p = 1
	}
	return s.decide(2, p) == 1
}

//go:norace
func (st *simState) rqPush(g *G) {
	g.next = nil
	if st.rqTail == nil {
		st.rqHead = g
	} else {
		st.rqTail.next = g
	}
	st.rqTail = g
	st.rqLen++
}

//go:norace
func (st *simState) rqRemoveAt(i int) *G {
	var prev *G
	g := st.rqHead
	for ; i > 0; i-- {
		prev = g
		g = g.next
	}
	if prev == nil {
		st.rqHead = g.next
	} else {
		prev.next = g.next
	}
	if st.rqTail == g {
		st.rqTail = prev
	}
	g.next = nil
	st.rqLen--
	return g
}

//go:norace
func (st *simState) ready(g *G) {
	if g.state == gBlocked {
		g.state = gRunnable
		st.rqPush(g)
	}
}

//go:norace
func newG(name string, site int, f func()) *G {
	g := &G{id: s.nextID, name: name, site: site, wake: make(chan struct{}, 1), exited: make(chan struct{}), fn: f}
	s.nextID++
	g.prio = s.next() | (1 << 62)
	if s.allTail == nil {
		s.allHead = g
	} else {
		s.allTail.allNext = g
	}
	s.allTail = g
	return g
}

//go:norace
func gmain(g *G) {
	defer func() {
		r := recover()
		raceRelMerge(unsafe.Pointer(&runExit))
		if r != nil && !s.dead {
			crash(g, panicText(r))
			raceDisable()
			close(g.exited)
			raceEnable()
			return
		}
		g.state = gDone
		if s.dead {
			raceDisable()
			close(g.exited)
			raceEnable()
			return
		}
		raceDisable()
		close(g.exited)
		raceEnable()
		s.schedule(nil)
	}()
	raceDisable()
	<-g.wake
	raceEnable()
	if s.dead {
		runtime.Goexit()
	}
	raceAcquire(unsafe.Pointer(&runStart))
	if g.acq != nil {
		raceAcquire(g.acq)
	}
	g.fn()
}

//go:norace
func panicText(r interface{}) string {
	buf := make([]byte, 16384)
	n := runtime.Stack(buf, false)
	lines := strings.Split(string(buf[:n]), "\n")
	var keep []string
	for i := 1; i+1 < len(lines); i += 2 {
		fn, loc := lines[i], strings.TrimSpace(lines[i+1])
		if strings.HasPrefix(fn, "panic(") || strings.HasPrefix(fn, "runtime") || strings.Contains(fn, "/zzsim/rt.") {
			continue
		}
		if k := strings.LastIndex(fn, "("); k > 0 {
			fn = fn[:k]
		}
		if k := strings.Index(loc, " +0x"); k > 0 {
			loc = loc[:k]
		}
		if k := strings.LastIndex(loc, "/"); k > 0 {
			loc = loc[k+1:]
		}
		if k := strings.LastIndex(fn, "/"); k > 0 {
			fn = fn[k+1:]
		}
		_ = loc
		keep = append(keep, fn)
		if len(keep) >= 6 {
			break
		}
	}
	return fmt.Sprintf("%v [%s]", r, strings.Join(keep, " < "))
}

// crash: the whole simulated process dies.
//
//go:norace
func crash(g *G, msg string) {
	s.crash = msg
	s.crashG = g.name
	g.state = gDone
	s.endRun()
}

// Fatal is a runtime "fatal error" (not recoverable by user code).
//
//go:norace
func Fatal(msg string) {
	if s.dead || !s.on {
		return
	}
	s.crash = "fatal error: " + msg
	if s.cur != nil {
		s.crashG = s.cur.name
	}
	s.endRun()
	runtime.Goexit()
}

//go:norace
func (st *simState) endRun() {
	if st.ended {
		return
	}
	st.ended = true
	st.dead = true
	raceDisable()
	close(st.done)
	raceEnable()
}

// Go starts a simulated goroutine on behalf of code under test.
//
//go:norace
func Go(site int, f func()) {
	if !s.on {
		go f()
		return
	}
	if s.dead {
		return
	}
	g := newG("", site, f)
	g.foreign = true
	g.inherit(s.cur != nil && s.cur.by)
	g.state = gRunnable
	s.hash = mix(s.hash, uint64(site)<<20|uint64(g.id))
	go gmain(g)
	s.rqPush(g)
	Y(site)
}

//go:norace
func (g *G) inherit(by bool) {
	if by {
		g.by, g.sys = true, true
	}
}

// Bystander starts a harness thread that nobody waits for. What it starts is no leak.
//
//go:norace
func Bystander(f func()) {
	g := newG("bystander", -1, f)
	g.state = gRunnable
	g.inherit(true)
	go gmain(g)
	s.rqPush(g)
}

// Spawn starts a harness thread.
//
//go:norace
func Spawn(name string, f func()) *G {
	g := newG(name, -1, f)
	g.state = gRunnable
	g.sys = true
	g.inherit(s.cur != nil && s.cur.by)
	go gmain(g)
	s.rqPush(g)
	return g
}

// spawnDetached starts a goroutine that inherits no happens-before edge from
// the goroutine that happens to be running the scheduler (timer callbacks).
//
//go:norace
func spawnDetached(site int, acq unsafe.Pointer, f func(), by bool) {
	g := newG("", site, f)
	g.foreign = true
	g.inherit(by)
	g.acq = acq
	g.state = gRunnable
	if raceOn {
		raceDisable()
		s.spawnCh <- g
		<-s.spawnCh2()
		raceEnable()
	} else {
		go gmain(g)
	}
	s.rqPush(g)
}

var spawnAck chan struct{}

//go:norace
func (st *simState) spawnCh2() chan struct{} { return spawnAck }

//go:norace
func startSpawner() {
	if !raceOn || s.spawnCh != nil {
		return
	}
	s.spawnCh = make(chan *G)
	spawnAck = make(chan struct{})
	ch, ack := s.spawnCh, spawnAck
	go func() {
		raceDisable()
		for g := range ch {
			raceEnable()
			go gmain(g)
			raceDisable()
			ack <- struct{}{}
		}
	}()
}

//go:norace
func self() *G { return s.cur }

// GID returns the running simulated goroutine's id.
//
//go:norace
func GID() int {
	if s.cur == nil {
		return -1
	}
	return s.cur.id
}

// MarkSys marks the running goroutine as infrastructure (not a leak).
//
//go:norace
func MarkSys() {
	if s.cur != nil {
		s.cur.sys = true
	}
}

//go:norace
func (st *simState) switchTo(from, to *G) {
	st.switches++
	fid := -1
	fsite := 0
	if from != nil {
		fid = from.id
		fsite = from.whySite
	}
	st.ihash = mix(st.ihash, uint64(fid+1)<<40|uint64(uint32(fsite))<<8|uint64(to.id+1))
	st.hash = mix(st.hash, st.ihash^uint64(st.mono))
	if st.cfg.Trace {
		st.addTrace(fmt.Sprintf("t=%dns step=%d g%d@%d -> g%d", st.mono, st.steps, fid, fsite, to.id))
	}
	to.state = gRunning
	st.cur = to
	raceDisable()
	to.wake <- struct{}{}
	raceEnable()
}

//go:norace
func (st *simState) addTrace(t string) {
	if st.traceLen < len(st.trace) {
		st.trace[st.traceLen] = t
		st.traceLen++
	}
}

// block parks the running goroutine until ready() and schedules another.
//
//go:norace
func block(why string, site int) {
	g := s.cur
	g.state = gBlocked
	g.why = why
	g.whySite = site
	s.schedule(g)
}

// parkSelf waits for the baton; leaves through Goexit when the run is over.
//
//go:norace
func parkSelf(g *G) {
	raceDisable()
	<-g.wake
	raceEnable()
	if s.dead {
		runtime.Goexit()
	}
}

// schedule picks the next goroutine. from == nil: the caller is exiting;
// otherwise from is the (blocked or runnable) caller and is parked.
//
//go:norace
func (st *simState) schedule(from *G) {
	for st.rqLen == 0 {
		st.lastIdle, st.lastMove = st.steps, st.steps
		// quiescent at this instant
		if st.idleHead != nil {
			g := st.idleHead
			st.idleHead = nil
			st.ready(g)
			break
		}
		st.steps++ // also a ticker nobody listens to comes to an end
		adv := st.steps < st.cfg.MaxSteps
		if !adv {
			st.stepLimit = true
		} else if adv = st.advance(); !adv {
			st.deadlock = true
		}
		if !adv {
			st.endRun()
			if from != nil {
				parkSelf(from)
			}
			return
		}
	}
	i := 0
	if st.rqLen > 1 {
		pick := 0
		if !st.cfg.IsReplay {
			switch st.cfg.Strategy {
			case StratRandom:
				pick = int(st.next() % uint64(st.rqLen))
			case StratPCT:
				pick = st.bestPrio(0, nil)
			}
		}
		i = st.decide(st.rqLen, pick)
	}
	to := st.rqRemoveAt(i)
	if to == from {
		to.state = gRunning
		st.cur = to
		return
	}
	st.switchTo(from, to)
	if from != nil {
		parkSelf(from)
	}
}

//go:norace
func (st *simState) bestPrio(floor uint64, cur *G) int {
	best, bi, i := floor, -1, 0
	for g := st.rqHead; g != nil; g = g.next {
		if g.prio > best {
			best, bi = g.prio, i
		}
		i++
	}
	if bi < 0 {
		return 0
	}
	return bi
}

// Y is a scheduling point: the strategy may pre-empt the running goroutine
// here, and time may pass (stall faults).
//
//go:norace
func Y(site int) {
	if !s.on {
		return
	}
	if s.dead {
		if g := s.cur; g != nil {
			g.deadOps++
			if g.deadOps > 20000 {
				runtime.Goexit()
			}
		}
		return
	}
	st := &s
	st.steps++
	g := st.cur
	if site >= 0 {
		g.whySite = site
	}
	if st.steps >= st.cfg.MaxSteps {
		st.stepLimit = true
		g.why = "running"
		st.endRun()
		runtime.Goexit()
	}
	spin := st.steps-st.lastIdle > 30000
	if spin && st.steps-st.lastMove > 30000 {
		// a long busy stretch in which no time passes: let it pass slowly, and be fair
		st.advanceBy(20000)
	}
	if st.cfg.StallP > 0 && st.stallOff == 0 {
		p := 0
		if !st.cfg.IsReplay {
			if r := st.next(); int(r&0xffff) < st.cfg.StallP {
				p = 1 + int((r>>16)%7)
			}
		}
		if c := st.decide(8, p); c != 0 {
			st.stall(c)
		}
	}
	if st.rqLen == 0 || st.noPre > 0 {
		return
	}
	pick := 0
	if !st.cfg.IsReplay {
		switch st.cfg.Strategy {
		case StratRandom:
			if r := st.next(); int(r&1023) < st.cfg.SwitchP {
				pick = 1 + int((r>>10)%uint64(st.rqLen))
			}
		case StratPCT:
			for i := 0; i < st.pctN; i++ {
				if st.pctPts[i] == st.steps {
					st.pctLow--
					g.prio = st.pctLow
				}
			}
			b := -1
			best := g.prio
			i := 0
			for h := st.rqHead; h != nil; h = h.next {
				if h.prio > best {
					best, b = h.prio, i
				}
				i++
			}
			pick = b + 1
		}
		if spin && pick == 0 && st.steps%16 == 0 {
			pick = 1
		}
	}
	c := st.decide(st.rqLen+1, pick)
	if c == 0 {
		return
	}
	to := st.rqRemoveAt(c - 1)
	g.state = gRunnable
	st.rqPush(g)
	st.switchTo(g, to)
	parkSelf(g)
}

// YH is a scheduling point in harness code.
//
//go:norace
func YH() { Y(0) }

// NoPreempt runs f without pre-emption at yield points.
//
//go:norace
func NoPreempt(f func()) {
	s.noPre++
	f()
	s.noPre--
}

// stall: time passes although goroutines are runnable (slow or stalled thread).
//
//go:norace
func (st *simState) stall(c int) {
	st.stalls++
	st.lastMove = st.steps
	switch c {
	case 1: // to the next timer, exactly
		if st.ntimers > 0 && st.timers[0].when-st.mono <= st.cfg.StallMax {
			st.advanceBy(max64(0, st.timers[0].when-st.mono))
		}
	case 2: // just beyond the next timer
		if st.ntimers > 0 && st.timers[0].when-st.mono <= st.cfg.StallMax {
			st.advanceBy(max64(0, st.timers[0].when-st.mono) + 1)
		}
	case 3:
		st.advanceBy(1)
	case 4:
		st.advanceBy(st.cfg.StallMax/1000 + 1)
	case 5:
		st.advanceBy(st.cfg.StallMax/30 + 1)
	case 6:
		st.advanceBy(st.cfg.StallMax / 3)
	case 7:
		st.advanceBy(st.cfg.StallMax)
	}
}

//go:norace
func max64(a, b int64) int64 {
	if a > b {
		return a
	}
	return b
}

// WaitIdle blocks the caller until every other goroutine is blocked at the
// current simulated instant.
//
//go:norace
func WaitIdle() {
	if s.dead {
		runtime.Goexit()
	}
	if s.idleHead != nil {
		panic("sim: two idle waiters")
	}
	s.idleHead = s.cur
	s.cur.state = gBlocked
	s.cur.why = "waitidle"
	s.schedule(s.cur)
}

// CalmDown turns off stall faults from now on (end of the fault phase).
//
//go:norace
func CalmDown() { s.stallOff = 1 }

// Steps so far.
//
//go:norace
func Steps() int { return s.steps }

// ---- run --------------------------------------------------------------------

var epochs uint32

var runExit, runStart uint64

// Run executes root as the first simulated goroutine and returns when root
// returns, the process crashes, deadlocks, or exceeds the step limit.
//
//go:norace
func Run(cfg Config, root func()) Result {
	epochs++
	sp := s.spawnCh
	s = simState{}
	s.spawnCh = sp
	startSpawner()
	s.cfg = cfg
	if s.cfg.MaxSteps == 0 {
		s.cfg.MaxSteps = 400000
	}
	s.epoch = epochs
	s.rng = cfg.Seed*0x9e3779b97f4a7c15 + 0x1234567
	s.next()
	s.pctLow = 1 << 61
	s.dec = make([]Decision, 256)
	s.timers = make([]*tmr, 64)
	if cfg.Trace {
		s.trace = make([]string, 200000)
	}
	s.wallOff = cfg.WallBase
	s.done = make(chan struct{})
	chanReset()
	recReset()
	if cfg.Strategy == StratPCT && !cfg.IsReplay {
		n := cfg.PCTDepth
		if n > len(s.pctPts) {
			n = len(s.pctPts)
		}
		s.pctN = n
		l := cfg.PCTLen
		if l < 10 {
			l = 10
		}
		for i := 0; i < n; i++ {
			s.pctPts[i] = int(s.next() % uint64(l))
		}
	}
	// everything of earlier runs happens before everything of this one (the race
	// detector would otherwise relate accesses of different runs to reused memory)
	raceAcquire(unsafe.Pointer(&runExit))
	raceRelMerge(unsafe.Pointer(&runStart))
	s.on = true
	g := newG("root", -1, nil)
	g.sys = true
	g.fn = func() {
		root()
		s.cur.state = gDone
		s.endRun()
	}
	s.root = g
	go gmain(g)
	g.state = gRunning
	s.cur = g
	raceDisable()
	g.wake <- struct{}{}
	<-s.done
	raceEnable()
	res := Result{
		NChoices: s.nchoice, Steps: s.steps, Switches: s.switches, SimNanos: s.mono,
		Hash: s.hash, Interleave: s.ihash, Deadlock: s.deadlock, StepLimit: s.stepLimit,
		Crash: s.crash, CrashG: s.crashG, Stalls: s.stalls, WallJumps: s.jumps, TimerFires: s.fires, MapPerms: s.mperms,
	}
	res.Decisions = s.dec[:s.decLen]
	if s.cfg.Trace {
		res.Trace = s.trace[:s.traceLen]
	}
	for h := s.allHead; h != nil; h = h.allNext {
		if h.state != gDone {
			res.Blocked = append(res.Blocked, fmt.Sprintf("g%d(%s,site %d) %s@%d", h.id, h.name, h.site, h.why, h.whySite))
			if h.foreign && !h.sys {
				res.Leaked = append(res.Leaked, fmt.Sprintf("g%d(site %d) %s@%d", h.id, h.site, h.why, h.whySite))
			}
		}
	}
	// kill what is left, one at a time
	for h := s.allHead; h != nil; h = h.allNext {
		s.cur = h
		raceDisable()
		select {
		case <-h.exited:
		default:
			select {
			case h.wake <- struct{}{}:
			default:
			}
			<-h.exited
		}
		raceEnable()
	}
	s.on = false
	s.cur = nil
	return res
}

// NumForeign returns the number of live goroutines started by code under test
// (not marked as infrastructure).
//
//go:norace
func NumForeign() int {
	n := 0
	for h := s.allHead; h != nil; h = h.allNext {
		if h.state != gDone && h.foreign && !h.sys {
			n++
		}
	}
	return n
}

// ForeignStacks describes them.
//
//go:norace
func ForeignStacks() []string {
	var out []string
	for h := s.allHead; h != nil; h = h.allNext {
		if h.state != gDone && h.foreign && !h.sys {
			out = append(out, fmt.Sprintf("g%d(started at %s) %s at %s", h.id, SiteName(h.site), h.why, SiteName(h.whySite)))
		}
	}
	return out
}

// SiteName is replaced by the harness with a table lookup.
var SiteName = func(i int) string { return fmt.Sprintf("site%d", i) }

// HashIn folds harness-visible values into the run's hash.
//
//go:norace
func HashIn(v uint64) { s.hash = mix(s.hash, v) }
