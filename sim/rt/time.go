//go:build go1.21

package rt

import (
	"time"
	"unsafe"
)

// tmr is an entry of the discrete-event queue.
type tmr struct {
	when   int64
	seq    uint64
	idx    int // position in heap, -1 if not queued
	epoch  uint32
	period int64
	fire   func()
	isAF   bool
}

//go:norace
func tless(a, b *tmr) bool {
	return a.when < b.when || (a.when == b.when && a.seq < b.seq)
}

//go:norace
func (st *simState) tpush(t *tmr) {
	if st.ntimers == len(st.timers) {
		nt := make([]*tmr, 2*len(st.timers))
		for i := 0; i < st.ntimers; i++ {
			nt[i] = st.timers[i]
		}
		st.timers = nt
	}
	st.tseq++
	t.seq = st.tseq
	t.epoch = st.epoch
	i := st.ntimers
	st.ntimers++
	st.timers[i] = t
	t.idx = i
	st.tup(i)
}

//go:norace
func (st *simState) tup(i int) {
	h := st.timers
	for i > 0 {
		p := (i - 1) / 2
		if !tless(h[i], h[p]) {
			break
		}
		h[i], h[p] = h[p], h[i]
		h[i].idx = i
		h[p].idx = p
		i = p
	}
}

//go:norace
func (st *simState) tdown(i int) {
	h := st.timers
	n := st.ntimers
	for {
		l := 2*i + 1
		if l >= n {
			return
		}
		m := l
		if r := l + 1; r < n && tless(h[r], h[l]) {
			m = r
		}
		if !tless(h[m], h[i]) {
			return
		}
		h[i], h[m] = h[m], h[i]
		h[i].idx = i
		h[m].idx = m
		i = m
	}
}

//go:norace
func (st *simState) tremove(t *tmr) bool {
	if t.epoch != st.epoch || t.idx < 0 {
		return false
	}
	i := t.idx
	st.ntimers--
	n := st.ntimers
	if i != n {
		st.timers[i] = st.timers[n]
		st.timers[i].idx = i
	}
	st.timers[n] = nil
	if i != n {
		st.tdown(i)
		st.tup(i)
	}
	t.idx = -1
	return true
}

// advance jumps the clock to the next event and fires what is due there.
//
//go:norace
func (st *simState) advance() bool {
	if st.ntimers == 0 {
		return false
	}
	d := st.timers[0].when - st.mono
	if d < 0 {
		d = 0
	}
	st.advanceBy(d)
	return true
}

// advanceBy moves simulated time forward by d, firing everything due.
//
//go:norace
func (st *simState) advanceBy(d int64) {
	end := st.mono + d
	for st.ntimers > 0 && st.timers[0].when <= end {
		// among timers due at the same instant the order is a decision
		w := st.timers[0].when
		n := 1
		if st.ntimers > 1 {
			n = st.countAt(w)
		}
		t := st.timers[0]
		if n > 1 {
			pick := 0
			if !st.cfg.IsReplay && st.cfg.Strategy != StratSerial {
				pick = int(st.next() % uint64(n))
			}
			if c := st.decide(n, pick); c > 0 {
				t = st.nthAt(w, c)
			}
		}
		if w > st.mono {
			st.mono = w
		}
		st.tremove(t)
		st.fires++
		st.hash = mix(st.hash, uint64(w)^t.seq<<48)
		if t.period > 0 {
			t.when += t.period
			if t.when <= end-1000*t.period {
				t.when = end // do not spin through a huge backlog
			}
			st.tpush(t)
		}
		t.fire()
	}
	if end > st.mono {
		st.mono = end
	}
}

//go:norace
func (st *simState) countAt(w int64) int {
	n := 0
	for i := 0; i < st.ntimers; i++ {
		if st.timers[i].when == w {
			n++
		}
	}
	return n
}

// nthAt returns the c-th (by seq) timer due at w.
//
//go:norace
func (st *simState) nthAt(w int64, c int) *tmr {
	var last uint64
	for k := 0; ; k++ {
		var best *tmr
		for i := 0; i < st.ntimers; i++ {
			t := st.timers[i]
			if t.when == w && (k == 0 || t.seq > last) && (best == nil || t.seq < best.seq) {
				best = t
			}
		}
		if k == c || best == nil {
			return best
		}
		last = best.seq
	}
}

// ---- clock ------------------------------------------------------------------

const (
	wallToInternal = (1884*365 + 1884/4 - 1884/100 + 1884/400) * 86400
	unixToInternal = (1969*365 + 1969/4 - 1969/100 + 1969/400) * 86400
)

type rawTime struct {
	wall uint64
	ext  int64
	loc  *time.Location
}

// MkTime builds a time.Time with a wall and a monotonic reading, as time.Now does.
//
//go:norace
func MkTime(unixNano int64, mono int64) time.Time {
	sec := unixNano / 1e9
	nsec := unixNano % 1e9
	if nsec < 0 {
		nsec += 1e9
		sec--
	}
	s85 := sec + unixToInternal - wallToInternal
	if s85 < 0 || s85 >= 1<<33 {
		return time.Unix(sec, nsec)
	}
	r := rawTime{wall: 1<<63 | uint64(s85)<<30 | uint64(nsec), ext: mono + 1}
	t := *(*time.Time)(unsafe.Pointer(&r))
	return t.In(time.UTC)
}

// Mono is the simulated monotonic clock (never jumps).
//
//go:norace
func Mono() int64 { return s.mono }

// Wall is the simulated wall clock in unix nanoseconds.
//
//go:norace
func Wall() int64 { return s.mono + s.wallOff }

// JumpWall steps the wall clock (an operator or NTP correction).
//
//go:norace
func JumpWall(d int64) {
	s.wallOff += d
	s.jumps++
	s.hash = mix(s.hash, uint64(d))
}

// Advance moves simulated time forward without scheduling anything else.
//
//go:norace
func Advance(d int64) {
	if s.on && !s.dead && d > 0 {
		s.advanceBy(d)
	}
}

// NextTimer returns the time of the next pending event, or -1.
//
//go:norace
func NextTimer() int64 {
	if s.ntimers == 0 {
		return -1
	}
	return s.timers[0].when
}

// TimeNow replaces time.Now.
//
//go:norace
func TimeNow() time.Time {
	if !s.on {
		return time.Now()
	}
	if !s.dead {
		Y(-10)
	}
	return MkTime(s.mono+s.wallOff, s.mono)
}

// TimeSince replaces time.Since.
//
//go:norace
func TimeSince(t time.Time) time.Duration { return TimeNow().Sub(t) }

// TimeUntil replaces time.Until.
//
//go:norace
func TimeUntil(t time.Time) time.Duration { return t.Sub(TimeNow()) }

// TimeSleep replaces time.Sleep.
//
//go:norace
func TimeSleep(d time.Duration) {
	if !s.on {
		time.Sleep(d)
		return
	}
	if s.dead {
		return
	}
	Y(-11)
	if d <= 0 {
		return
	}
	g := s.cur
	t := &tmr{when: satAdd(s.mono, int64(d)), idx: -1}
	t.fire = func() { s.ready(g) }
	s.tpush(t)
	block("sleep", -11)
}

// Sleep is TimeSleep for the harness, in nanoseconds.
//
//go:norace
func Sleep(ns int64) { TimeSleep(time.Duration(ns)) }

// SleepUntil sleeps until the given monotonic instant.
//
//go:norace
func SleepUntil(m int64) {
	if m > s.mono {
		TimeSleep(time.Duration(m - s.mono))
	} else {
		YH()
	}
}

//go:norace
func satAdd(a, b int64) int64 {
	c := a + b
	if b > 0 && c < a {
		return 1<<63 - 1
	}
	return c
}

// Timer replaces time.Timer.
type Timer struct {
	C <-chan time.Time
	c chan time.Time
	t tmr
	f func()
	s byte
	b bool
}

//go:norace
func newTimer(d time.Duration, period int64, f func(), site int) *Timer {
	tm := &Timer{f: f, b: s.cur != nil && s.cur.by}
	if f == nil {
		tm.c = make(chan time.Time, 1)
		tm.C = tm.c
	}
	tm.t.idx = -1
	tm.t.period = period
	tm.t.fire = func() {
		if tm.f != nil {
			spawnDetached(site, unsafe.Pointer(&tm.s), tm.f, tm.b)
			return
		}
		timerSend(tm.c, MkTime(s.mono+s.wallOff, s.mono))
	}
	tm.start(d)
	return tm
}

//go:norace
func (t *Timer) start(d time.Duration) {
	if !s.on {
		return
	}
	raceRelMerge(unsafe.Pointer(&t.s))
	if d < 0 {
		d = 0
	}
	t.t.when = satAdd(s.mono, int64(d))
	if t.t.epoch != s.epoch {
		t.t.idx = -1
	}
	s.tpush(&t.t)
}

// NewTimer replaces time.NewTimer.
//
//go:norace
func NewTimer(d time.Duration) *Timer {
	Y(-12)
	return newTimer(d, 0, nil, -12)
}

// AfterFunc replaces time.AfterFunc.
//
//go:norace
func AfterFunc(d time.Duration, f func()) *Timer {
	Y(-13)
	return newTimer(d, 0, f, -13)
}

// After replaces time.After.
//
//go:norace
func After(d time.Duration) <-chan time.Time { return NewTimer(d).C }

// Stop as time.Timer.Stop.
//
//go:norace
func (t *Timer) Stop() bool {
	Y(-14)
	if s.dead {
		return false
	}
	return s.tremove(&t.t)
}

// Reset as time.Timer.Reset.
//
//go:norace
func (t *Timer) Reset(d time.Duration) bool {
	Y(-15)
	if s.dead {
		return false
	}
	was := s.tremove(&t.t)
	t.start(d)
	return was
}

// Ticker replaces time.Ticker.
type Ticker struct {
	C <-chan time.Time
	t *Timer
}

// NewTicker replaces time.NewTicker.
//
//go:norace
func NewTicker(d time.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	Y(-16)
	t := newTimer(d, int64(d), nil, -16)
	return &Ticker{C: t.C, t: t}
}

// Tick replaces time.Tick.
//
//go:norace
func Tick(d time.Duration) <-chan time.Time {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}

// Stop as time.Ticker.Stop.
//
//go:norace
func (t *Ticker) Stop() { t.t.Stop() }

// Reset as time.Ticker.Reset.
//
//go:norace
func (t *Ticker) Reset(d time.Duration) {
	if d <= 0 {
		panic("non-positive interval for Ticker.Reset")
	}
	if s.dead {
		return
	}
	s.tremove(&t.t.t)
	t.t.t.period = int64(d)
	t.t.start(d)
}

// simTimer runs fire in scheduler context after d (simulated devices).
//
//go:norace
func SimTimer(d int64, fire func()) *tmr {
	t := &tmr{when: satAdd(s.mono, d), idx: -1, fire: fire}
	s.tpush(t)
	return t
}

// CancelSimTimer removes it.
//
//go:norace
func CancelSimTimer(t *tmr) { s.tremove(t) }
