//go:build go1.21

package rt

import (
	"sync"
	"unsafe"
)

// wq is a FIFO of parked goroutines.
type wnode struct {
	g    *G
	next *wnode
}
type wq struct{ head, tail *wnode }

//go:norace
func (q *wq) push(g *G) {
	n := &wnode{g: g}
	if q.tail == nil {
		q.head = n
	} else {
		q.tail.next = n
	}
	q.tail = n
}

//go:norace
func (q *wq) wakeAll() {
	for n := q.head; n != nil; n = n.next {
		s.ready(n.g)
	}
	q.head, q.tail = nil, nil
}

//go:norace
func (q *wq) pop() *G {
	n := q.head
	if n == nil {
		return nil
	}
	q.head = n.next
	if q.head == nil {
		q.tail = nil
	}
	return n.g
}

// Locker is sync.Locker.
type Locker = sync.Locker

// Mutex models sync.Mutex: any contender may win the lock when it is released.
type Mutex struct {
	epoch  uint32
	locked bool
	owner  int
	q      wq
	site   int
}

//go:norace
func (m *Mutex) fresh() {
	if m.epoch != s.epoch {
		*m = Mutex{epoch: s.epoch}
	}
}

//go:norace
func (m *Mutex) Lock() {
	if !s.on || s.dead {
		return
	}
	Y(-20)
	m.fresh()
	for m.locked {
		m.q.push(s.cur)
		block("mutex.Lock", s.cur.whySite)
	}
	m.locked = true
	m.owner = s.cur.id
	raceAcquire(unsafe.Pointer(m))
}

//go:norace
func (m *Mutex) TryLock() bool {
	if !s.on || s.dead {
		return true
	}
	Y(-20)
	m.fresh()
	if m.locked {
		return false
	}
	m.locked = true
	m.owner = s.cur.id
	raceAcquire(unsafe.Pointer(m))
	return true
}

//go:norace
func (m *Mutex) Unlock() {
	if !s.on || s.dead {
		return
	}
	m.fresh()
	if !m.locked {
		Fatal("sync: unlock of unlocked mutex")
	}
	raceRelease(unsafe.Pointer(m))
	m.locked = false
	m.q.wakeAll()
	Y(-21)
}

// RWMutex models sync.RWMutex: a waiting writer blocks new readers; readers
// that were waiting are admitted when the writer leaves.
type RWMutex struct {
	epoch   uint32
	writer  bool
	readers int
	wwait   int
	rq      wq // readers waiting
	rqn     int
	wqq     wq
	rs, ws  byte
	admit   int
}

//go:norace
func (m *RWMutex) fresh() {
	if m.epoch != s.epoch {
		*m = RWMutex{epoch: s.epoch}
	}
}

//go:norace
func (m *RWMutex) Lock() {
	if !s.on || s.dead {
		return
	}
	Y(-22)
	m.fresh()
	m.wwait++
	for m.writer || m.readers > 0 {
		m.wqq.push(s.cur)
		block("rwmutex.Lock", s.cur.whySite)
	}
	m.wwait--
	m.writer = true
	raceAcquire(unsafe.Pointer(&m.rs))
	raceAcquire(unsafe.Pointer(&m.ws))
}

//go:norace
func (m *RWMutex) TryLock() bool {
	if !s.on || s.dead {
		return true
	}
	Y(-22)
	m.fresh()
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	raceAcquire(unsafe.Pointer(&m.rs))
	raceAcquire(unsafe.Pointer(&m.ws))
	return true
}

//go:norace
func (m *RWMutex) Unlock() {
	if !s.on || s.dead {
		return
	}
	m.fresh()
	if !m.writer {
		Fatal("sync: Unlock of unlocked RWMutex")
	}
	raceRelease(unsafe.Pointer(&m.rs))
	m.writer = false
	// every waiting reader is admitted before the next writer
	m.readers += m.rqn
	m.rqn = 0
	m.rq.wakeAll()
	if m.readers == 0 {
		m.wqq.wakeAll()
	}
	Y(-23)
}

//go:norace
func (m *RWMutex) RLock() {
	if !s.on || s.dead {
		return
	}
	Y(-24)
	m.fresh()
	if m.writer || m.wwait > 0 {
		m.rqn++
		m.rq.push(s.cur)
		block("rwmutex.RLock", s.cur.whySite)
		// admitted by Unlock: counted already
	} else {
		m.readers++
	}
	raceAcquire(unsafe.Pointer(&m.rs))
}

//go:norace
func (m *RWMutex) TryRLock() bool {
	if !s.on || s.dead {
		return true
	}
	Y(-24)
	m.fresh()
	if m.writer || m.wwait > 0 {
		return false
	}
	m.readers++
	raceAcquire(unsafe.Pointer(&m.rs))
	return true
}

//go:norace
func (m *RWMutex) RUnlock() {
	if !s.on || s.dead {
		return
	}
	m.fresh()
	if m.readers <= 0 {
		Fatal("sync: RUnlock of unlocked RWMutex")
	}
	raceRelMerge(unsafe.Pointer(&m.ws))
	m.readers--
	if m.readers == 0 {
		m.wqq.wakeAll()
	}
	Y(-25)
}

type rlocker RWMutex

//go:norace
func (r *rlocker) Lock() { (*RWMutex)(r).RLock() }

//go:norace
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// RLocker as sync.RWMutex.RLocker.
//
//go:norace
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// Cond models sync.Cond.
type Cond struct {
	L     Locker
	epoch uint32
	q     wq
}

// NewCond replaces sync.NewCond.
//
//go:norace
func NewCond(l Locker) *Cond { return &Cond{L: l} }

//go:norace
func (c *Cond) fresh() {
	if c.epoch != s.epoch {
		c.epoch = s.epoch
		c.q = wq{}
	}
}

//go:norace
func (c *Cond) Wait() {
	if !s.on || s.dead {
		return
	}
	c.fresh()
	g := s.cur
	c.q.push(g)
	// the waiter is registered before the lock is released; being signalled
	// while still running inside Unlock must not be lost
	tok := g.condTok + 1
	g.condTok = tok
	g.condSig = false
	c.L.Unlock()
	for !g.condSig {
		block("cond.Wait", g.whySite)
	}
	c.L.Lock()
}

//go:norace
func (c *Cond) Signal() {
	if !s.on || s.dead {
		return
	}
	Y(-26)
	c.fresh()
	if g := c.q.pop(); g != nil {
		g.condSig = true
		s.ready(g)
	}
}

//go:norace
func (c *Cond) Broadcast() {
	if !s.on || s.dead {
		return
	}
	Y(-27)
	c.fresh()
	for g := c.q.pop(); g != nil; g = c.q.pop() {
		g.condSig = true
		s.ready(g)
	}
}

// WaitGroup models sync.WaitGroup.
type WaitGroup struct {
	epoch uint32
	n     int
	q     wq
}

//go:norace
func (w *WaitGroup) fresh() {
	if w.epoch != s.epoch {
		*w = WaitGroup{epoch: s.epoch}
	}
}

//go:norace
func (w *WaitGroup) Add(d int) {
	if !s.on || s.dead {
		return
	}
	Y(-28)
	w.fresh()
	if d < 0 {
		raceRelMerge(unsafe.Pointer(w))
	}
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if w.n == 0 {
		w.q.wakeAll()
	}
}

//go:norace
func (w *WaitGroup) Done() { w.Add(-1) }

//go:norace
func (w *WaitGroup) Wait() {
	if !s.on || s.dead {
		return
	}
	Y(-29)
	w.fresh()
	for w.n > 0 {
		w.q.push(s.cur)
		block("waitgroup.Wait", s.cur.whySite)
	}
	raceAcquire(unsafe.Pointer(w))
}

// Go as sync.WaitGroup.Go.
//
//go:norace
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	Go(-30, func() {
		defer w.Done()
		f()
	})
}

// Once models sync.Once.
type Once struct {
	m    Mutex
	done bool
	d    byte
}

//go:norace
func (o *Once) Do(f func()) {
	if !s.on {
		if !o.done {
			o.done = true
			f()
		}
		return
	}
	Y(-31)
	if o.done {
		raceAcquire(unsafe.Pointer(&o.d))
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() {
			o.done = true
			raceRelMerge(unsafe.Pointer(&o.d))
		}()
		f()
	}
}

// OnceFunc replaces sync.OnceFunc.
//
//go:norace
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// OnceValue replaces sync.OnceValue.
//
//go:norace
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

// OnceValues replaces sync.OnceValues.
//
//go:norace
func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var u U
	return func() (T, U) {
		o.Do(func() { v, u = f() })
		return v, u
	}
}

// Pool models sync.Pool: Get returns a pooled value or a new one, as decided.
type Pool struct {
	New   func() any
	epoch uint32
	items [8]any
	n     int
}

//go:norace
func (p *Pool) Get() any {
	Y(-32)
	if p.epoch != s.epoch {
		p.epoch, p.n = s.epoch, 0
	}
	if p.n > 0 && !Chance(1, 4) {
		p.n--
		v := p.items[p.n]
		p.items[p.n] = nil
		raceAcquire(unsafe.Pointer(p))
		return v
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

//go:norace
func (p *Pool) Put(v any) {
	Y(-33)
	if p.epoch != s.epoch {
		p.epoch, p.n = s.epoch, 0
	}
	if v == nil {
		return
	}
	raceRelMerge(unsafe.Pointer(p))
	if p.n < len(p.items) {
		p.items[p.n] = v
		p.n++
	}
}

// Map models sync.Map: each operation is atomic; Range walks a snapshot of the
// keys in insertion order.
type Map struct {
	head, tail *mnode
	b          byte
}
type mnode struct {
	k, v any
	dead bool
	next *mnode
}

//go:norace
func (m *Map) in() { Y(-34); raceAcquire(unsafe.Pointer(&m.b)) }

//go:norace
func (m *Map) out() { raceRelMerge(unsafe.Pointer(&m.b)) }

//go:norace
func (m *Map) find(k any) *mnode {
	for n := m.head; n != nil; n = n.next {
		if !n.dead && n.k == k {
			return n
		}
	}
	return nil
}

//go:norace
func (m *Map) put(k, v any) {
	n := &mnode{k: k, v: v}
	if m.tail == nil {
		m.head = n
	} else {
		m.tail.next = n
	}
	m.tail = n
}

//go:norace
func (m *Map) drop(n *mnode) {
	n.dead = true
	var prev *mnode
	for x := m.head; x != nil; x = x.next {
		if x == n {
			if prev == nil {
				m.head = x.next
			} else {
				prev.next = x.next
			}
			if m.tail == x {
				m.tail = prev
			}
			return
		}
		prev = x
	}
}

//go:norace
func (m *Map) Load(k any) (any, bool) {
	m.in()
	defer m.out()
	if n := m.find(k); n != nil {
		return n.v, true
	}
	return nil, false
}

//go:norace
func (m *Map) Store(k, v any) {
	m.in()
	defer m.out()
	if n := m.find(k); n != nil {
		n.v = v
		return
	}
	m.put(k, v)
}

//go:norace
func (m *Map) Swap(k, v any) (any, bool) {
	m.in()
	defer m.out()
	if n := m.find(k); n != nil {
		o := n.v
		n.v = v
		return o, true
	}
	m.put(k, v)
	return nil, false
}

//go:norace
func (m *Map) CompareAndSwap(k, o, v any) bool {
	m.in()
	defer m.out()
	if n := m.find(k); n != nil && n.v == o {
		n.v = v
		return true
	}
	return false
}

//go:norace
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	m.in()
	defer m.out()
	if n := m.find(k); n != nil {
		return n.v, true
	}
	m.put(k, v)
	return v, false
}

//go:norace
func (m *Map) LoadAndDelete(k any) (any, bool) {
	m.in()
	defer m.out()
	if n := m.find(k); n != nil {
		m.drop(n)
		return n.v, true
	}
	return nil, false
}

//go:norace
func (m *Map) Delete(k any) { m.LoadAndDelete(k) }

//go:norace
func (m *Map) CompareAndDelete(k, o any) bool {
	m.in()
	defer m.out()
	if n := m.find(k); n != nil && n.v == o {
		m.drop(n)
		return true
	}
	return false
}

//go:norace
func (m *Map) Clear() {
	m.in()
	defer m.out()
	m.head, m.tail = nil, nil
}

//go:norace
func (m *Map) Range(f func(k, v any) bool) {
	m.in()
	n := m.head
	m.out()
	for n != nil {
		if !n.dead {
			if !f(n.k, n.v) {
				return
			}
		}
		m.in()
		n = n.next
		m.out()
	}
}
