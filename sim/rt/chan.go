//go:build go1.21

package rt

import "unsafe"

// hch is the simulated state of one channel; the real channel object is kept
// as its identity (and really closed, for code outside the simulation).
type hch struct {
	p      unsafe.Pointer
	cap    int
	buf    []any
	slots  []byte
	head   int
	n      int
	closed bool
	rq, sq sdq
	ra, rc byte
}

type waiter = sudog

type sudog struct {
	g          *G
	c          *hch
	val        any
	ok         bool
	sel        *selState
	idx        int
	next, prev *sudog
	queued     bool
	rb         byte
}

type selState struct {
	fired bool
	sd    *sudog
}

type sdq struct{ head, tail *sudog }

//go:norace
func (q *sdq) push(d *sudog) {
	d.queued = true
	d.prev = q.tail
	d.next = nil
	if q.tail != nil {
		q.tail.next = d
	} else {
		q.head = d
	}
	q.tail = d
}

//go:norace
func (q *sdq) remove(d *sudog) {
	if !d.queued {
		return
	}
	d.queued = false
	if d.prev != nil {
		d.prev.next = d.next
	} else {
		q.head = d.next
	}
	if d.next != nil {
		d.next.prev = d.prev
	} else {
		q.tail = d.prev
	}
	d.next, d.prev = nil, nil
}

// pop dequeues the first waiter that has not been served through another case.
//
//go:norace
func (q *sdq) pop() *sudog {
	for q.head != nil {
		d := q.head
		q.remove(d)
		if d.sel != nil {
			if d.sel.fired {
				continue
			}
			d.sel.fired = true
			d.sel.sd = d
		}
		return d
	}
	return nil
}

//go:norace
func (q *sdq) has() bool {
	for d := q.head; d != nil; d = d.next {
		if d.sel == nil || !d.sel.fired {
			return true
		}
	}
	return false
}

var chTab []*hch
var chCount int

//go:norace
func chanReset() {
	chTab = make([]*hch, 128)
	chCount = 0
}

//go:norace
func chHash(p unsafe.Pointer) uint64 {
	x := uint64(uintptr(p)) >> 4
	x *= 0x9e3779b97f4a7c15
	return x >> 20
}

//go:norace
func lookup(p unsafe.Pointer, capn int) *hch {
	mask := uint64(len(chTab) - 1)
	i := chHash(p) & mask
	for chTab[i] != nil {
		if chTab[i].p == p {
			return chTab[i]
		}
		i = (i + 1) & mask
	}
	if chCount*2 >= len(chTab) {
		old := chTab
		chTab = make([]*hch, 2*len(old))
		mask = uint64(len(chTab) - 1)
		for _, c := range old {
			if c != nil {
				j := chHash(c.p) & mask
				for chTab[j] != nil {
					j = (j + 1) & mask
				}
				chTab[j] = c
			}
		}
		i = chHash(p) & mask
		for chTab[i] != nil {
			i = (i + 1) & mask
		}
	}
	c := &hch{p: p, cap: capn}
	if capn > 0 {
		c.buf = make([]any, capn)
		c.slots = make([]byte, capn)
	}
	chTab[i] = c
	chCount++
	return c
}

//go:norace
func panicSendClosed() {
	c := make(chan int)
	close(c)
	c <- 1
}

//go:norace
func panicCloseClosed() {
	c := make(chan int)
	close(c)
	close(c)
}

//go:norace
func panicCloseNil() {
	var c chan int
	close(c)
}

//go:norace
func forever() {
	block("nil channel", s.cur.whySite)
	for {
		block("nil channel", s.cur.whySite)
	}
}

//go:norace
func (c *hch) slot(i int) unsafe.Pointer { return unsafe.Pointer(&c.slots[i]) }

// trySend performs a send that can proceed now.
//
//go:norace
func (c *hch) trySend(v any, norace bool) bool {
	if d := c.rq.pop(); d != nil {
		d.val = v
		d.ok = true
		if !norace {
			raceAcquire(unsafe.Pointer(&d.rb))
			raceRelMerge(unsafe.Pointer(&d.rb))
		}
		s.ready(d.g)
		return true
	}
	if c.n < c.cap {
		i := (c.head + c.n) % c.cap
		if !norace {
			raceAcquire(c.slot(i))
			raceRelMerge(c.slot(i))
		}
		c.buf[i] = v
		c.n++
		return true
	}
	return false
}

// tryRecv performs a receive that can proceed now.
//
//go:norace
func (c *hch) tryRecv() (v any, ok bool, done bool) {
	if c.n > 0 {
		i := c.head
		v = c.buf[i]
		c.buf[i] = nil
		raceAcquire(c.slot(i))
		raceRelMerge(c.slot(i))
		c.head = (c.head + 1) % c.cap
		c.n--
		if d := c.sq.pop(); d != nil {
			j := (c.head + c.n) % c.cap
			c.buf[j] = d.val
			c.n++
			d.ok = true
			raceAcquire(unsafe.Pointer(&d.rb))
			raceRelMerge(c.slot(j))
			raceRelMerge(unsafe.Pointer(&d.rb))
			s.ready(d.g)
		}
		return v, true, true
	}
	if d := c.sq.pop(); d != nil {
		v = d.val
		d.ok = true
		raceAcquire(unsafe.Pointer(&d.rb))
		raceRelMerge(unsafe.Pointer(&d.rb))
		s.ready(d.g)
		return v, true, true
	}
	if c.closed {
		raceAcquire(unsafe.Pointer(&c.rc))
		return nil, false, true
	}
	return nil, false, false
}

//go:norace
func chanSend(p unsafe.Pointer, capn int, v any) {
	if s.dead {
		Y(0)
		return
	}
	Y(-40)
	if p == nil {
		forever()
	}
	c := lookup(p, capn)
	raceReadAddr(unsafe.Pointer(&c.ra))
	if c.closed {
		panicSendClosed()
	}
	if c.trySend(v, false) {
		return
	}
	d := &sudog{g: s.cur, c: c, val: v}
	raceRelMerge(unsafe.Pointer(&d.rb))
	c.sq.push(d)
	block("chan send", s.cur.whySite)
	raceAcquire(unsafe.Pointer(&d.rb))
	if !d.ok {
		panicSendClosed()
	}
}

//go:norace
func chanRecv(p unsafe.Pointer, capn int) (any, bool) {
	if s.dead {
		Y(0)
		return nil, false
	}
	Y(-41)
	if p == nil {
		forever()
	}
	c := lookup(p, capn)
	if v, ok, done := c.tryRecv(); done {
		return v, ok
	}
	d := &sudog{g: s.cur, c: c}
	raceRelMerge(unsafe.Pointer(&d.rb))
	c.rq.push(d)
	block("chan receive", s.cur.whySite)
	raceAcquire(unsafe.Pointer(&d.rb))
	if !d.ok {
		raceAcquire(unsafe.Pointer(&c.rc))
	}
	return d.val, d.ok
}

// chanClose returns false if the real close must not happen (dead mode).
//
//go:norace
func chanClose(p unsafe.Pointer, capn int) bool {
	if s.dead {
		return false
	}
	Y(-42)
	if p == nil {
		panicCloseNil()
	}
	c := lookup(p, capn)
	raceWriteAddr(unsafe.Pointer(&c.ra))
	if c.closed {
		panicCloseClosed()
	}
	c.closed = true
	raceRelMerge(unsafe.Pointer(&c.rc))
	for d := c.rq.pop(); d != nil; d = c.rq.pop() {
		d.val, d.ok = nil, false
		s.ready(d.g)
	}
	for d := c.sq.pop(); d != nil; d = c.sq.pop() {
		d.ok = false
		s.ready(d.g)
	}
	return true
}

//go:norace
func timerSend(ch chan timeTime, t timeTime) {
	c := lookup(chp(ch), cap(ch))
	c.trySend(t, true)
}

//go:norace
func chp[T any](ch chan T) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&ch)) }

// Send replaces ch <- v.
//
//go:norace
func Send[T any](ch chan<- T, v T) {
	if !s.on {
		ch <- v
		return
	}
	chanSend(*(*unsafe.Pointer)(unsafe.Pointer(&ch)), cap(ch), v)
}

// SendTo is Send curried, so that v takes part in assignability to T.
//
//go:norace
func SendTo[T any](ch chan<- T) func(T) {
	return func(v T) { Send(ch, v) }
}

// Recv replaces <-ch.
//
//go:norace
func Recv[T any](ch <-chan T) T {
	if !s.on {
		return <-ch
	}
	v, _ := chanRecv(*(*unsafe.Pointer)(unsafe.Pointer(&ch)), cap(ch))
	r, _ := v.(T)
	return r
}

// Recv2 replaces v, ok := <-ch.
//
//go:norace
func Recv2[T any](ch <-chan T) (T, bool) {
	if !s.on {
		v, ok := <-ch
		return v, ok
	}
	v, ok := chanRecv(*(*unsafe.Pointer)(unsafe.Pointer(&ch)), cap(ch))
	r, _ := v.(T)
	return r, ok
}

// Close replaces close(ch).
//
//go:norace
func Close[T any](ch chan<- T) {
	if !s.on || chanClose(*(*unsafe.Pointer)(unsafe.Pointer(&ch)), cap(ch)) {
		close(ch)
	}
}

// ChanLen replaces len(ch).
//
//go:norace
func ChanLen[T any](ch <-chan T) int {
	if !s.on {
		return len(ch)
	}
	p := *(*unsafe.Pointer)(unsafe.Pointer(&ch))
	if p == nil {
		return 0
	}
	Y(-43)
	return lookup(p, cap(ch)).n
}

// ---- select -----------------------------------------------------------------

type caseInfo struct {
	p    unsafe.Pointer
	cap  int
	send bool
	val  any
	ok   bool
}

// SelCase is one communication of a select.
type SelCase interface{ info() *caseInfo }

// RCase is a receive case.
type RCase[T any] struct{ ci caseInfo }

//go:norace
func (c *RCase[T]) info() *caseInfo { return &c.ci }

// V is the received value.
//
//go:norace
func (c *RCase[T]) V() T {
	v, _ := c.ci.val.(T)
	return v
}

// V2 is the received value and whether the channel was open.
//
//go:norace
func (c *RCase[T]) V2() (T, bool) { return c.V(), c.ci.ok }

// RecvCase makes a receive case.
//
//go:norace
func RecvCase[T any](ch <-chan T) *RCase[T] {
	return &RCase[T]{caseInfo{p: *(*unsafe.Pointer)(unsafe.Pointer(&ch)), cap: cap(ch)}}
}

// WCase is a send case.
type WCase struct{ ci caseInfo }

//go:norace
func (c *WCase) info() *caseInfo { return &c.ci }

// SendCase makes a send case, curried like SendTo.
//
//go:norace
func SendCase[T any](ch chan<- T) func(T) *WCase {
	return func(v T) *WCase {
		return &WCase{caseInfo{p: *(*unsafe.Pointer)(unsafe.Pointer(&ch)), cap: cap(ch), send: true, val: v}}
	}
}

// Select performs a select and returns the index of the chosen case, -1 for
// default.
//
//go:norace
func Select(site int, hasDefault bool, cases ...SelCase) int {
	if !s.on {
		panic("sim: select outside a simulated run")
	}
	if s.dead {
		Y(0)
		if hasDefault {
			return -1
		}
		s.cur.deadOps += 1000
		// pick a receive: looks like a closed channel
		for i, c := range cases {
			if !c.info().send {
				return i
			}
		}
		return 0
	}
	Y(site)
	// which cases are ready?
	nr := 0
	for _, sc := range cases {
		if selReady(sc.info()) {
			nr++
		}
	}
	if nr > 0 {
		k := 0
		if nr > 1 {
			k = Choose(nr)
		}
		for i, sc := range cases {
			ci := sc.info()
			if !selReady(ci) {
				continue
			}
			if k > 0 {
				k--
				continue
			}
			c := lookup(ci.p, ci.cap)
			if ci.send {
				raceReadAddr(unsafe.Pointer(&c.ra))
				if c.closed {
					panicSendClosed()
				}
				c.trySend(ci.val, false)
			} else {
				ci.val, ci.ok, _ = c.tryRecv()
			}
			return i
		}
	}
	if hasDefault {
		return -1
	}
	g := s.cur
	st := &selState{}
	ds := make([]*sudog, len(cases))
	any1 := false
	for i, sc := range cases {
		ci := sc.info()
		if ci.p == nil {
			continue
		}
		any1 = true
		c := lookup(ci.p, ci.cap)
		d := &sudog{g: g, c: c, sel: st, idx: i, val: ci.val}
		ds[i] = d
		raceRelMerge(unsafe.Pointer(&d.rb))
		if ci.send {
			raceReadAddr(unsafe.Pointer(&c.ra))
			c.sq.push(d)
		} else {
			d.val = nil
			c.rq.push(d)
		}
	}
	if !any1 {
		forever()
	}
	block("select", site)
	for i, d := range ds {
		if d != nil && d.queued {
			if cases[i].info().send {
				d.c.sq.remove(d)
			} else {
				d.c.rq.remove(d)
			}
		}
	}
	d := st.sd
	raceAcquire(unsafe.Pointer(&d.rb))
	ci := cases[d.idx].info()
	if ci.send {
		if !d.ok {
			panicSendClosed()
		}
	} else {
		ci.val, ci.ok = d.val, d.ok
		if !d.ok {
			raceAcquire(unsafe.Pointer(&d.c.rc))
		}
	}
	return d.idx
}

//go:norace
func selReady(ci *caseInfo) bool {
	if ci.p == nil {
		return false
	}
	c := lookup(ci.p, ci.cap)
	if ci.send {
		return c.closed || c.n < c.cap || c.rq.has()
	}
	return c.n > 0 || c.closed || c.sq.has()
}

// BlockForever replaces select {}.
//
//go:norace
func BlockForever() {
	if s.dead {
		return
	}
	forever()
}
