//go:build go1.21

package rt

import (
	"context"
	"time"
)

// cancelCtx implements context.Context on the simulated clock and channels.
type cancelCtx struct {
	parent   context.Context
	mu       Mutex
	done     chan struct{}
	err      error
	cause    error
	deadline time.Time
	hasDL    bool
	kids     *kidNode
	timer    *Timer
	afters   *afterNode
}
type kidNode struct {
	c    *cancelCtx
	next *kidNode
}
type afterNode struct {
	f       func()
	stopped bool
	next    *afterNode
}

type ctxKey struct{}

var theKey ctxKey

//go:norace
func (c *cancelCtx) Deadline() (time.Time, bool) {
	if c.hasDL {
		return c.deadline, true
	}
	return c.parent.Deadline()
}

//go:norace
func (c *cancelCtx) Done() <-chan struct{} { return c.done }

//go:norace
func (c *cancelCtx) Err() error {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.err
}

//go:norace
func (c *cancelCtx) Value(k any) any {
	if k == any(theKey) {
		return c
	}
	return c.parent.Value(k)
}

//go:norace
func (c *cancelCtx) String() string { return "sim.cancelCtx" }

//go:norace
func (c *cancelCtx) cancel(err, cause error) {
	c.mu.Lock()
	if c.err != nil {
		c.mu.Unlock()
		return
	}
	if cause == nil {
		cause = err
	}
	c.err = err
	c.cause = cause
	Close(c.done)
	kids := c.kids
	c.kids = nil
	af := c.afters
	c.afters = nil
	tm := c.timer
	c.timer = nil
	c.mu.Unlock()
	for ; kids != nil; kids = kids.next {
		kids.c.cancel(err, cause)
	}
	for ; af != nil; af = af.next {
		if !af.stopped {
			af.stopped = true
			Go(-71, af.f)
		}
	}
	if tm != nil {
		tm.Stop()
	}
}

//go:norace
func (c *cancelCtx) dropKid(k *cancelCtx) {
	c.mu.Lock()
	var prev *kidNode
	for n := c.kids; n != nil; n = n.next {
		if n.c == k {
			if prev == nil {
				c.kids = n.next
			} else {
				prev.next = n.next
			}
			break
		}
		prev = n
	}
	c.mu.Unlock()
}

//go:norace
func newCancel(parent context.Context) *cancelCtx {
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	c := &cancelCtx{parent: parent, done: make(chan struct{})}
	if p, ok := parent.Value(theKey).(*cancelCtx); ok && p.done == parent.Done() {
		p.mu.Lock()
		if p.err != nil {
			e, ca := p.err, p.cause
			p.mu.Unlock()
			c.cancel(e, ca)
		} else {
			p.kids = &kidNode{c, p.kids}
			p.mu.Unlock()
		}
	} else if d := parent.Done(); d != nil {
		Go(-70, func() {
			if Select(-70, false, RecvCase(d), RecvCase((<-chan struct{})(c.done))) == 0 {
				c.cancel(parent.Err(), nil)
			}
		})
	}
	return c
}

//go:norace
func (c *cancelCtx) detach() {
	if p, ok := c.parent.Value(theKey).(*cancelCtx); ok {
		p.dropKid(c)
	}
}

// CtxWithCancel replaces context.WithCancel.
//
//go:norace
func CtxWithCancel(parent context.Context) (context.Context, context.CancelFunc) {
	if !s.on {
		return context.WithCancel(parent)
	}
	c := newCancel(parent)
	return c, func() { c.cancel(context.Canceled, nil); c.detach() }
}

// CtxWithCancelCause replaces context.WithCancelCause.
//
//go:norace
func CtxWithCancelCause(parent context.Context) (context.Context, context.CancelCauseFunc) {
	c := newCancel(parent)
	return c, func(cause error) { c.cancel(context.Canceled, cause); c.detach() }
}

// CtxWithDeadline replaces context.WithDeadline.
//
//go:norace
func CtxWithDeadline(parent context.Context, d time.Time) (context.Context, context.CancelFunc) {
	return ctxDeadline(parent, d, d.Sub(TimeNow()), nil)
}

// CtxWithDeadlineCause replaces context.WithDeadlineCause.
//
//go:norace
func CtxWithDeadlineCause(parent context.Context, d time.Time, cause error) (context.Context, context.CancelFunc) {
	return ctxDeadline(parent, d, d.Sub(TimeNow()), cause)
}

// CtxWithTimeout replaces context.WithTimeout.
//
//go:norace
func CtxWithTimeout(parent context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	if !s.on {
		return context.WithTimeout(parent, d)
	}
	return ctxDeadline(parent, TimeNow().Add(d), d, nil)
}

// CtxWithTimeoutCause replaces context.WithTimeoutCause.
//
//go:norace
func CtxWithTimeoutCause(parent context.Context, d time.Duration, cause error) (context.Context, context.CancelFunc) {
	return ctxDeadline(parent, TimeNow().Add(d), d, cause)
}

//go:norace
func ctxDeadline(parent context.Context, dl time.Time, d time.Duration, cause error) (context.Context, context.CancelFunc) {
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	if cur, ok := parent.Deadline(); ok && cur.Before(dl) {
		return CtxWithCancel(parent)
	}
	c := newCancel(parent)
	c.deadline, c.hasDL = dl, true
	if d <= 0 {
		c.cancel(context.DeadlineExceeded, cause)
		return c, func() { c.cancel(context.Canceled, nil); c.detach() }
	}
	c.mu.Lock()
	if c.err == nil {
		c.timer = AfterFunc(d, func() { c.cancel(context.DeadlineExceeded, cause) })
	}
	c.mu.Unlock()
	return c, func() { c.cancel(context.Canceled, nil); c.detach() }
}

// CtxCause replaces context.Cause.
//
//go:norace
func CtxCause(ctx context.Context) error {
	if c, ok := ctx.Value(theKey).(*cancelCtx); ok {
		c.mu.Lock()
		defer c.mu.Unlock()
		return c.cause
	}
	return ctx.Err()
}

// CtxAfterFunc replaces context.AfterFunc.
//
//go:norace
func CtxAfterFunc(ctx context.Context, f func()) func() bool {
	if c, ok := ctx.Value(theKey).(*cancelCtx); ok {
		c.mu.Lock()
		defer c.mu.Unlock()
		if c.err != nil {
			Go(-72, f)
			return func() bool { return false }
		}
		n := &afterNode{f: f, next: c.afters}
		c.afters = n
		return func() bool {
			c.mu.Lock()
			defer c.mu.Unlock()
			was := n.stopped
			n.stopped = true
			return !was
		}
	}
	d := ctx.Done()
	stop := make(chan struct{})
	st := false
	Go(-73, func() {
		if Select(-73, false, RecvCase(d), RecvCase((<-chan struct{})(stop))) == 0 {
			if !st {
				st = true
				f()
			}
		}
	})
	return func() bool {
		was := st
		if !st {
			st = true
			Close(stop)
		}
		return !was
	}
}
