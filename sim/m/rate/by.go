//go:build go1.21

package main

import (
	"time"

	rl "github.com/chanjarster/gears/ratelimiter"
	"github.com/chanjarster/gears/zzsim/hk"
	rt "github.com/chanjarster/gears/zzsim/rt"
)

// bystander uses another limiter, alone: it admits at least its capacity at first, and it says
// what it was made with. Windows last for ages; they end when the clock jumps at most.
func bystander(x *hk.X, r *hk.Rng) {
	for i, n := 0, r.R(1, 2); i < n; i++ {
		cap := r.R(1, 5)
		w0, m0 := rt.Wall(), rt.Mono()
		var l rl.Interface
		kind := r.N(3)
		switch kind {
		case 0:
			w := rl.NewSyncFixedWindow(cap, time.Duration(1<<58))
			if w.WindowSize() != 1<<58 {
				x.Fail("others", "WindowSize() of a limiter nobody else uses is %v", w.WindowSize())
			}
			l = w
		case 1:
			w := rl.NewSyncSlidingWindow(cap, time.Duration(1<<58))
			if w.WindowSize() != 1<<58 {
				x.Fail("others", "WindowSize() of a limiter nobody else uses is %v", w.WindowSize())
			}
			l = w
		case 2:
			l = rl.NewSyncTokenBucket(cap, 1)
			if r.P(1, 2) {
				l = rl.NewAtomicTokenBucket(cap, 1)
			}
		}
		if c, ok := l.(interface{ Capacity() int }); ok && c.Capacity() != cap {
			x.Fail("others", "Capacity() of a limiter nobody else uses is %d, not %d", c.Capacity(), cap)
		}
		for k := 0; k < cap+2; k++ {
			ok := l.Acquire()
			same := rt.Wall() == w0 && rt.Mono() == m0
			if k < cap && !ok && kind != 2 && same {
				x.Fail("others", "limiter (kind %d) nobody else uses refused request %d with capacity %d", kind, k+1, cap)
				return
			}
			if k >= cap && ok && kind != 2 && same {
				x.Fail("others", "limiter (kind %d) nobody else uses admitted request %d with capacity %d", kind, k+1, cap)
				return
			}
			rt.YH()
		}
	}
}
