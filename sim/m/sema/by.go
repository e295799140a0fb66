//go:build go1.21

package main

import (
	"github.com/chanjarster/gears/zzsim/hk"
	rt "github.com/chanjarster/gears/zzsim/rt"
)

// bystander uses other semaphores, alone: what it gets is known.
func bystander(x *hk.X, r *hk.Rng) {
	for i, n := 0, r.R(1, 3); i < n; i++ {
		permits := genPermits(r)
		s := mk(int64(r.N(2)), permits)
		for round, m := 0, r.R(1, 3); round < m; round++ {
			k := r.R64(1, permits)
			for j := int64(0); j < k; j++ {
				if r.P(1, 3) {
					s.Acquire()
				} else if !s.TryAcquire() {
					x.Fail("others", "a semaphore nobody else uses refused permit %d of %d", j+1, permits)
					return
				}
				rt.YH()
			}
			if k == permits && s.TryAcquire() {
				x.Fail("others", "a semaphore nobody else uses gave permit %d of %d", k+1, permits)
				return
			}
			for j := int64(0); j < k; j++ {
				s.Release()
				rt.YH()
			}
		}
	}
}
