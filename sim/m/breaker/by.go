//go:build go1.21

package main

import (
	"time"

	cb "github.com/chanjarster/gears/circuitbreaker"
	"github.com/chanjarster/gears/zzsim/hk"
	rt "github.com/chanjarster/gears/zzsim/rt"
)

// bystander uses another breaker, alone: closed up to its threshold, open for ages then. (It judges
// nothing that depends on the wall clock, which may jump.)
func bystander(x *hk.X, r *hk.Rng) {
	for i, n := 0, r.R(1, 2); i < n; i++ {
		th := r.R(1, 4)
		b := cb.NewSyncCircuitBreaker(th, time.Duration(1<<62))
		do := func(err error) (ran, errd, opened int) {
			b.Do(func() error { ran++; rt.YH(); return err }, func(e error) {
				errd++
				if e != err {
					x.Fail("others", "a breaker nobody else uses passed on %v instead of %v", e, err)
				}
			}, func() { opened++ })
			return
		}
		for round, m := 0, r.R(0, 2); round < m; round++ {
			for k, f := 0, r.R(0, th-1); k < f; k++ {
				if ran, errd, opened := do(&taskErr{k}); ran != 1 || errd != 1 || opened != 0 {
					x.Fail("others", "failure %d of a breaker nobody else uses (threshold %d): task ran %d times, onError %d, onOpen %d", k+1, th, ran, errd, opened)
					return
				}
			}
			if ran, errd, opened := do(nil); ran != 1 || errd != 0 || opened != 0 {
				x.Fail("others", "success in a breaker nobody else uses (threshold %d): task ran %d times, onError %d, onOpen %d", th, ran, errd, opened)
				return
			}
		}
		for k := 0; k < th; k++ {
			if ran, errd, opened := do(&taskErr{k}); ran != 1 || errd != 1 || opened != 0 {
				x.Fail("others", "failure %d of a breaker nobody else uses (threshold %d): task ran %d times, onError %d, onOpen %d", k+1, th, ran, errd, opened)
				return
			}
		}
	}
}
