//go:build go1.21

package main

import (
	"time"

	"github.com/chanjarster/gears/circuitbreaker"
	"github.com/chanjarster/gears/concurrent"
	"github.com/chanjarster/gears/confstore"
	"github.com/chanjarster/gears/event"
	"github.com/chanjarster/gears/ratelimiter"
	"github.com/chanjarster/gears/schedule"
	"github.com/chanjarster/gears/zzsim/hk"
	rt "github.com/chanjarster/gears/zzsim/rt"
)

// bystander uses objects of its own: whatever it shares with the others is shared by the
// library behind their backs.
func bystander(x *hk.X, r *hk.Rng) {
	for i, n := 0, r.R(1, 3); i < n; i++ {
		switch r.N(6) {
		case 0:
			b := circuitbreaker.NewSyncCircuitBreaker(1, time.Duration(10*ms))
			for k := 0; k < 3; k++ {
				b.Do(func() error { return errTask }, func(error) {}, func() {})
				rt.Sleep(6 * ms)
			}
		case 1:
			var s concurrent.Semaphore = concurrent.NewChanSemaphore(2)
			if r.P(1, 2) {
				s = concurrent.NewLockSemaphore(2)
			}
			s.Acquire()
			s.TryAcquire()
			s.TryAcquire()
			s.Release()
			s.Release()
		case 2:
			b := event.NewFanOutBus(1)
			b.GoDispatch()
			c := b.NewRecv("a", 2)
			rt.SendTo(b.C)(interface{}(1))
			rt.Sleep(ms)
			c.Drain()
			c.Close()
			b.Close()
		case 3:
			t := mkTask("a", int64(r.N(4)))
			m := schedule.NewTaskManager()
			m.Register(t)
			rt.Sleep(12 * ms)
			m.Unregister("a")
		case 4:
			var l ratelimiter.Interface
			switch r.N(4) {
			case 0:
				l = ratelimiter.NewSyncFixedWindow(2, 10*time.Millisecond)
			case 1:
				l = ratelimiter.NewSyncSlidingWindow(2, 10*time.Millisecond)
			case 2:
				l = ratelimiter.NewSyncTokenBucket(2, 100)
			case 3:
				l = ratelimiter.NewAtomicTokenBucket(2, 100)
			}
			for k := 0; k < 4; k++ {
				l.Acquire()
				rt.Sleep(4 * ms)
			}
		case 5:
			s := confstore.NewStore(confstore.NoopPersister, confstore.NewSimpleLoadPolicy())
			s.RegisterKey("a", "1", confstore.IntProcessor(0, true, 9, true))
			s.RegisterKey("b", "x", confstore.StringProcessor(1, 9))
			s.Update("a", "2")
			s.Update("a", "bad")
			s.GetValue("a")
			s.MustGetValueString("b")
			s.BatchUpdate([]*confstore.KVStr{{Key: "a", Value: "3"}})
			s.BatchGetValues([]string{"a", "b"})
			s.ResetKey("a")
			s.DeregisterKey("b")
		}
	}
}
