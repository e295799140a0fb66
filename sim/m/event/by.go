//go:build go1.21

package main

import (
	"fmt"

	"github.com/chanjarster/gears/event"
	"github.com/chanjarster/gears/zzsim/hk"
	rt "github.com/chanjarster/gears/zzsim/rt"
)

// bystander uses another bus whose receivers have the same names.
func bystander(x *hk.X, r *hk.Rng) {
	bus := event.NewFanOutBus(r.N(3))
	bus.GoDispatch()
	n, k := r.R(1, 5), r.R(1, 3)
	total, ends := 0, 0
	names := append([]string(nil), "R0", "R1", "R2", "D0", "D1", "x", "y")
	var rs []*event.Receiver
	for i := 0; i < k; i++ {
		j := r.N(len(names))
		name := names[j]
		names = append(names[:j], names[j+1:]...)
		rc := bus.NewRecvStrategy(name, r.N(3), event.Block)
		rs = append(rs, rc)
		rt.Spawn("byrecv", func() {
			for m := 0; ; m++ {
				v, ok := rt.Recv2(rc.C)
				if !ok {
					if m != n {
						x.Fail("others", "receiver %s of a bus nobody else uses was closed after %d of %d events", name, m, n)
					}
					break
				}
				if v != interface{}(fmt.Sprint("by", m)) {
					x.Fail("others", "receiver %s of a bus nobody else uses got %v, want by%d", name, v, m)
					break
				}
				total++
			}
			ends++
		})
	}
	for i := 0; i < n; i++ {
		rt.SendTo(bus.C)(interface{}(fmt.Sprint("by", i)))
		rt.YH()
	}
	for i := 0; total < n*k; i++ {
		if i == 1000 {
			x.Fail("others", "the %d receivers of a bus nobody else uses got %d of %d events", k, total, n*k)
			return
		}
		rt.Sleep(ms)
	}
	if r.P(1, 2) {
		rs[r.N(k)].Close()
	}
	bus.Close()
	for i := 0; ends < k; i++ {
		if i == 1000 {
			x.Fail("others", "a receiver of a bus nobody else uses was not closed by Close of the bus")
			return
		}
		rt.Sleep(ms)
	}
}

const ms = int64(1e6)
