//go:build go1.21

package main

import (
	"fmt"
	"time"

	rl "github.com/chanjarster/gears/ratelimiter"
	"github.com/chanjarster/gears/zzsim/hk"
	rt "github.com/chanjarster/gears/zzsim/rt"
	"github.com/chanjarster/gears/zzsim/sredis"
	"github.com/go-redis/redis/v7"
)

// bystander uses a limiter with other parameters in another Redis server, alone, for keys
// with the same names.
func bystander(x *hk.X, r *hk.Rng) {
	if r.P(1, 2) {
		rt.Sleep(r.R64(0, sec))
	}
	net := &sredis.Net{S: sredis.NewServer(), X: x, DialTO: dialTO}
	cl := redis.NewClient(&redis.Options{Addr: "other:6379", Dialer: net.Dial, DialTimeout: time.Duration(dialTO), ReadTimeout: time.Duration(readTO), IdleTimeout: -1})
	defer cl.Close()
	prm := &params{r.R(1, 4), 100000, 200000 + r.N(3)}
	var l rl.TtlRateLimiter
	if r.P(1, 2) {
		l = rl.NewRedisTtlRateLimiter(cl, prm)
	} else {
		net.ClusterMode = true
		l = rl.NewRedisTtlRateLimiterCluster(cl, prm, "other")
	}
	if r.P(1, 2) {
		rl.LoadScript(cl)
	}
	if l.GetCapacity() != prm.cap || l.GetWindowSizeSeconds() != prm.win || l.GetTimeoutSeconds() != prm.exp {
		x.Fail("others", "a limiter made with %+v reports capacity %d window %d timeout %d", *prm, l.GetCapacity(), l.GetWindowSizeSeconds(), l.GetTimeoutSeconds())
	}
	key := keyNames[r.N(3)]
	for i := 0; i <= prm.cap+1; i++ {
		t0 := rt.Mono()
		msg := fmt.Sprint("other", i)
		got := l.ShouldBlock(key, msg)
		if rt.Mono()-t0 > sec/2 {
			return
		}
		switch {
		case got == nil:
			x.Fail("others", "no result")
		case i < prm.cap && got.Block:
			x.Fail("others", "request %d of a limiter nobody else uses (capacity %d) was blocked: %+v", i+1, prm.cap, *got)
		case i == prm.cap && !(got.Block && got.Triggered && got.Msg == msg && got.Ttl == prm.exp):
			x.Fail("others", "request %d of a limiter nobody else uses (capacity %d, timeout %d) got %+v", i+1, prm.cap, prm.exp, *got)
		case i > prm.cap && !(got.Block && !got.Triggered && got.Msg == fmt.Sprint("other", prm.cap)):
			x.Fail("others", "request %d of a limiter nobody else uses (capacity %d, timeout %d) got %+v", i+1, prm.cap, prm.exp, *got)
		}
		if x.Failed() {
			return
		}
		if r.P(1, 3) {
			rt.Sleep(r.R64(0, sec))
		}
	}
}
