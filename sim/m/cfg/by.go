//go:build go1.21

package main

import (
	"encoding/base64"
	"fmt"
	"net/http/httptest"
	"time"

	"github.com/chanjarster/gears/confs"
	"github.com/chanjarster/gears/zzsim/hk"
	rt "github.com/chanjarster/gears/zzsim/rt"
	"github.com/chanjarster/gears/zzsim/sredis"
	"github.com/gin-contrib/pprof"
	"github.com/gin-gonic/gin"
	"github.com/go-redis/redis/v7"
	routing "github.com/qiangxue/fasthttp-routing"
	"github.com/valyala/fasthttp"
)

// byPprof is another application in the same process with other credentials.
func byPprof(x *hk.X, r *hk.Rng) {
	user, pass := r.PickS("other", "admin", "ops"), r.PickS("otherpw", "secret3")
	c := &confs.PprofConf{Username: user, Password: pass}
	if r.P(1, 4) {
		c.Username, c.Password = "", ""
	}
	fast := routing.New()
	fast.Any("/debug/pprof/*", confs.NewFasthttpRoutingPprofHandler(c))
	eng := gin.New()
	pprof.RouteRegister(eng.Group("", confs.NewGinPprofBasicAuthFilter(c)))
	for i, n := 0, r.R(1, 4); i < n; i++ {
		rt.YH()
		ok := r.P(1, 2)
		cr := user + ":" + pass
		if !ok {
			cr = r.PickS(ppUsers...) + ":" + r.PickS(ppPasses...)
		}
		auth := "Basic " + base64.StdEncoding.EncodeToString([]byte(cr))
		path := "/debug/pprof/cmdline"
		code, body, kind := 0, 0, "fast"
		if r.P(1, 2) {
			ctx := &fasthttp.RequestCtx{}
			ctx.Request.Header.SetMethod("GET")
			ctx.Request.SetRequestURI(path)
			ctx.Request.Header.Set("Authorization", auth)
			fast.HandleRequest(ctx)
			code, body = ctx.Response.StatusCode(), len(ctx.Response.Body())
		} else {
			kind = "gin"
			w := httptest.NewRecorder()
			rq := httptest.NewRequest("GET", path, nil)
			rq.Header.Set("Authorization", auth)
			eng.ServeHTTP(w, rq)
			code, body = w.Code, w.Body.Len()
		}
		if !rt.On() {
			return
		}
		if good := ok && c.Username != ""; good != (code == 200 && body > 0) {
			x.Fail("others", "%s request with %q to another application of the process (configured %q:%q): status %d", kind, cr, c.Username, c.Password, code)
			return
		}
	}
}

// byRedis is another client for another server.
func byRedis(x *hk.X, r *hk.Rng) {
	rt.Sleep(r.Pick(1, 1000, ms, 500*ms))
	rc := &confs.RedisConf{Host: "other", Port: 6390, Password: r.PickS("", "otherpw"), Pool: r.R(1, 5), Db: r.R(1, 9)}
	srv := sredis.NewServer()
	srv.Pass = rc.Password
	nw := &sredis.Net{S: srv, X: x, DialTO: 500 * ms}
	nw.OnCmd = func(args []string, db int, authed bool) {
		if (args[0] == "get" || args[0] == "set") && db != rc.Db {
			x.Fail("others", "%v executed on database %d of another server, configured %d", args, db, rc.Db)
		}
	}
	var c *redis.Client
	pan := hk.Catch(func() {
		c = confs.NewRedisClient(rc, func(o *redis.Options) {
			o.Dialer, o.IdleCheckFrequency, o.MaxRetries = nw.Dial, -1, -1
			o.DialTimeout = 500 * time.Millisecond
		})
	})
	if !rt.On() {
		return
	}
	if pan != nil || c == nil {
		x.Fail("others", "another client, for another server that is fine, could not be made: %v", pan)
		return
	}
	if o := c.Options(); o.Addr != "other:6390" || o.PoolSize != rc.Pool || o.DB != rc.Db || o.Password != rc.Password {
		x.Fail("others", "another client has address %s, database %d, pool size %d; configured %+v", o.Addr, o.DB, o.PoolSize, *rc)
	}
	for i, n := 0, r.R(1, 4); i < n; i++ {
		k, v := fmt.Sprintf("k%d-%d", r.N(2), r.N(3)), fmt.Sprint("other", i)
		e := c.Set(k, v, 0).Err()
		got, e2 := c.Get(k).Result()
		if !rt.On() {
			return
		}
		if e != nil || e2 != nil || got != v {
			x.Fail("others", "another client has set %s to %s and read %q (%v, %v)", k, v, got, e, e2)
			return
		}
		rt.Sleep(r.Pick(1, ms, 100*ms))
	}
	c.Close()
	if n := nw.Open(); n > 0 && rt.On() {
		x.Fail("others", "another client has %d connections open after Close", n)
	}
}
