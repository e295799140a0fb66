//go:build go1.21

// Profiling endpoints behind basic authentication (C34): concurrent clients of a
// fasthttp-routing and of a gin application.
package main

import (
	"encoding/base64"
	"fmt"
	"io"
	"log"
	"net/http"
	"net/http/httptest"
	"os"
	"strings"

	"github.com/chanjarster/gears/confs"
	"github.com/chanjarster/gears/zzsim/hk"
	rt "github.com/chanjarster/gears/zzsim/rt"
	"github.com/gin-contrib/pprof"
	"github.com/gin-gonic/gin"
	routing "github.com/qiangxue/fasthttp-routing"
	"github.com/valyala/fasthttp"
)

var ppUsers = []string{"admin", "ops", "root@corp", "ünï", "a b", "Ops"}
var ppPasses = []string{"secret", "s3cr:et", "pass=word==", "密码", "p w", ":", "secret2", "SECRET", " tail "}

func genPprof(r *hk.Rng) *hk.Plan {
	p := &hk.Plan{Cfg: map[string]int64{"user": int64(r.N(len(ppUsers) + 1)), "pass": int64(r.N(len(ppPasses) + 1)), "two": int64(r.N(3)), "block": r.Pick(0, 1, 10000), "mutex": r.Pick(0, 1, 7)}}
	if r.P(3, 4) {
		p.Cfg["user"], p.Cfg["pass"] = int64(1+r.N(len(ppUsers))), int64(1+r.N(len(ppPasses)))
	}
	for t, n := 0, r.R(1, 4); t < n; t++ {
		var ops []hk.Op
		for i, m := 0, r.R(1, 5); i < m; i++ {
			k := int64(r.N(16))
			if r.P(1, 3) {
				k = 0
			}
			ops = append(ops, hk.Op{K: r.PickS("fast", "gin"), A: k, B: int64(r.N(3)), C: int64(r.N(40))})
		}
		p.Ops = append(p.Ops, ops)
	}
	p.Sim = hk.GenSim(r, 300, false, 0)
	return p
}

// creds is the Authorization header of an attempt and whether it carries the credentials.
func creds(k int64, n int, user, pass string) (h string, good bool) {
	b := func(s string) string { return "Basic " + base64.StdEncoding.EncodeToString([]byte(s)) }
	on := user != "" && pass != ""
	switch k {
	case 0:
		return b(user + ":" + pass), on
	case 1:
		return "", false
	case 2:
		return b(user + ":" + pass + "x"), false
	case 3:
		return b(user + "x:" + pass), false
	case 4:
		return b(user + ":"), pass == "" && on
	case 5:
		return b(":" + pass), false
	case 6:
		return b(user), false
	case 7:
		return b(user + pass), false
	case 8:
		return b(pass + ":" + user), on && user == pass
	case 9:
		return "Basic " + strings.Repeat("%", 1+n%5), false
	case 10: // another user's password
		u, q := ppUsers[n%len(ppUsers)], ppPasses[n%len(ppPasses)]
		return b(u + ":" + q), on && u == user && q == pass
	case 11:
		if len(pass) < 2 {
			return b(user + "::" + pass), false
		}
		return b(user + ":" + pass[:len(pass)-1]), false
	case 12:
		return b(":"), false
	case 14: // nearly the right ones
		u, q := user, pass
		switch n % 6 {
		case 0:
			u = strings.ToUpper(u)
		case 1:
			u = strings.ToLower(u)
		case 2:
			q = strings.ToUpper(q)
		case 3:
			q = q + " "
		case 4:
			q = strings.TrimSpace(q)
		case 5:
			u = u + " "
		}
		return b(u + ":" + q), on && u == user && q == pass
	case 13: // the right ones, damaged
		s := b(user + ":" + pass)
		return s[:len(s)-1-n%3] + "*", false
	}
	return "Bearer " + base64.StdEncoding.EncodeToString([]byte("token")), false
}

func runPprof(p *hk.Plan, x *hk.X) {
	gin.SetMode(gin.ReleaseMode)
	oArgs := os.Args
	os.Args = []string{"the-profiled-application"}
	defer func() {
		os.Args = oArgs
	}()
	log.SetOutput(io.Discard)
	cf := &confs.PprofConf{BlockProfileRate: p.I("block"), MutexProfileFraction: p.I("mutex")}
	rt.ProfBlock, rt.ProfMutex = 0, 0
	rates := func(what string) {
		if p.C("by") == 0 && cf.Username != "" && cf.Password != "" && (rt.ProfBlock != cf.BlockProfileRate || rt.ProfMutex != cf.MutexProfileFraction) {
			x.Fail("rates", "%s: the process is profiled with block rate %d and mutex fraction %d, configured are %d and %d", what, rt.ProfBlock, rt.ProfMutex, cf.BlockProfileRate, cf.MutexProfileFraction)
		}
	}
	if n := p.I("user"); n > 0 {
		cf.Username = ppUsers[n-1]
	}
	if n := p.I("pass"); n > 0 {
		cf.Password = ppPasses[n-1]
	}
	fast := routing.New()
	fast.Any("/debug/pprof/*", confs.NewFasthttpRoutingPprofHandler(cf))
	rates("NewFasthttpRoutingPprofHandler")
	if p.C("two") == 1 { // another application in the same process has other credentials
		o := &confs.PprofConf{Username: "other", Password: "otherpw", BlockProfileRate: 3, MutexProfileFraction: 4}
		routing.New().Any("/debug/pprof/*", confs.NewFasthttpRoutingPprofHandler(o))
		confs.NewGinPprofBasicAuthFilter(o)
	}
	eng := gin.New()
	g := eng.Group("", confs.NewGinPprofBasicAuthFilter(cf))
	rates("NewGinPprofBasicAuthFilter")
	pprof.RouteRegister(g)
	x.RunOpsDone(func(t int) func(op hk.Op) {
		ctx := &fasthttp.RequestCtx{}
		return func(op hk.Op) {
			auth, good := creds(op.A, int(op.C), cf.Username, cf.Password)
			path := "/debug/pprof/cmdline"
			rt.Rec("request", int64(t), 0, op.K+" "+auth, nil)
			code, body, challenge := 0, "", ""
			var pan interface{}
			if op.K == "fast" {
				if op.B == 0 {
					ctx = &fasthttp.RequestCtx{}
				}
				ctx.Request.Reset()
				ctx.Response.Reset()
				ctx.Request.Header.SetMethod("GET")
				ctx.Request.SetRequestURI(path)
				if auth != "" {
					ctx.Request.Header.Set("Authorization", auth)
				}
				pan = hk.Catch(func() { fast.HandleRequest(ctx) })
				code, body = ctx.Response.StatusCode(), string(ctx.Response.Body())
				challenge = string(ctx.Response.Header.Peek("WWW-Authenticate"))
			} else {
				w := httptest.NewRecorder()
				rq := httptest.NewRequest("GET", path, nil)
				if auth != "" {
					rq.Header.Set("Authorization", auth)
				}
				pan = hk.Catch(func() { eng.ServeHTTP(w, rq) })
				code, body = w.Code, w.Body.String()
				challenge = w.Header().Get("WWW-Authenticate")
			}
			if !rt.On() {
				return
			}
			what := fmt.Sprintf("%s request with %q (configured %q:%q)", op.K, auth, cf.Username, cf.Password)
			if pan != nil {
				x.Fail("panic", "%s panicked: %v", what, pan)
				return
			}
			got := strings.Contains(body, "the-profiled-application")
			rt.Rec("response", int64(code), b2i(got), "", nil)
			if got != good {
				x.Fail("access", "%s: served=%v, status %d", what, got, code)
				return
			}
			on := cf.Username != "" && cf.Password != ""
			switch {
			case good && code != http.StatusOK:
				x.Fail("status", "%s: served with status %d", what, code)
			case on && !good && (code != http.StatusUnauthorized || !strings.HasPrefix(challenge, "Basic ")):
				x.Fail("status", "%s: refused with status %d and challenge %q", what, code, challenge)
			}
			x.Probe(fmt.Sprintf("%s enabled=%v served=%v", op.K, on, got))
		}
	})
	x.Join()
}
