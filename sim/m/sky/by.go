//go:build go1.21

package main

import (
	"context"
	"fmt"
	"strings"

	"github.com/SkyAPM/go2sky"
	swhttp "github.com/chanjarster/gears/skywalking/fasthttp"
	swroute "github.com/chanjarster/gears/skywalking/fasthttp-routing"
	swredis "github.com/chanjarster/gears/skywalking/redis"
	"github.com/chanjarster/gears/zzsim/hk"
	rt "github.com/chanjarster/gears/zzsim/rt"
	"github.com/chanjarster/gears/zzsim/sredis"
	"github.com/go-redis/redis/v7"
	routing "github.com/qiangxue/fasthttp-routing"
	"github.com/valyala/fasthttp"
)

// bystander traces with another tracer, hook, middleware and helper, all with options of their own.
func bystander(x *hk.X, r *hk.Rng) {
	col := &collector{}
	tr, err := go2sky.NewTracer("other", go2sky.WithInstance("other"), go2sky.WithReporter(col))
	if err != nil {
		return
	}
	logs, args := r.P(1, 2), r.P(1, 2)
	want := map[string]int{} // operation and peer of the exit and entry spans
	if r.P(1, 2) {
		o := []swredis.Option{swredis.WithAddr("other-peer:9"), swredis.WithDb(9)}
		if logs {
			o = append(o, swredis.WithLogError())
		}
		if args {
			o = append(o, swredis.WithArgsReport())
		}
		net := &sredis.Net{S: sredis.NewServer(), X: x, DialTO: 500 * ms}
		net.S.HSetDirect("arghash", "f", "v")
		cl := redis.NewClient(&redis.Options{Addr: "other:6379", Dialer: net.Dial, IdleTimeout: -1, MaxRetries: -1})
		cl.AddHook(swredis.NewHook(tr, o...))
		root, ctx, err := tr.CreateLocalSpan(context.Background(), go2sky.WithOperationName("other"))
		if err != nil {
			return
		}
		c := cl.WithContext(ctx)
		for i, n := 0, r.R(1, 4); i < n; i++ {
			rt.YH()
			if r.P(1, 3) {
				c.Get("arghash") // wrong type
				want["get other-peer:9 true"]++
			} else {
				c.Set("argother", fmt.Sprint("arg", i), 0)
				want["set other-peer:9 false"]++
			}
		}
		root.End()
		cl.Close()
	} else {
		var o []swhttp.Option
		var ro []swroute.Option
		if logs {
			ro = append(ro, swroute.WithLogError())
		}
		if args {
			o, ro = append(o, swhttp.WithLog4xxBody()), append(ro, swroute.WithLog4xxBody())
		}
		help := swhttp.NewClientSpanHelper(tr, o...)
		rtr := routing.New()
		rtr.Use(swroute.NewMiddleware(tr, ro...))
		rtr.Get("/other/<id>", func(c *routing.Context) error {
			rt.YH()
			var req fasthttp.Request
			var res fasthttp.Response
			req.SetRequestURI("http://peer/out")
			sp, err := help.CreateSpan(swroute.GetSwContext(c), &req)
			if err != nil {
				x.Fail("others", "CreateSpan of a helper nobody else uses: %v", err)
				return nil
			}
			rt.YH()
			res.SetStatusCode(404)
			res.SetBodyString("text of other")
			help.EndSpan(sp, &res)
			want["GET:/out peer true"]++
			if c.Param("id") == "bad" {
				return fmt.Errorf("text of other")
			}
			return nil
		})
		for i, n := 0, r.R(1, 3); i < n; i++ {
			id := r.PickS("good", "bad")
			var req fasthttp.Request
			req.SetRequestURI("http://host/other/" + id)
			c := &fasthttp.RequestCtx{}
			c.Init(&req, nil, quiet{})
			rtr.HandleRequest(c)
			want[fmt.Sprintf("entry %v", id == "bad")]++
		}
	}
	for i := 0; i < 50 && len(col.segs) == 0; i++ {
		rt.Sleep(sec)
	}
	rt.Sleep(5 * sec)
	got := map[string]int{}
	for _, sg := range col.segs {
		for _, s := range sg {
			k := ""
			switch go2sky.SpanType(s.SpanType()) {
			case go2sky.SpanTypeExit:
				k = fmt.Sprintf("%s %s %v", s.OperationName(), s.Peer(), s.IsError())
			case go2sky.SpanTypeEntry:
				k = fmt.Sprintf("entry %v", s.IsError())
			default:
				continue
			}
			got[k]++
			logged := strings.Contains(logText(s), "WRONGTYPE") || strings.Contains(logText(s), "text of other")
			wantLog := logs
			if strings.HasPrefix(k, "GET:") {
				wantLog = args
			}
			if s.IsError() && logged != wantLog {
				x.Fail("others", "span %s of a tracer nobody else uses: logs of errors %v", show(s), wantLog)
			}
			if st := tag(s, go2sky.TagDBStatement); st != "" && strings.Contains(st, "arg") != args {
				x.Fail("others", "span %s of a tracer nobody else uses: arguments %v", show(s), args)
			}
		}
	}
	if fmt.Sprint(got) != fmt.Sprint(want) {
		x.Fail("others", "a tracer nobody else uses reported %v, want %v", got, want)
	}
}
