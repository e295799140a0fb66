//go:build go1.21

package main

import (
	"bufio"
	"context"
	"fmt"
	"net"
	"net/http"
	"time"

	"github.com/chanjarster/gears/confs"
	"github.com/chanjarster/gears/zzsim/hk"
	rt "github.com/chanjarster/gears/zzsim/rt"
	"github.com/chanjarster/gears/zzsim/snet"
	"github.com/valyala/fasthttp"
)

// bystander is another client, for another server, with a configuration of its own.
func bystander(x *hk.X, r *hk.Rng) {
	rt.Sleep(r.Pick(1, 1000, ms, 500*ms))
	conf := &confs.FastHttpClientConf{ReadTimeout: 31 * time.Second, WriteTimeout: 32 * time.Second, MaxConnDuration: time.Duration(r.R64(3000, 4000) * sec),
		MaxConnsPerHost: r.R(11, 99), MaxIdleConnDuration: time.Duration(r.R64(100, 200) * sec), MaxConnWaitTimeout: 33 * time.Second, SslTrustMode: r.PickS("", "OS", "INSECURE")}
	name := fmt.Sprint("other/", r.N(10))
	hc := confs.NewFastHttpClient(conf, func(c *fasthttp.Client) { c.Name = name })
	if !rt.On() {
		return
	}
	look := func() {
		switch {
		case hc.MaxConnsPerHost != conf.MaxConnsPerHost || hc.MaxIdleConnDuration != conf.MaxIdleConnDuration || hc.MaxConnDuration != conf.MaxConnDuration || hc.Name != name ||
			hc.ReadTimeout != conf.ReadTimeout || hc.WriteTimeout != conf.WriteTimeout || hc.MaxConnWaitTimeout != conf.MaxConnWaitTimeout:
			x.Fail("others", "another client made from %+v has MaxConnsPerHost %d, MaxIdleConnDuration %v, MaxConnDuration %v, ReadTimeout %v, WriteTimeout %v, MaxConnWaitTimeout %v, name %s",
				*conf, hc.MaxConnsPerHost, hc.MaxIdleConnDuration, hc.MaxConnDuration, hc.ReadTimeout, hc.WriteTimeout, hc.MaxConnWaitTimeout, hc.Name)
		case hc.TLSConfig != nil && conf.SslTrustMode != "INSECURE" && hc.TLSConfig.InsecureSkipVerify:
			x.Fail("others", "another client made with trust mode %q trusts everybody", conf.SslTrustMode)
		case conf.SslTrustMode == "INSECURE" && (hc.TLSConfig == nil || !hc.TLSConfig.InsecureSkipVerify):
			x.Fail("others", "another client made with trust mode INSECURE does not trust everybody")
		case hc.TLSConfig != nil && (len(hc.TLSConfig.Certificates) > 0 || hc.TLSConfig.RootCAs != nil):
			x.Fail("others", "another client made with trust mode %q and no files has certificates", conf.SslTrustMode)
		}
	}
	look()
	nw := &snet.Net{X: x, HangTO: 20 * sec}
	nw.Listen("other.sim:80", func(c *snet.Conn) {
		br := bufio.NewReader(c)
		for rt.On() {
			req, err := http.ReadRequest(br)
			if err != nil {
				return
			}
			b := "other " + req.URL.Query().Get("id")
			fmt.Fprintf(c, "HTTP/1.1 200 OK\r\nContent-Length: %d\r\n\r\n%s", len(b), b)
		}
	})
	hc.Dial = func(a string) (net.Conn, error) { return nw.Dial(context.Background(), "tcp", a) }
	for i, n := 0, r.R(1, 4); i < n && !x.Failed(); i++ {
		code, body, err := hc.Get(nil, fmt.Sprintf("http://other.sim/?id=%d", i))
		if !rt.On() {
			return
		}
		if err != nil || code != 200 || string(body) != fmt.Sprint("other ", i) {
			x.Fail("others", "another client got %d %q %v for request %d", code, body, err, i)
			return
		}
		rt.Sleep(r.Pick(1, ms, 500*ms))
	}
	look()
}
