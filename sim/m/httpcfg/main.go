//go:build go1.21

// HTTP clients made from a configuration (C37): fasthttp over a simulated network
// to simulated HTTP/1.1 servers, with real TLS.
package main

import (
	"bufio"
	"context"
	"crypto/tls"
	"crypto/x509"
	"errors"
	"fmt"
	"io"
	"log"
	"net"
	"net/http"
	"os"
	"runtime"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/chanjarster/gears/confs"
	"github.com/chanjarster/gears/simplelog"
	"github.com/chanjarster/gears/zzsim/hk"
	rt "github.com/chanjarster/gears/zzsim/rt"
	"github.com/chanjarster/gears/zzsim/snet"
	"github.com/valyala/fasthttp"
)

const (
	ms  = int64(1e6)
	sec = int64(1e9)
)

// fatalWriter turns log.Fatal into the end of the simulated process.
type fatalWriter struct{}

func (fatalWriter) Write(b []byte) (int, error) {
	pc := make([]uintptr, 24)
	fr := runtime.CallersFrames(pc[:runtime.Callers(2, pc)])
	for {
		f, more := fr.Next()
		if strings.Contains(f.Function, "log.") && strings.Contains(f.Function, ".Fatal") {
			panic(rt.Exit{Code: 1})
		}
		if !more {
			return len(b), nil
		}
	}
}

// seen is what a server saw of a connection.
type seen struct {
	c     *snet.Conn
	reqs  int
	busy  bool
	aged  bool  // a request came after MaxConnDuration
	reply int64 // when the last reply was written
	bye   bool  // the client or the server asked to close it
}

type server struct {
	x     *hk.X
	nw    *snet.Net
	max   int   // connections open at a time
	dur   int64 // MaxConnDuration
	idle  int64
	lat   int64
	tls   *tls.Config
	agent string
	done  map[string]int // times a request was served
	conns map[int]*seen
	last  int // connection of the last request
	what  string
}

// limit: what is open, when everything that happens at this instant has happened.
func (s *server) limit() {
	rt.SimTimer(1000, func() {
		if n := s.nw.Open(); n > s.max && !s.x.Failed() && rt.On() {
			s.x.Fail("open-conns", "%s: %d connections to one host are open, MaxConnsPerHost is %d", s.what, n, s.max)
		}
	})
}

func (s *server) serve(c *snet.Conn) {
	s.limit()
	w := &seen{c: c, reply: rt.Mono()}
	s.conns[c.ID] = w
	var conn net.Conn = c
	if s.tls != nil {
		conn = tls.Server(c, s.tls)
	}
	br := bufio.NewReader(conn)
	for rt.On() {
		if _, err := br.Peek(1); err != nil {
			return
		}
		// the request was sent now or a little earlier
		if age := rt.Mono() - c.MadeAt; s.dur > 0 && w.reqs > 0 && age > s.dur+6*s.lat {
			if w.aged {
				s.x.Fail("conn-duration", "%s: a connection %v old carries another request, MaxConnDuration is %v", s.what, time.Duration(age), time.Duration(s.dur))
			}
			w.aged = true
		}
		if left := rt.Mono() - w.reply; w.reqs > 0 && left > 2*s.idle+8*s.lat {
			s.x.Fail("idle-duration", "%s: a connection that was idle for %v is used, MaxIdleConnDuration is %v", s.what, time.Duration(left), time.Duration(s.idle))
		}
		w.reqs++
		s.last = c.ID
		req, err := http.ReadRequest(br)
		if err != nil {
			return
		}
		w.busy = true
		q := req.URL.Query()
		id := q.Get("id")
		rt.Rec("request", int64(c.ID), 0, id, nil)
		if s.agent != "" && req.Header.Get("User-Agent") != s.agent {
			s.x.Fail("customizer", "%s: the user agent is %q, the customizer has set %q", s.what, req.Header.Get("User-Agent"), s.agent)
		}
		if d, _ := strconv.ParseInt(q.Get("hold"), 10, 64); d > 0 {
			rt.Sleep(d)
		}
		body, err := io.ReadAll(req.Body)
		if err != nil {
			return
		}
		s.done[id]++
		if d, _ := strconv.ParseInt(q.Get("think"), 10, 64); d > 0 {
			rt.Sleep(d)
		}
		rep := fmt.Sprintf("%s %d %d ", id, len(body), sum(body))
		if n, _ := strconv.Atoi(q.Get("size")); n > 0 {
			rep += strings.Repeat("y", n)
		}
		end := req.Close || q.Get("bye") != ""
		hd := ""
		if end {
			hd = "Connection: close\r\n"
			w.bye = true
		}
		if _, err := io.WriteString(conn, fmt.Sprintf("HTTP/1.1 200 OK\r\nContent-Length: %d\r\n%sX-Id: %s\r\n\r\n%s", len(rep), hd, id, rep)); err != nil {
			return
		}
		w.busy, w.reply = false, rt.Mono()
		if end {
			if s.tls != nil {
				conn.Close()
			}
			return
		}
	}
}

func sum(b []byte) (h uint32) {
	for _, c := range b {
		h = h*31 + uint32(c)
	}
	return
}

func pattern(id string, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i*7) ^ id[i%len(id)]
	}
	return b
}

const dir = "/etc/app/"

// gen: kind 0: load without TLS, 1: one user, 2: TLS
func gen(kind int64) func(r *hk.Rng) *hk.Plan {
	return func(r *hk.Rng) *hk.Plan {
		p := &hk.Plan{Cfg: map[string]int64{
			"kind": kind, "max": r.Pick(0, 1, 1, 2, 2, 3), "idle": r.Pick(0, 500, 2000, 2000, 30000) * ms, "dur": r.Pick(0, 0, 1000, 3000, 7000) * ms,
			"rto": r.Pick(0, 500, 1500, 4000) * ms, "wto": r.Pick(0, 600, 2000) * ms, "wait": r.Pick(0, 0, 200, 1000, 3000) * ms,
			"att": r.Pick(1, 1, 1, 0), "over": 0, "fault": r.Pick(0, 0, 1, 2), "win": r.Pick(0, 0, 16384), "latmin": r.Pick(0, 1, 3) * ms, "latmax": r.Pick(3, 10) * ms,
			"mode": 0,
		}}
		if r.P(1, 4) {
			p.Cfg["over"] = int64(r.R(1, 4))
		}
		n := r.R(1, 5)
		if kind == 1 {
			n = 1
			p.Cfg["fault"] = 0
		}
		if kind == 2 {
			n = r.R(1, 2)
			p.Cfg["tls"], p.Cfg["win"] = 1, 0
			p.Cfg["fault"] = r.Pick(0, 0, 0, 2)
			p.Cfg["mode"] = int64(r.N(5)) // "", OS, INSECURE, CUSTOM, something else
			if r.P(1, 3) {
				p.Cfg["mode"] = 3
			}
			p.Cfg["trust"] = int64(r.N(8)) // which roots, if CUSTOM: bits for roots 1..3
			p.Cfg["sign"] = int64(r.N(4))  // who signed the server's certificate (0: a root of the system)
			p.Cfg["name"] = r.Pick(0, 0, 0, 1)
			p.Cfg["v12"] = int64(r.N(2))
			p.Cfg["client"] = r.Pick(0, 0, 1)    // the client has a certificate
			p.Cfg["require"] = r.Pick(0, 0, 1)   // the server asks for one
			p.Cfg["bundle"] = r.Pick(0, 0, 0, 1) // all roots in one file
			p.Cfg["files"] = 0
			if r.P(1, 6) {
				p.Cfg["files"] = int64(r.R(1, 8))
			}
		}
		for t := 0; t < n; t++ {
			var ops []hk.Op
			m := r.R(1, 7)
			if kind == 2 {
				m = r.R(1, 3)
			}
			if kind == 1 {
				m += 3
			}
			for i := 0; i < m; i++ {
				id := int64(t*100 + i + 1)
				if kind == 1 && r.P(1, 2) { // short requests at intervals that matter
					id += 1000
					d := p.Cfg["idle"]
					if r.P(1, 2) && p.Cfg["dur"] > 0 {
						d = p.Cfg["dur"]
					}
					if d == 0 {
						d = 10 * sec
					}
					ops = append(ops, hk.Op{K: "get", B: id}, hk.Op{K: "sleep", A: d * r.Pick(1, 5, 8, 9, 11, 22) / 10})
				}
				switch r.N(10) {
				case 0, 1, 2:
					ops = append(ops, hk.Op{K: "sleep", A: r.Pick(r.R64(0, 400), r.R64(0, 400), r.R64(0, 3000), 1200, 5000, 20000) * ms})
				case 3, 4:
					ops = append(ops, hk.Op{K: "get", A: r.Pick(0, 20, 300, 1000, 2500, 6000) * ms, B: id})
				case 5:
					ops = append(ops, hk.Op{K: "post", A: r.Pick(0, 100, 900) * ms, B: id, C: r.Pick(0, 10, 3000, 50000)})
				case 6:
					ops = append(ops, hk.Op{K: "hold", A: r.Pick(300, 1000, 3500) * ms, B: id, C: 60000})
				case 7:
					ops = append(ops, hk.Op{K: "bye", B: id})
				default:
					ops = append(ops, hk.Op{K: "get", B: id, C: r.Pick(0, 0, 100, 10000)})
				}
			}
			p.Ops = append(p.Ops, ops)
		}
		if p.C("fault") == 1 {
			ops := []hk.Op{{K: "faulter"}}
			for i, m := 0, r.R(1, 4); i < m; i++ {
				ops = append(ops, hk.Op{K: "sleep", A: r.R64(0, 500) * ms}, hk.Op{K: r.PickS("break", "restart", "part"), A: r.R64(1, 800) * ms})
			}
			p.Ops = append(p.Ops, ops)
		}
		p.Sim = hk.GenSim(r, 3000, false, 0)
		p.Sim.MaxSteps = 400000
		return p
	}
}

func run(p *hk.Plan, x *hk.X) {
	isTLS := p.C("tls") == 1
	host, scheme, port := "api.sim", "http", 80
	if isTLS {
		scheme, port = "https", 443
	}
	nw := &snet.Net{X: x, HangTO: 20 * sec, Window: p.I("win")}
	nw.F.LatMin, nw.F.LatMax = p.C("latmin"), p.C("latmax")
	lat := p.C("latmax")
	files := map[string]*rt.SimFile{}
	rt.SetProc(&rt.Proc{Env: map[string]string{"HOME": "/root"}, Files: files})
	defer rt.SetProc(nil)
	log.SetOutput(io.Discard)
	simplelog.ErrLogger.SetOutput(fatalWriter{})
	simplelog.StdLogger.SetOutput(io.Discard)

	conf := &confs.FastHttpClientConf{ReadTimeout: time.Duration(p.C("rto")), WriteTimeout: time.Duration(p.C("wto")), MaxConnDuration: time.Duration(p.C("dur")),
		MaxConnsPerHost: p.I("max"), MaxIdleConnDuration: time.Duration(p.C("idle")), MaxConnWaitTimeout: time.Duration(p.C("wait")),
		SslTrustMode: []string{"", "OS", "INSECURE", "CUSTOM", "other"}[p.I("mode")]}
	s := &server{x: x, nw: nw, done: map[string]int{}, conns: map[int]*seen{}, lat: lat}
	trusted, usable, clientOK := true, true, true
	if isTLS {
		cert := leafPem
		if p.C("name") == 1 {
			cert = otherPem
		}
		sign := p.I("sign")
		pair, err := tls.X509KeyPair([]byte(cert[sign]), []byte(leafKey[sign]))
		if err != nil {
			panic(err)
		}
		s.tls = &tls.Config{Certificates: []tls.Certificate{pair}, MaxVersion: tls.VersionTLS13, SessionTicketsDisabled: false}
		if p.C("v12") == 1 {
			s.tls.MaxVersion = tls.VersionTLS12
		}
		if p.C("require") == 1 {
			pool := x509.NewCertPool()
			pool.AppendCertsFromPEM([]byte(clientRootPem))
			s.tls.ClientAuth, s.tls.ClientCAs = tls.RequireAndVerifyClientCert, pool
			s.tls.VerifyPeerCertificate = func(raw [][]byte, _ [][]*x509.Certificate) error {
				if c, err := x509.ParseCertificate(raw[0]); err != nil || c.Subject.CommonName != "client 0" {
					x.Fail("client-cert", "the client presented another certificate than the configured one")
				}
				return nil
			}
			clientOK = p.C("client") == 1
		}
		for i, c := range rootPem {
			files[fmt.Sprintf("%sroot%d.pem", dir, i)] = &rt.SimFile{Data: []byte(c)}
		}
		files[dir+"client.pem"], files[dir+"client.key"] = &rt.SimFile{Data: []byte(clientPem[0])}, &rt.SimFile{Data: []byte(clientKey[0])}
		files[dir+"client1.key"] = &rt.SimFile{Data: []byte(clientKey[1])}
		if p.C("client") == 1 {
			conf.CertChain, conf.PrivateKey = dir+"client.pem", dir+"client.key"
		}
		var tr []string
		var bundle []byte
		for i := 1; i < 4; i++ {
			if p.I("trust")>>(i-1)&1 == 1 {
				tr = append(tr, fmt.Sprintf("%sroot%d.pem", dir, i))
				bundle = append(bundle, rootPem[i]...)
			}
		}
		if p.C("bundle") == 1 && len(tr) > 0 {
			files[dir+"bundle.pem"] = &rt.SimFile{Data: bundle}
			tr = []string{dir + "bundle.pem"}
		}
		conf.SslTrustCerts = strings.Join(tr, ",")
		switch {
		case p.C("mode") == 2:
		case p.C("mode") == 3 && len(tr) > 0:
			trusted = p.C("name") == 0 && sign > 0 && p.I("trust")>>(sign-1)&1 == 1
		case p.C("mode") == 3: // no certificate to trust is configured: the system's, or none
			trusted = p.C("name") == 0 && sign == 0
			if trusted {
				x.Inconclusive()
				return
			}
		default:
			trusted = p.C("name") == 0 && sign == 0
		}
		custom := p.C("mode") == 3 && len(tr) > 0
		f := p.C("files")
		switch {
		case f == 1 && p.C("client") == 1:
			delete(files, conf.CertChain)
		case f == 2 && p.C("client") == 1:
			conf.PrivateKey = dir + "client1.key"
		case f == 3 && p.C("client") == 1:
			files[conf.PrivateKey].Err = syscall.EACCES
		case f == 4 && p.C("client") == 1:
			conf.PrivateKey = ""
		case f == 8 && p.C("client") == 1:
			conf.CertChain = ""
		case f == 5 && custom:
			files[tr[len(tr)-1]] = &rt.SimFile{Data: []byte("-----BEGIN CERTIFICATE-----\nAAAA\n")}
		case f == 6 && custom:
			delete(files, tr[len(tr)-1])
		case f == 7 && custom:
			files[tr[0]].Cut = 20
		default:
			f = 0
		}
		if f > 0 {
			usable = false
			x.Fault("credential_file_bad")
		}
	}
	maxConns, idle, dur, rto, wto, wait := p.C("max"), p.C("idle"), p.C("dur"), p.C("rto"), p.C("wto"), p.C("wait")
	if idle == 0 {
		idle = 10 * sec
	}
	var cu confs.FastHttpClientCustomizer
	if over := p.C("over"); over > 0 {
		switch over {
		case 1:
			s.agent = "custom/1.0"
		case 2:
			maxConns = 1
		case 3:
			rto, wto = 2*sec, sec
		case 4:
			wait, idle, dur = 700*ms, 4*sec, 5*sec
		}
		cu = func(c *fasthttp.Client) {
			switch over {
			case 1:
				c.Name = "custom/1.0"
			case 2:
				c.MaxConnsPerHost = 1
			case 3:
				c.ReadTimeout, c.WriteTimeout = 2*time.Second, time.Second
			case 4:
				c.MaxConnWaitTimeout, c.MaxIdleConnDuration, c.MaxConnDuration = 700*time.Millisecond, 4*time.Second, 5*time.Second
			}
		}
	}
	if maxConns == 0 {
		maxConns = 512
	}
	s.max, s.idle, s.dur = int(maxConns), idle, dur
	what := fmt.Sprintf("NewFastHttpClient(%+v)", conf)
	s.what = what
	var hc *fasthttp.Client
	var pan interface{}
	x.Thread("main", func() {
		pan = hk.Catch(func() { hc = confs.NewFastHttpClient(conf, cu) })
		rt.Rec("constructed", b2i(pan == nil), 0, "", nil)
	})
	x.Join()
	if x.Failed() {
		return
	}
	switch _, crashed := pan.(runtime.Error); {
	case pan != nil && (usable || crashed):
		x.Fail("refused", "%s: %v", what, pan)
		return
	case pan == nil && (!usable || hc == nil):
		x.Fail("accepted", "%s: returned although a file cannot be used", what)
		return
	case pan != nil:
		x.Probe("process ended")
		return
	}
	hc.Dial = func(a string) (net.Conn, error) { return nw.Dial(context.Background(), "tcp", a) }
	hc.MaxIdemponentCallAttempts = p.I("att")
	h := nw.Listen(fmt.Sprintf("%s:%d", host, port), s.serve)
	faults := p.C("fault")
	if faults == 2 {
		n := 30
		nw.F.DialRefuse, nw.F.ResetReq, nw.F.ResetRep, nw.F.TornRep, nw.F.ShortRep = n, n, n, n, 2*n
		if rto > 0 && wto > 0 {
			nw.F.DropReq, nw.F.DropRep = n, n
		}
	}
	reach := trusted && clientOK
	solo := len(p.Ops) == 1 && faults == 0
	prev := (*seen)(nil)
	inflight := int64(0)
	cnt := 0
	do := func(op hk.Op, id string) error {
		req, resp := fasthttp.AcquireRequest(), fasthttp.AcquireResponse()
		req.SetRequestURI(fmt.Sprintf("%s://%s/x?id=%s", scheme, host, id))
		a := req.URI().QueryArgs()
		switch op.K {
		case "get":
			a.Set("think", fmt.Sprint(op.A))
			a.Set("size", fmt.Sprint(op.C))
		case "post":
			a.Set("think", fmt.Sprint(op.A))
		case "hold":
			a.Set("hold", fmt.Sprint(op.A))
		case "bye":
			a.Set("bye", "1")
		}
		var body []byte
		if op.K == "post" || op.K == "hold" {
			req.Header.SetMethod("POST")
			body = pattern(id, int(op.C))
			req.SetBody(body)
		}
		err := hc.Do(req, resp)
		if err == nil && rt.On() {
			size := 0
			if op.K == "get" {
				size = int(op.C)
			}
			if want := fmt.Sprintf("%s %d %d ", id, len(body), sum(body)) + strings.Repeat("y", size); string(resp.Body()) != want || resp.StatusCode() != 200 {
				x.Fail("wrong-answer", "%s: the answer to request %s is %d %.60q", what, id, resp.StatusCode(), resp.Body())
			}
			if s.done[id] == 0 {
				x.Fail("wrong-answer", "%s: request %s was answered, but never served", what, id)
			}
		}
		fasthttp.ReleaseRequest(req)
		fasthttp.ReleaseResponse(resp)
		return err
	}
	x.RunOps(func(t int, op hk.Op) {
		switch op.K {
		case "faulter":
			return
		case "break":
			h.BreakAll()
			x.Fault("connections_broken")
			return
		case "restart":
			h.Restart(op.A)
			return
		case "part":
			h.Parted = true
			x.Fault("partition")
			rt.Sleep(op.A)
			h.Parted = false
			h.BreakAll()
			return
		case "sleep":
			rt.Sleep(op.A)
			return
		}
		cnt++
		id := fmt.Sprintf("r%d", op.B)
		inflight++
		began := rt.Mono()
		crowded := inflight > maxConns
		conns := len(nw.Conns())
		served := s.done[id]
		err := do(op, id)
		if !rt.On() {
			return
		}
		el := rt.Mono() - began
		inflight--
		rt.Rec(op.K, b2i(err == nil), el, id, nil)
		if !reach {
			if err == nil || s.done[id] > served {
				x.Fail("trust", "%s: a request reached a server that %s (error %v)", what, map[bool]string{true: "demands a certificate the client does not have", false: "is not trusted"}[trusted], err)
			}
			x.Probe("untrusted server refused")
			return
		}
		if isTLS && err == nil {
			x.Probe("request over TLS")
		}
		if faults != 0 {
			return
		}
		long := rto > 0 && (op.K == "get" || op.K == "post") && op.A > rto-6*lat // not answered in time, or nearly so
		tooLong := rto > 0 && (op.K == "get" || op.K == "post") && op.A > rto
		stuck := op.K == "hold" && nw.Window > 0 && wto > 0 && op.A > wto
		maybeStuck := nw.Window > 0 && wto > 0 && (op.K == "hold" && op.A > wto-40*lat || op.C >= 10000 && 40*lat > wto)
		holdLong := op.K == "hold" && rto > 0 && nw.Window == 0 && op.A > rto-6*lat
		if op.K == "hold" && nw.Window > 0 && rto > 0 && rto < 60*lat {
			holdLong = true
		}
		att := int64(1)
		if p.C("att") == 0 {
			att = 5
		}
		slack := 80 * lat
		switch {
		case errors.Is(err, fasthttp.ErrNoFreeConns):
			if !crowded && solo {
				x.Fail("no-free-conns", "%s: no free connection for the only user", what)
			}
			if wait > 0 && el < wait {
				x.Fail("wait", "%s: gave up waiting for a connection after %v", what, time.Duration(el))
			}
			if el > att*(wait+b2i(wait > 0)*10*lat) && att == 1 {
				x.Fail("wait", "%s: waited %v for a connection", what, time.Duration(el))
			}
			x.Probe("no free connection")
		case err == nil && tooLong && att == 1:
			x.Fail("timeout", "%s: an answer that took %v was waited for", what, time.Duration(op.A))
		case err == nil && stuck && att == 1:
			x.Fail("timeout", "%s: a request was sent although the server did not read for %v", what, time.Duration(op.A))
		case err != nil && !long && !maybeStuck && !holdLong && !(isTLS && wto > 0 && wto < 60*lat):
			x.Fail("error", "%s: request %+v failed without any fault: %v", what, op, err)
		case el > att*(wait+slack+op.A) && (rto == 0 || !tooLong):
			x.Fail("slow", "%s: request %+v took %v", what, op, time.Duration(el))
		case err != nil && tooLong && el > att*(wait+slack+rto):
			x.Fail("timeout", "%s: gave up on request %+v after %v", what, op, time.Duration(el))
		case err != nil && stuck && el > att*(wait+slack+wto):
			x.Fail("timeout", "%s: gave up sending %+v after %v", what, op, time.Duration(el))
		}
		if err != nil && tooLong {
			x.Probe("read timeout")
		}
		if err != nil && stuck {
			x.Probe("write timeout")
		}
		// for a single user it is known which connection is used
		if solo && err == nil && att == 1 {
			cur := s.conns[s.last]
			if prev != nil {
				gap, age := began-prev.reply, began-prev.c.MadeAt
				live := !prev.bye && gap < idle-2*lat && gap >= 0
				switch {
				case live && (dur == 0 || age < dur-2*lat) && cur != prev:
					x.Fail("no-reuse", "%s: a connection idle for %v and %v old was not used again", what, time.Duration(gap), time.Duration(age))
				case live && cur == prev:
					x.Probe("connection reused")
				case !live && cur != prev && gap > idle:
					x.Probe("idle connection closed")
				}
			}
			if dur > 0 && rt.Mono()-cur.c.MadeAt > 0 && cur == prev && began-cur.c.MadeAt > dur {
				x.Probe("old connection closed")
			}
			prev = cur
		} else if solo {
			prev = nil
		}
		_ = conns
	})
	x.Join()
	if x.Failed() {
		return
	}
	nw.F = snet.Faults{LatMin: p.C("latmin"), LatMax: lat}
	rt.Sleep(2*idle + 25*sec) // everything that hangs has been given up, everything idle is closed
	if !rt.On() {
		return
	}
	if n := nw.Open(); n > 0 {
		x.Fail("idle-conns", "%s: %d connections are open %v after the last request", what, n, time.Duration(2*idle+25*sec))
		return
	}
	if !reach {
		return
	}
	x.Thread("after", func() {
		for i := 0; i < 3; i++ {
			id := fmt.Sprintf("after%d", i)
			if err := do(hk.Op{K: "get"}, id); err != nil && rt.On() {
				x.Fail("no-recovery", "%s: requests still fail after all faults are over: %v", what, err)
			}
		}
	})
	x.Join()
}

func b2i(b bool) int64 {
	if b {
		return 1
	}
	return 0
}

const realHTTP = "confs/fasthttpclient.go, simplelog, github.com/valyala/fasthttp (client)"

func main() {
	hk.Bystander = bystander
	os.Setenv("GODEBUG", "x509usefallbackroots=1")
	pool := x509.NewCertPool()
	pool.AppendCertsFromPEM([]byte(rootPem[0]))
	x509.SetFallbackRoots(pool)
	hk.Main("httpcfg", []*hk.Scenario{
		{Prop: "C37", Name: "load", Runs: 4000, Gen: gen(0), Run: run, Real: realHTTP, Stub: "network and HTTP server (simulated), process exit, files"},
		{Prop: "C37", Name: "solo", Runs: 4000, Gen: gen(1), Run: run, Real: realHTTP, Stub: "network and HTTP server (simulated), process exit, files"},
		{Prop: "C37", Name: "tls", Runs: 2000, Gen: gen(2), Run: run, Real: realHTTP + ", crypto/tls, crypto/x509", Stub: "network and HTTP server (simulated), process exit, files, system root certificates"},
	})
}
