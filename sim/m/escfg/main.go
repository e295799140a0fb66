//go:build go1.21

// Elasticsearch clients made from a configuration (C38): go-elasticsearch and net/http
// over a simulated network to simulated Elasticsearch nodes.
package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"net"
	"net/http"
	"os"
	"runtime"
	"strconv"
	"strings"
	"time"

	"github.com/chanjarster/gears/confs"
	"github.com/chanjarster/gears/simplelog"
	"github.com/chanjarster/gears/zzsim/hk"
	rt "github.com/chanjarster/gears/zzsim/rt"
	"github.com/chanjarster/gears/zzsim/snet"
	zhttp "github.com/chanjarster/gears/zzsim/zhttp"
	"github.com/elastic/go-elasticsearch/v7"
	"github.com/elastic/go-elasticsearch/v7/esapi"
)

const (
	ms  = int64(1e6)
	sec = int64(1e9)
)

// fatalWriter turns log.Fatal into the end of the simulated process.
type fatalWriter struct{}

func (fatalWriter) Write(b []byte) (int, error) {
	pc := make([]uintptr, 24)
	fr := runtime.CallersFrames(pc[:runtime.Callers(2, pc)])
	for {
		f, more := fr.Next()
		if strings.Contains(f.Function, "log.") && strings.Contains(f.Function, ".Fatal") {
			panic(rt.Exit{Code: 1})
		}
		if !more {
			return len(b), nil
		}
	}
}

// cluster: the nodes share the documents.
type cluster struct {
	x          *hk.X
	user, pass string
	auth       bool // the nodes demand user and password
	prefix     string
	docs       map[string]string
	nodes      []*node
	what       string
	max        int // connections open per node at a time (0: no limit)
	up         int // writes and reads acknowledged
	agent      string
	good       int // answers without an error
	ended      bool
}

type node struct {
	cl   *cluster
	h    *snet.Host
	addr string
	sick int // answers every request with this status
	reqs int
}

func (n *node) limit() {
	if n.cl.max == 0 {
		return
	}
	rt.SimTimer(1000, func() {
		if k := n.h.Open(); k > n.cl.max && !n.cl.x.Failed() && rt.On() {
			n.cl.x.Fail("open-conns", "%s: %d connections to one node are open, MaxConnsPerHost is %d", n.cl.what, k, n.cl.max)
		}
	})
}

func (n *node) serve(c *snet.Conn) {
	n.limit()
	cl := n.cl
	br := bufio.NewReader(c)
	for rt.On() {
		req, err := http.ReadRequest(br)
		if err != nil {
			return
		}
		body, err := io.ReadAll(req.Body)
		if err != nil {
			return
		}
		n.reqs++
		u, p, ok := req.BasicAuth()
		rt.Rec("request", int64(c.ID), 0, req.Method+" "+req.URL.String(), nil)
		if cl.user != "" && cl.pass != "" && (!ok || u != cl.user || p != cl.pass) || (cl.user == "" || cl.pass == "") && req.Header.Get("Authorization") != "" {
			cl.x.Fail("credentials", "%s: request %s %s comes with user %q, password %q; configured are %q and %q", cl.what, req.Method, req.URL.Path, u, p, cl.user, cl.pass)
			return
		}
		if cl.agent != "" && req.Header.Get("X-Agent") != cl.agent {
			cl.x.Fail("customizer", "%s: request %s %s does not have the header the customizer has set", cl.what, req.Method, req.URL.Path)
			return
		}
		path := req.URL.Path
		if !strings.HasPrefix(path, cl.prefix+"/") {
			cl.x.Fail("address", "%s: request %s %s does not begin with the path of the configured address", cl.what, req.Method, path)
			return
		}
		path = path[len(cl.prefix):]
		q := req.URL.Query()
		status, rep := 200, ""
		f := strings.Split(path, "/")
		switch {
		case cl.auth && (u != "elastic" || p != "s3cr:et %1"):
			status, rep = 401, `{"error":"missing authentication credentials","status":401}`
		case n.sick != 0:
			status, rep = n.sick, fmt.Sprintf(`{"error":"sick","status":%d}`, n.sick)
		case path == "/" && (req.Method == "HEAD" || req.Method == "GET"):
			rep = `{"name":"n","cluster_name":"sim","version":{"number":"7.10.0","build_flavor":"default"},"tagline":"You Know, for Search"}`
		case len(f) == 4 && f[1] == "things" && f[2] == "_doc" && req.Method == "PUT":
			status = 201
			if _, ok := cl.docs[f[3]]; ok {
				status = 200
			}
			cl.docs[f[3]] = string(body)
			rep = fmt.Sprintf(`{"_index":"things","_id":%q,"result":"ok"}`, f[3])
		case len(f) == 4 && f[1] == "things" && f[2] == "_doc" && req.Method == "GET":
			d, ok := cl.docs[f[3]]
			if ok {
				rep = fmt.Sprintf(`{"_index":"things","_id":%q,"found":true,"_source":%s}`, f[3], d)
			} else {
				status, rep = 404, fmt.Sprintf(`{"_index":"things","_id":%q,"found":false}`, f[3])
			}
		default:
			status, rep = 400, `{"error":"bad request"}`
			if rt.On() {
				cl.x.Fail("request", "%s: request %s %s was never made", cl.what, req.Method, req.URL)
			}
		}
		if d, _ := time.ParseDuration(strings.Replace(q.Get("timeout"), "nanos", "ns", 1)); d > 0 {
			rt.Sleep(int64(d))
		}
		end := req.Close
		hd := ""
		if end {
			hd = "Connection: close\r\n"
		}
		slow := q.Get("preference") // the body comes this much later
		hd = fmt.Sprintf("HTTP/1.1 %d X\r\nContent-Type: application/json\r\nContent-Length: %d\r\n%s\r\n", status, len(rep), hd)
		if status < 300 {
			cl.good++
		}
		if req.Method == "HEAD" {
			rep = ""
		}
		if d, _ := strconv.ParseInt(slow, 10, 64); d > 0 {
			if _, err := io.WriteString(c, hd); err != nil {
				return
			}
			rt.Sleep(d)
			hd = ""
		}
		if _, err := io.WriteString(c, hd+rep); err != nil || end {
			return
		}
	}
}

// gen: kind 0: load, 1: bursts, 2: construction
func gen(kind int64) func(r *hk.Rng) *hk.Plan {
	return func(r *hk.Rng) *hk.Plan {
		p := &hk.Plan{Cfg: map[string]int64{
			"kind": kind, "nodes": r.Pick(1, 1, 2, 3), "max": r.Pick(0, 1, 2, 3, 5), "idle": r.Pick(0, 1, 2, 3, 5),
			"auth": r.Pick(0, 0, 1, 2), "over": 0, "prefix": r.Pick(0, 0, 0, 1), "slash": int64(r.N(2)), "fault": r.Pick(0, 0, 1, 2),
			"latmin": r.Pick(0, 1, 3) * ms, "latmax": r.Pick(3, 10) * ms,
		}}
		if r.P(1, 4) {
			p.Cfg["over"] = int64(r.R(1, 4))
		}
		p.Cfg["other"] = r.Pick(0, 0, 1, 2) // another client in the same process, made before or after this one
		p.Cfg["omax"], p.Cfg["oidle"] = r.Pick(0, 1, 7), r.Pick(0, 1, 7)
		n := r.R(1, 5)
		switch kind {
		case 1:
			p.Cfg["fault"] = 0
			p.Cfg["burst"] = int64(r.R(1, 8))
			p.Cfg["gap"] = r.Pick(0, 1, 20, 80) * sec
			p.Cfg["rounds"] = int64(r.R(2, 4))
			n = 0
		case 2:
			n = 1
			for i := int64(0); i < p.C("nodes"); i++ {
				p.Cfg[fmt.Sprintf("state%d", i)] = r.Pick(0, 0, 0, 1, 1, 2, 401, 403, 500, 502, 503) // 1: down, 2: partitioned, otherwise the status it answers
			}
			p.Cfg["fault"] = r.Pick(0, 0, 0, 2)
			p.Cfg["want"] = r.Pick(0, 0, 1) // the nodes demand a password
			p.Cfg["addrs"] = r.Pick(0, 0, 0, 0, 0, 0, 1, 2)
		}
		for t := 0; t < n; t++ {
			var ops []hk.Op
			m := r.R(1, 7)
			for i := 0; i < m; i++ {
				switch r.N(10) {
				case 0, 1:
					ops = append(ops, hk.Op{K: "sleep", A: r.Pick(r.R64(0, 400), r.R64(0, 400), r.R64(0, 3000), 5000, 95000) * ms})
				case 2, 3, 4:
					ops = append(ops, hk.Op{K: "put", B: int64(t), C: r.Pick(0, 10, 5000), A: r.Pick(0, 0, 300, 2000) * ms})
				case 5:
					ops = append(ops, hk.Op{K: "put", B: int64(t), A: r.Pick(300, 2000, 40000, 58000, 62000, 100000) * ms})
				case 6:
					ops = append(ops, hk.Op{K: "slow", B: int64(t), A: r.Pick(300, 2000, 70000) * ms})
				default:
					ops = append(ops, hk.Op{K: "get", B: int64(t)})
				}
			}
			p.Ops = append(p.Ops, ops)
		}
		if p.C("fault") == 1 {
			ops := []hk.Op{{K: "faulter"}}
			for i, m := 0, r.R(1, 4); i < m; i++ {
				ops = append(ops, hk.Op{K: "sleep", A: r.R64(0, 500) * ms}, hk.Op{K: r.PickS("break", "restart", "part", "sick"), A: r.Pick(r.R64(1, 800), 3000, 70000) * ms, B: int64(r.N(3))})
			}
			p.Ops = append(p.Ops, ops)
		}
		if kind == 2 || p.C("fault") != 0 {
			p.Cfg["prefix"] = 0 // the library (7.10) repeats the path when it tries again
		}
		p.Sim = hk.GenSim(r, 2000, false, 0)
		p.Sim.MaxSteps = 400000
		return p
	}
}

func run(p *hk.Plan, x *hk.X) {
	nw := &snet.Net{X: x, HangTO: 130 * sec, KeepAlive: 100 * sec}
	nw.F.LatMin, nw.F.LatMax = p.C("latmin"), p.C("latmax")
	lat := p.C("latmax")
	rt.DialHook = nw.Dial
	rt.SetProc(&rt.Proc{Env: map[string]string{"HOME": "/root"}, Files: map[string]*rt.SimFile{}})
	defer rt.SetProc(nil)
	log.SetOutput(io.Discard)
	simplelog.ErrLogger.SetOutput(fatalWriter{})
	simplelog.StdLogger.SetOutput(io.Discard)

	conf := &confs.EsConf{MaxConnsPerHost: p.I("max"), MaxIdleConnsPerHost: p.I("idle")}
	cl := &cluster{x: x, docs: map[string]string{}}
	switch p.C("auth") {
	case 1:
		conf.Username, conf.Password = "elastic", "s3cr:et %1"
	case 2:
		conf.Username, conf.Password = "gears", "päss@/?"
	}
	cl.user, cl.pass = conf.Username, conf.Password
	cl.auth = p.C("want") == 1
	if p.C("prefix") == 1 {
		cl.prefix = "/es"
	}
	var addrs []string
	nodes := p.I("nodes")
	for i := 0; i < nodes; i++ {
		n := &node{cl: cl, addr: fmt.Sprintf("es%d.sim:9200", i)}
		cl.nodes = append(cl.nodes, n)
		n.h = nw.Listen(n.addr, n.serve)
		a := "http://" + n.addr + cl.prefix
		if p.C("slash") == 1 {
			a += "/"
		}
		addrs = append(addrs, a)
	}
	// others must never see a request
	for _, a := range []string{"localhost:9200", "127.0.0.1:9200", "es3.sim:9200", "es0.sim:80"} {
		a := a
		nw.Listen(a, func(c *snet.Conn) {
			x.Fail("address", "%s: a connection to %s, which is not configured", cl.what, a)
		})
	}
	conf.Addrs = strings.Join(addrs, ",")
	badAddr := false
	switch p.C("addrs") {
	case 1:
		conf.Addrs, badAddr = "", true
	case 2:
		conf.Addrs, badAddr = "http://[::1", true
	}
	max, idle, tmo := p.I("max"), p.I("idle"), 60*sec
	retry := 3
	var cu confs.EsConfigCustomizer
	if over := p.C("over"); over > 0 {
		switch over {
		case 1:
			cl.agent = "custom"
		case 2:
			cl.user, cl.pass = "elastic", "s3cr:et %1"
		case 3:
			max, idle, tmo = 1, 1, 10*sec
		case 4:
			retry = 1
		}
		cu = func(c *elasticsearch.Config) {
			switch over {
			case 1:
				c.Header = zhttp.Header{"X-Agent": {"custom"}}
			case 2:
				c.Username, c.Password = "elastic", "s3cr:et %1"
			case 3:
				t := zhttp.DefaultTransport.(*zhttp.Transport).Clone()
				t.MaxConnsPerHost, t.MaxIdleConnsPerHost, t.ResponseHeaderTimeout = 1, 1, 10*time.Second
				c.Transport = t
			case 4:
				c.DisableRetry = true
			}
		}
	}
	cl.max = max
	if idle == 0 {
		idle = 2
	}
	if max > 0 && idle > max {
		idle = max
	}
	cl.what = fmt.Sprintf("NewEsClient({Addrs: %s, Username: %q, Password: %q, MaxConnsPerHost: %d, MaxIdleConnsPerHost: %d}, customizer %d)",
		conf.Addrs, conf.Username, conf.Password, conf.MaxConnsPerHost, conf.MaxIdleConnsPerHost, p.C("over"))
	what := cl.what
	faults := p.C("fault")
	mess := func() {
		if faults == 2 {
			n := 30
			nw.F.DialRefuse, nw.F.ResetReq, nw.F.ResetRep, nw.F.TornRep, nw.F.ShortRep, nw.F.DropReq, nw.F.DropRep = n, n, n, n, 2*n, n, n
		}
	}
	// what the nodes do with the first request
	usable := !badAddr && !(cl.auth && (cl.user != "elastic" || cl.pass != "s3cr:et %1"))
	must := usable // a client has to be made
	tries := retry
	for i, n := range cl.nodes {
		s := p.C(fmt.Sprintf("state%d", i))
		switch {
		case s == 1:
			n.h.Down = true
			x.Fault("node_down")
		case s == 2:
			n.h.Parted = true
			x.Fault("partition")
		case s > 2:
			n.sick = int(s)
			x.Fault("node_sick")
		}
	}
	// round robin: the nodes are asked in some order; the first good one among the tries has to be enough
	if p.C("kind") == 2 && must {
		bad, down, final := 0, 0, false
		for i := range cl.nodes {
			switch s := p.C(fmt.Sprintf("state%d", i)); {
			case s == 1:
				bad++
				down++
			case s == 502 || s == 503:
				bad++
			case s != 0:
				bad++
				final = true // not tried again after this
			}
		}
		if bad == len(cl.nodes) {
			usable = false
		}
		if bad == len(cl.nodes) || bad >= tries || final || down > 0 && down < bad { // nodes that are down are left out, so that the order changes
			must = false
		}
	}
	if p.C("kind") == 2 {
		mess()
	}
	if faults == 2 {
		must = must && p.C("kind") != 2
	}
	var es *elasticsearch.Client
	var pan interface{}
	took := int64(0)
	oc := &cluster{x: x, docs: map[string]string{}, user: "other", pass: "other", prefix: "/o", max: p.I("omax"), what: "another client"}
	on := &node{cl: oc, addr: "other.sim:9200"}
	on.h = nw.Listen(on.addr, on.serve)
	oc.nodes = []*node{on}
	var oes *elasticsearch.Client
	another := func() {
		f := nw.F
		nw.F = snet.Faults{LatMin: f.LatMin, LatMax: f.LatMax}
		oes = confs.NewEsClient(&confs.EsConf{Addrs: "http://other.sim:9200/o", Username: "other", Password: "other", MaxConnsPerHost: p.I("omax"), MaxIdleConnsPerHost: p.I("oidle")}, nil)
		nw.F = f
	}
	x.Thread("main", func() {
		if p.C("other") == 1 {
			another()
		}
		if p.C("other") == 2 {
			defer another()
		}
		t0 := rt.Mono()
		pan = hk.Catch(func() { es = confs.NewEsClient(conf, cu) })
		took = rt.Mono() - t0
		rt.Rec("constructed", b2i(pan == nil), 0, "", nil)
	})
	x.Join()
	if x.Failed() {
		return
	}
	_, crashed := pan.(runtime.Error)
	switch {
	case pan != nil && (must || crashed):
		x.Fail("refused", "%s: %v", what, pan)
		return
	case pan == nil && es == nil:
		x.Fail("accepted", "%s: returned no client and no failure", what)
		return
	case pan == nil && (!usable || cl.good == 0):
		x.Fail("accepted", "%s: returned although no node has answered without an error", what)
		return
	case took > int64(retry)*(tmo+30*sec+40*lat):
		x.Fail("slow", "%s: took %v", what, time.Duration(took))
		return
	case pan != nil:
		x.Probe("process ended")
		return
	}
	x.Probe("client made")
	if oes != nil {
		defer func() {
			if !rt.On() || x.Failed() {
				return
			}
			x.Thread("other", func() {
				res, err := oes.Index("things", strings.NewReader(`{"v":1}`), oes.Index.WithDocumentID("o"))
				if !rt.On() {
					return
				}
				if err != nil || res.IsError() {
					x.Fail("error", "%s: another client in the same process gets %v %v", what, res, err)
				}
			})
			x.Join()
		}()
	}
	mess()
	inflight := 0
	perform := func(op hk.Op, val string) (int, string, error) {
		id := fmt.Sprintf("d%d", op.B)
		var res *esapi.Response
		var err error
		switch op.K {
		case "put":
			fs := []func(*esapi.IndexRequest){es.Index.WithDocumentID(id)}
			if op.A > 0 {
				fs = append(fs, es.Index.WithTimeout(time.Duration(op.A)))
			}
			res, err = es.Index("things", bytes.NewReader([]byte(val)), fs...)
		case "slow":
			res, err = es.Get("things", id, es.Get.WithPreference(fmt.Sprint(op.A)))
		default:
			res, err = es.Get("things", id)
		}
		if err != nil {
			return 0, "", err
		}
		b, err := io.ReadAll(res.Body)
		res.Body.Close()
		return res.StatusCode, string(b), err
	}
	vals := make(map[int64][]string) // what a document may be
	cnt := 0
	do := func(op hk.Op) (error, int) {
		cnt++
		val := fmt.Sprintf(`{"v":"%d %s"}`, cnt, strings.Repeat("z", int(op.C)))
		inflight++
		began := rt.Mono()
		st, body, err := perform(op, val)
		el := rt.Mono() - began
		inflight--
		if !rt.On() {
			return nil, 0
		}
		rt.Rec(op.K, int64(st), el, fmt.Sprint(err), nil)
		if op.K == "put" {
			if err == nil && st < 300 {
				vals[op.B] = []string{val}
			} else {
				if len(vals[op.B]) == 0 {
					vals[op.B] = []string{""}
				}
				vals[op.B] = append(vals[op.B], val)
			}
		}
		if err == nil && (st < 300 || st == 404) {
			var rep struct {
				ID     string          `json:"_id"`
				Source json.RawMessage `json:"_source"`
				Found  bool            `json:"found"`
			}
			if e := json.Unmarshal([]byte(body), &rep); e != nil || rep.ID != fmt.Sprintf("d%d", op.B) {
				x.Fail("wrong-answer", "%s: the answer to %s d%d is %d %.80q", what, op.K, op.B, st, body)
				return err, st
			}
			if op.K != "put" {
				ok := false
				for _, v := range vals[op.B] {
					ok = ok || v == string(rep.Source)
				}
				if !ok && !(len(vals[op.B]) == 0 && !rep.Found) {
					x.Fail("wrong-answer", "%s: document d%d is %.60q, which was not written last", what, op.B, rep.Source)
				}
			}
		}
		return err, st
	}
	if p.C("kind") == 1 {
		burst(p, x, nw, cl, do, idle)
	}
	solo := p.C("kind") == 0 && len(p.Ops) == 1 && faults == 0
	x.RunOps(func(t int, op hk.Op) {
		switch op.K {
		case "faulter":
			return
		case "sleep":
			rt.Sleep(op.A)
			return
		case "break", "restart", "part", "sick":
			n := cl.nodes[int(op.B)%nodes]
			switch op.K {
			case "break":
				n.h.BreakAll()
				x.Fault("connections_broken")
			case "restart":
				n.h.Restart(op.A)
			case "part":
				n.h.Parted = true
				x.Fault("partition")
				rt.Sleep(op.A)
				n.h.Parted = false
				n.h.BreakAll()
			case "sick":
				n.sick = []int{500, 502, 503, 429}[op.A%4]
				x.Fault("node_sick")
				rt.Sleep(op.A)
				n.sick = 0
			}
			return
		}
		made := len(nw.Conns())
		began := rt.Mono()
		err, st := do(op)
		if !rt.On() || x.Failed() {
			return
		}
		el := rt.Mono() - began
		if faults != 0 || p.C("kind") == 2 {
			return
		}
		// the time before the answer begins
		think := int64(0)
		if op.K == "put" {
			think = op.A
		}
		others := int64(0)
		for _, o := range p.Ops {
			for _, op := range o {
				if op.K == "put" || op.K == "slow" {
					others += op.A
				}
			}
		}
		slack := 40 * lat
		switch {
		case err == nil && st >= 300 && st != 404:
			x.Fail("error", "%s: request %+v got status %d from healthy nodes", what, op, st)
		case err == nil && think > tmo+slack:
			x.Fail("timeout", "%s: an answer that took %v to begin was waited for", what, time.Duration(think))
		case err != nil && think < tmo-slack:
			x.Fail("error", "%s: request %+v failed without any fault: %v", what, op, err)
		case err != nil && el > tmo+others+slack:
			x.Fail("timeout", "%s: gave up on %+v after %v", what, op, time.Duration(el))
		case err != nil:
			x.Probe("answer timeout")
		case op.K == "slow" && op.A > tmo:
			x.Probe("slow body")
		}
		_ = made
	})
	x.Join()
	if x.Failed() {
		return
	}
	nw.F = snet.Faults{LatMin: p.C("latmin"), LatMax: lat}
	if p.C("kind") != 2 {
		for _, n := range cl.nodes {
			n.h.Down, n.h.Parted, n.sick = false, false, 0
		}
	}
	_ = solo
	if inflight > 0 || !rt.On() {
		return
	}
	x.Thread("after", func() {
		rt.Sleep(5 * sec)
		for _, n := range cl.nodes {
			if k := n.h.Open(); k > idle && rt.On() && !n.h.Parted {
				x.Fail("idle-conns", "%s: %d connections to one node are kept although nothing is under way, at most %d should be", what, k, idle)
			}
		}
		if p.C("kind") == 2 {
			return
		}
		rt.Sleep(400 * sec)
		if n := nw.Open(); n > 0 && rt.On() {
			x.Fail("idle-conns", "%s: %d connections are open 400 s after the last request", what, n)
		}
		// a node that failed is left alone for up to 60 s * 2^5
		rt.Sleep(2000 * sec)
		for i := 0; i < 2*nodes; i++ {
			if err, st := do(hk.Op{K: []string{"put", "get"}[i%2], B: 77}); (err != nil || st >= 300) && rt.On() {
				x.Fail("no-recovery", "%s: requests still fail after all faults are over: %d %v", what, st, err)
			}
		}
		for _, n := range cl.nodes {
			n.reqs = 0
		}
		for i := 0; i < 4*nodes && rt.On(); i++ {
			do(hk.Op{K: "get", B: 77})
		}
		for _, n := range cl.nodes {
			if n.reqs == 0 && rt.On() {
				x.Fail("address", "%s: node %s gets no requests", what, n.addr)
			}
		}
	})
	x.Join()
}

// burst: the same number of requests at the same time, again and again.
func burst(p *hk.Plan, x *hk.X, nw *snet.Net, cl *cluster, do func(hk.Op) (error, int), idle int) {
	nodes := len(cl.nodes)
	per := p.I("burst")
	c := per
	if cl.max > 0 && c > cl.max {
		c = cl.max
	}
	for r := 0; r < p.I("rounds") && !x.Failed() && rt.On(); r++ {
		made := make([]int, nodes)
		for i, n := range cl.nodes {
			made[i] = n.h.Made()
		}
		for i := 0; i < per*nodes; i++ {
			i := i
			x.Thread("burst", func() {
				if err, st := do(hk.Op{K: "put", A: sec, B: int64(i)}); (err != nil || st >= 300) && rt.On() {
					x.Fail("error", "%s: a request failed without any fault: %d %v", cl.what, st, err)
				}
			})
		}
		x.Join()
		if x.Failed() || !rt.On() {
			return
		}
		for i, n := range cl.nodes {
			k := n.h.Made() - made[i]
			if free := c - idle; r > 0 && k > free && k > 0 {
				x.Fail("no-reuse", "%s: %d new connections for %d requests at a time, after a burst of the same size %v ago that should have left %d idle ones",
					cl.what, k, c, time.Duration(p.C("gap")), min(c, idle))
				return
			}
			if r > 0 && k == 0 {
				x.Probe("connections reused")
			}
		}
		x.Thread("gap", func() { rt.Sleep(p.C("gap") + 100*ms) })
		x.Join()
		for _, n := range cl.nodes {
			if k := n.h.Open(); k > idle && rt.On() {
				x.Fail("idle-conns", "%s: %d connections to one node are kept although nothing is under way, at most %d should be", cl.what, k, idle)
			}
		}
	}
}

func b2i(b bool) int64 {
	if b {
		return 1
	}
	return 0
}

var _ net.Conn
var _ context.Context

const realES = "confs/es.go, simplelog, go-elasticsearch v7, net/http (client)"

func main() {
	for _, k := range []string{"HTTP_PROXY", "http_proxy", "HTTPS_PROXY", "https_proxy", "NO_PROXY", "no_proxy", "REQUEST_METHOD"} {
		os.Unsetenv(k)
	}
	// what the process does once
	pristine := zhttp.DefaultTransport.(*zhttp.Transport).Clone()
	pristine.Clone()
	hk.EachRun = func() { zhttp.DefaultTransport = pristine.Clone() }
	if r, err := zhttp.NewRequest("GET", "http://es0.sim:9200/", nil); err == nil {
		zhttp.ProxyFromEnvironment(r)
	}
	hk.Main("escfg", []*hk.Scenario{
		{Prop: "C38", Name: "load", Runs: 2000, Gen: gen(0), Run: run, Real: realES, Stub: "network and Elasticsearch nodes (simulated), process exit"},
		{Prop: "C38", Name: "bursts", Runs: 1500, Gen: gen(1), Run: run, Real: realES, Stub: "network and Elasticsearch nodes (simulated), process exit"},
		{Prop: "C38", Name: "construct", Runs: 2000, Gen: gen(2), Run: run, Real: realES, Stub: "network and Elasticsearch nodes (simulated), process exit"},
	})
}
