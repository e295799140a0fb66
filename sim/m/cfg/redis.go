//go:build go1.21

// The Redis client made from a configuration (C35): a go-redis client over a
// simulated network to a simulated server with databases and a password.
package main

import (
	"context"
	"fmt"
	"io"
	"net"
	"runtime"
	"strings"
	"time"

	"github.com/chanjarster/gears/confs"
	"github.com/chanjarster/gears/simplelog"
	"github.com/chanjarster/gears/zzsim/hk"
	rt "github.com/chanjarster/gears/zzsim/rt"
	"github.com/chanjarster/gears/zzsim/sredis"
	"github.com/go-redis/redis/v7"
)

const realRedis = "confs/redis.go, simplelog, github.com/go-redis/redis/v7 with its connection pool"
const stubRedis = "network and Redis server (simulated: RESP, AUTH, SELECT, databases), process exit"

const ms = int64(1e6)

// fatalWriter turns log.Fatal into the end of the simulated process.
type fatalWriter struct{}

func (fatalWriter) Write(b []byte) (int, error) {
	pc := make([]uintptr, 24)
	fr := runtime.CallersFrames(pc[:runtime.Callers(2, pc)])
	for {
		f, more := fr.Next()
		if strings.Contains(f.Function, "log.") && strings.Contains(f.Function, ".Fatal") {
			panic(rt.Exit{Code: 1})
		}
		if !more {
			return len(b), nil
		}
	}
}

func genRedis(r *hk.Rng) *hk.Plan {
	p := &hk.Plan{Cfg: map[string]int64{
		"host": int64(r.N(3)), "port": r.Pick(6379, 1, 65535, 16379), "pass": int64(r.N(4)), "db": r.Pick(0, 0, 1, 3, 15, 16, 200), "pool": r.Pick(1, 1, 2, 3, 4), "minidle": r.Pick(0, 0, 0, 1, 2),
		"srvpass": 0, "down": 0, "over": 0, "latmin": r.Pick(0, 1, 5) * ms, "latmax": r.Pick(5, 20) * ms, "retries": r.Pick(0, 0, -1),
		"faults": int64(r.N(3)), "cut": r.R64(0, 2000) * ms, "cfault": int64(r.N(3)), "idle": r.Pick(0, 0, 200) * ms, "age": r.Pick(0, 0, 300) * ms,
	}}
	switch r.N(8) {
	case 0:
		p.Cfg["srvpass"] = 1 // another password, or one where none is configured
	case 1:
		p.Cfg["down"] = int64(r.R(1, 3))
	case 2:
		p.Cfg["over"] = int64(r.R(1, 3)) // the customizer overrides something
	}
	for t, n := 0, r.R(1, 5); t < n; t++ {
		var ops []hk.Op
		for i, m := 0, r.R(1, 6); i < m; i++ {
			switch r.N(7) {
			case 0, 1, 2:
				ops = append(ops, hk.Op{K: "set", A: int64(r.N(3)), B: int64(t*100 + i + 1)})
			case 3:
				ops = append(ops, hk.Op{K: "pipe", A: int64(r.N(3)), B: int64(t*100 + i + 1)})
			case 4:
				ops = append(ops, hk.Op{K: "sleep", A: r.R64(0, 600) * ms})
			default:
				ops = append(ops, hk.Op{K: "get", A: int64(r.N(3))})
			}
		}
		p.Ops = append(p.Ops, ops)
	}
	if p.C("faults") > 0 {
		var ops []hk.Op
		for i, m := 0, r.R(1, 4); i < m; i++ {
			ops = append(ops, hk.Op{K: "sleep", A: r.R64(0, 500) * ms}, hk.Op{K: r.PickS("break", "restart", "crash", "part"), A: r.R64(1, 800) * ms})
		}
		p.Ops = append(p.Ops, append([]hk.Op{{K: "faulter"}}, ops...))
	}
	p.Sim = hk.GenSim(r, 2000, false, 0)
	p.Sim.MaxSteps = 400000
	return p
}

func runRedis(p *hk.Plan, x *hk.X) {
	passes := []string{"", "secret", "p@ss word:1", "密码"}
	rc := &confs.RedisConf{Host: []string{"redis", "10.1.2.3", "cache.internal.example"}[p.I("host")], Port: p.I("port"), Password: passes[p.I("pass")],
		Pool: p.I("pool"), MinIdle: p.I("minidle"), Db: p.I("db")}
	want := *rc
	srv := sredis.NewServer()
	srv.Pass = rc.Password
	over := p.C("over")
	switch {
	case p.C("srvpass") == 1 && rc.Password == "":
		srv.Pass = "other"
	case p.C("srvpass") == 1:
		srv.Pass = rc.Password + "x"
	}
	switch over {
	case 1:
		want.Db = 7
	case 2:
		want.Password = "overridden"
		srv.Pass = "overridden"
	case 3:
		want.Pool = 2
		want.MinIdle = 0
	}
	nw := &sredis.Net{S: srv, X: x, DialTO: 500 * ms}
	nw.F.LatMin, nw.F.LatMax = p.C("latmin"), p.C("latmax")
	addr := fmt.Sprintf("%s:%d", rc.Host, rc.Port)
	dials := 0
	dial := func(ctx context.Context, network, a string) (net.Conn, error) {
		dials++
		if a != addr {
			x.Fail("address", "dialled %s, configured %s", a, addr)
		}
		c, err := nw.Dial(ctx, network, a)
		// the pool forgets a connection before it closes it: look when everybody is blocked
		rt.SimTimer(1, func() {
			if n := nw.Open(); want.MinIdle == 0 && n > want.Pool {
				x.Fail("pool-size", "%d connections are open, the pool may have %d", n, want.Pool)
			}
		})
		return c, err
	}
	nw.OnCmd = func(args []string, db int, authed bool) {
		switch strings.ToUpper(args[0]) {
		case "GET", "SET", "MGET":
			rt.Rec("exec", int64(db), b2i(authed), strings.Join(args, " "), nil)
			if db != want.Db {
				x.Fail("database", "%v executed on database %d, configured %d", args, db, want.Db)
			}
		}
	}
	proc := &rt.Proc{Env: map[string]string{}, Files: map[string]*rt.SimFile{}}
	rt.SetProc(proc)
	simplelog.ErrLogger.SetOutput(fatalWriter{})
	simplelog.StdLogger.SetOutput(io.Discard)
	defer rt.SetProc(nil)
	fault := func() {
		if p.C("cfault") == 2 {
			nw.F.DialRefuse, nw.F.ResetBefore, nw.F.ResetAfter, nw.F.ErrReply, nw.F.TornReply, nw.F.DropReply = 60, 30, 30, 30, 30, 20
			nw.F.Short = 100
		}
	}
	var client *redis.Client
	var pan interface{}
	opts := func(o *redis.Options) {
		o.Dialer = dial
		o.DialTimeout, o.ReadTimeout, o.PoolTimeout = 500*time.Millisecond, time.Second, 5*time.Second
		o.MaxRetries = p.I("retries")
		o.IdleCheckFrequency = -1
		if d := p.C("idle"); d > 0 {
			o.IdleTimeout = time.Duration(d)
		}
		if d := p.C("age"); d > 0 {
			o.MaxConnAge = time.Duration(d)
		}
		switch over {
		case 1:
			o.DB = 7
		case 2:
			o.Password = "overridden"
		case 3:
			o.PoolSize = 2
			o.MinIdleConns = 0
		}
	}
	switch p.C("down") {
	case 1:
		nw.Down = true
		x.Fault("server_down_at_start")
	case 2:
		nw.Parted = true
		x.Fault("partition")
	case 3:
		nw.F.ErrReply = 1000
	}
	if p.C("cfault") == 1 && p.C("down") == 0 {
		nw.F.DialRefuse, nw.F.ResetBefore, nw.F.ResetAfter, nw.F.ErrReply, nw.F.DropReply = 100, 100, 100, 100, 100
	}
	cold := p.C("cfault") == 1
	x.Thread("main", func() {
		pan = hk.Catch(func() { client = confs.NewRedisClient(rc, opts) })
		rt.Rec("constructed", b2i(pan == nil), 0, "", nil)
	})
	x.Join()
	if x.Failed() {
		return
	}
	if *rc != (confs.RedisConf{Host: want.Host, Port: want.Port, Password: rc.Password, Pool: rc.Pool, MinIdle: rc.MinIdle, Db: rc.Db}) {
		x.Fail("conf-changed", "the configuration was changed to %+v", *rc)
	}
	_, exited := pan.(rt.Exit)
	if pan != nil && !exited {
		x.Fail("panic", "NewRedisClient panicked: %v", pan)
		return
	}
	ok := srv.Pass == want.Password && p.C("down") == 0
	what := fmt.Sprintf("NewRedisClient(%+v), server password %q", *rc, srv.Pass)
	switch {
	case exited && ok && !cold:
		x.Fail("refused", "%s: the process ended although the server was fine", what)
		return
	case !exited && !ok:
		x.Fail("accepted", "%s: returned although the server cannot be used", what)
		return
	case !exited && client == nil:
		x.Fail("nil", "%s returned nil", what)
		return
	}
	if exited {
		x.Probe("process ended")
		nw.F = sredis.Faults{}
		return
	}
	pinged := false
	for _, e := range srv.Log {
		if strings.EqualFold(e.Args[0], "PING") && e.Delivered && e.Err == "" {
			pinged = true
		}
	}
	if !pinged {
		x.Fail("unchecked", "%s returned without an answer of the server", what)
		return
	}
	x.Probe("client made")
	if o := client.Options(); o.Addr != addr || o.DB != want.Db || o.Password != want.Password || o.PoolSize != want.Pool || o.MinIdleConns != want.MinIdle {
		x.Fail("options", "%s: the client has address %s, database %d, pool size %d and keeps %d idle connections; wanted %+v", what, o.Addr, o.DB, o.PoolSize, o.MinIdleConns, want)
		return
	}
	nw.F = sredis.Faults{LatMin: p.C("latmin"), LatMax: p.C("latmax")}
	if !cold && p.C("minidle") > 0 && over == 0 {
		rt.Sleep(2000 * ms)
		m := want.MinIdle
		if m > want.Pool {
			m = want.Pool
		}
		if n := nw.Open(); n < m {
			x.Fail("min-idle", "%s: %d connections are open, MinIdle %d", what, n, m)
			return
		}
	}
	fault()
	type val struct{ may map[int64]bool }
	key := func(t int, k int64) string { return fmt.Sprintf("k%d-%d", t, k) }
	cur := map[string]map[int64]bool{} // values a key may have (0: none)
	lost := false
	done := 0
	parts := 0
	x.RunOps(func(t int, op hk.Op) {
		if t == len(p.Ops)-1 && p.C("faults") > 0 {
			switch op.K {
			case "break":
				nw.BreakAll()
				x.Fault("connections_broken")
			case "restart":
				nw.Restart(false, op.A)
			case "crash":
				lost = true
				nw.Restart(true, op.A)
			case "part":
				parts++
				nw.Parted = true
				x.Fault("partition")
				rt.Sleep(op.A)
				nw.Parted = false
			case "sleep":
				rt.Sleep(op.A)
			}
			return
		}
		k := key(t, op.A)
		if cur[k] == nil {
			cur[k] = map[int64]bool{0: true}
		}
		switch op.K {
		case "sleep":
			rt.Sleep(op.A)
		case "set":
			err := client.Set(k, op.B, 0).Err()
			if !rt.On() {
				return
			}
			rt.Rec("set", int64(t), op.B, k, fmt.Sprint(err))
			if err == nil {
				cur[k] = map[int64]bool{op.B: true}
			} else {
				cur[k][op.B] = true
			}
		case "pipe":
			pl := client.Pipeline()
			s := pl.Set(k, op.B, 0)
			g := pl.Get(k)
			_, _ = pl.Exec()
			if !rt.On() {
				return
			}
			rt.Rec("pipe", int64(t), op.B, k, fmt.Sprint(s.Err(), g.Err()))
			if s.Err() == nil {
				cur[k] = map[int64]bool{op.B: true}
			} else {
				cur[k][op.B] = true
			}
			if g.Err() == nil && s.Err() == nil && g.Val() != fmt.Sprint(op.B) {
				x.Fail("wrong-value", "%s is %s just after it was set to %d", k, g.Val(), op.B)
			}
		case "get":
			v, err := client.Get(k).Int64()
			if !rt.On() {
				return
			}
			rt.Rec("get", int64(t), v, k, fmt.Sprint(err))
			if err == redis.Nil {
				v, err = 0, nil
			}
			if err == nil && !cur[k][v] && !(v == 0 && lost) {
				x.Fail("wrong-value", "%s is %d, may be %v", k, v, cur[k])
			}
		}
		if op.K != "sleep" {
			done++
		}
		if p.C("faults") == 0 && p.C("cfault") == 0 {
			// nothing has been injected: no command may fail
			for _, e := range rt.History()[rt.Seq()-1:] {
				if s, isS := e.V.(string); isS && e.Kind != "pipe" && s != "<nil>" && s != "redis: nil" {
					x.Fail("error", "%s of %s failed without any fault: %s", e.Kind, e.S, s)
				}
			}
		}
	})
	x.Join()
	if x.Failed() {
		return
	}
	// faults are over: the client works again, whatever happened
	nw.F = sredis.Faults{}
	rt.Sleep(8000 * ms)
	var last error
	good := 0
	for i := 0; i < want.Pool+3; i++ {
		if last = client.Set("probe", i, 0).Err(); last == nil {
			good++
		}
		rt.Sleep(100 * ms)
	}
	if !rt.On() {
		return
	}
	if last != nil {
		x.Fail("no-recovery", "%s: commands still fail after all faults are over: %v", what, last)
		return
	}
	if n := nw.Open(); n > want.Pool {
		x.Fail("pool-size", "%s: %d connections are open and idle", what, n)
		return
	}
	srv.DB(want.Db, func() {
		if v, ok := srv.Str("probe"); !ok || v != fmt.Sprint(want.Pool+2) {
			x.Fail("database", "database %d does not have what the client wrote", want.Db)
		}
	})
	client.Close()
	if n := nw.Open(); n != 0 {
		x.Fail("leak", "%d connections are open after Close", n)
	}
}
