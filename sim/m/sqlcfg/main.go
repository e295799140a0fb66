//go:build go1.21

// Database pools made from a configuration (C36): database/sql and the drivers of
// MySQL and PostgreSQL over a simulated network to simulated servers.
package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"log"
	"net"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"time"
	_ "time/tzdata"

	"github.com/SkyAPM/go2sky"
	"github.com/chanjarster/gears/confs"
	"github.com/chanjarster/gears/simplelog"
	"github.com/chanjarster/gears/zzsim/hk"
	rt "github.com/chanjarster/gears/zzsim/rt"
	"github.com/chanjarster/gears/zzsim/snet"
	sql "github.com/chanjarster/gears/zzsim/zsql"
	mysqldrv "github.com/go-sql-driver/mysql"
)

const (
	ms  = int64(1e6)
	sec = int64(1e9)
)

func durS(n int) time.Duration { return time.Duration(n) * time.Second }

// fatalWriter turns log.Fatal into the end of the simulated process.
type fatalWriter struct{}

func (fatalWriter) Write(b []byte) (int, error) {
	pc := make([]uintptr, 24)
	fr := runtime.CallersFrames(pc[:runtime.Callers(2, pc)])
	for {
		f, more := fr.Next()
		if strings.Contains(f.Function, "log.") && strings.Contains(f.Function, ".Fatal") {
			panic(rt.Exit{Code: 1})
		}
		if !more {
			return len(b), nil
		}
	}
}

type login struct {
	user, pass, db string
	params         map[string]string
}

// server is the state behind the three protocols.
type server struct {
	x      *hk.X
	want   login
	pass   string
	broken bool // answers every login with an error
	store  map[string]string
	pings  int // answered
	sess   map[*snet.Conn]*session
	lat    int64
	life   int64 // connections may be used for this long
	vars   map[string]string
}

type session struct {
	at   int64
	vars map[string]string
}

func (s *server) login(c *snet.Conn, l login) string {
	rt.Rec("login", int64(c.ID), 0, l.user, nil)
	if s.broken {
		return "the server cannot log anyone in"
	}
	if l.user != s.want.user || l.pass != s.pass {
		return "access denied for user " + l.user
	}
	if l.db != s.want.db {
		return "unknown database " + l.db
	}
	for k, v := range s.want.params {
		if got, ok := l.params[k]; !ok || got != v {
			s.x.Fail("parameter", "connected with %s = %q, configured %q", k, got, v)
		}
	}
	for _, k := range []string{"application_name", "search_path", "statement_timeout", "lock_timeout", "trace file"} {
		if _, ok := s.want.params[k]; !ok && l.params[k] != "" {
			s.x.Fail("parameter", "connected with %s = %q, which is not configured", k, l.params[k])
		}
	}
	c.Client().Tag = s
	s.sess[c] = &session{at: rt.Mono(), vars: map[string]string{}}
	return ""
}

func (s *server) ping(c *snet.Conn) { s.used(c, "ping"); s.pings++ }

// used: a connection is used for something the application asked for.
func (s *server) used(c *snet.Conn, q string) {
	ss := s.sess[c]
	if s.life > 0 {
		// sent no later than now; the connection was made at the latest a few round trips after the login
		if age := rt.Mono() - ss.at; age > s.life+8*s.lat {
			s.x.Fail("lifetime", "%q came over a connection %v old, ConnMaxLifetime is %v", q, time.Duration(age), time.Duration(s.life))
		}
	}
	for k, v := range s.vars {
		if got, ok := ss.vars[k]; !ok || got != v {
			s.x.Fail("parameter", "%q came over a connection with %s = %q, configured %q", q, k, got, v)
		}
	}
	for k, v := range ss.vars {
		if _, ok := s.vars[k]; !ok {
			s.x.Fail("parameter", "%q came over a connection with %s = %q, which is not configured", q, k, v)
		}
	}
}

// query: the small language of the simulated databases.
func (s *server) query(c *snet.Conn, q string) (kind, val, err string) {
	if strings.HasPrefix(q, "SET ") {
		ss := s.sess[c]
		if v := strings.TrimPrefix(q, "SET NAMES "); v != q {
			ss.vars["charset"] = strings.TrimSpace(v)
			return "ok", "", ""
		}
		for _, p := range strings.Split(q[4:], ",") {
			if i := strings.IndexByte(p, '='); i > 0 {
				ss.vars[strings.TrimSpace(p[:i])] = strings.TrimSpace(p[i+1:])
			}
		}
		return "ok", "", ""
	}
	f := strings.Fields(q)
	if f[0] != "NAP" {
		s.used(c, q)
	}
	rt.Rec("query", int64(c.ID), 0, q, nil)
	switch f[0] {
	case "PUT":
		s.store[f[1]] = f[2]
		return "ok", "", ""
	case "FETCH":
		v, ok := s.store[f[1]]
		if !ok {
			return "none", "", ""
		}
		return "row", v, ""
	case "STAMP":
		return "time", "2021-03-04 05:06:07", ""
	case "NAP":
		s.used(c, q)
		n, _ := strconv.ParseInt(f[1], 10, 64)
		rt.Sleep(n)
		return "ok", "", ""
	}
	return "", "", "syntax error near " + q
}

var users = []string{"app", "svc_user", "o'brien", "用户", "user@corp", "a b"}
var passes = []string{"", "secret", "p@ss", "pa/ss?x=1", "a:b", "p%41#&+ +", "密码 'x'", `back\slash`, "tail@host:1)/"}

var mysqlParams = []struct {
	s string
	m map[string]string
}{
	{"", nil},
	{"time_zone=%27%2B08%3A00%27", map[string]string{"time_zone": "'+08:00'"}},
	{"time_zone=%27New+York%27&sql_mode=%27A%2BB+C%27", map[string]string{"time_zone": "'New York'", "sql_mode": "'A+B C'"}},
	{"time_zone='Asia/Shanghai'&sql_mode=%27ANSI%27", map[string]string{"time_zone": "'Asia/Shanghai'", "sql_mode": "'ANSI'"}},
	{"wait_timeout=60&charset=utf8mb4", map[string]string{"wait_timeout": "60", "charset": "utf8mb4"}},
	// (entries that are not name=value are left out)
	{"junk&wait_timeout=60&bad=%zz&&a=b=c&sql_mode=%27ANSI%27", map[string]string{"wait_timeout": "60", "sql_mode": "'ANSI'"}},
}

var pgParams = []struct {
	s string
	m map[string]string
}{
	{"", nil},
	{"application_name=my%20app", map[string]string{"application_name": "my app"}},
	{"application_name=my+other%2Bapp&search_path=a+b", map[string]string{"application_name": "my other+app", "search_path": "a b"}},
	{"search_path=tenant%2Cpublic&statement_timeout=3000", map[string]string{"search_path": "tenant,public", "statement_timeout": "3000"}},
	{"junk&application_name=one&bad=%zz&&a=b=c&search_path=two", map[string]string{"application_name": "one", "search_path": "two"}},
	{"client_encoding=UTF8&application_name=a%26b%3Dc%25", map[string]string{"client_encoding": "UTF8", "application_name": "a&b=c%"}},
}

var oraParams = []struct {
	s string
	m map[string]string
}{
	{"", nil},
	{"PREFETCH_ROWS=50", map[string]string{"prefetch_rows": "50"}},
	{"TRACE FILE=%2Ftmp%2Ftrace.log&SSL=FALSE", map[string]string{"trace file": "/tmp/trace.log", "ssl": "FALSE"}},
	{"TRACE FILE=%2Ftmp%2Fa+trace%2B.log", map[string]string{"trace file": "/tmp/a trace+.log"}},
	{"junk&PREFETCH_ROWS=50&bad=%zz&&a=b=c&SSL=FALSE", map[string]string{"prefetch_rows": "50", "ssl": "FALSE"}},
}

var locs = []string{"", "Asia/Shanghai", "UTC", "America/New_York", "No/Where"}

func gen(kind int64) func(r *hk.Rng) *hk.Plan {
	return func(r *hk.Rng) *hk.Plan {
		p := &hk.Plan{Cfg: map[string]int64{
			"kind": kind, "tracer": int64(r.N(3) / 2), "host": int64(r.N(3)), "port": r.Pick(3306, 1, 65535, 15432),
			"user": int64(r.N(len(users))), "pass": int64(r.N(len(passes))), "db": int64(r.N(2)),
			"open": r.Pick(0, 1, 2, 2, 3), "idle": r.Pick(0, 1, 1, 2, 3, 10), "life": r.Pick(0, 0, 0, 300*ms, 1000*ms, 3000*ms),
			"to": r.Pick(0, 1000, 2000, 5000) * ms, "rto": r.Pick(0, 0, 500, 1500) * ms, "wto": r.Pick(0, 700, 1500) * ms,
			"loc": r.Pick(0, 0, 1, 2, 3), "parse": int64(r.N(2)), "params": int64(r.N(6)), "over": 0, "sid": int64(r.N(2)), "servers": int64(r.N(3)),
			"latmin": r.Pick(0, 1, 3) * ms, "latmax": r.Pick(3, 10) * ms,
			"srvpass": 0, "down": 0, "faults": int64(r.N(3)), "cfault": int64(r.N(3)),
		}}
		switch r.N(10) {
		case 0:
			p.Cfg["srvpass"] = 1
		case 1:
			p.Cfg["down"] = int64(r.R(1, 5))
		case 2, 3:
			p.Cfg["over"] = int64(r.R(1, 3))
		}
		if r.P(1, 8) { // nothing but healthy use
			p.Cfg["faults"], p.Cfg["cfault"], p.Cfg["life"], p.Cfg["srvpass"], p.Cfg["down"] = 0, 0, 0, 0, 0
			p.Cfg["idle"] = 10
		}
		if kind == 0 && r.P(1, 25) {
			p.Cfg["loc"] = 4
		}
		if kind == 2 && r.P(1, 25) {
			p.Cfg["sid"] = 2
		}
		for t, n := 0, r.R(1, 5); t < n; t++ {
			var ops []hk.Op
			for i, m := 0, r.R(1, 7); i < m; i++ {
				switch r.N(9) {
				case 0, 1:
					ops = append(ops, hk.Op{K: "put", A: int64(r.N(3)), B: int64(t*100 + i + 1)})
				case 2:
					ops = append(ops, hk.Op{K: "stamp"})
				case 3, 4:
					ops = append(ops, hk.Op{K: "sleep", A: r.Pick(r.R64(0, 400), r.R64(0, 400), 1500, 4000) * ms})
				case 5:
					ops = append(ops, hk.Op{K: "nap", A: r.Pick(20, 100, 400, 1000, 2000) * ms})
				case 6:
					ops = append(ops, hk.Op{K: "ping"})
				default:
					ops = append(ops, hk.Op{K: "fetch", A: int64(r.N(3))})
				}
			}
			p.Ops = append(p.Ops, ops)
		}
		if p.C("faults") == 1 {
			ops := []hk.Op{{K: "faulter"}}
			for i, m := 0, r.R(1, 4); i < m; i++ {
				ops = append(ops, hk.Op{K: "sleep", A: r.R64(0, 500) * ms}, hk.Op{K: r.PickS("break", "restart", "part"), A: r.R64(1, 800) * ms})
			}
			p.Ops = append(p.Ops, ops)
		}
		p.Sim = hk.GenSim(r, 3000, false, 0)
		p.Sim.MaxSteps = 400000
		return p
	}
}

type discard struct{}

func (discard) Print(v ...interface{}) {}

func run(p *hk.Plan, x *hk.X) {
	kind := p.C("kind")
	host := []string{"db", "10.1.2.3", "db-1.internal.example"}[p.I("host")]
	port := p.I("port")
	user, pass, dbn := users[p.I("user")], passes[p.I("pass")], []string{"shop", "shop_2-x"}[p.I("db")]
	if kind != 1 {
		// what these drivers' connection strings cannot carry
		if strings.Contains(user, ":") || kind == 0 && strings.Contains(user, "@") {
			user = "app"
		}
	}
	s := &server{x: x, want: login{user: user, db: dbn}, pass: pass, store: map[string]string{}, sess: map[*snet.Conn]*session{}, lat: p.C("latmax"), life: p.C("life"), vars: map[string]string{}}
	if p.C("srvpass") == 1 {
		s.pass += "x"
	}
	nw := &snet.Net{X: x, HangTO: 20 * sec}
	nw.F.LatMin, nw.F.LatMax = p.C("latmin"), p.C("latmax")
	adr := fmt.Sprintf("%s:%d", host, port)
	var h *snet.Host
	maxOpen, maxIdle := p.I("open"), p.I("idle")
	if maxOpen > 0 && maxIdle > maxOpen {
		maxIdle = maxOpen
	}
	to, rto, wto := p.C("to"), p.C("rto"), p.C("wto")
	over := p.C("over")
	authed := func() int {
		n := 0
		for _, c := range nw.Conns() {
			if !c.Closed && c.Tag != nil {
				n++
			}
		}
		return n
	}
	nw.OnDial = func(a string, limit int64) {
		if a != adr {
			x.Fail("address", "dialled %s, configured %s", a, adr)
		}
		if n := nw.Open(); maxOpen > 0 && n+1 > maxOpen {
			x.Fail("open-conns", "connection %d is made, MaxOpenConns is %d", n+1, maxOpen)
		}
		if limit != to && !(kind == 2 && to == 0) {
			x.Fail("timeout", "connecting may take %v, configured %v", time.Duration(limit), time.Duration(to))
		}
	}
	byNet = nil
	dialTo(nw)
	rt.SetProc(&rt.Proc{Env: map[string]string{"HOME": "/root"}, Files: map[string]*rt.SimFile{}})
	mysqldrv.SetLogger(discard{})
	log.SetOutput(io.Discard)
	simplelog.ErrLogger.SetOutput(fatalWriter{})
	simplelog.StdLogger.SetOutput(io.Discard)
	defer rt.SetProc(nil)

	var tracer *go2sky.Tracer
	if p.C("tracer") == 1 {
		tracer = new(go2sky.Tracer)
	}
	var db *sql.DB
	var mk func()
	usable := true
	var what string
	life := time.Duration(p.C("life"))
	pi := p.I("params")
	switch kind {
	case 0:
		h = nw.Listen(adr, s.mysql)
		c := &confs.MysqlConf{Host: host, Port: port, Username: user, Password: pass, Database: dbn, MaxOpenConns: p.I("open"), MaxIdleConns: p.I("idle"), ConnMaxLifetime: life,
			ReadTimeout: time.Duration(rto), WriteTimeout: time.Duration(wto), Timeout: time.Duration(to), Loc: locs[p.I("loc")], ParseTime: p.C("parse") == 1, Params: mysqlParams[pi].s}
		what = fmt.Sprintf("NewMySqlDb(%+v)", *c)
		for k, v := range mysqlParams[pi].m {
			s.vars[k] = v
		}
		var cu confs.MysqlConfigCustomizer
		if over > 0 {
			cu = func(m *mysqldrv.Config) {
				switch over {
				case 1:
					m.DBName = "elsewhere"
				case 2:
					m.Params["autocommit"] = "0"
				case 3:
					m.Timeout, m.ReadTimeout = 3*time.Second, 900*time.Millisecond
				}
			}
			switch over {
			case 1:
				s.want.db = "elsewhere"
			case 2:
				s.vars["autocommit"] = "0"
			case 3:
				to, rto = 3*sec, 900*ms
			}
		}
		usable = p.C("loc") != 4
		mk = func() {
			if tracer != nil {
				db = confs.NewMySqlDbWithTracer(c, tracer, cu)
			} else {
				db = confs.NewMySqlDb(c, cu)
			}
		}
	case 1:
		h = nw.Listen(adr, s.pg)
		par := pgParams[pi].s
		if par != "" {
			par += "&"
		}
		c := &confs.PostgresqlConf{Host: host, Port: port, Username: user, Password: pass, Database: dbn, MaxOpenConns: p.I("open"), MaxIdleConns: p.I("idle"), ConnMaxLifetime: life,
			ConnectTimeout: int(to / sec), Params: par + "sslmode=disable"}
		what = fmt.Sprintf("NewPostgresqlDb(%+v)", *c)
		s.want.params = map[string]string{}
		for k, v := range pgParams[pi].m {
			s.want.params[k] = v
		}
		var cu confs.PostgresqlUrlOptionsCustomizer
		if over > 0 {
			s.want.params["lock_timeout"] = "77"
			cu = func(o map[string]string) { o["lock_timeout"] = "77" }
		}
		rto, wto = 0, 0
		mk = func() {
			if tracer != nil {
				db = confs.NewPostgresqlDbWithTracer(c, tracer, cu)
			} else {
				db = confs.NewPostgresqlDb(c, cu)
			}
		}
	case 2:
		h = nw.Listen(adr, s.ora)
		c := &confs.OracleConf{Host: host, Port: port, Username: user, Password: pass, MaxOpenConns: p.I("open"), MaxIdleConns: p.I("idle"), ConnMaxLifetime: life,
			ConnectTimeout: int(to / sec), Params: oraParams[pi%len(oraParams)].s}
		s.want.params = map[string]string{}
		for k, v := range oraParams[pi%len(oraParams)].m {
			s.want.params[k] = v
		}
		switch p.C("sid") {
		case 0:
			c.Service = dbn
		case 1:
			c.Sid = dbn
			s.want.db = ""
			s.want.params["sid"] = dbn
		default:
			usable = false
		}
		if n := p.I("servers"); n > 0 {
			c.Servers = []string{"node2:1521", "node2:1521,node3:1522"}[n-1]
			s.want.params["server"] = c.Servers
		}
		what = fmt.Sprintf("NewOracleDb(%+v)", *c)
		var cu confs.OracleUrlOptionsCustomizer
		if over > 0 {
			s.want.params["unix socket"] = "/x"
			cu = func(o map[string]string) { o["UNIX SOCKET"] = "/x" }
		}
		rto, wto = 0, 0
		mk = func() {
			if tracer != nil {
				db = confs.NewOracleDbWithTracer(c, tracer, cu)
			} else {
				db = confs.NewOracleDb(c, cu)
			}
		}
	}
	if kind == 0 && wto > 0 || kind == 0 && rto > 0 {
		nw.OnWrite = func(c *snet.Conn) {
			if l := c.WriteLimit(); kind == 0 && wto > 0 && l != wto {
				x.Fail("timeout", "writing may take %v, WriteTimeout is %v", time.Duration(l), time.Duration(wto))
			}
		}
	}
	faults := func(n int) {
		nw.F.DialRefuse, nw.F.ResetReq, nw.F.ResetRep, nw.F.TornRep, nw.F.ShortRep = n, n, n, n, 2*n
		if rto > 0 {
			nw.F.DropReq, nw.F.DropRep = n, n
		}
		if to > 0 {
			nw.F.DialHang = n
		}
	}
	calm := func() { nw.F = snet.Faults{LatMin: p.C("latmin"), LatMax: p.C("latmax")} }
	down := p.C("down")
	switch down {
	case 1:
		h.Down = true
		x.Fault("server_down_at_start")
	case 2, 3:
		h.Parted = true
		x.Fault("partition")
	case 4:
		s.broken = true
		x.Fault("logins_refused")
	case 5:
		s.want.db = "gone"
		s.want.params = nil
		x.Fault("database_gone")
		if kind == 2 && p.C("sid") == 1 {
			s.broken = true
		}
	}
	cold := p.C("cfault") == 1 && down == 0
	if cold {
		faults(60)
	}
	t0 := rt.Mono()
	var pan interface{}
	x.Thread("main", func() {
		pan = hk.Catch(mk)
		rt.Rec("constructed", b2i(pan == nil), 0, "", nil)
	})
	x.Join()
	calm()
	if x.Failed() {
		return
	}
	ok := usable && s.pass == pass && down == 0
	_, exited := pan.(rt.Exit)
	_, crashed := pan.(runtime.Error)
	switch {
	case pan != nil && !exited && (crashed || ok):
		x.Fail("panic", "%s panicked: %v", what, pan)
		return
	case pan != nil && ok && !cold:
		x.Fail("refused", "%s: the process ended although the server was fine", what)
		return
	case pan == nil && !ok:
		x.Fail("accepted", "%s: returned although the server cannot be used", what)
		return
	case pan == nil && db == nil:
		x.Fail("nil", "%s returned nil", what)
		return
	}
	if el := rt.Mono() - t0; to > 0 && (down == 2 || down == 3) && el > 4*to+sec {
		x.Fail("timeout", "%s took %v to end with a server that does not answer", what, time.Duration(el))
		return
	}
	if pan != nil {
		x.Probe("process ended")
		return
	}
	if s.pings == 0 {
		x.Fail("unchecked", "%s returned without an answer of the server", what)
		return
	}
	x.Probe("pool made")
	if p.C("cfault") == 2 {
		faults(30)
	}
	quiet := p.C("faults") != 1 && p.C("cfault") == 0
	key := func(t int, k int64) string { return fmt.Sprintf("k%d-%d", t, k) }
	may := map[string]map[string]bool{}   // values a key may have ("": none)
	doubt := map[string]map[string]bool{} // values that may still arrive
	threads := len(p.Ops)
	if p.C("faults") == 1 {
		threads--
	}
	x.RunOps(func(t int, op hk.Op) {
		if p.C("faults") == 1 && t == len(p.Ops)-1 {
			switch op.K {
			case "break":
				h.BreakAll()
				x.Fault("connections_broken")
			case "restart":
				h.Restart(op.A)
			case "part":
				h.Parted = true
				x.Fault("partition")
				rt.Sleep(op.A)
				h.Parted = false
				h.BreakAll()
			case "sleep":
				rt.Sleep(op.A)
			}
			return
		}
		k := key(t, op.A)
		if may[k] == nil {
			may[k], doubt[k] = map[string]bool{"": true}, map[string]bool{}
		}
		var err error
		began := rt.Mono()
		bad := func(err error) bool {
			if !rt.On() {
				return true
			}
			rt.Rec(op.K, int64(t), op.B, k, nil)
			if err != nil && quiet {
				x.Fail("error", "%s: %s failed without any fault: %v", what, op.K, err)
			}
			return err != nil
		}
		switch op.K {
		case "sleep":
			rt.Sleep(op.A)
		case "ping":
			bad(db.Ping())
		case "put":
			v := fmt.Sprint(op.B)
			_, err = db.Exec("PUT " + k + " " + v)
			if bad(err) {
				may[k][v] = true
				doubt[k][v] = true
			} else {
				may[k] = map[string]bool{v: true}
				for d := range doubt[k] {
					may[k][d] = true
				}
			}
		case "fetch":
			var v string
			err = db.QueryRow("FETCH " + k).Scan(&v)
			if errors.Is(err, sql.ErrNoRows) {
				v, err = "", nil
			}
			if !bad(err) && !may[k][v] {
				x.Fail("wrong-value", "%s is %q, may be %v", k, v, keys(may[k]))
			}
		case "stamp":
			if kind != 0 {
				return
			}
			var v interface{}
			err = db.QueryRow("STAMP").Scan(&v)
			if bad(err) {
				return
			}
			loc := time.UTC
			if l := locs[p.I("loc")]; l != "" {
				loc, _ = time.LoadLocation(l)
			}
			switch tv := v.(type) {
			case time.Time:
				if p.C("parse") == 0 || !tv.Equal(time.Date(2021, 3, 4, 5, 6, 7, 0, loc)) {
					x.Fail("time", "%s: a DATETIME is read as %v", what, tv)
				}
			case []byte:
				if p.C("parse") == 1 {
					x.Fail("time", "%s: a DATETIME is read as %q", what, tv)
				}
			default:
				x.Fail("time", "%s: a DATETIME is read as %T", what, v)
			}
		case "nap":
			_, err = db.Exec(fmt.Sprintf("NAP %d", op.A))
			if !rt.On() {
				return
			}
			rt.Rec("nap", int64(t), b2i(err == nil), "", nil)
			el := rt.Mono() - began
			lat := 4 * p.C("latmax")
			switch {
			case !quiet:
			case rto > 0 && op.A > rto && err == nil:
				x.Fail("timeout", "%s: an answer that took %v was waited for", what, time.Duration(op.A))
			case (rto == 0 || op.A+lat < rto) && err != nil:
				x.Fail("error", "%s: a query of %v failed without any fault: %v", what, time.Duration(op.A), err)
			case rto > 0 && maxOpen == 0 && el > rto+20*p.C("latmax"):
				x.Fail("timeout", "%s: a query of %v took %v", what, time.Duration(op.A), time.Duration(el))
			}
		}
	})
	x.Join()
	if x.Failed() {
		return
	}
	calm()
	rt.Sleep(25 * sec) // connections that hang have been given up
	if n := nw.Open(); n > maxIdle {
		x.Fail("idle-conns", "%s: %d connections are open and idle", what, n)
		return
	}
	if lost := rtoHit(p, rto); quiet && s.life == 0 && !lost && !cold && maxIdle >= threads+1 {
		if n := len(nw.Conns()); n > threads+1 {
			x.Fail("no-reuse", "%s: %d connections were made for at most %d users at a time", what, n, threads)
			return
		}
		x.Probe("connections reused")
	}
	if quiet && s.life == 0 && !rtoHit(p, rto) && !cold && maxIdle >= 1 && nw.Open() == 0 {
		x.Fail("idle-conns", "%s: no connection is retained", what)
		return
	}
	var last error
	for i := 0; i < maxIdle+4; i++ {
		_, last = db.Exec(fmt.Sprintf("PUT probe %d", i))
		rt.Sleep(50 * ms)
	}
	if !rt.On() {
		return
	}
	if last != nil {
		x.Fail("no-recovery", "%s: queries still fail after all faults are over: %v", what, last)
		return
	}
	if v := s.store["probe"]; v != fmt.Sprint(maxIdle+3) {
		x.Fail("wrong-value", "%s: the server does not have what was written", what)
		return
	}
	if n := nw.Open(); n > maxIdle {
		x.Fail("idle-conns", "%s: %d connections are open and idle", what, n)
		return
	}
	if n := authed(); n == 0 && maxIdle > 0 && s.life == 0 {
		x.Fail("idle-conns", "%s: no connection is retained", what)
		return
	}
	db.Close()
	rt.Sleep(100 * ms)
	if n := nw.Open(); n != 0 {
		x.Fail("leak", "%s: %d connections are open after Close", what, n)
	}
}

// rtoHit: some query takes longer than ReadTimeout and so costs its connection.
func rtoHit(p *hk.Plan, rto int64) bool {
	if rto == 0 {
		return false
	}
	for _, ops := range p.Ops {
		for _, op := range ops {
			if op.K == "nap" && op.A+4*p.C("latmax") >= rto {
				return true
			}
		}
	}
	return false
}

func keys(m map[string]bool) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func b2i(b bool) int64 {
	if b {
		return 1
	}
	return 0
}

var _ net.Conn
var _ context.Context

const realSQL = "confs/mysql.go, confs/postgresql.go, confs/oracle.go, simplelog, github.com/SkyAPM/go2sky-plugins/sql, database/sql (of Go 1.23.12)"

func main() {
	hk.Bystander = bystander
	hk.Main("sqlcfg", []*hk.Scenario{
		{Prop: "C36", Name: "mysql", Runs: 4000, Gen: gen(0), Run: run, Real: realSQL + ", github.com/go-sql-driver/mysql", Stub: "network and MySQL server (simulated: native password login, ping, text queries), process exit"},
		{Prop: "C36", Name: "pg", Runs: 4000, Gen: gen(1), Run: run, Real: realSQL + ", github.com/lib/pq", Stub: "network and PostgreSQL server (simulated: password login, simple queries), process exit"},
		{Prop: "C36", Name: "oracle", Runs: 4000, Gen: gen(2), Run: run, Real: realSQL, Stub: "network, Oracle server and Oracle driver (a stand-in that reads the connection URL as go-ora does), process exit"},
	})
}
