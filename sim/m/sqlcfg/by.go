//go:build go1.21

package main

import (
	"context"
	"net"
	"strings"
	"time"

	"github.com/chanjarster/gears/confs"
	"github.com/chanjarster/gears/zzsim/hk"
	rt "github.com/chanjarster/gears/zzsim/rt"
	"github.com/chanjarster/gears/zzsim/snet"
	sql "github.com/chanjarster/gears/zzsim/zsql"
)

// dialTo connects the bystander to its own server.
func dialTo(nw *snet.Net) {
	rt.DialHook = func(ctx context.Context, network, a string) (net.Conn, error) {
		if byNet != nil && strings.HasPrefix(a, "other.sim:") {
			return byNet.Dial(ctx, network, a)
		}
		return nw.Dial(ctx, network, a)
	}
}

var byNet *snet.Net

// bystander is another pool, for another server, with a configuration of its own.
func bystander(x *hk.X, r *hk.Rng) {
	rt.Sleep(r.Pick(1, 1000, ms, 500*ms))
	nw := &snet.Net{X: x, HangTO: 20 * sec}
	byNet = nw
	s := &server{x: x, want: login{user: "other", db: "otherdb"}, pass: "otherpw", store: map[string]string{}, sess: map[*snet.Conn]*session{}, vars: map[string]string{}}
	open, idle := r.R(2, 9), 1
	var mk func() *sql.DB
	switch r.N(3) {
	case 0:
		nw.Listen("other.sim:7", s.mysql)
		c := &confs.MysqlConf{Host: "other.sim", Port: 7, Username: "other", Password: "otherpw", Database: "otherdb", MaxOpenConns: open, MaxIdleConns: idle, ConnMaxLifetime: time.Hour, Params: "wait_timeout=61"}
		s.vars["wait_timeout"] = "61"
		mk = func() *sql.DB { return confs.NewMySqlDb(c, nil) }
	case 1:
		nw.Listen("other.sim:7", s.pg)
		c := &confs.PostgresqlConf{Host: "other.sim", Port: 7, Username: "other", Password: "otherpw", Database: "otherdb", MaxOpenConns: open, MaxIdleConns: idle, ConnMaxLifetime: time.Hour, Params: "application_name=another&sslmode=disable"}
		s.want.params = map[string]string{"application_name": "another"}
		mk = func() *sql.DB { return confs.NewPostgresqlDb(c, nil) }
	case 2:
		nw.Listen("other.sim:7", s.ora)
		c := &confs.OracleConf{Host: "other.sim", Port: 7, Username: "other", Password: "otherpw", Service: "otherdb", MaxOpenConns: open, MaxIdleConns: idle, ConnMaxLifetime: time.Hour, Params: "PREFETCH_ROWS=51"}
		s.want.params = map[string]string{"prefetch_rows": "51"}
		mk = func() *sql.DB { return confs.NewOracleDb(c, nil) }
	}
	var db *sql.DB
	pan := hk.Catch(func() { db = mk() })
	if !rt.On() {
		return
	}
	if pan != nil || db == nil {
		x.Fail("others", "another pool, for another server that is fine, could not be made: %v", pan)
		return
	}
	if n := db.Stats().MaxOpenConnections; n != open {
		x.Fail("others", "another pool may have %d connections, configured %d", n, open)
	}
	for i, n := 0, r.R(1, 3); i < n && !x.Failed(); i++ {
		k, v := "k"+string(rune('0'+i)), "other"
		_, e := db.Exec("PUT " + k + " " + v)
		var got string
		e2 := db.QueryRow("FETCH " + k).Scan(&got)
		if !rt.On() {
			return
		}
		if e != nil || e2 != nil || got != v {
			x.Fail("others", "another pool has put %s = %s and fetched %q (%v, %v)", k, v, got, e, e2)
			return
		}
		rt.Sleep(r.Pick(1, ms, 500*ms))
	}
	db.Close()
}
