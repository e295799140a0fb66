//go:build go1.21

// The Oracle driver and server: stand-ins that read the connection URL as go-ora does.
package main

import (
	"bufio"
	"context"
	"database/sql/driver"
	"errors"
	"fmt"
	"io"
	"net"
	"net/url"
	"sort"
	"strconv"
	"strings"

	rt "github.com/chanjarster/gears/zzsim/rt"
	"github.com/chanjarster/gears/zzsim/snet"
	sql "github.com/chanjarster/gears/zzsim/zsql"
)

func init() { sql.Register("oracle", oraDriver{}) }

type oraDriver struct{}

type oraConn struct {
	c   net.Conn
	r   *bufio.Reader
	bad bool
}

func (oraDriver) Open(dsn string) (driver.Conn, error) {
	u, err := url.Parse(dsn)
	if err != nil {
		return nil, err
	}
	if u.Scheme != "oracle" {
		return nil, errors.New("not an oracle URL")
	}
	pass, _ := u.User.Password()
	var opts []string
	to := 15
	for k, vs := range u.Query() {
		if strings.EqualFold(k, "connection timeout") || strings.EqualFold(k, "connect timeout") {
			if to, err = strconv.Atoi(vs[0]); err != nil {
				return nil, err
			}
		}
		opts = append(opts, strings.ToLower(k)+"="+strings.Join(vs, ","))
	}
	sort.Strings(opts)
	ctx, cancel := rt.CtxWithTimeout(context.Background(), durS(to))
	defer cancel()
	c, err := rt.DialHook(ctx, "tcp", u.Host)
	if err != nil {
		return nil, err
	}
	o := &oraConn{c: c, r: bufio.NewReader(c)}
	if _, err := o.ask(fmt.Sprintf("%q", append([]string{u.User.Username(), pass, strings.Trim(u.Path, "/")}, opts...))); err != nil {
		c.Close()
		return nil, err
	}
	return o, nil
}

func (o *oraConn) ask(q string) (string, error) {
	if _, err := io.WriteString(o.c, q+"\n"); err != nil {
		o.bad = true
		return "", driver.ErrBadConn
	}
	l, err := o.r.ReadString('\n')
	if err != nil {
		o.bad = true
		return "", err
	}
	l = strings.TrimSuffix(l, "\n")
	if strings.HasPrefix(l, "ERR ") {
		return "", errors.New(l)
	}
	return l, nil
}

func (o *oraConn) Prepare(string) (driver.Stmt, error) { return nil, errors.New("not supported") }
func (o *oraConn) Begin() (driver.Tx, error)           { return nil, errors.New("not supported") }
func (o *oraConn) Close() error                        { return o.c.Close() }
func (o *oraConn) IsValid() bool                       { return !o.bad }
func (o *oraConn) Ping(ctx context.Context) error {
	_, err := o.ask("PING")
	return err
}

func (o *oraConn) ExecContext(ctx context.Context, q string, a []driver.NamedValue) (driver.Result, error) {
	_, err := o.ask(q)
	return driver.RowsAffected(1), err
}

func (o *oraConn) QueryContext(ctx context.Context, q string, a []driver.NamedValue) (driver.Rows, error) {
	l, err := o.ask(q)
	if err != nil {
		return nil, err
	}
	r := &oraRows{}
	if l != "none" {
		r.v = []string{strings.TrimPrefix(l, "row ")}
	}
	return r, nil
}

type oraRows struct{ v []string }

func (r *oraRows) Columns() []string { return []string{"v"} }
func (r *oraRows) Close() error      { return nil }
func (r *oraRows) Next(d []driver.Value) error {
	if len(r.v) == 0 {
		return io.EOF
	}
	d[0] = r.v[0]
	r.v = nil
	return nil
}

func (s *server) ora(c *snet.Conn) {
	r := bufio.NewReader(c)
	l, err := r.ReadString('\n')
	if err != nil {
		return
	}
	var f []string
	rest := strings.Trim(strings.TrimSuffix(l, "\n"), "[]")
	for rest != "" {
		q, err := strconv.QuotedPrefix(rest)
		if err != nil {
			return
		}
		v, _ := strconv.Unquote(q)
		f = append(f, v)
		rest = strings.TrimPrefix(rest[len(q):], " ")
	}
	lg := login{user: f[0], pass: f[1], db: f[2], params: map[string]string{}}
	for _, o := range f[3:] {
		i := strings.IndexByte(o, '=')
		lg.params[o[:i]] = o[i+1:]
	}
	if msg := s.login(c, lg); msg != "" {
		io.WriteString(c, "ERR "+msg+"\n")
		return
	}
	io.WriteString(c, "ok\n")
	for {
		l, err := r.ReadString('\n')
		if err != nil {
			return
		}
		l = strings.TrimSuffix(l, "\n")
		if l == "PING" {
			s.ping(c)
			io.WriteString(c, "ok\n")
			continue
		}
		k, v, e := s.query(c, l)
		switch {
		case e != "":
			io.WriteString(c, "ERR "+e+"\n")
		case k == "row":
			io.WriteString(c, "row "+v+"\n")
		case k == "none":
			io.WriteString(c, "none\n")
		default:
			io.WriteString(c, "ok\n")
		}
	}
}
