//go:build go1.21

package sredis

import (
	"crypto/sha1"
	"encoding/hex"
	"math"
	"path"
	"sort"
	"strconv"
	"strings"

	rt "github.com/chanjarster/gears/zzsim/rt"
)

type reply struct {
	k    byte // + - : $ *
	s    string
	n    int64
	a    []reply
	null bool
}

func rInt(n int64) reply   { return reply{k: ':', n: n} }
func rBulk(s string) reply { return reply{k: '$', s: s} }
func rErr(s string) reply  { return reply{k: '-', s: s} }

var rOK = reply{k: '+', s: "OK"}
var rNull = reply{k: '$', null: true}

const wrongType = "WRONGTYPE Operation against a key holding the wrong kind of value"

func (r reply) enc(b []byte) []byte {
	switch r.k {
	case '+', '-':
		b = append(b, r.k)
		b = append(b, strings.NewReplacer("\r", " ", "\n", " ").Replace(r.s)...)
	case ':':
		b = append(b, ':')
		b = strconv.AppendInt(b, r.n, 10)
	case '$':
		b = append(b, '$')
		if r.null {
			b = append(b, "-1"...)
			break
		}
		b = strconv.AppendInt(b, int64(len(r.s)), 10)
		b = append(b, '\r', '\n')
		b = append(b, r.s...)
	case '*':
		b = append(b, '*')
		if r.null {
			b = append(b, "-1"...)
			break
		}
		b = strconv.AppendInt(b, int64(len(r.a)), 10)
		b = append(b, '\r', '\n')
		for _, x := range r.a {
			b = x.enc(b)
		}
		return b
	}
	return append(b, '\r', '\n')
}

type entry struct {
	s    string
	l    []string
	h    map[string]string
	z    map[string]float64
	kind byte // s l h z
	exp  int64
}

// Exec is one command (or script) the server executed.
type Exec struct {
	Conn      int
	At        int64
	Seq       int
	Args      []string
	Err       string
	Delivered bool // the reply reached a client that was still waiting for it
}

// Server is the simulated Redis server.
type Server struct {
	data    map[string]*entry
	scripts map[string]string
	Skew    int64 // server clock minus client clock, ns
	Log     []*Exec
	inMulti bool
	// Pass: clients have to authenticate with it.
	Pass string
	dbs  map[int]map[string]*entry // other than 0
}

// DB runs f on another database.
func (s *Server) DB(n int, f func()) {
	if n == 0 {
		f()
		return
	}
	d0 := s.data
	if s.dbs == nil {
		s.dbs = map[int]map[string]*entry{}
	}
	if s.dbs[n] == nil {
		s.dbs[n] = map[string]*entry{}
	}
	s.data = s.dbs[n]
	f()
	s.dbs[n] = s.data
	s.data = d0
}

// Str returns a string's value.
func (s *Server) Str(k string) (string, bool) {
	r := s.exec([]string{"GET", k})
	return r.s, r.k == '$' && !r.null
}

func NewServer() *Server {
	return &Server{data: map[string]*entry{}, scripts: map[string]string{}}
}

func (s *Server) now() int64 { return (rt.Wall() + s.Skew) / 1e6 }

// Hash returns a hash's content.
func (s *Server) Hash(k string) map[string]string {
	m := map[string]string{}
	if e := s.get(k); e != nil && e.kind == 'h' {
		for a, b := range e.h {
			m[a] = b
		}
	}
	return m
}

// Keys returns all live keys.
func (s *Server) Keys() []string {
	var ks []string
	for k := range s.data {
		if s.get(k) != nil {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	return ks
}

// Restart drops the script cache, and the data too if asked.
func (s *Server) Restart(loseData bool) {
	s.scripts = map[string]string{}
	if loseData {
		s.data = map[string]*entry{}
		s.dbs = nil
	}
}

// FlushScripts empties the script cache.
func (s *Server) FlushScripts() { s.scripts = map[string]string{} }

// HSetDirect changes a hash behind the clients' back.
func (s *Server) HSetDirect(k, f, v string) { s.exec([]string{"HSET", k, f, v}) }

func (s *Server) get(k string) *entry {
	e := s.data[k]
	if e != nil && e.exp != 0 && e.exp <= s.now() {
		delete(s.data, k)
		return nil
	}
	return e
}

func (s *Server) want(k string, kind byte, create bool) (*entry, bool) {
	e := s.get(k)
	if e == nil {
		if !create {
			return nil, true
		}
		e = &entry{kind: kind}
		switch kind {
		case 'h':
			e.h = map[string]string{}
		case 'z':
			e.z = map[string]float64{}
		}
		s.data[k] = e
		return e, true
	}
	return e, e.kind == kind
}

func idx(i, n int) int {
	if i < 0 {
		i += n
	}
	return i
}

func rList(l []string) reply {
	r := reply{k: '*'}
	for _, x := range l {
		r.a = append(r.a, rBulk(x))
	}
	return r
}

var arity = map[string]int{"GET": 2, "SET": -3, "EXISTS": -2, "TTL": 2, "PTTL": 2, "LLEN": 2, "RPUSH": -3, "LPUSH": -3, "LPOP": 2, "RPOP": 2, "LRANGE": 4,
	"LTRIM": 4, "LINDEX": 3, "LREM": 4, "EXPIRE": 3, "PEXPIRE": 3, "EXPIREAT": 3, "PEXPIREAT": 3, "PERSIST": 2, "HGET": 3, "HSET": -4, "HMSET": -4, "HDEL": -3, "HGETALL": 2, "HMGET": -3,
	"HEXISTS": 3, "HLEN": 2, "HKEYS": 2, "HVALS": 2, "HSETNX": 4, "DEL": -2, "UNLINK": -2, "INCR": 2, "DECR": 2, "INCRBY": 3, "DECRBY": 3, "SETEX": 4, "PSETEX": 4, "SETNX": 3,
	"EVAL": -3, "EVALSHA": -3, "SCRIPT": -2, "TYPE": 2, "STRLEN": 2, "APPEND": 3, "MGET": -2, "MSET": -3, "ZADD": -4, "ZCARD": 2, "ZREMRANGEBYSCORE": 4, "ZREMRANGEBYRANK": 4, "ZRANGE": -4,
	"ZCOUNT": 4, "ECHO": 2, "SELECT": 2, "AUTH": -2, "KEYS": 2, "GETSET": 3, "RENAME": 3}

func (s *Server) exec(a []string) reply {
	cmd := strings.ToUpper(a[0])
	if n, ok := arity[cmd]; ok && (n > 0 && len(a) != n || n < 0 && len(a) < -n) {
		return rErr("ERR wrong number of arguments for '" + strings.ToLower(cmd) + "' command")
	}
	num := func(i int) (int64, bool) {
		v, err := strconv.ParseInt(a[i], 10, 64)
		return v, err == nil
	}
	notInt := rErr("ERR value is not an integer or out of range")
	switch cmd {
	case "PING":
		if len(a) > 1 {
			return rBulk(a[1])
		}
		return reply{k: '+', s: "PONG"}
	case "ECHO":
		return rBulk(a[1])
	case "SELECT", "AUTH", "CLIENT", "READONLY":
		return rOK
	case "FLUSHALL", "FLUSHDB":
		s.data = map[string]*entry{}
		return rOK
	case "TIME":
		n := rt.Wall() + s.Skew
		return rList([]string{strconv.FormatInt(n/1e9, 10), strconv.FormatInt(n%1e9/1e3, 10)})
	case "DBSIZE":
		return rInt(int64(len(s.Keys())))
	case "KEYS":
		var out []string
		for _, k := range s.Keys() {
			if ok, _ := path.Match(a[1], k); ok {
				out = append(out, k)
			}
		}
		return rList(out)
	case "TYPE":
		e := s.get(a[1])
		if e == nil {
			return reply{k: '+', s: "none"}
		}
		return reply{k: '+', s: map[byte]string{'s': "string", 'l': "list", 'h': "hash", 'z': "zset"}[e.kind]}
	case "EXISTS":
		n := int64(0)
		for _, k := range a[1:] {
			if s.get(k) != nil {
				n++
			}
		}
		return rInt(n)
	case "DEL", "UNLINK":
		n := int64(0)
		for _, k := range a[1:] {
			if s.get(k) != nil {
				n++
				delete(s.data, k)
			}
		}
		return rInt(n)
	case "RENAME":
		e := s.get(a[1])
		if e == nil {
			return rErr("ERR no such key")
		}
		delete(s.data, a[1])
		s.data[a[2]] = e
		return rOK
	case "EXPIRE", "PEXPIRE", "EXPIREAT", "PEXPIREAT":
		v, ok := num(2)
		if !ok {
			if f, err := strconv.ParseFloat(a[2], 64); err != nil || f != math.Trunc(f) {
				return notInt
			}
			return notInt
		}
		e := s.get(a[1])
		if e == nil {
			return rInt(0)
		}
		switch cmd {
		case "EXPIRE":
			v = s.now() + v*1000
		case "PEXPIRE":
			v = s.now() + v
		case "EXPIREAT":
			v = v * 1000
		}
		if v <= s.now() {
			delete(s.data, a[1])
		} else {
			e.exp = v
		}
		return rInt(1)
	case "PERSIST":
		e := s.get(a[1])
		if e == nil || e.exp == 0 {
			return rInt(0)
		}
		e.exp = 0
		return rInt(1)
	case "TTL", "PTTL":
		e := s.get(a[1])
		if e == nil {
			return rInt(-2)
		}
		if e.exp == 0 {
			return rInt(-1)
		}
		t := e.exp - s.now()
		if cmd == "TTL" {
			t = (t + 500) / 1000
		}
		return rInt(t)
	case "GET", "GETSET", "STRLEN":
		e, ok := s.want(a[1], 's', false)
		if !ok {
			return rErr(wrongType)
		}
		r := rNull
		if e != nil {
			r = rBulk(e.s)
		}
		if cmd == "STRLEN" {
			return rInt(int64(len(r.s)))
		}
		if cmd == "GETSET" {
			s.data[a[1]] = &entry{kind: 's', s: a[2]}
		}
		return r
	case "MGET":
		r := reply{k: '*'}
		for _, k := range a[1:] {
			e, ok := s.want(k, 's', false)
			if !ok || e == nil {
				r.a = append(r.a, rNull)
			} else {
				r.a = append(r.a, rBulk(e.s))
			}
		}
		return r
	case "MSET":
		if len(a)%2 == 0 {
			return rErr("ERR wrong number of arguments for MSET")
		}
		for i := 1; i < len(a); i += 2 {
			s.data[a[i]] = &entry{kind: 's', s: a[i+1]}
		}
		return rOK
	case "APPEND":
		e, ok := s.want(a[1], 's', true)
		if !ok {
			return rErr(wrongType)
		}
		e.s += a[2]
		return rInt(int64(len(e.s)))
	case "SETNX":
		if s.get(a[1]) != nil {
			return rInt(0)
		}
		s.data[a[1]] = &entry{kind: 's', s: a[2]}
		return rInt(1)
	case "SETEX", "PSETEX":
		v, ok := num(2)
		if !ok {
			return notInt
		}
		if v <= 0 {
			return rErr("ERR invalid expire time in " + strings.ToLower(cmd))
		}
		if cmd == "SETEX" {
			v *= 1000
		}
		s.data[a[1]] = &entry{kind: 's', s: a[3], exp: s.now() + v}
		return rOK
	case "SET":
		e := &entry{kind: 's', s: a[2]}
		nx, xx, keep := false, false, false
		for i := 3; i < len(a); i++ {
			o := strings.ToUpper(a[i])
			switch {
			case o == "NX":
				nx = true
			case o == "XX":
				xx = true
			case o == "KEEPTTL":
				keep = true
			case (o == "EX" || o == "PX") && i+1 < len(a):
				v, ok := num(i + 1)
				if !ok {
					return notInt
				}
				if v <= 0 {
					return rErr("ERR invalid expire time in set")
				}
				if o == "EX" {
					v *= 1000
				}
				e.exp = s.now() + v
				i++
			default:
				return rErr("ERR syntax error")
			}
		}
		old := s.get(a[1])
		if nx && old != nil || xx && old == nil {
			return rNull
		}
		if keep && old != nil {
			e.exp = old.exp
		}
		s.data[a[1]] = e
		return rOK
	case "INCR", "DECR", "INCRBY", "DECRBY":
		d := int64(1)
		if len(a) > 2 {
			v, ok := num(2)
			if !ok {
				return notInt
			}
			d = v
		}
		if cmd[0] == 'D' {
			d = -d
		}
		e, ok := s.want(a[1], 's', false)
		if !ok {
			return rErr(wrongType)
		}
		if e == nil {
			e = &entry{kind: 's', s: "0"}
			s.data[a[1]] = e
		}
		v, err := strconv.ParseInt(e.s, 10, 64)
		if err != nil {
			return notInt
		}
		e.s = strconv.FormatInt(v+d, 10)
		return rInt(v + d)
	case "LLEN", "LRANGE", "LINDEX", "LPOP", "RPOP", "LTRIM", "LREM", "RPUSH", "LPUSH":
		e, ok := s.want(a[1], 'l', cmd == "RPUSH" || cmd == "LPUSH")
		if !ok {
			return rErr(wrongType)
		}
		if e == nil {
			e = &entry{kind: 'l'}
		}
		defer func() {
			if len(e.l) == 0 && s.data[a[1]] == e {
				delete(s.data, a[1])
			}
		}()
		n := len(e.l)
		switch cmd {
		case "LLEN":
			return rInt(int64(n))
		case "RPUSH":
			e.l = append(e.l, a[2:]...)
			return rInt(int64(len(e.l)))
		case "LPUSH":
			for _, v := range a[2:] {
				e.l = append([]string{v}, e.l...)
			}
			return rInt(int64(len(e.l)))
		case "LPOP":
			if n == 0 {
				return rNull
			}
			v := e.l[0]
			e.l = append([]string(nil), e.l[1:]...)
			return rBulk(v)
		case "RPOP":
			if n == 0 {
				return rNull
			}
			v := e.l[n-1]
			e.l = e.l[:n-1]
			return rBulk(v)
		case "LINDEX":
			i, ok := num(2)
			if !ok {
				return notInt
			}
			j := idx(int(i), n)
			if j < 0 || j >= n {
				return rNull
			}
			return rBulk(e.l[j])
		case "LREM":
			c, ok := num(2)
			if !ok {
				return notInt
			}
			var out []string
			k := int64(0)
			for _, v := range e.l {
				if v == a[3] && (c == 0 || k < c) {
					k++
					continue
				}
				out = append(out, v)
			}
			e.l = out
			return rInt(k)
		}
		i, ok1 := num(2)
		j, ok2 := num(3)
		if !ok1 || !ok2 {
			return notInt
		}
		b, en := idx(int(i), n), idx(int(j), n)
		if b < 0 {
			b = 0
		}
		if en >= n {
			en = n - 1
		}
		var part []string
		if b <= en {
			part = append(part, e.l[b:en+1]...)
		}
		if cmd == "LTRIM" {
			e.l = part
			return rOK
		}
		return rList(part)
	case "HGET", "HSET", "HMSET", "HSETNX", "HDEL", "HGETALL", "HMGET", "HEXISTS", "HLEN", "HKEYS", "HVALS":
		wr := cmd == "HSET" || cmd == "HMSET" || cmd == "HSETNX"
		if (cmd == "HSET" || cmd == "HMSET") && len(a)%2 != 0 {
			return rErr("ERR wrong number of arguments for '" + strings.ToLower(cmd) + "' command")
		}
		e, ok := s.want(a[1], 'h', wr)
		if !ok {
			return rErr(wrongType)
		}
		if e == nil {
			e = &entry{kind: 'h', h: map[string]string{}}
		}
		switch cmd {
		case "HGET":
			v, ok := e.h[a[2]]
			if !ok {
				return rNull
			}
			return rBulk(v)
		case "HEXISTS":
			if _, ok := e.h[a[2]]; ok {
				return rInt(1)
			}
			return rInt(0)
		case "HLEN":
			return rInt(int64(len(e.h)))
		case "HSETNX":
			if _, ok := e.h[a[2]]; ok {
				return rInt(0)
			}
			e.h[a[2]] = a[3]
			return rInt(1)
		case "HSET", "HMSET":
			n := int64(0)
			for i := 2; i < len(a); i += 2 {
				if _, ok := e.h[a[i]]; !ok {
					n++
				}
				e.h[a[i]] = a[i+1]
			}
			if cmd == "HMSET" {
				return rOK
			}
			return rInt(n)
		case "HDEL":
			n := int64(0)
			for _, f := range a[2:] {
				if _, ok := e.h[f]; ok {
					n++
					delete(e.h, f)
				}
			}
			if len(e.h) == 0 && s.data[a[1]] == e {
				delete(s.data, a[1])
			}
			return rInt(n)
		case "HMGET":
			r := reply{k: '*'}
			for _, f := range a[2:] {
				if v, ok := e.h[f]; ok {
					r.a = append(r.a, rBulk(v))
				} else {
					r.a = append(r.a, rNull)
				}
			}
			return r
		}
		var fs []string
		for f := range e.h {
			fs = append(fs, f)
		}
		sort.Strings(fs)
		var out []string
		for _, f := range fs {
			if cmd != "HVALS" {
				out = append(out, f)
			}
			if cmd != "HKEYS" {
				out = append(out, e.h[f])
			}
		}
		return rList(out)
	case "ZADD", "ZCARD", "ZREMRANGEBYSCORE", "ZREMRANGEBYRANK", "ZRANGE", "ZCOUNT":
		e, ok := s.want(a[1], 'z', cmd == "ZADD")
		if !ok {
			return rErr(wrongType)
		}
		if e == nil {
			e = &entry{kind: 'z', z: map[string]float64{}}
		}
		var ms []string
		for m := range e.z {
			ms = append(ms, m)
		}
		sort.Slice(ms, func(i, j int) bool {
			if e.z[ms[i]] != e.z[ms[j]] {
				return e.z[ms[i]] < e.z[ms[j]]
			}
			return ms[i] < ms[j]
		})
		bound := func(t string, lo bool) (float64, bool) {
			ex := strings.HasPrefix(t, "(")
			t = strings.TrimPrefix(t, "(")
			switch t {
			case "-inf":
				return math.Inf(-1), ex
			case "+inf", "inf":
				return math.Inf(1), ex
			}
			f, _ := strconv.ParseFloat(t, 64)
			return f, ex
		}
		in := func(v float64) bool {
			lo, e1 := bound(a[2], true)
			hi, e2 := bound(a[3], false)
			return (v > lo || !e1 && v == lo) && (v < hi || !e2 && v == hi)
		}
		switch cmd {
		case "ZADD":
			n := int64(0)
			for i := 2; i+1 < len(a); i += 2 {
				f, err := strconv.ParseFloat(a[i], 64)
				if err != nil {
					return rErr("ERR value is not a valid float")
				}
				if _, ok := e.z[a[i+1]]; !ok {
					n++
				}
				e.z[a[i+1]] = f
			}
			return rInt(n)
		case "ZCARD":
			return rInt(int64(len(ms)))
		case "ZCOUNT", "ZREMRANGEBYSCORE":
			n := int64(0)
			for _, m := range ms {
				if in(e.z[m]) {
					n++
					if cmd[1] == 'R' {
						delete(e.z, m)
					}
				}
			}
			if len(e.z) == 0 && s.data[a[1]] == e {
				delete(s.data, a[1])
			}
			return rInt(n)
		}
		i, ok1 := num(2)
		j, ok2 := num(3)
		if !ok1 || !ok2 {
			return notInt
		}
		b, en := idx(int(i), len(ms)), idx(int(j), len(ms))
		if b < 0 {
			b = 0
		}
		var out []string
		for k := b; k <= en && k < len(ms); k++ {
			out = append(out, ms[k])
		}
		if cmd == "ZRANGE" {
			return rList(out)
		}
		for _, m := range out {
			delete(e.z, m)
		}
		if len(e.z) == 0 && s.data[a[1]] == e {
			delete(s.data, a[1])
		}
		return rInt(int64(len(out)))
	case "SCRIPT":
		switch strings.ToUpper(a[1]) {
		case "LOAD":
			if len(a) != 3 {
				return rErr("ERR Unknown subcommand")
			}
			if f, e := compileLua(a[2]); f == nil {
				return rErr("ERR Error compiling script (new function): " + e)
			}
			return rBulk(s.load(a[2]))
		case "FLUSH":
			s.FlushScripts()
			return rOK
		case "EXISTS":
			r := reply{k: '*'}
			for _, h := range a[2:] {
				_, ok := s.scripts[strings.ToLower(h)]
				n := int64(0)
				if ok {
					n = 1
				}
				r.a = append(r.a, rInt(n))
			}
			return r
		}
		return rErr("ERR Unknown subcommand")
	case "EVAL", "EVALSHA":
		n, ok := num(2)
		if !ok {
			return notInt
		}
		if n < 0 {
			return rErr("ERR Number of keys can't be negative")
		}
		if int(n) > len(a)-3 {
			return rErr("ERR Number of keys can't be greater than number of args")
		}
		src := a[1]
		if cmd == "EVALSHA" {
			src, ok = s.scripts[strings.ToLower(a[1])]
			if !ok {
				return rErr("NOSCRIPT No matching script. Please use EVAL.")
			}
		} else {
			if f, e := compileLua(src); f == nil {
				return rErr("ERR Error compiling script (new function): " + e)
			}
			s.load(src)
		}
		return runScript(src, a[3:3+n], a[3+n:], func(args []string) reply {
			switch strings.ToUpper(args[0]) {
			case "EVAL", "EVALSHA", "SCRIPT", "MULTI", "EXEC":
				return rErr("ERR This Redis command is not allowed from scripts")
			}
			return s.exec(args)
		})
	}
	return rErr("ERR unknown command '" + a[0] + "'")
}

func (s *Server) load(src string) string {
	h := sha1.Sum([]byte(src))
	k := hex.EncodeToString(h[:])
	s.scripts[k] = src
	return k
}
