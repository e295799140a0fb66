//go:build go1.21

// Scenarios of the config store (C21 to C24).
package main

import (
	"errors"
	"fmt"
	"io"
	"log"
	"net/url"
	"reflect"
	"strconv"
	"strings"
	"time"

	"github.com/chanjarster/gears/confstore"
	"github.com/chanjarster/gears/simplelog"
	"github.com/chanjarster/gears/zzsim/hk"
	rt "github.com/chanjarster/gears/zzsim/rt"
	"github.com/chanjarster/gears/zzsim/sredis"
	"github.com/go-redis/redis/v7"
)

const sec = int64(1e9)
const ms = int64(1e6)

// ---- processors ---------------------------------------------------------------

type custom struct{ V string }

// yproc lets other goroutines run while it works.
type yproc struct{}

func (yproc) Validate(v string) (bool, string) {
	rt.YH()
	if strings.HasPrefix(v, "c") {
		return true, ""
	}
	return false, "no c value"
}
func (yproc) Convert(v string) interface{} { rt.YH(); return &custom{v} }

func processor(i int) confstore.ValueProcessor {
	switch i {
	case 0:
		return confstore.IntProcessor(0, true, 100000, true)
	case 1:
		return confstore.StringProcessor(1, 12)
	case 2:
		return confstore.Duration
	case 3:
		return yproc{}
	case 5:
		var none *yproc
		return none
	case 6:
		return confstore.Bool
	case 7:
		return confstore.Url
	case 8:
		return confstore.UrlString
	case 9:
		return confstore.CssColorHex
	case 10:
		return confstore.EnumProcessor([]string{"e0", "e1", "e2", "E 3"})
	case 11:
		return confstore.IntGtZero
	case 12:
		return confstore.IntProcessor(-5, false, 40, false)
	case 13:
		return confstore.String
	}
	return nil
}

// conv is what processor i makes of v, written down independently.
func conv(i int, v string) (interface{}, bool) {
	switch i {
	case 0:
		n, err := strconv.Atoi(v)
		return n, err == nil && n >= 0 && n <= 100000
	case 1:
		return v, len(v) >= 1 && len(v) <= 12
	case 2:
		d, err := time.ParseDuration(v)
		return d, err == nil
	case 3:
		return &custom{v}, strings.HasPrefix(v, "c")
	case 6:
		return v == "true", v == "true" || v == "false"
	case 7, 8:
		if v == "" {
			if i == 8 {
				return "", true
			}
			return (*url.URL)(nil), true
		}
		u, err := url.ParseRequestURI(v)
		if i == 8 {
			return v, err == nil
		}
		return u, err == nil
	case 9:
		// (no other value with a # is ever used)
		return v, v == "" || len(v) == 7 && v[0] == '#'
	case 10:
		return v, v == "e0" || v == "e1" || v == "e2" || v == "E 3"
	case 11:
		n, err := strconv.ParseInt(v, 10, 32)
		return int(n), err == nil && n > 0
	case 12:
		n, err := strconv.ParseInt(v, 10, 32)
		return int(n), err == nil && n > -5 && n < 40
	case 13:
		return v, true
	}
	return nil, false
}

func value(proc int, n int) string {
	switch proc {
	case 0:
		return strconv.Itoa(n)
	case 1:
		return "s" + strconv.Itoa(n)
	case 2:
		return strconv.Itoa(n) + "ms"
	case 6:
		return []string{"true", "false", "false", "1", "True"}[n%5]
	case 7, 8:
		if n%9 == 0 {
			return ""
		}
		return "http://h" + strconv.Itoa(n) + "/p?q=1"
	case 9:
		if n%9 == 0 {
			return ""
		}
		return fmt.Sprintf("#%06x", n)
	case 10:
		return []string{"e0", "e1", "e2", "E 3", "e4"}[n%5]
	case 11:
		return strconv.Itoa(n - 12)
	case 12:
		return strconv.Itoa(n%60 - 10)
	case 13:
		return "é" + strconv.Itoa(n)
	}
	return "c" + strconv.Itoa(n)
}

// anyProc is one of the first four processors, or another one now and then.
func anyProc(r *hk.Rng) int {
	if r.P(1, 4) {
		return r.R(6, 13)
	}
	return r.N(4)
}

// ---- recorded calls -------------------------------------------------------------

type kv struct{ k, v string }

type rec struct {
	t          int
	kind       string
	key, val   string
	proc       int
	ents       []kv
	keys       []string
	call, ret  int
	callT      int64
	retT       int64
	done       bool
	fail       bool // error returned
	rej        []bool
	hit        bool
	got        interface{}
	multi      []kvAny
	bad        string
	failedCall bool // a persister call of it failed
}

type kvAny struct {
	k string
	v interface{}
}

func (r *rec) String() string {
	s := fmt.Sprintf("%s#%d..%d", r.kind, r.call, r.ret)
	switch r.kind {
	case "batch":
		s += fmt.Sprintf("%v rejected %v", r.ents, r.rej)
	case "bget", "bgets":
		s += fmt.Sprintf("%q -> %v", r.keys, r.multi)
	case "get", "gets", "mget", "mgets":
		s += fmt.Sprintf("(%s) -> %v %v", r.key, r.got, r.hit)
	case "reg":
		s += fmt.Sprintf("(%s,%s,proc %d) fail=%v", r.key, r.val, r.proc, r.fail)
	default:
		s += fmt.Sprintf("(%s,%s) fail=%v", r.key, r.val, r.fail)
	}
	return s
}

// ---- persister ---------------------------------------------------------------------

// pev is a change of the persisted copy.
type pev struct {
	seq    int
	key    string
	val    string
	del    bool
	late   bool
	foreig bool
}

type load struct {
	start, end   int
	startT, endT int64
	ok           bool
	fin          bool
}

// fake is a persister in memory, slow and failing as told.
type fake struct {
	w     *world
	data  map[string]string
	log   []pev
	loads []*load
	mute  bool // do not record loads as operations
}

var errPersist = errors.New("persister fails")

func (f *fake) pause() {
	w := f.w
	rt.YH()
	if w.slowP > 0 && rt.Chance(w.slowP, 1000) {
		w.x.Fault("persister_slow")
		rt.Sleep(w.slowBy)
	}
}

func (f *fake) fails() bool {
	if f.w.failP > 0 && rt.Chance(f.w.failP, 1000) {
		f.w.x.Fault("persister_error")
		return true
	}
	return false
}

func (f *fake) put(k, v string) {
	f.data[k] = v
	f.log = append(f.log, pev{seq: rt.Rec("saved", 0, 0, k, v), key: k, val: v})
}

func (f *fake) note(keys ...string) {
	// the calls in flight for these keys have a failing persister
	for _, r := range f.w.recs {
		if !r.done && r.kind != "load" {
			for _, k := range keys {
				if r.touches(k) {
					r.failedCall = true
				}
			}
		}
	}
}

func (f *fake) Save(key, value string) error {
	f.pause()
	if f.fails() {
		f.note(key)
		if rt.Chance(1, 3) {
			f.put(key, value)
		}
		return errPersist
	}
	f.put(key, value)
	f.pause()
	return nil
}

func (f *fake) BatchSave(l []*confstore.KVStr) error {
	f.pause()
	fail := len(l) > 0 && f.fails()
	if fail {
		for _, e := range l {
			f.note(e.Key)
		}
		n := rt.Choose(len(l) + 1)
		if n < len(l) && n > 0 {
			f.w.x.Fault("persister_partial")
		}
		l = l[:n]
	}
	for _, e := range l {
		f.put(e.Key, e.Value)
	}
	f.pause()
	if fail {
		return errPersist
	}
	return nil
}

func (f *fake) Delete(key string) error {
	f.pause()
	if f.fails() {
		f.note(key)
		return errPersist
	}
	delete(f.data, key)
	f.log = append(f.log, pev{seq: rt.Rec("deleted", 0, 0, key, nil), key: key, del: true})
	f.pause()
	return nil
}

func (f *fake) Load(s confstore.Interface) error {
	l := &load{start: rt.Rec("load", 0, 0, "", nil), startT: rt.Mono()}
	f.loads = append(f.loads, l)
	defer func() {
		l.endT = rt.Mono()
		l.end = rt.Rec("loaded", b2i(l.ok), 0, "", nil)
		l.fin = true
	}()
	f.pause()
	bad := f.fails()
	if bad && rt.Chance(1, 2) {
		return errPersist
	}
	var snap []kv
	for _, k := range rt.MapKeys(0, f.data) {
		snap = append(snap, kv{k, f.data[k]})
	}
	f.pause()
	for i, e := range snap {
		if bad && i >= len(snap)/2 {
			break
		}
		if f.mute {
			s.UpdateNoPersist(e.k, e.v)
		} else {
			f.w.update(s, -1, "updnp", e.k, e.v)
		}
	}
	if bad {
		return errPersist
	}
	f.pause()
	l.ok = true
	return nil
}

func b2i(b bool) int64 {
	if b {
		return 1
	}
	return 0
}

// ---- world ----------------------------------------------------------------------------

// gate lets the harness look at the memory without a load.
type gate struct {
	inner confstore.LoadPolicy
	off   bool
}

func (g *gate) DoLoad(s confstore.Interface, p confstore.Persister) error {
	if g.off {
		return nil
	}
	return g.inner.DoLoad(s, p)
}

type world struct {
	x      *hk.X
	p      *hk.Plan
	recs   []*rec
	per    *fake
	pol    *gate
	st     confstore.Interface
	slowP  int
	slowBy int64
	failP  int
	n      int
	procs  map[string]int
}

var keys = []string{"a", "b", "c", "", "zz"}

func (r *rec) touches(k string) bool {
	for _, e := range r.ents {
		if e.k == k {
			return true
		}
	}
	return r.key == k && r.kind != "batch"
}

func policy(i int64, d int64) confstore.LoadPolicy {
	switch i {
	case 0:
		return confstore.NoopLoadPolicy
	case 1:
		return confstore.NewSimpleLoadPolicy()
	case 2:
		return confstore.SimpleLoadPolicy
	case 3:
		return confstore.NewLoadPolicy(0)
	}
	return confstore.NewLoadPolicy(time.Duration(d))
}

func newWorld(p *hk.Plan, x *hk.X) *world {
	w := &world{x: x, p: p, procs: map[string]int{}}
	w.slowP, w.slowBy, w.failP = p.I("slow"), p.C("slowby"), p.I("fail")
	w.per = &fake{w: w, data: map[string]string{}}
	w.pol = &gate{inner: policy(p.C("policy"), p.C("interval"))}
	var per confstore.Persister = w.per
	if p.C("noper") == 1 {
		per = confstore.NoopPersister
	}
	w.st = confstore.NewStore(per, w.pol)
	return w
}

func (w *world) text(key string) string {
	var sb strings.Builder
	n := 0
	for _, r := range w.recs {
		if key != "" && !r.touches(key) && !has(r.keys, key) {
			continue
		}
		if n++; n > 30 {
			sb.WriteString("...")
			break
		}
		sb.WriteString(r.String() + "; ")
	}
	return sb.String()
}

func has(l []string, k string) bool {
	for _, e := range l {
		if e == k {
			return true
		}
	}
	return false
}

func (w *world) begin(t int, kind string) *rec {
	r := &rec{t: t, kind: kind, callT: rt.Mono()}
	w.recs = append(w.recs, r)
	return r
}

func (w *world) end(r *rec) {
	if !rt.On() {
		return
	}
	r.retT = rt.Mono()
	r.ret = rt.Rec("ret "+r.kind, int64(r.t), b2i(r.fail), fmt.Sprint(r.got, r.multi, r.rej), nil)
	r.done = true
	if r.bad != "" {
		w.x.Fail("wrong-result", "%s: %s", r.String(), r.bad)
	}
}

func (r *rec) kverr(e *confstore.KVError, k, v string) {
	if e.Key != k || e.Value != v || e.Error == "" {
		r.bad = fmt.Sprintf("the error %v does not name key %q value %q and a reason", e, k, v)
	}
}

func (w *world) update(s confstore.Interface, t int, kind, key, val string) *rec {
	r := w.begin(t, kind)
	r.key, r.val = key, val
	r.call = rt.Rec(kind, int64(t), 0, key, val)
	var e *confstore.KVError
	if kind == "upd" {
		e = s.Update(key, val)
	} else {
		e = s.UpdateNoPersist(key, val)
	}
	r.fail = e != nil
	if e != nil {
		r.kverr(e, key, val)
	}
	w.end(r)
	return r
}

func parseEnts(s string) []kv {
	var l []kv
	for _, e := range strings.Split(s, "|") {
		if i := strings.IndexByte(e, ':'); i >= 0 {
			l = append(l, kv{e[:i], e[i+1:]})
		}
	}
	return l
}

func (w *world) op(t int, o hk.Op) {
	s := w.st
	key := keys[o.A]
	if o.C > 0 {
		rt.Sleep(o.C)
	}
	switch o.K {
	case "upd", "updnp":
		w.update(s, t, o.K, key, o.S)
	case "reg":
		r := w.begin(t, o.K)
		r.key, r.val, r.proc = key, o.S, int(o.B)
		r.call = rt.Rec(o.K, int64(t), o.B, key, o.S)
		r.fail = s.RegisterKey(key, o.S, processor(r.proc)) != nil
		w.end(r)
	case "dereg", "reset":
		r := w.begin(t, o.K)
		r.key = key
		r.call = rt.Rec(o.K, int64(t), 0, key, nil)
		if o.K == "reset" {
			s.ResetKey(key)
		} else {
			s.DeregisterKey(key)
		}
		w.end(r)
	case "batch":
		r := w.begin(t, o.K)
		r.ents = parseEnts(o.S)
		r.rej = make([]bool, len(r.ents))
		r.call = rt.Rec(o.K, int64(t), 0, o.S, nil)
		var in []*confstore.KVStr
		for _, e := range r.ents {
			in = append(in, &confstore.KVStr{Key: e.k, Value: e.v})
		}
		errs := s.BatchUpdate(in)
		i := 0
		for _, e := range errs {
			for i < len(r.ents) && (e == nil || r.ents[i].k != e.Key || r.ents[i].v != e.Value) {
				i++
			}
			if i == len(r.ents) || e.Error == "" {
				r.bad = fmt.Sprintf("error %v names no entry (in their order)", e)
				break
			}
			r.rej[i] = true
			i++
		}
		for j, e := range in {
			if e.Key != r.ents[j].k || e.Value != r.ents[j].v {
				r.bad = "the caller's entries were changed"
			}
		}
		r.fail = len(errs) > 0
		w.end(r)
	case "get", "gets":
		r := w.begin(t, o.K)
		r.key = key
		r.call = rt.Rec(o.K, int64(t), 0, key, nil)
		if o.K == "get" {
			r.got, r.hit = s.GetValue(key)
		} else {
			r.got, r.hit = s.GetValueString(key)
		}
		w.end(r)
	case "mget", "mgets":
		r := w.begin(t, o.K)
		r.key = key
		r.call = rt.Rec(o.K, int64(t), 0, key, nil)
		pan := hk.Catch(func() {
			if o.K == "mget" {
				r.got = s.MustGetValue(key)
			} else {
				r.got = s.MustGetValueString(key)
			}
		})
		r.hit = pan == nil
		w.end(r)
	case "bget", "bgets":
		r := w.begin(t, o.K)
		r.keys = strings.Split(o.S, ",")
		r.call = rt.Rec(o.K, int64(t), 0, o.S, nil)
		if o.K == "bget" {
			for _, e := range s.BatchGetValues(append([]string(nil), r.keys...)) {
				r.multi = append(r.multi, kvAny{e.Key, e.Value})
			}
		} else {
			for _, e := range s.BatchGetValueString(append([]string(nil), r.keys...)) {
				r.multi = append(r.multi, kvAny{e.Key, e.Value})
			}
		}
		i := 0
		for _, e := range r.multi {
			for i < len(r.keys) && r.keys[i] != e.k {
				i++
			}
			if i == len(r.keys) || e.k == "" {
				r.bad = "the values are not those of keys asked, in that order"
				break
			}
			i++
		}
		w.end(r)
	case "ext":
		// another process changes the persisted copy
		if o.S == "" {
			delete(w.per.data, key)
			rt.Rec("ext del", 0, 0, key, nil)
		} else {
			w.per.data[key] = o.S
			rt.Rec("ext set", 0, 0, key, o.S)
		}
	}
}

// ---- C22: linearizable map ---------------------------------------------------------

type kst struct {
	reg  bool
	proc int
	def  string
	has  bool
	val  string
	prog string
}

type sub struct {
	r    *rec
	kind string
	val  string
	idx  int
	rej  bool
	hit  bool
	got  interface{}
	strg bool
}

func stepKey(si interface{}, lo *hk.LinOp) []interface{} {
	st := si.(kst)
	o := lo.Out.(*sub)
	ok := func(cond bool, n kst) []interface{} {
		if cond {
			return []interface{}{n}
		}
		return nil
	}
	switch o.kind {
	case "reg":
		_, valid := conv(o.r.proc, o.r.val)
		if st.reg || !valid {
			return ok(o.rej, st)
		}
		n := st
		n.reg, n.proc, n.def, n.has, n.val = true, o.r.proc, o.r.val, false, ""
		return ok(!o.rej, n)
	case "dereg":
		n := st
		n.reg, n.proc, n.def, n.has, n.val = false, 0, "", false, ""
		return ok(true, n)
	case "reset":
		n := st
		n.has, n.val = false, ""
		return ok(true, n)
	case "set":
		n := st
		if o.idx >= 0 {
			p := fmt.Sprintf(",%d:", o.r.call)
			done := strings.Count(st.prog, p)
			if done != o.idx {
				return nil
			}
			n.prog += p
		}
		valid := false
		if st.reg {
			_, valid = conv(st.proc, o.val)
		}
		if !valid {
			return ok(o.rej, n)
		}
		n.has, n.val = true, o.val
		return ok(!o.rej, n)
	case "read":
		if !st.reg {
			zero := o.got == nil || o.strg && o.got == ""
			return ok(!o.hit && zero, st)
		}
		v := st.def
		if st.has {
			v = st.val
		}
		var want interface{} = v
		if !o.strg {
			want, _ = conv(st.proc, v)
		}
		return ok(o.hit && reflect.DeepEqual(o.got, want), st)
	}
	return nil
}

func (w *world) checkLin() {
	for _, key := range []string{"a", "b", "c", "zz"} {
		if w.x.Failed() {
			return
		}
		var ops []*hk.LinOp
		add := func(r *rec, s *sub) {
			s.r = r
			ops = append(ops, &hk.LinOp{Call: r.call, Ret: r.ret, Out: s})
		}
		for _, r := range w.recs {
			if !r.done {
				w.x.Fail("no-return", "%s never returned", r.String())
				return
			}
			switch r.kind {
			case "reg", "dereg", "reset":
				if r.key == key {
					add(r, &sub{kind: r.kind, rej: r.fail, idx: -1})
				}
			case "upd", "updnp":
				if r.key == key {
					add(r, &sub{kind: "set", val: r.val, rej: r.fail, idx: -1})
				}
			case "batch":
				n := 0
				for i, e := range r.ents {
					if e.k == key {
						add(r, &sub{kind: "set", val: e.v, rej: r.rej[i], idx: n})
						n++
					}
				}
			case "get", "gets", "mget", "mgets":
				if r.key == key {
					add(r, &sub{kind: "read", hit: r.hit, got: r.got, strg: strings.HasSuffix(r.kind, "s")})
				}
			case "bget", "bgets":
				for _, k := range r.keys {
					if k != key {
						continue
					}
					s := &sub{kind: "read", strg: r.kind == "bgets"}
					for _, e := range r.multi {
						if e.k == k {
							s.hit, s.got = true, e.v
						}
					}
					add(r, s)
				}
			}
		}
		if len(ops) == 0 {
			continue
		}
		m := hk.LinModel{Init: kst{}, Step: stepKey, Key: func(s interface{}) string {
			k := s.(kst)
			return fmt.Sprintf("%v %d %q %v %q %s", k.reg, k.proc, k.def, k.has, k.val, k.prog)
		}}
		switch hk.CheckLin(ops, m, 40000) {
		case 0:
			w.x.Fail("not-a-map", "no order of the calls explains what was read of key %q: %s", key, w.text(key))
		case -1:
			w.x.Inconclusive()
		}
	}
	// empty key
	for _, r := range w.recs {
		bad := false
		switch {
		case r.kind == "batch":
			for i, e := range r.ents {
				bad = bad || e.k == "" && r.rej[i]
			}
		case r.key != "" || len(r.keys) > 0:
		case r.kind == "reg":
			bad = !r.fail
		case r.kind == "upd" || r.kind == "updnp":
			bad = r.fail
		case strings.Contains(r.kind, "get"):
			bad = r.hit
		}
		if bad {
			w.x.Fail("empty-key", "the empty key: %s", r.String())
		}
	}
}

func genOps(r *hk.Rng, p *hk.Plan, nk int, kinds []string, nt, maxOps int) {
	n := 10
	fixed := p.Cfg["fixedproc"] == 1
	// the values of the other processors are not all different from each other, which only
	// the oracle of C22 can deal with
	anyProc := func(r *hk.Rng) int {
		if p.Cfg["anyproc"] == 1 {
			return anyProc(r)
		}
		return r.N(4)
	}
	val := func(k int) string {
		n++
		pr := k % 4
		if !fixed {
			pr = anyProc(r)
		}
		switch r.N(12) {
		case 0:
			return r.PickS("", "x"+strconv.Itoa(n), strings.Repeat("y", 20), "-"+strconv.Itoa(n))
		case 1:
			return value(anyProc(r), n)
		}
		return value(pr, n)
	}
	key := func() int {
		if r.P(1, 25) {
			return 3 + r.N(2)
		}
		return r.N(nk)
	}
	for t := 0; t < nt; t++ {
		var ops []hk.Op
		for i, m := 0, r.R(1, maxOps); i < m; i++ {
			k := key()
			o := hk.Op{K: r.PickS(kinds...), A: int64(k)}
			if r.P(1, 6) {
				o.C = r.Pick(1, ms, p.Cfg["interval"], p.Cfg["interval"]+1, 2*p.Cfg["interval"])
			}
			switch o.K {
			case "upd", "updnp":
				o.S = val(k)
			case "ext":
				if r.P(3, 4) {
					o.S = val(k)
				}
			case "reg":
				o.B = int64(anyProc(r))
				if fixed {
					o.B = int64(k % 4)
				}
				n++
				o.S = value(int(o.B), n)
				if r.P(1, 10) {
					o.S = "?"
				}
				if r.P(1, 20) {
					o.B = r.Pick(4, 5)
				}
			case "batch":
				var l []string
				for j, m := 0, r.R(0, 4); j < m; j++ {
					k := key()
					l = append(l, keys[k]+":"+val(k))
				}
				o.S = strings.Join(l, "|")
			case "bget", "bgets":
				perm := []string{"a", "b", "c", "", "zz"}
				for j := range perm {
					q := r.N(j + 1)
					perm[j], perm[q] = perm[q], perm[j]
				}
				o.S = strings.Join(perm[:r.R(1, 5)], ",")
			}
			ops = append(ops, o)
		}
		p.Ops = append(p.Ops, ops)
	}
}

func genC22(r *hk.Rng) *hk.Plan {
	p := &hk.Plan{Cfg: map[string]int64{"anyproc": 1, "policy": r.Pick(0, 0, 1, 2, 3, 4, 4), "interval": r.Pick(1, ms, 10*ms, sec), "noper": r.Pick(0, 0, 0, 1),
		"slow": r.Pick(0, 0, 200, 600), "slowby": r.Pick(1, ms, 20*ms), "fail": r.Pick(0, 0, 0, 150), "prereg": r.Pick(0, 1, 1), "ext": int64(r.N(2))}}
	kinds := []string{"upd", "upd", "updnp", "batch", "reset", "dereg", "reg", "get", "gets", "mget", "mgets", "bget", "bgets"}
	if r.P(1, 2) {
		kinds = []string{"upd", "updnp", "batch", "dereg", "reg", "get", "gets", "bget"}
	}
	if p.Cfg["ext"] == 1 {
		kinds = append(kinds, "ext")
	}
	genOps(r, p, r.R(1, 3), kinds, r.R(1, 4), 6)
	p.Sim = hk.GenSim(r, 400, true, 30*ms)
	if r.P(1, 2) {
		p.Sim.StallP = 0
	}
	return p
}

func runC22(p *hk.Plan, x *hk.X) {
	w := newWorld(p, x)
	if p.C("ext") == 1 {
		w.per.data["a"], w.per.data["other"] = "7", "x"
	}
	if p.C("prereg") == 1 {
		for i := range []int{0, 1, 2} {
			w.op(-2, hk.Op{K: "reg", A: int64(i), B: int64(i % 4), S: value(i%4, 1)})
		}
	}
	x.RunOps(w.op)
	x.Join()
	if !x.Failed() {
		// what is left
		w.pol.off = true
		for i := range keys {
			w.op(-2, hk.Op{K: "get", A: int64(i)})
			w.op(-2, hk.Op{K: "gets", A: int64(i)})
		}
		w.checkLin()
	}
	for _, r := range w.recs {
		switch {
		case r.kind == "reg" && r.fail:
			x.Probe("register_refused")
		case r.kind == "batch" && r.fail:
			x.Probe("batch_partly_rejected")
		case (r.kind == "mget" || r.kind == "mgets") && !r.hit:
			x.Probe("must_panicked")
		}
	}
}

// ---- C21: what is persisted -----------------------------------------------------------

func genPersist(redis bool) func(r *hk.Rng) *hk.Plan {
	return func(r *hk.Rng) *hk.Plan {
		p := &hk.Plan{Cfg: map[string]int64{"policy": r.Pick(0, 0, 1, 4), "interval": r.Pick(1, ms, 10*ms),
			"slow": r.Pick(0, 0, 200, 600), "slowby": r.Pick(1, ms, 20*ms), "fail": r.Pick(0, 0, 100, 300), "prereg": r.Pick(1, 1, 1, 0)}}
		if redis {
			p.Cfg["latmax"] = r.Pick(0, ms, 50*ms)
			p.Cfg["short"] = r.Pick(0, 200)
		}
		kinds := []string{"upd", "upd", "updnp", "batch", "batch", "reset", "dereg", "reg", "gets"}
		genOps(r, p, r.R(1, 3), kinds, r.R(1, 4), 7)
		p.Sim = hk.GenSim(r, 400, !redis, 30*ms)
		return p
	}
}

// accepted says whether the call set k to v successfully.
func (r *rec) accepted(k, v string) bool {
	switch r.kind {
	case "upd":
		return r.key == k && r.val == v && !(r.done && r.fail)
	case "batch":
		for i, e := range r.ents {
			if e.k == k && e.v == v && !(r.done && r.rej[i]) {
				return true
			}
		}
	}
	return false
}

func (r *rec) removes(k string) bool {
	return (r.kind == "reset" || r.kind == "dereg") && r.key == k
}

// checkPersisted compares the timeline of the persisted copy with the calls. loose: under
// network faults, effects may come late or not at all.
func (w *world) checkPersisted(init map[string]string, log []pev, loose bool) {
	x := w.x
	for _, e := range log {
		if e.foreig {
			continue
		}
		found := false
		for _, r := range w.recs {
			if r.call > e.seq || r.done && r.ret < e.seq && !loose || r.t == -1 {
				continue
			}
			if e.del && r.removes(e.key) || !e.del && r.accepted(e.key, e.val) {
				found = true
				break
			}
		}
		if e.del {
			if !found && e.key != "" {
				x.Fail("removed-unasked", "key %q was removed from the persister at #%d, no call in progress asked for it: %s", e.key, e.seq, w.text(e.key))
				return
			}
			continue
		}
		if !found || e.key == "" {
			x.Fail("persisted-unasked", "%q=%q was persisted at #%d, no call in progress had it accepted: %s", e.key, e.val, e.seq, w.text(e.key))
			return
		}
	}
	if loose {
		return
	}
	// at returns true if f held for the persisted value of k at some moment of r
	during := func(r *rec, k string, f func(v string, ok bool) bool) bool {
		v, ok := init[k]
		if init == nil {
			v, ok = "", false
		}
		for _, e := range log {
			if e.seq > r.ret {
				break
			}
			if e.seq > r.call && f(v, ok) {
				return true
			}
			if e.key == k {
				v, ok = e.val, !e.del
			}
		}
		return f(v, ok)
	}
	for _, r := range w.recs {
		if !r.done || r.failedCall || r.t == -1 {
			continue
		}
		switch r.kind {
		case "reset", "dereg":
			if r.key != "" && !during(r, r.key, func(v string, ok bool) bool { return !ok }) {
				x.Fail("not-removed", "%s left the key in the persister: %s", r.String(), w.text(r.key))
				return
			}
		case "upd", "batch":
			l := r.ents
			rej := r.rej
			if r.kind == "upd" {
				l, rej = []kv{{r.key, r.val}}, []bool{r.fail}
			}
			last := map[string]string{}
			for i, e := range l {
				if !rej[i] && e.k != "" {
					last[e.k] = e.v
				}
			}
			for i, e := range l {
				if rej[i] || e.k == "" || last[e.k] != e.v {
					continue
				}
				if !during(r, e.k, func(v string, ok bool) bool { return ok && v == e.v }) {
					x.Fail("not-persisted", "%s: %q=%q is not in the persister: %s", r.String(), e.k, e.v, w.text(e.k))
					return
				}
				// no earlier entry of the same call after it
				at := 0
				for _, g := range log {
					if g.key != e.k || g.del || g.seq < r.call || g.seq > r.ret {
						continue
					}
					if g.val == e.v {
						at = g.seq
					}
					for j, o := range l {
						if j < i && o == (kv{g.key, g.val}) && o.v != e.v && at > 0 && g.seq > at {
							x.Fail("wrong-entry", "%s: the earlier %q=%q was persisted after the last one: %s", r.String(), g.key, g.val, w.text(e.k))
							return
						}
					}
				}
			}
		}
	}
}

func (w *world) prereg() {
	for i := range []int{0, 1, 2} {
		w.op(-2, hk.Op{K: "reg", A: int64(i), B: int64(i % 4), S: value(i%4, 1)})
	}
}

func runC21(p *hk.Plan, x *hk.X) {
	w := newWorld(p, x)
	init := map[string]string{"other": "o", "a": "3", "zz": "3"}
	for k, v := range init {
		w.per.data[k] = v
	}
	if p.C("prereg") == 1 {
		w.prereg()
	}
	x.RunOps(w.op)
	x.Join()
	if x.Failed() {
		return
	}
	w.checkPersisted(init, w.per.log, false)
}

// redis persister
type rworld struct {
	*world
	srv *sredis.Server
	net *sredis.Net
	cl  *redis.Client
	per confstore.Persister
}

const root = "conf:root"

func newRedisWorld(p *hk.Plan, x *hk.X) *rworld {
	w := &rworld{world: newWorld(p, x), srv: sredis.NewServer()}
	w.net = &sredis.Net{S: w.srv, X: x, DialTO: 500 * ms}
	pool := p.I("pool")
	if pool == 0 {
		pool = 10
	}
	retries := p.I("retries")
	w.cl = redis.NewClient(&redis.Options{Addr: "redis:6379", Dialer: w.net.Dial, DialTimeout: time.Duration(500 * ms), ReadTimeout: time.Duration(sec), PoolSize: pool,
		PoolTimeout: time.Duration(700 * ms), IdleTimeout: -1, MaxRetries: retries})
	w.per = confstore.NewRedisPersister(w.cl, root)
	w.st = confstore.NewStore(w.per, w.pol)
	w.net.F.LatMax, w.net.F.Short = p.C("latmax"), p.I("short")
	return w
}

// timeline is what happened to the hash.
func (w *rworld) timeline(foreign map[string]bool) []pev {
	var l []pev
	for _, e := range w.srv.Log {
		if e.Err != "" || len(e.Args) < 2 {
			continue
		}
		c := strings.ToLower(e.Args[0])
		if e.Args[1] != root {
			switch c {
			case "hmset", "hset", "hdel", "set", "del", "hsetnx", "rename", "expire", "unlink":
				w.x.Fail("other-key", "the persister touched %q: %q", e.Args[1], e.Args)
			}
			continue
		}
		switch c {
		case "hmset", "hset", "hsetnx":
			for i := 2; i+1 < len(e.Args); i += 2 {
				l = append(l, pev{seq: e.Seq, key: e.Args[i], val: e.Args[i+1], foreig: foreign[e.Args[i+1]]})
			}
		case "hdel":
			for _, k := range e.Args[2:] {
				l = append(l, pev{seq: e.Seq, key: k, del: true})
			}
		case "del", "unlink", "expire", "rename":
			w.x.Fail("hash-gone", "the persister sent %q", e.Args)
		}
	}
	return l
}

func runC21redis(p *hk.Plan, x *hk.X) {
	w := newRedisWorld(p, x)
	init := map[string]string{"other": "o", "a": "3", "zz": "3"}
	for _, k := range []string{"other", "a", "zz"} {
		w.srv.HSetDirect(root, k, init[k])
	}
	if p.C("prereg") == 1 {
		w.prereg()
	}
	x.RunOps(w.op)
	x.Join()
	w.cl.Close()
	if x.Failed() {
		return
	}
	w.checkPersisted(init, w.timeline(nil), false)
}

// ---- C24: memory and persisted copy ---------------------------------------------------------

func genAgree(redis bool) func(r *hk.Rng) *hk.Plan {
	return func(r *hk.Rng) *hk.Plan {
		p := &hk.Plan{Cfg: map[string]int64{"policy": r.Pick(0, 1, 1, 4), "interval": r.Pick(1, ms, 10*ms), "fixedproc": 1,
			"slow": r.Pick(0, 0, 200, 600), "slowby": r.Pick(1, ms, 20*ms), "fail": 0, "stores": int64(r.R(1, 2))}}
		if redis {
			p.Cfg["latmax"] = r.Pick(0, ms, 50*ms)
			p.Cfg["short"] = r.Pick(0, 200)
		}
		kinds := []string{"upd", "upd", "batch", "reset", "dereg", "reg", "gets", "get", "bget"}
		if p.Cfg["stores"] == 2 {
			kinds = []string{"upd", "upd", "batch", "gets", "get", "bget"}
		}
		genOps(r, p, r.R(1, 3), kinds, r.R(2, 4), 6)
		p.Sim = hk.GenSim(r, 400, !redis, 30*ms)
		return p
	}
}

func (w *world) agreeRun(per confstore.Persister, data func() map[string]string) {
	x, p := w.x, w.p
	w.prereg()
	st := []confstore.Interface{w.st}
	pol := []*gate{w.pol}
	if p.C("stores") == 2 {
		g := &gate{inner: policy(p.C("policy"), p.C("interval"))}
		st, pol = append(st, confstore.NewStore(per, g)), append(pol, g)
		for i := range []int{0, 1, 2} {
			st[1].RegisterKey(keys[i], value(i%4, 1), processor(i%4))
		}
	}
	x.RunOps(func(t int, o hk.Op) {
		ww := *w
		ww.st = st[t%len(st)]
		ww.recs = nil
		ww.op(t, o)
		w.recs = append(w.recs, ww.recs...)
	})
	x.Join()
	if x.Failed() {
		return
	}
	for i := range st {
		if len(st) == 2 {
			// the changes of the others arrive with the next load
			if err := per.Load(st[i]); err != nil {
				x.Fail("load-fails", "load: %v", err)
			}
		}
		pol[i].off = true
	}
	// the default in force: what a reset would show; a second reset harms nobody
	d := data()
	snapshot := map[string]string{}
	for k, v := range d {
		snapshot[k] = v
	}
	mem := make([]map[string][2]interface{}, len(st))
	for i := range st {
		mem[i] = map[string][2]interface{}{}
		for _, k := range []string{"a", "b", "c"} {
			s, hit := st[i].GetValueString(k)
			if hit {
				t, _ := st[i].GetValue(k)
				mem[i][k] = [2]interface{}{s, t}
			}
		}
	}
	for i := range st {
		for _, k := range []string{"a", "b", "c"} {
			m, hit := mem[i][k]
			v, ok := snapshot[k]
			switch {
			case ok && !hit:
				x.Fail("memory-differs", "store %d: key %q is not registered, yet persisted as %q: %s", i, k, v, w.text(k))
			case ok && m[0] != v:
				x.Fail("memory-differs", "store %d: key %q is %q in memory and %q in the persister: %s", i, k, m[0], v, w.text(k))
			case !ok && hit:
				st[i].ResetKey(k)
				if s, _ := st[i].GetValueString(k); s != m[0] {
					x.Fail("memory-differs", "store %d: key %q is %q in memory, not in the persister, and its default is %q: %s", i, k, m[0], s, w.text(k))
				}
			}
			if hit {
				if tv, _ := conv(int(k[0]-'a')%4, m[0].(string)); !reflect.DeepEqual(tv, m[1]) {
					x.Fail("memory-differs", "store %d: key %q is %v typed and %q as text: %s", i, k, m[1], m[0], w.text(k))
				}
			}
		}
	}
}

func runAgree(p *hk.Plan, x *hk.X) {
	w := newWorld(p, x)
	w.per.mute = true
	w.agreeRun(w.per, func() map[string]string { return w.per.data })
}

func runAgreeRedis(p *hk.Plan, x *hk.X) {
	w := newRedisWorld(p, x)
	w.agreeRun(w.per, func() map[string]string { return w.srv.Hash(root) })
	w.cl.Close()
}

// crash at a moment of the run, then a new store

func genRestart(r *hk.Rng) *hk.Plan {
	p := genAgree(false)(r)
	p.Cfg["stores"] = 1
	p.Cfg["fail"] = r.Pick(0, 0, 150)
	p.Cfg["crash"] = int64(r.R(1, 60))
	p.Cfg["kind"] = r.Pick(0, 1, 2)
	return p
}

type pst struct {
	has bool
	val string
}

func stepPer(si interface{}, lo *hk.LinOp) []interface{} {
	st := si.(pst)
	o := lo.Out.(*sub)
	switch o.kind {
	case "set":
		n := st
		n.has, n.val = true, o.val
		return []interface{}{n}
	case "del":
		return []interface{}{pst{}}
	case "read":
		if o.hit == st.has && (!o.hit || o.got == st.val) {
			return []interface{}{st}
		}
	}
	return nil
}

func runRestart(p *hk.Plan, x *hk.X) {
	w := newWorld(p, x)
	w.per.mute = true
	init := map[string]string{"a": "4", "other": "o"}
	for k, v := range init {
		w.per.data[k] = v
	}
	w.prereg()
	// the crash: what the persister has at that moment is all that is left
	var left map[string]string
	at := 0
	x.Thread("crash", func() {
		for i := int64(0); i < p.C("crash"); i++ {
			rt.YH()
			if i%16 == 15 {
				rt.Sleep(ms)
			}
		}
		left = map[string]string{}
		for k, v := range w.per.data {
			left[k] = v
		}
		at = rt.Rec("crash", 0, 0, "", nil)
		x.Fault("crash")
	})
	x.RunOps(w.op)
	x.Join()
	if x.Failed() {
		return
	}
	w.restartCheck(init, left, at, func() (confstore.Interface, error) {
		f := &fake{w: &world{x: x, p: p}, data: map[string]string{}, mute: true}
		for k, v := range left {
			f.data[k] = v
		}
		return confstore.NewStore(f, policy([]int64{1, 4, 3}[p.C("kind")], sec)), nil
	})
}

func (w *world) restartCheck(init, left map[string]string, at int, open func() (confstore.Interface, error)) {
	x := w.x
	n, _ := open()
	for i := range []int{0, 1, 2} {
		if err := n.RegisterKey(keys[i], value(i%4, 2), processor(i%4)); err != nil {
			x.Fail("register", "after the restart: %v", err)
		}
	}
	if left["other"] != "o" {
		x.Fail("other-key", "another program's key was touched: %v", left)
	}
	for i, k := range []string{"a", "b", "c"} {
		got, hit := n.GetValueString(k)
		typed, _ := n.GetValue(k)
		if tv, _ := conv(i%4, got); !hit || !reflect.DeepEqual(tv, typed) {
			x.Fail("restart", "after the restart key %q reads %v %v %v", k, got, typed, hit)
			return
		}
		isDef := got == value(i%4, 2)
		var ops []*hk.LinOp
		add := func(r *rec, kind, val string) {
			o := &hk.LinOp{Call: r.call, Ret: r.ret, Out: &sub{r: r, kind: kind, val: val}}
			o.Pending = !r.done || r.ret > at || r.failedCall
			ops = append(ops, o)
		}
		for _, r := range w.recs {
			if r.call > at {
				continue
			}
			if r.removes(k) {
				add(r, "del", "")
			}
			// last accepted entry, or any of them in progress
			l, rej := r.ents, r.rej
			if r.kind == "upd" {
				l, rej = []kv{{r.key, r.val}}, []bool{r.fail}
			} else if r.kind != "batch" {
				continue
			}
			final := -1
			for j, e := range l {
				if e.k == k && !rej[j] {
					final = j
				}
			}
			for j, e := range l {
				if e.k != k || rej[j] {
					continue
				}
				if j == final || !r.done || r.ret > at || r.failedCall {
					add(r, "set", e.v)
				}
			}
		}
		st := pst{}
		if v, ok := init[k]; ok {
			st = pst{true, v}
		}
		rd := &sub{kind: "read", hit: !isDef, got: got}
		ops = append(ops, &hk.LinOp{Call: at, Ret: at, Out: rd})
		// the crash is after everything that had returned
		m := hk.LinModel{Init: st, Step: stepPer, Key: func(s interface{}) string { return fmt.Sprint(s) }}
		switch hk.CheckLin(ops, m, 40000) {
		case 0:
			x.Fail("lost-update", "after the crash at #%d key %q reads %q, which is not the last update nor one in progress: %s", at, k, got, w.text(k))
			return
		case -1:
			x.Inconclusive()
		}
	}
}

// the same over Redis with its connections failing

func genRedisFaults(r *hk.Rng) *hk.Plan {
	p := genAgree(true)(r)
	p.Cfg["stores"] = 1
	p.Cfg["policy"] = r.Pick(0, 1, 4)
	p.Cfg["retries"] = r.Pick(-1, -1, 2)
	p.Cfg["pool"] = r.Pick(1, 10)
	base := r.Pick(20, 80, 250)
	for _, f := range []string{"refuse", "dropreq", "rbefore", "rafter", "droprep", "slow", "errrep", "torn"} {
		if r.P(1, 3) {
			p.Cfg[f] = base
		}
	}
	var chaos []hk.Op
	for i, n := 0, r.R(0, 3); i < n; i++ {
		chaos = append(chaos, hk.Op{K: r.PickS("restart", "part", "break"), B: r.Pick(0, ms, sec/2, 3*sec), C: r.Pick(0, ms, sec/2)})
	}
	p.Ops = append(p.Ops, chaos)
	return p
}

func runRedisFaults(p *hk.Plan, x *hk.X) {
	w := newRedisWorld(p, x)
	w.srv.HSetDirect(root, "other", "o")
	w.prereg()
	f := &w.net.F
	f.DialRefuse, f.DropReq, f.ResetBefore, f.ResetAfter, f.DropReply = p.I("refuse"), p.I("dropreq"), p.I("rbefore"), p.I("rafter"), p.I("droprep")
	f.Slow, f.ErrReply, f.TornReply, f.SlowBy = p.I("slow"), p.I("errrep"), p.I("torn"), 1500*ms
	x.RunOps(func(t int, o hk.Op) {
		switch o.K {
		case "restart":
			rt.Sleep(o.C)
			w.net.Restart(false, o.B)
		case "part":
			rt.Sleep(o.C)
			if o.B > 0 {
				w.net.Partition(o.B)
			}
		case "break":
			rt.Sleep(o.C)
			w.net.BreakAll()
		default:
			w.op(t, o)
		}
	})
	x.Join()
	if x.Failed() {
		return
	}
	*f = sredis.Faults{}
	rt.Sleep(20 * sec)
	w.checkPersisted(map[string]string{"other": "o"}, w.timeline(nil), true)
	if x.Failed() || w.net.Down || w.net.Parted {
		return
	}
	// broken connections are found out by their use
	for i := 0; i < 12; i++ {
		w.per.Load(w.st)
	}
	w.pol.off = true
	now := w.srv.Hash(root)
	if now["other"] != "o" {
		x.Fail("other-key", "another program's key was touched: %v", now)
	}
	// what is persisted is in memory after a load
	for i, k := range []string{"a", "b", "c"} {
		if v, ok := now[k]; ok {
			if got, hit := w.st.GetValueString(k); hit && got != v {
				x.Fail("not-loaded", "after the faults key %q is %q in Redis and %q in memory: %s", k, v, got, w.text(k))
			}
		}
		w.st.DeregisterKey(k)
		if err := w.st.RegisterKey(k, value(i%4, 5), processor(i%4)); err != nil {
			x.Fail("register", "%v", err)
		}
		if e := w.st.Update(k, value(i%4, 900+i)); e != nil {
			x.Fail("update", "after the faults: %v", e)
		}
	}
	now = w.srv.Hash(root)
	n := confstore.NewStore(confstore.NewRedisPersister(w.cl, root), confstore.SimpleLoadPolicy)
	for i, k := range []string{"a", "b", "c"} {
		want := value(i%4, 900+i)
		if now[k] != want {
			x.Fail("not-persisted", "after the faults the update of %q to %q is not in Redis: %v", k, want, now)
		}
		n.RegisterKey(k, value(i%4, 6), processor(i%4))
		if got := n.MustGetValueString(k); got != want {
			x.Fail("lost-update", "a new store reads %q as %q, %q was set", k, got, want)
		}
	}
	w.cl.Close()
}

// restart of the application and of Redis, without faults on the connections

func genRedisRestart(r *hk.Rng) *hk.Plan {
	p := genAgree(true)(r)
	p.Cfg["stores"] = 1
	p.Cfg["crash"] = int64(r.R(1, 60))
	return p
}

func runRedisRestart(p *hk.Plan, x *hk.X) {
	w := newRedisWorld(p, x)
	init := map[string]string{"a": "4", "other": "o"}
	w.srv.HSetDirect(root, "a", "4")
	w.srv.HSetDirect(root, "other", "o")
	w.prereg()
	left := map[string]string{}
	at := 0
	x.Thread("crash", func() {
		for i := int64(0); i < p.C("crash"); i++ {
			rt.YH()
			if i%16 == 15 {
				rt.Sleep(ms)
			}
		}
		for k, v := range w.srv.Hash(root) {
			left[k] = v
		}
		at = rt.Rec("crash", 0, 0, "", nil)
		x.Fault("crash")
	})
	x.RunOps(w.op)
	x.Join()
	if x.Failed() {
		return
	}
	w.restartCheck(init, left, at, func() (confstore.Interface, error) {
		s := sredis.NewServer()
		for _, k := range []string{"a", "b", "c", "other", "zz", ""} {
			if v, ok := left[k]; ok {
				s.HSetDirect(root, k, v)
			}
		}
		net := &sredis.Net{S: s, X: x, DialTO: 500 * ms}
		cl := redis.NewClient(&redis.Options{Addr: "redis:6379", Dialer: net.Dial, IdleTimeout: -1})
		return confstore.NewStore(confstore.NewRedisPersister(cl, root), confstore.SimpleLoadPolicy), nil
	})
}

// ---- C23: how often the persister is asked --------------------------------------------------

func genC23(r *hk.Rng) *hk.Plan {
	iv := r.Pick(1, ms, 10*ms, sec, 60*sec)
	p := &hk.Plan{Cfg: map[string]int64{"policy": r.Pick(0, 1, 3, 4, 4, 4, 4, 4, 4), "interval": iv, "fixedproc": 1,
		"slow": r.Pick(0, 0, 300, 800), "slowby": r.Pick(1, ms, iv/2+1, iv, 2*iv), "fail": r.Pick(0, 0, 200, 500), "stores": r.Pick(1, 1, 2), "ext": int64(r.N(2))}}
	nt := r.R(1, 4)
	n := 100
	for t := 0; t < nt; t++ {
		var ops []hk.Op
		for i, m := 0, r.R(1, 8); i < m; i++ {
			k := r.N(3)
			o := hk.Op{K: r.PickS("get", "gets", "mget", "mgets", "bget", "bgets", "get", "gets", "upd", "doload"), A: int64(k), S: r.PickS("a", "b,a", "c,a,b")}
			if o.K == "upd" {
				n++
				o.S = value(k%4, n)
			}
			if r.P(1, 2) {
				o.C = r.Pick(1, iv/2, iv-1, iv, iv+1, iv, 2*iv, iv/3)
			}
			ops = append(ops, o)
		}
		p.Ops = append(p.Ops, ops)
	}
	if p.Cfg["ext"] == 1 {
		var ops []hk.Op
		for i, m := 0, r.R(1, 6); i < m; i++ {
			k := r.N(3)
			n++
			ops = append(ops, hk.Op{K: "ext", A: int64(k), S: value(k%4, n), C: r.Pick(0, 1, iv/2, iv)})
		}
		p.Ops = append(p.Ops, ops)
	}
	p.Sim = hk.GenSim(r, 400, true, iv)
	if r.P(2, 3) {
		p.Sim.StallP = 0
	}
	return p
}

func runC23(p *hk.Plan, x *hk.X) {
	w := newWorld(p, x)
	w.per.mute = true
	w.per.data["a"], w.per.data["c"], w.per.data["other"] = "9", "9ms", "q"
	stores := []*world{w}
	if p.C("stores") == 2 {
		w2 := &world{x: x, p: p, slowP: w.slowP, slowBy: w.slowBy, failP: w.failP}
		w2.per = &fake{w: w2, data: w.per.data, mute: true}
		w2.pol = &gate{inner: policy(p.C("policy"), p.C("interval"))}
		w2.st = confstore.NewStore(w2.per, w2.pol)
		stores = append(stores, w2)
	}
	for _, s := range stores {
		s.prereg()
	}
	x.RunOps(func(t int, o hk.Op) {
		s := stores[t%len(stores)]
		if o.K == "doload" {
			if o.C > 0 {
				rt.Sleep(o.C)
			}
			r := s.begin(t, "doload")
			r.call = rt.Rec("doload", int64(t), 0, "", nil)
			r.fail = s.pol.inner.DoLoad(s.st, s.per) != nil
			s.end(r)
			return
		}
		s.op(t, o)
	})
	x.Join()
	if x.Failed() {
		return
	}
	iv := p.C("interval")
	for _, s := range stores {
		s.checkLoads(p.C("policy"), iv)
	}
}

func (w *world) checkLoads(pol, iv int64) {
	x := w.x
	ls := w.per.loads
	switch pol {
	case 0:
		if len(ls) > 0 {
			x.Fail("loaded", "the no-op policy loaded: %s", w.text(""))
		}
		return
	case 4:
		var prev *load
		for _, l := range ls {
			if !l.ok {
				x.Probe("load_failed")
				continue
			}
			if prev != nil {
				x.Probe("loaded_again")
				if l.startT-prev.startT < iv {
					x.Fail("too-often", "successful loads began at %v and %v, the minimum interval is %v: %s", time.Duration(prev.startT), time.Duration(l.startT), time.Duration(iv), w.text(""))
					return
				}
			}
			prev = l
		}
	}
	for _, r := range w.recs {
		read := strings.Contains(r.kind, "get") || r.kind == "doload"
		if !read || !r.done {
			continue
		}
		if pol == 4 {
			if w.p.Sim.StallP > 0 {
				continue
			}
			// was a load due when it began?
			due := true
			for _, l := range ls {
				if l.fin && l.ok && l.end < r.call && l.endT+iv > r.callT {
					due = false
				}
			}
			if !due {
				continue
			}
			x.Probe("load_due")
		}
		ok, tried, failed := false, false, false
		for _, l := range ls {
			if !l.fin || l.end < r.call || l.end > r.ret {
				continue
			}
			if l.start > r.call {
				tried = true
				failed = failed || !l.ok
			} else if l.ok && pol == 4 {
				ok = true
			}
		}
		if !ok && !tried {
			x.Fail("not-loaded", "%s (at %v) was due to load (interval %v), yet there was no load during it: %s", r.String(), time.Duration(r.callT), time.Duration(iv), w.text(""))
			return
		}
		if r.kind == "doload" && r.fail && !failed {
			x.Fail("wrong-error", "%s failed although no load did: %s", r.String(), w.text(""))
			return
		}
	}
}

// fresh: a read after the interval sees the persisted value

func genFresh(r *hk.Rng) *hk.Plan {
	iv := r.Pick(1, ms, sec, 60*sec)
	p := &hk.Plan{Cfg: map[string]int64{"policy": r.Pick(1, 4, 4), "interval": iv, "fixedproc": 1, "slow": 0, "fail": r.Pick(0, 0, 300)}}
	n := 100
	var ops []hk.Op
	for i, m := 0, r.R(2, 14); i < m; i++ {
		k := r.N(3)
		n++
		o := hk.Op{K: r.PickS("get", "gets", "mget", "mgets", "bget", "bgets", "ext", "ext", "upd"), A: int64(k), C: r.Pick(0, 0, 1, iv-1, iv, iv+1, iv/2, 3*iv)}
		switch o.K {
		case "ext", "upd":
			o.S = value(k%4, n)
		case "bget", "bgets":
			o.S = keys[k]
		}
		ops = append(ops, o)
	}
	p.Ops = [][]hk.Op{ops}
	p.Sim = hk.GenSim(r, 100, false, 0)
	return p
}

func runFresh(p *hk.Plan, x *hk.X) {
	w := newWorld(p, x)
	w.per.mute = true
	w.prereg()
	mem := map[string]string{"a": value(0, 1), "b": value(1, 1), "c": value(2, 1)}
	iv := p.C("interval")
	if p.C("policy") == 1 {
		iv = 0
	}
	x.RunOps(func(t int, o hk.Op) {
		if x.Failed() {
			return
		}
		nl := len(w.per.loads)
		w.op(t, o)
		r := &rec{}
		if len(w.recs) > 0 {
			r = w.recs[len(w.recs)-1]
		}
		if o.K == "upd" && !r.fail {
			mem[r.key] = r.val
		}
		if !strings.Contains(o.K, "get") {
			return
		}
		good := false
		for _, l := range w.per.loads[nl:] {
			good = good || l.ok
		}
		if p.C("fail") > 0 {
			return
		}
		k := r.key
		got, hit := r.got, r.hit
		if len(r.keys) > 0 {
			k = r.keys[0]
			hit = len(r.multi) == 1
			if hit {
				got = r.multi[0].v
			}
		}
		last := int64(-1)
		for _, l := range w.per.loads[:nl] {
			if l.ok {
				last = l.endT
			}
		}
		if last < 0 || r.callT-last >= iv {
			for k, v := range w.per.data {
				mem[k] = v
			}
			x.Probe("fresh_read")
		}
		var want interface{} = mem[k]
		if !strings.HasSuffix(o.K, "s") {
			want, _ = conv(int(k[0]-'a')%4, mem[k])
		}
		if !hit || !reflect.DeepEqual(got, want) {
			x.Fail("stale", "%s at %v should read %v (interval %v, last load %v, loaded now %v): %s", r.String(), time.Duration(r.callT), want, time.Duration(iv), time.Duration(last), good, w.text(""))
		}
	})
	x.Join()
}

// loads from Redis: a failed load does not count

func genLoadsRedis(r *hk.Rng) *hk.Plan {
	iv := r.Pick(10*ms, sec, 60*sec)
	p := &hk.Plan{Cfg: map[string]int64{"policy": r.Pick(1, 4, 4, 4), "interval": iv, "latmax": r.Pick(0, 0, ms, min(iv/3, 200*ms)), "pool": r.Pick(1, 3), "retries": r.Pick(-1, -1, 2)}}
	var ops []hk.Op
	for i, m := 0, r.R(2, 12); i < m; i++ {
		o := hk.Op{K: r.PickS("get", "gets", "mget", "mgets", "bget", "bgets", "get", "gets", "fault", "heal", "heal"), C: r.Pick(0, 0, 1, iv-1, iv, iv+1, iv/2, 3*iv)}
		o.B = int64(r.N(5))
		ops = append(ops, o)
	}
	p.Ops = [][]hk.Op{ops}
	p.Sim = hk.GenSim(r, 100, false, 0)
	return p
}

func runLoadsRedis(p *hk.Plan, x *hk.X) {
	w := newRedisWorld(p, x)
	n := 10
	put := func() string {
		n++
		v := strconv.Itoa(n)
		w.srv.HSetDirect(root, "a", v)
		return v
	}
	w.op(-2, hk.Op{K: "reg", A: 0, B: 0, S: "1"})
	iv := p.C("interval")
	if p.C("policy") == 1 {
		iv = 0
	}
	mem := "1"
	begin, end := int64(-1), int64(-1) // of the latest successful load
	read := func(kind string) string {
		w.op(0, hk.Op{K: kind, A: 0, S: "a"})
		r := w.recs[len(w.recs)-1]
		got := r.got
		if len(r.multi) == 1 {
			got = r.multi[0].v
		}
		return fmt.Sprint(got)
	}
	faulty := false
	x.RunOps(func(t int, o hk.Op) {
		if o.C > 0 {
			rt.Sleep(o.C)
		}
		if x.Failed() {
			return
		}
		f := &w.net.F
		switch o.K {
		case "heal":
			faulty = false
			dials := f.DialRefuse > 0
			f.DialRefuse, f.DropReq, f.ResetBefore, f.ErrReply, f.ResetAfter = 0, 0, 0, 0, 0
			if dials {
				// the client tries once a second whether it can connect again
				rt.Sleep(3 * sec)
			}
			return
		case "fault":
			faulty = true
			if f.DialRefuse > 0 {
				return
			}
			f.DialRefuse, f.DropReq, f.ResetBefore, f.ErrReply, f.ResetAfter = 0, 0, 0, 0, 0
			switch o.B {
			case 0:
				f.ErrReply = 1000
			case 1:
				f.DropReq = 1000
			case 2:
				f.ResetBefore = 1000
			case 3:
				f.ResetAfter = 1000
			case 4:
				f.DialRefuse = 1000
				w.net.BreakAll()
			}
			return
		}
		v := put()
		if faulty {
			if got := read(o.K); got != mem && rt.On() {
				x.Fail("loaded-failing", "%s gives %s although Redis fails, %s was loaded last", o.K, got, mem)
			}
			x.Probe("load_failed")
			return
		}
		call := rt.Mono()
		got := read(o.K)
		if !rt.On() {
			return
		}
		switch {
		case end < 0 || call >= end+iv:
			// due; connections that are broken are found out by their use
			for i := 0; i < 6 && got != v && rt.On(); i++ {
				call = rt.Mono()
				got = read(o.K)
			}
			if got != v && rt.On() {
				x.Fail("stale", "reads (%s) give %s, in Redis it is %s since before them; no load succeeded since %v, the interval is %v: %s", o.K, got, v, time.Duration(end), time.Duration(iv), w.text(""))
				return
			}
			x.Probe("load_due")
		case call < begin+iv && got == v && got != mem:
			x.Fail("too-often", "%s at %v loaded %s, a load began at %v, the interval is %v: %s", o.K, time.Duration(call), got, time.Duration(begin), time.Duration(iv), w.text(""))
			return
		case got != v && got != mem:
			x.Fail("made-up", "%s gives %s, which is neither what was loaded (%s) nor what is in Redis (%s): %s", o.K, got, mem, v, w.text(""))
			return
		}
		if got == v {
			mem, begin, end = v, call, rt.Mono()
		}
	})
	x.Join()
	w.cl.Close()
}

const realC = "confstore (store, load policies, processors)"
const stubF = "persister (harness, in memory), clock, Go scheduler (simulated)"
const realR = realC + ", confstore.NewRedisPersister, go-redis v7 client (transformed copy)"
const stubR = "Redis server, TCP, clock, Go scheduler (simulated)"

func main() {
	hk.Bystander = bystander
	hk.EachRun = func() {
		simplelog.StdLogger.SetOutput(io.Discard)
		simplelog.ErrLogger.SetOutput(io.Discard)
	}
	redis.SetLogger(log.New(io.Discard, "", 0))
	hk.Main("conf", []*hk.Scenario{
		{Prop: "C22", Name: "conf-lin", Runs: 700000, Gen: genC22, Run: runC22, Real: realC, Stub: stubF},
		{Prop: "C22", Name: "conf-map-big", Runs: 2500, Cost: 60, Gen: genBigConf, Run: runBigConf(22), Real: realR, Stub: stubR},
		{Prop: "C21", Name: "conf-persist-big", Runs: 1500, Cost: 60, Gen: genBigConf, Run: runBigConf(21), Real: realR, Stub: stubR},
		{Prop: "C24", Name: "conf-agree-big", Runs: 1500, Cost: 60, Gen: genBigConf, Run: runBigConf(24), Real: realR, Stub: stubR},
		{Prop: "C21", Name: "conf-persist", Runs: 600000, Gen: genPersist(false), Run: runC21, Real: realC, Stub: stubF},
		{Prop: "C21", Name: "conf-persist-redis", Runs: 150000, Gen: genPersist(true), Run: runC21redis, Real: realR, Stub: stubR},
		{Prop: "C24", Name: "conf-agree", Runs: 250000, Gen: genAgree(false), Run: runAgree, Real: realC, Stub: stubF},
		{Prop: "C24", Name: "conf-restart", Runs: 250000, Gen: genRestart, Run: runRestart, Real: realC, Stub: stubF},
		{Prop: "C24", Name: "conf-agree-redis", Runs: 60000, Gen: genAgree(true), Run: runAgreeRedis, Real: realR, Stub: stubR},
		{Prop: "C24", Name: "conf-restart-redis", Runs: 60000, Gen: genRedisRestart, Run: runRedisRestart, Real: realR, Stub: stubR},
		{Prop: "C24", Name: "conf-faults-redis", Runs: 60000, Gen: genRedisFaults, Run: runRedisFaults, Real: realR, Stub: stubR},
		{Prop: "C23", Name: "conf-loads", Runs: 600000, Gen: genC23, Run: runC23, Real: realC, Stub: stubF},
		{Prop: "C23", Name: "conf-loads-redis", Runs: 60000, Gen: genLoadsRedis, Run: runLoadsRedis, Real: realR, Stub: stubR},
		{Prop: "C23", Name: "conf-fresh", Runs: 200000, Gen: genFresh, Run: runFresh, Real: realC, Stub: stubF},
	})
}
