//go:build go1.21

package main

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/chanjarster/gears/confstore"
	"github.com/chanjarster/gears/zzsim/hk"
	rt "github.com/chanjarster/gears/zzsim/rt"
	"github.com/chanjarster/gears/zzsim/sredis"
	"github.com/go-redis/redis/v7"
)

// One client with many keys, large batches and odd texts, against a map: what it reads
// (aspect 22), what is in Redis (21), and what another store reads from there (24).

func bigKey(i int) string {
	switch i % 7 {
	case 1:
		return fmt.Sprintf("app.section:%d", i)
	case 2:
		return fmt.Sprintf("schlüssel %d", i)
	case 3:
		return fmt.Sprintf("K%d", i-3)
	case 4:
		return fmt.Sprintf("k\n%d\x00", i)
	case 5:
		return strings.Repeat("long/", 20+i%30) + fmt.Sprint(i)
	}
	return fmt.Sprintf("k%d", i)
}

func bigProc(i int) int { return []int{13, 0, 1, 2, 13, 3, 6, 8, 10, 11, 13, 12}[i%12] }

func bigValue(r *hk.Rng, proc int) string {
	if proc == 13 {
		switch r.N(10) {
		case 0:
			return ""
		case 1:
			return strings.Repeat("v0", r.R(100, 9000))
		case 2:
			return "a\r\n$-1\r\n" + fmt.Sprint(r.N(1000))
		case 3:
			return "\x00\xff" + fmt.Sprint(r.N(1000))
		case 4:
			return " nil "
		}
		return fmt.Sprint("t", r.N(1000000))
	}
	if r.P(1, 8) {
		return r.PickS("", "bad", "-1", "1x", "c", "TRUE")
	}
	return value(proc, r.N(100000))
}

func genBigConf(r *hk.Rng) *hk.Plan {
	n := r.R(3, 40)
	if r.P(1, 2) {
		n = r.R(40, 300)
	}
	p := &hk.Plan{Cfg: map[string]int64{"policy": r.Pick(0, 0, 4, 4, 1), "interval": r.Pick(1, ms, 1000*ms), "n": int64(n), "latmax": r.Pick(0, 0, ms), "short": r.Pick(0, 0, 200)}}
	if p.Cfg["policy"] == 1 && n > 40 {
		p.Cfg["policy"] = 4
		p.Cfg["interval"] = 1000 * ms
	}
	nop := r.R(4, 30)
	var l []hk.Op
	for i := 0; i < nop; i++ {
		o := hk.Op{K: r.PickS("batch", "batch", "batch", "upd", "upd", "reset", "resets", "dereg", "reg", "updnp", "bget", "bgets", "gets", "pause"), A: int64(r.N(n)), B: int64(r.U() >> 20)}
		if o.K == "batch" || o.K == "bget" || o.K == "bgets" {
			o.C = int64(r.R(1, 12))
			if r.P(1, 2) {
				o.C = int64(r.R(12, 2*n+12))
			}
		}
		l = append(l, o)
	}
	p.Ops = [][]hk.Op{l}
	p.Sim = hk.GenSim(r, 100, false, 30*ms)
	return p
}

type bigEntry struct {
	reg        bool
	proc       int
	def        string
	has        bool
	val        string
	pers       string
	onDisk     bool
	registered int
}

func runBigConf(aspect int) func(p *hk.Plan, x *hk.X) {
	return func(p *hk.Plan, x *hk.X) {
		w := newRedisWorld(p, x)
		if aspect == 24 {
			w.pol.inner = policy(p.C("policy"), p.C("interval"))
		} else {
			// what is in memory does not depend on Redis then
			w.pol.inner = confstore.NoopLoadPolicy
		}
		n := p.I("n")
		m := map[string]*bigEntry{}
		var order []string
		for i := 0; i < n; i++ {
			k := bigKey(i)
			if m[k] == nil {
				order = append(order, k)
				m[k] = &bigEntry{proc: bigProc(i)}
			}
		}
		fail := func(a int, cat, f string, v ...interface{}) {
			if a == aspect {
				x.Fail(cat, f, v...)
			}
		}
		init := map[string]string{"stale": "o", "": "x"}
		for k, v := range init {
			w.srv.HSetDirect(root, k, v)
		}
		st := w.st
		register := func(s confstore.Interface, k string) error {
			return s.RegisterKey(k, m[k].def, processor(m[k].proc))
		}
		for i, k := range order {
			e := m[k]
			e.def = value(e.proc, 1+i%3)
			if _, ok := conv(e.proc, e.def); !ok {
				e.def = value(e.proc, 20)
			}
			if i%11 == 10 {
				continue // not registered at first
			}
			if err := register(st, k); err != nil {
				fail(22, "register", "RegisterKey(%q, %q): %v", k, e.def, err)
			}
			e.reg = true
		}
		cur := func(e *bigEntry) (string, bool) {
			if e == nil || !e.reg {
				return "", false
			}
			if e.has {
				return e.val, true
			}
			return e.def, true
		}
		short := func(s string) string {
			if len(s) > 40 {
				return fmt.Sprintf("%q… (%d bytes)", s[:20], len(s))
			}
			return fmt.Sprintf("%q", s)
		}
		reads := func(s confstore.Interface, a int, ks []string, typed bool, who string) {
			var want []string
			for _, k := range ks {
				if _, ok := cur(m[k]); ok {
					want = append(want, k)
				}
			}
			var gotK []string
			var gotV []interface{}
			if typed {
				for _, e := range s.BatchGetValues(ks) {
					gotK, gotV = append(gotK, e.Key), append(gotV, e.Value)
				}
			} else {
				for _, e := range s.BatchGetValueString(ks) {
					gotK, gotV = append(gotK, e.Key), append(gotV, e.Value)
				}
			}
			if len(gotK) != len(want) {
				fail(a, "batch-read", "%s: a batch read of %d keys, %d of which exist, returned %d values", who, len(ks), len(want), len(gotK))
				return
			}
			for i, k := range want {
				if gotK[i] != k {
					fail(a, "batch-read", "%s: value %d of a batch read of %d keys is that of %s, not of %s", who, i, len(ks), short(gotK[i]), short(k))
					return
				}
				v, _ := cur(m[k])
				var wv interface{} = v
				if typed {
					wv, _ = conv(m[k].proc, v)
				}
				if !reflect.DeepEqual(gotV[i], wv) {
					fail(a, "value", "%s: key %s (processor %d) reads %s, its value is %s", who, short(k), m[k].proc, short(fmt.Sprint(gotV[i])), short(v))
					return
				}
			}
		}
		pick := func(r *hk.Rng) string {
			if r.P(1, 20) {
				return r.PickS("", "none", "stale")
			}
			return order[r.N(len(order))]
		}
		valOf := func(r *hk.Rng, k string) string {
			if e := m[k]; e != nil {
				return bigValue(r, e.proc)
			}
			return "t1"
		}
		// accept says what becomes of an entry: its error (nil: none) and takes it over
		accept := func(k, v string, persist bool) bool {
			if k == "" {
				return true
			}
			e := m[k]
			if e == nil || !e.reg {
				return false
			}
			if _, ok := conv(e.proc, v); !ok {
				return false
			}
			e.has, e.val = true, v
			if persist {
				e.onDisk, e.pers = true, v
			}
			return true
		}
		check := func() {
			h := w.srv.Hash(root)
			for k, v := range init {
				if hv, ok := h[k]; !ok || hv != v {
					fail(21, "other-field", "the field %q of Redis's hash, which no call named, is %q now (%v), was %q", k, hv, ok, v)
				}
			}
			if len(order) == 0 {
				return
			}
			extra := len(h) - len(init)
			for _, k := range order {
				e := m[k]
				v, ok := h[k]
				if ok {
					extra--
				}
				if ok != e.onDisk || v != e.pers {
					if e.onDisk {
						fail(21, "not-persisted", "key %s was accepted with %s; Redis has %s (%v)", short(k), short(e.pers), short(v), ok)
					} else {
						fail(21, "persisted", "key %s is %s in Redis; it was never accepted or is reset", short(k), short(v))
					}
					return
				}
			}
			if extra != 0 {
				fail(21, "extra-field", "Redis's hash has %d fields nobody set", extra)
			}
		}
		x.RunOps(func(t int, o hk.Op) {
			if x.Failed() {
				return
			}
			r := hk.NewRng(uint64(o.B))
			k := order[int(o.A)%len(order)]
			e := m[k]
			switch o.K {
			case "batch":
				var in []*confstore.KVStr
				var rej []int
				for i := int64(0); i < o.C; i++ {
					bk := pick(r)
					bv := valOf(r, bk)
					in = append(in, &confstore.KVStr{Key: bk, Value: bv})
					if !accept(bk, bv, true) {
						rej = append(rej, int(i))
					}
				}
				errs := st.BatchUpdate(in)
				if len(errs) != len(rej) {
					fail(22, "errors", "a batch of %d entries, %d of them not acceptable, returned %d errors", len(in), len(rej), len(errs))
					return
				}
				for i, j := range rej {
					if errs[i] == nil || errs[i].Key != in[j].Key || errs[i].Value != in[j].Value || errs[i].Error == "" {
						fail(22, "errors", "error %d of a batch of %d does not name entry %d, %s", i, len(in), j, short(in[j].Key))
						return
					}
				}
			case "upd", "updnp":
				if o.K == "updnp" && aspect == 24 {
					return
				}
				v := bigValue(r, e.proc)
				ok := accept(k, v, o.K == "upd")
				var err *confstore.KVError
				if o.K == "upd" {
					err = st.Update(k, v)
				} else {
					err = st.UpdateNoPersist(k, v)
				}
				if ok != (err == nil) {
					fail(22, "errors", "an update of %s to %s: %v", short(k), short(v), err)
				}
			case "reset", "resets":
				// one key, or a third of all
				for i, rk := range order {
					if rk == k || o.K == "resets" && (int64(i)+o.A)%3 == 0 {
						st.ResetKey(rk)
						m[rk].has, m[rk].onDisk, m[rk].pers = false, false, ""
					}
				}
			case "dereg":
				st.DeregisterKey(k)
				e.reg, e.has, e.onDisk, e.pers = false, false, false, ""
			case "reg":
				err := register(st, k)
				if (err == nil) == e.reg {
					fail(22, "register", "RegisterKey(%s), registered before: %v, returned %v", short(k), e.reg, err)
				}
				e.reg = true
			case "bget", "bgets":
				var ks []string
				for i := int64(0); i < o.C; i++ {
					ks = append(ks, pick(r))
				}
				reads(st, 22, ks, o.K == "bget", "the store")
			case "gets":
				v, ok := cur(e)
				g, hit := st.GetValueString(k)
				if hit != ok || g != v {
					fail(22, "value", "key %s reads %s (%v), its value is %s (%v)", short(k), short(g), hit, short(v), ok)
				}
			case "pause":
				rt.Sleep(int64(1+r.N(2000)) * ms)
			}
			check()
		})
		x.Join()
		if x.Failed() {
			return
		}
		reads(st, 22, order, true, "the store")
		reads(st, 22, order, false, "the store")
		if aspect == 24 {
			// memory and persisted copy, and what another process makes of the latter
			reads(st, 24, order, false, "the store")
			cl := redis.NewClient(&redis.Options{Addr: "redis:6379", Dialer: (&sredis.Net{S: w.srv, X: x, DialTO: 500 * ms}).Dial, IdleTimeout: -1})
			per := confstore.NewRedisPersister(cl, root)
			st2 := confstore.NewStore(per, confstore.NoopLoadPolicy)
			for _, k := range order {
				if m[k].reg {
					register(st2, k)
				}
			}
			if err := per.Load(st2); err != nil {
				x.Fail("load-fails", "load: %v", err)
			}
			reads(st2, 24, order, false, "a second store")
			reads(st2, 24, order, true, "a second store")
			cl.Close()
		}
		w.cl.Close()
	}
}
