//go:build go1.21

package main

import (
	"reflect"

	"github.com/chanjarster/gears/confstore"
	"github.com/chanjarster/gears/zzsim/hk"
	rt "github.com/chanjarster/gears/zzsim/rt"
)

// plain is a persister in memory.
type plain map[string]string

func (p plain) Save(k, v string) error { rt.YH(); p[k] = v; return nil }
func (p plain) Delete(k string) error  { rt.YH(); delete(p, k); return nil }
func (p plain) BatchSave(l []*confstore.KVStr) error {
	for _, e := range l {
		p.Save(e.Key, e.Value)
	}
	return nil
}
func (p plain) Load(s confstore.Interface) error {
	rt.YH()
	for _, k := range []string{"a", "b", "c", "k0", "k1"} {
		if v, ok := p[k]; ok {
			s.UpdateNoPersist(k, v)
		}
	}
	return nil
}

// bystander uses another store with its own persister and processors, alone, for keys with
// the same names.
func bystander(x *hk.X, r *hk.Rng) {
	keys := []string{"a", "b", "c", "k0", "k1"}
	per := plain{}
	s := confstore.NewStore(per, policy(int64(r.R(1, 4)), int64(r.N(2))*sec))
	proc, val := map[string]int{}, map[string]string{}
	for _, k := range keys[:r.R(1, 5)] {
		proc[k] = r.N(4)
		val[k] = value(proc[k], 20000+r.N(10))
		if e := s.RegisterKey(k, val[k], processor(proc[k])); e != nil {
			x.Fail("others", "RegisterKey(%s) in a store nobody else uses: %v", k, e)
			return
		}
	}
	for i, n := 0, r.R(2, 8); i < n && !x.Failed(); i++ {
		k := keys[r.N(len(keys))]
		p, known := proc[k]
		if !known {
			if _, hit := s.GetValue(k); hit {
				x.Fail("others", "key %s, unknown in a store nobody else uses, has a value", k)
			}
			continue
		}
		switch r.N(4) {
		case 0:
			v := value(p, 20000+r.N(100))
			if e := s.Update(k, v); e != nil {
				x.Fail("others", "Update(%s, %s) in a store nobody else uses: %v", k, v, e)
			}
			val[k] = v
			if per[k] != v {
				x.Fail("others", "Update(%s, %s) in a store nobody else uses left %q in its persister", k, v, per[k])
			}
		case 1:
			if e := s.Update(k, "\x00"); e == nil && p != 1 {
				x.Fail("others", "Update(%s) of a store nobody else uses took a bad value", k)
			} else if e == nil {
				val[k] = "\x00"
			}
		default:
			want, _ := conv(p, val[k])
			if got, hit := s.GetValue(k); !hit || !reflect.DeepEqual(got, want) {
				x.Fail("others", "GetValue(%s) of a store nobody else uses is %v, %v, want %v", k, got, hit, want)
			}
			if got, hit := s.GetValueString(k); !hit || got != val[k] {
				x.Fail("others", "GetValueString(%s) of a store nobody else uses is %q, %v, want %q", k, got, hit, val[k])
			}
		}
		if r.P(1, 3) {
			rt.Sleep(r.Pick(1, ms, sec, 2*sec))
		}
	}
}
