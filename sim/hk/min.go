//go:build go1.21

package hk

import (
	"fmt"
	"time"

	rt "github.com/chanjarster/gears/zzsim/rt"
)

// minimise shrinks the plan and the decision trace while the same class of
// violation persists. It returns false if the original does not replay.
func minimise(sc *Scenario, rf *ReplayFile, beat func(), kn []Known) bool {
	want := rf.Violation.Class
	try := func(p *Plan, d []rt.Decision) (Outcome, bool) {
		beat()
		o := Exec(sc, p, rf.Seed, d, true, false)
		return o, o.V != nil && o.V.Class == want && matchKnown(kn, sc, o.V) == ""
	}
	o, ok := try(rf.Plan, rf.Decisions)
	if !ok {
		return false
	}
	set := func(p *Plan, o Outcome) {
		rf.Plan = p
		rf.Decisions = append([]rt.Decision{}, o.Res.Decisions...)
		rf.Violation = o.V
		rf.Hash = fmt.Sprintf("%016x", o.Res.Hash)
	}
	set(rf.Plan, o)
	deadline := time.Now().Add(25 * time.Second)
	if sc.Race {
		deadline = time.Now().Add(10 * time.Second)
	}
	expired := func() bool { return time.Now().After(deadline) }

	// attempt a smaller plan: first with the recorded schedule, then by a short
	// fresh search under the smaller plan
	attempt := func(q *Plan, budget int) bool {
		if sc.Valid != nil && !sc.Valid(q) {
			return false
		}
		if o, ok := try(q, rf.Decisions); ok {
			set(q, o)
			return true
		}
		for k := 0; k < budget && !expired(); k++ {
			sd := seedOf(rf.Seed, "min", k)
			beat()
			o := Exec(sc, q, sd, nil, false, false)
			if o.V != nil && o.V.Class == want && matchKnown(kn, sc, o.V) == "" {
				d := append([]rt.Decision{}, o.Res.Decisions...)
				if o2, ok := try(q, d); ok {
					set(q, o2)
					return true
				}
			}
		}
		return false
	}
	if rf.Plan.C("by") > 0 {
		q := rf.Plan.Clone()
		delete(q.Cfg, "by")
		attempt(q, 30)
	}
	if !sc.FixedOps {
		for changed := true; changed && !expired(); {
			changed = false
			// drop whole threads
			for t := len(rf.Plan.Ops) - 1; t >= 0 && !expired(); t-- {
				if len(rf.Plan.Ops[t]) == 0 {
					continue
				}
				q := rf.Plan.Clone()
				q.Ops[t] = nil
				if attempt(q, 30) {
					changed = true
				}
			}
			// drop chunks of operations
			for t := range rf.Plan.Ops {
				for size := (len(rf.Plan.Ops[t]) + 1) / 2; size >= 1 && !expired(); size /= 2 {
					for i := 0; i+size <= len(rf.Plan.Ops[t]) && !expired(); {
						q := rf.Plan.Clone()
						q.Ops[t] = append(append([]Op(nil), q.Ops[t][:i]...), q.Ops[t][i+size:]...)
						if attempt(q, 15) {
							changed = true
						} else {
							i += size
						}
					}
				}
			}
		}
	}
	// simpler arguments
	for t := range rf.Plan.Ops {
		for i := range rf.Plan.Ops[t] {
			for f := 0; f < 3 && !expired(); f++ {
				cur := func(p *Plan) *int64 {
					op := &p.Ops[t][i]
					return []*int64{&op.A, &op.B, &op.C}[f]
				}
				for _, cand := range []int64{0, 1, *cur(rf.Plan) / 2} {
					if c := *cur(rf.Plan); cand >= c || c < 0 {
						continue
					}
					q := rf.Plan.Clone()
					*cur(q) = cand
					if attempt(q, 3) {
						break
					}
				}
			}
		}
	}
	// fewer decisions
	for size := (len(rf.Decisions) + 1) / 2; size >= 1 && !expired(); size /= 2 {
		for i := 0; i < len(rf.Decisions) && !expired(); {
			j := i + size
			if j > len(rf.Decisions) {
				j = len(rf.Decisions)
			}
			d := append(append([]rt.Decision(nil), rf.Decisions[:i]...), rf.Decisions[j:]...)
			if o, ok := try(rf.Plan, d); ok && len(o.Res.Decisions) < len(rf.Decisions) {
				set(rf.Plan, o)
			} else {
				i += size
			}
		}
	}
	// the final form, with its human-readable history and schedule
	o = Exec(sc, rf.Plan, rf.Seed, rf.Decisions, true, true)
	if o.V == nil || o.V.Class != want {
		return false
	}
	rf.Violation = o.V
	rf.Hash = fmt.Sprintf("%016x", o.Res.Hash)
	rf.History = histText(o.Hist)
	rf.Schedule = siteify(o.Res.Trace)
	if len(rf.Schedule) > 600 {
		rf.Schedule = rf.Schedule[:600]
	}
	return true
}
