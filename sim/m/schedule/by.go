//go:build go1.21

package main

import (
	"fmt"
	"time"

	"github.com/chanjarster/gears/schedule"
	"github.com/chanjarster/gears/zzsim/hk"
	rt "github.com/chanjarster/gears/zzsim/rt"
)

// bystander uses other tasks with the same names, and another manager.
func bystander(x *hk.X, r *hk.Rng) {
	iv := r.Pick(ms, 7*ms, 1e9)
	names := []string{"task0", "task1", "t", "a", "b", "c"}
	mk := func(name string, runs *int) schedule.Task {
		job := func(cancel <-chan struct{}) error { *runs++; rt.YH(); return nil }
		if r.P(1, 2) {
			return schedule.NewFixedDelayTask(name, job, time.Duration(iv), time.Duration(1<<60))
		}
		return schedule.NewFixedRateTask(name, job, time.Duration(iv), time.Duration(1<<60))
	}
	if r.P(1, 2) {
		var runs int
		name := names[r.N(len(names))]
		t := mk(name, &runs)
		if t.Name() != name {
			x.Fail("others", "task %s is called %s", name, t.Name())
		}
		if e := t.Stop(); e == nil {
			x.Fail("others", "task %s nobody else uses could be stopped before it had been started", name)
		}
		if e := t.Start(); e != nil {
			x.Fail("others", "task %s nobody else uses: Start: %v", name, e)
			return
		}
		if e := t.Start(); e == nil {
			x.Fail("others", "task %s nobody else uses could be started twice", name)
		}
		for i := 0; runs < 2 && i < 1000; i++ {
			rt.Sleep(iv)
		}
		if e := t.Stop(); e != nil {
			x.Fail("others", "task %s nobody else uses: Stop: %v", name, e)
		}
		return
	}
	m := schedule.NewTaskManager()
	var ts []schedule.Task
	runs := make([]int, 8)
	for i, n := 0, r.R(1, 3); i < n; i++ {
		j := r.N(len(names))
		name := names[j]
		names = append(append([]string(nil), names[:j]...), names[j+1:]...)
		t := mk(name, &runs[i])
		ts = append(ts, t)
		if e := m.Register(t); e != nil {
			x.Fail("others", "Register(%s) in a manager nobody else uses: %v", name, e)
			return
		}
		if e := m.Register(mk(name, &runs[7])); e == nil {
			x.Fail("others", "second Register(%s) in a manager nobody else uses succeeded", name)
		}
	}
	for i := 0; runs[0] == 0 && i < 1000; i++ {
		rt.Sleep(iv)
	}
	if r.P(1, 2) {
		m.Unregister(ts[0].Name())
		if e := ts[0].Stop(); e == nil {
			x.Fail("others", "task %s was not stopped by Unregister of a manager nobody else uses", ts[0].Name())
		}
	}
	m.UnregisterAll()
	for i, t := range ts {
		if e := t.Stop(); e == nil {
			x.Fail("others", "task %d (%s) was not stopped by UnregisterAll of a manager nobody else uses", i, fmt.Sprint(t.Name()))
		}
	}
}
