//go:build go1.21

// Scenarios of the event package (C06, C07, C08, C09).
package main

import (
	"fmt"
	"time"

	"github.com/chanjarster/gears/event"
	"github.com/chanjarster/gears/zzsim/hk"
	rt "github.com/chanjarster/gears/zzsim/rt"
)

const real = "event.FanOutBus, event.Receiver (all code)"
const stub = "Go scheduler, channels, select, sync.RWMutex, sync.Once, timers, map iteration order (simulated)"

type sent struct {
	id        int
	call, ret int
}

type got struct {
	id, seq int
	t       int64
}

// rcv is one receiver as its user sees it
type rcv struct {
	name        string
	r           *event.Receiver
	strat       event.FullStrategy
	cap         int
	joinSeq     int // NewRecv returned
	joinCall    int
	got         []got
	closed      bool // consumer saw the channel closed
	closedSeq   int
	closeCall   int // Receiver.Close called (0: never)
	closeRet    int
	initial     bool
	slow        int64
	stopAfter   int // consumer closes the receiver itself after so many events (-1 never)
	orphaned    bool
	neverClosed bool
}

type world struct {
	x     *hk.X
	bus   *event.FanOutBus
	sent  []*sent
	rcvs  []*rcv
	total int
}

func (w *world) send(id int) {
	s := &sent{id: id}
	w.sent = append(w.sent, s)
	s.call = rt.Rec("send", int64(id), 0, "", nil)
	rt.SendTo(w.bus.C)(interface{}(id))
	s.ret = rt.Rec("sent", int64(id), 0, "", nil)
}

func (w *world) join(name string, cap int, strat event.FullStrategy) *rcv {
	c := &rcv{name: name, strat: strat, cap: cap, stopAfter: -1}
	c.joinCall = rt.Rec("newrecv", int64(cap), int64(strat), name, nil)
	if strat == event.Drop && cap%2 == 0 {
		c.r = w.bus.NewRecv(name, cap)
	} else {
		c.r = w.bus.NewRecvStrategy(name, cap, strat)
	}
	c.joinSeq = rt.Rec("newrecv.ret", int64(cap), int64(strat), name, nil)
	w.rcvs = append(w.rcvs, c)
	return c
}

func (w *world) close(c *rcv) {
	s := rt.Rec("close", 0, 0, c.name, nil)
	if c.closeCall == 0 {
		c.closeCall = s
	}
	c.r.Close()
	s = rt.Rec("close.ret", 0, 0, c.name, nil)
	if c.closeRet == 0 {
		c.closeRet = s
	}
}

// consume receives until the channel is closed
func (w *world) consume(c *rcv) {
	for {
		v, ok := rt.Recv2(c.r.C)
		if !ok {
			c.closed = true
			c.closedSeq = rt.Rec("eof", 0, 0, c.name, nil)
			return
		}
		id, isInt := v.(int)
		if !isInt {
			w.x.Fail("content", "receiver %s got %v which nobody sent", c.name, v)
			return
		}
		c.got = append(c.got, got{id, rt.Rec("recv", int64(id), 0, c.name, nil), rt.Mono()})
		if c.stopAfter >= 0 && len(c.got) > c.stopAfter {
			c.stopAfter = -1
			w.close(c)
			continue
		}
		if c.slow > 0 {
			rt.Sleep(c.slow)
		} else {
			rt.YH()
		}
	}
}

func ids(g []got) []int {
	var o []int
	for _, e := range g {
		o = append(o, e.id)
	}
	return o
}

// order checks one sequence: nothing invented, nothing twice, and never an
// event before one that had been sent completely before it.
func (w *world) order(c *rcv) {
	pos := map[int]*sent{}
	for _, s := range w.sent {
		pos[s.id] = s
	}
	seen := map[int]bool{}
	for i, g := range c.got {
		s := pos[g.id]
		if s == nil || s.call > g.seq {
			w.x.Fail("content", "receiver %s got event %d which had not been sent", c.name, g.id)
			return
		}
		if seen[g.id] {
			w.x.Fail("duplicate", "receiver %s got event %d twice: %v", c.name, g.id, ids(c.got))
			return
		}
		seen[g.id] = true
		for j := 0; j < i; j++ {
			q := pos[c.got[j].id]
			if s.ret != 0 && s.ret < q.call {
				w.x.Fail("order", "receiver %s got event %d before event %d although that had been sent first: %v", c.name, q.id, s.id, ids(c.got))
				return
			}
		}
	}
}

// segment: c.got must be a contiguous part of the total order ref.
func (w *world) segment(c *rcv, ref []got, mustEnd bool) {
	idx := map[int]int{}
	for i, g := range ref {
		idx[g.id] = i
	}
	last := -1
	for k, g := range c.got {
		i, ok := idx[g.id]
		if !ok {
			w.x.Fail("lost", "event %d reached receiver %s but not a Block receiver that was there all the time", g.id, c.name)
			return
		}
		if k > 0 && i != last+1 {
			w.x.Fail("gap", "Block receiver %s got %v, not a contiguous part of the order %v", c.name, ids(c.got), ids(ref))
			return
		}
		last = i
	}
	first := len(ref)
	if len(c.got) > 0 {
		first = idx[c.got[0].id]
	}
	// nothing sent after the registration may be missed
	call := map[int]int{}
	for _, s := range w.sent {
		call[s.id] = s.call
	}
	if c.initial && len(c.got) > 0 && first != 0 {
		w.x.Fail("lost", "Block receiver %s, registered before the first event was sent, missed event %d: %v of %v", c.name, ref[0].id, ids(c.got), ids(ref))
		return
	}
	for i := 0; i < first; i++ {
		if call[ref[i].id] > c.joinSeq && (len(c.got) > 0 || mustEnd) {
			w.x.Fail("lost", "Block receiver %s missed event %d, which was sent after it had been registered: got %v of %v", c.name, ref[i].id, ids(c.got), ids(ref))
			return
		}
	}
	if mustEnd {
		if len(ref) > 0 && (len(c.got) > 0 && last != len(ref)-1) {
			w.x.Fail("lost", "Block receiver %s did not get event %d: got %v of %v", c.name, ref[last+1].id, ids(c.got), ids(ref))
		}
		return
	}
	// closed on the way: everything dispatched completely before the close is there
	if c.closeCall > 0 {
		for i := 0; i+1 < len(ref); i++ {
			if (i > last) && call[ref[i].id] > c.joinSeq {
				for _, o := range w.rcvs {
					for _, g := range o.got {
						if g.id == ref[i+1].id && g.seq < c.closeCall {
							w.x.Fail("lost", "Block receiver %s did not get event %d, which had been dispatched before the receiver was closed: got %v of %v", c.name, ref[i].id, ids(c.got), ids(ref))
							return
						}
					}
				}
				break
			}
		}
	}
}

// ---- C06: Block delivery -----------------------------------------------------

func caps(r *hk.Rng) int64 { return r.Pick(0, 0, 1, 1, 2, 3, 5, 10, 100) }

func genBlock(r *hk.Rng, leave bool) *hk.Plan {
	p := &hk.Plan{Cfg: map[string]int64{"busbuf": caps(r), "nblock": int64(r.R(1, 4)), "ndrop": r.Pick(0, 0, 1, 2), "dispatch": int64(r.N(3)), "rename": int64(r.N(2))}}
	for i := int64(0); i < p.C("nblock")+p.C("ndrop"); i++ {
		p.Cfg[fmt.Sprint("cap", i)] = caps(r)
		p.Cfg[fmt.Sprint("slow", i)] = r.Pick(0, 0, 0, 1, 10, 1e6, 1500e6, 61e9)
	}
	for t, n := 0, r.R(1, 3); t < n; t++ {
		var ops []hk.Op
		for i, k := 0, r.R(1, 8); i < k; i++ {
			if r.P(1, 6) {
				ops = append(ops, hk.Op{K: "sleep", A: r.Pick(1, 10, 1e6)})
			}
			ops = append(ops, hk.Op{K: "send", A: int64(t*100 + i)})
		}
		p.Ops = append(p.Ops, ops)
	}
	if leave {
		// late joiners and early leavers
		for t, n := 0, r.R(1, 3); t < n; t++ {
			ops := []hk.Op{{K: "sleep", A: r.Pick(0, 1, 5, 10, 1e6)}, {K: "join", A: caps(r), B: int64(r.N(4)), C: r.Pick(-1, -1, 0, 1, 2, 5)}}
			if r.P(1, 2) {
				ops = append(ops, hk.Op{K: "sleep", A: r.Pick(0, 1, 10, 1e6)}, hk.Op{K: "leave"})
				if r.P(1, 3) {
					ops = append(ops, hk.Op{K: "leave"})
				}
			}
			p.Ops = append(p.Ops, ops)
		}
		p.Cfg["leaver"] = int64(r.N(3))
		p.Cfg["leaveat"] = r.Pick(0, 1, 10, 1e6)
	}
	p.Sim = hk.GenSim(r, 500, r.P(1, 4), 1e6)
	return p
}

// many receivers, or many events, or both
func genBig(r *hk.Rng) *hk.Plan {
	nb, per := r.Pick(1, 2, 3, 8, 9, 16, 17, 33, 40), r.Pick(3, 10, 40, 130, 300)
	if nb*per > 1300 {
		per = 1300 / nb
	}
	p := &hk.Plan{Cfg: map[string]int64{"busbuf": r.Pick(0, 1, 10, 100, 127, 300), "nblock": nb, "ndrop": r.Pick(0, 0, 1, 9), "dispatch": int64(r.N(3)), "rename": int64(r.N(2))}}
	for i := int64(0); i < nb+p.C("ndrop"); i++ {
		p.Cfg[fmt.Sprint("cap", i)] = r.Pick(0, 1, 10, 100, 129, 300)
		p.Cfg[fmt.Sprint("slow", i)] = r.Pick(0, 0, 0, 1)
	}
	for t, n := 0, r.R(1, 3); t < n; t++ {
		var ops []hk.Op
		for i := int64(0); i < per; i++ {
			ops = append(ops, hk.Op{K: "send", A: int64(t)*1000 + i})
		}
		p.Ops = append(p.Ops, ops)
	}
	p.Sim = hk.GenSim(r, 5000, false, 0)
	return p
}

func runBlock(p *hk.Plan, x *hk.X) {
	w := &world{x: x, bus: event.NewFanOutBus(p.I("busbuf"))}
	nb, nd := p.I("nblock"), p.I("ndrop")
	for i := 0; i < nb+nd; i++ {
		st := event.Block
		if i >= nb {
			st = event.Drop
		}
		c := w.join(fmt.Sprint("R", i), p.I(fmt.Sprint("cap", i)), st)
		c.initial = true
		c.slow = p.C(fmt.Sprint("slow", i))
		c.neverClosed = true
	}
	if p.C("dispatch") == 0 {
		w.bus.GoDispatch()
	}
	leaver := -1
	if p.C("leaver") > 0 && nb > 1 {
		leaver = 1 + int(p.C("leaver"))%(nb-1)
		w.rcvs[leaver].neverClosed = false
	}
	nsend := 0
	for _, t := range p.Ops {
		for _, o := range t {
			if o.K == "send" {
				nsend++
			}
		}
	}
	for _, c := range w.rcvs {
		c := c
		if c.strat == event.Drop && c.slow == 10 {
			x.Probe("drop_receiver_never_drained")
			continue // never drained at all
		}
		x.Thread(c.name, func() { w.consume(c) })
	}
	sending, joined := 0, 0
	mine := map[int]*rcv{}
	x.RunOps(func(t int, op hk.Op) {
		switch op.K {
		case "send":
			w.send(int(op.A))
			sending++
		case "sleep":
			rt.Sleep(op.A)
		case "join":
			st := event.Block
			if op.B == 3 {
				st = event.Drop
			}
			c := w.join(fmt.Sprint("J", t), int(op.A), st)
			c.neverClosed = true
			c.stopAfter = int(op.C)
			if c.stopAfter >= 0 {
				c.neverClosed = false
			}
			mine[t] = c
			joined++
			x.Thread(c.name, func() { w.consume(c) })
		case "leave":
			if c := mine[t]; c != nil {
				c.neverClosed = false
				w.close(c)
			}
		}
	})
	if leaver >= 0 {
		x.Thread("leaver", func() {
			rt.Sleep(p.C("leaveat"))
			w.close(w.rcvs[leaver])
		})
	}
	if p.C("dispatch") == 1 {
		w.bus.GoDispatch()
	} else if p.C("dispatch") == 2 {
		x.Thread("disp", func() { rt.Sleep(5); w.bus.GoDispatch() })
	}
	// all threads but the consumers end by themselves; wait until everything is delivered
	idle, prev := 0, -1
	for idle < 4 {
		rt.Sleep(70e9)
		full, n := sending == nsend, 0
		for _, c := range w.rcvs {
			n += len(c.got)
			if c.strat == event.Block && c.initial && c.neverClosed && len(c.got) < nsend {
				full = false
			}
		}
		if full {
			break
		}
		idle++
		if n+sending != prev {
			idle, prev = 0, n+sending
		}
	}
	rt.Sleep(60e9)
	for _, c := range w.rcvs {
		if c.strat == event.Block && c.initial && c.neverClosed && len(c.got) < nsend {
			x.Fail("lost", "Block receiver %s got %d of %d events (%d sends completed), and nothing moves any more: %v", c.name, len(c.got), nsend, sending, ids(c.got))
			return
		}
	}
	rt.Rec("busclose", 0, 0, "", nil)
	w.bus.Close()
	rt.Rec("busclose.ret", 0, 0, "", nil)
	rt.Sleep(3000e9)
	var ref []got
	for _, c := range w.rcvs {
		if c.strat == event.Block && c.initial && c.neverClosed {
			ref = c.got
			break
		}
	}
	for _, c := range w.rcvs {
		w.order(c)
		if x.Failed() {
			return
		}
		if c.strat != event.Block {
			continue
		}
		if c.initial && c.neverClosed {
			if fmt.Sprint(ids(c.got)) != fmt.Sprint(ids(ref)) {
				x.Fail("order", "two Block receivers got the events in different orders: %v and %v", ids(ref), ids(c.got))
				return
			}
			continue
		}
		w.segment(c, ref, c.neverClosed)
		if x.Failed() {
			return
		}
		if len(c.got) > 0 && len(c.got) < len(ref) {
			x.Probe("partial_receiver")
		}
	}
}

// ---- C07: Drop receivers -------------------------------------------------------

// exact model in quiescent rounds
func genDrop(r *hk.Rng) *hk.Plan {
	p := &hk.Plan{Cfg: map[string]int64{"busbuf": caps(r), "n": int64(r.R(1, 4)), "block": int64(r.N(2))}}
	for i := int64(0); i < p.C("n"); i++ {
		p.Cfg[fmt.Sprint("cap", i)] = r.Pick(1, 1, 2, 3, 5, 10)
	}
	var ops []hk.Op
	for i, n := 0, r.R(2, 14); i < n; i++ {
		switch r.N(7) {
		case 0, 1, 2:
			ops = append(ops, hk.Op{K: "send", A: int64(r.R(1, 6))})
		case 6:
			// another receiver takes its place, or nobody for a while
			ops = append(ops, hk.Op{K: r.PickS("renew", "renew", "renew", "leave"), A: int64(r.N(p.I("n"))), B: int64(r.N(2))})
		case 3:
			ops = append(ops, hk.Op{K: "recv", A: int64(r.N(p.I("n"))), B: int64(r.R(1, 4))})
		case 4:
			ops = append(ops, hk.Op{K: "drain", A: int64(r.N(p.I("n")))})
		case 5:
			ops = append(ops, hk.Op{K: "wait", A: int64(r.N(p.I("n"))), B: r.Pick(0, 1, 1000)})
		}
	}
	p.Ops = [][]hk.Op{ops}
	p.Sim = hk.GenSim(r, 300, false, 0)
	return p
}

func runDrop(p *hk.Plan, x *hk.X) {
	w := &world{x: x, bus: event.NewFanOutBus(p.I("busbuf"))}
	n := p.I("n")
	model := make([][]int, n)
	gone := make([]bool, n)
	var rs []*event.Receiver
	for i := 0; i < n; i++ {
		rs = append(rs, w.bus.NewRecv(fmt.Sprint("D", i), p.I(fmt.Sprint("cap", i))))
	}
	if p.C("block") == 1 {
		c := w.join("B", 0, event.Block)
		rt.Spawn("B", func() { w.consume(c) })
	}
	w.bus.GoDispatch()
	id, gen := 0, 0
	x.RunOps(func(t int, op hk.Op) {
		i := int(op.A) % n
		t0 := rt.Mono()
		if gone[i] && op.K != "send" && op.K != "renew" {
			return
		}
		switch op.K {
		case "renew", "leave":
			if !gone[i] {
				rs[i].Close()
			}
			model[i], gone[i] = nil, true
			if op.K == "renew" {
				gen++
				name := fmt.Sprint("D", i)
				if op.B == 1 {
					name = fmt.Sprint("E", gen)
				}
				rs[i] = w.bus.NewRecv(name, p.I(fmt.Sprint("cap", i)))
				gone[i] = false
			}
		case "send":
			for k := 0; k < int(op.A); k++ {
				id++
				w.send(id)
				for j := range model {
					if gone[j] {
						continue
					}
					if len(model[j]) < p.I(fmt.Sprint("cap", j)) {
						model[j] = append(model[j], id)
					} else {
						x.Probe("event_dropped")
					}
				}
			}
			rt.WaitIdle()
			if rt.Mono() != t0 {
				x.Fail("blocked", "sending took %v: a Drop receiver that is full held up the bus", time.Duration(rt.Mono()-t0))
			}
		case "recv":
			for k := 0; k < int(op.B) && len(model[i]) > 0; k++ {
				v := rt.Recv(rs[i].C)
				if v != interface{}(model[i][0]) {
					x.Fail("drop", "Drop receiver %d (capacity %d) yielded %v, expected %d", i, p.I(fmt.Sprint("cap", i)), v, model[i][0])
					return
				}
				model[i] = model[i][1:]
			}
		case "drain", "wait":
			var d []interface{}
			if op.K == "drain" {
				d = rs[i].Drain()
			} else {
				d = rs[i].CollectTimeout(time.Duration(op.B))
			}
			if fmt.Sprint(d) != fmt.Sprint(model[i]) && len(d)+len(model[i]) > 0 {
				x.Fail("drop", "Drop receiver %d (capacity %d): %s yielded %v, expected %v", i, p.I(fmt.Sprint("cap", i)), op.K, d, model[i])
				return
			}
			model[i] = nil
		}
	})
	x.Join()
}

// with a receiver waiting all the time nothing may be dropped, even unbuffered
func genDropWait(r *hk.Rng) *hk.Plan {
	p := &hk.Plan{Cfg: map[string]int64{"busbuf": caps(r), "n": int64(r.R(1, 3))}}
	for i := int64(0); i < p.C("n"); i++ {
		p.Cfg[fmt.Sprint("cap", i)] = r.Pick(0, 0, 1, 2)
	}
	var ops []hk.Op
	for i, n := 0, r.R(1, 8); i < n; i++ {
		ops = append(ops, hk.Op{K: "send", A: int64(i)})
	}
	p.Ops = [][]hk.Op{ops}
	p.Sim = hk.GenSim(r, 200, false, 0)
	return p
}

func runDropWait(p *hk.Plan, x *hk.X) {
	w := &world{x: x, bus: event.NewFanOutBus(p.I("busbuf"))}
	for i := 0; i < p.I("n"); i++ {
		c := w.join(fmt.Sprint("D", i), p.I(fmt.Sprint("cap", i)), event.Drop)
		rt.Spawn(c.name, func() { w.consume(c) })
	}
	w.bus.GoDispatch()
	rt.WaitIdle()
	var want []int
	x.RunOps(func(t int, op hk.Op) {
		w.send(int(op.A))
		want = append(want, int(op.A))
		rt.WaitIdle()
		for _, c := range w.rcvs {
			if fmt.Sprint(ids(c.got)) != fmt.Sprint(want) {
				x.Fail("drop", "Drop receiver %s (capacity %d) was waiting for events but got %v of %v", c.name, c.cap, ids(c.got), want)
				return
			}
		}
	})
	x.Join()
}

// concurrent: subsequence, dropped only when full, nobody else suffers
func genDropConc(r *hk.Rng) *hk.Plan {
	p := genBlock(r, false)
	p.Cfg["nblock"] = 1
	p.Cfg["ndrop"] = int64(r.R(1, 3))
	p.Cfg["slow0"] = 0
	for i := int64(1); i <= p.C("ndrop"); i++ {
		p.Cfg[fmt.Sprint("cap", i)] = r.Pick(0, 1, 1, 2, 3, 5)
		p.Cfg[fmt.Sprint("slow", i)] = r.Pick(0, 0, 1, 10, 1e6, -1)
	}
	p.Sim.StallP = 0
	return p
}

func runDropConc(p *hk.Plan, x *hk.X) {
	w := &world{x: x, bus: event.NewFanOutBus(p.I("busbuf"))}
	nd := p.I("ndrop")
	for i := 0; i < 1+nd; i++ {
		st := event.Block
		if i >= 1 {
			st = event.Drop
		}
		c := w.join(fmt.Sprint("R", i), p.I(fmt.Sprint("cap", i)), st)
		c.initial = true
		c.slow = p.C(fmt.Sprint("slow", i))
		if c.slow >= 0 {
			rt.Spawn(c.name, func() { w.consume(c) })
		}
	}
	w.bus.GoDispatch()
	n := 0
	x.RunOps(func(t int, op hk.Op) {
		if op.K == "sleep" {
			rt.Sleep(op.A)
			return
		}
		t0 := rt.Mono()
		w.send(int(op.A))
		n++
		if rt.Mono() != t0 {
			x.Fail("blocked", "sending event %d took %v: a Drop receiver held up the bus", op.A, time.Duration(rt.Mono()-t0))
		}
	})
	x.Join()
	rt.Sleep(60e9)
	ref := w.rcvs[0]
	if len(ref.got) != n {
		x.Fail("blocked", "the Block receiver beside the Drop receivers got %d of %d events", len(ref.got), n)
		return
	}
	call := map[int]int{}
	for _, s := range w.sent {
		call[s.id] = s.call
	}
	for _, c := range w.rcvs[1:] {
		w.order(c)
		if c.slow < 0 {
			// never drained: exactly the first events are kept
			var d []int
			for _, v := range c.r.Drain() {
				d = append(d, v.(int))
			}
			k := c.cap
			if k > n {
				k = n
			}
			if fmt.Sprint(d) != fmt.Sprint(ids(ref.got[:k])) {
				x.Fail("drop", "Drop receiver %s (capacity %d) was never drained and kept %v of %v", c.name, c.cap, d, ids(ref.got))
				return
			}
			continue
		}
		j := 0
		for i, g := range ref.got {
			if j < len(c.got) && c.got[j].id == g.id {
				j++
				continue
			}
			// dropped: j events had been delivered before, so many of them consumed for sure
			x.Probe("event_dropped")
			recvd := 0
			for _, h := range c.got[:j] {
				if h.seq < call[g.id] {
					recvd++
				}
			}
			if c.cap > 0 && j-recvd < c.cap {
				x.Fail("drop", "Drop receiver %s (capacity %d) missed event %d (#%d) although at most %d events can have been waiting in it: got %v of %v",
					c.name, c.cap, g.id, i, j-recvd, ids(c.got), ids(ref.got))
				return
			}
		}
		if j != len(c.got) {
			x.Fail("order", "Drop receiver %s got %v, not a subsequence of %v", c.name, ids(c.got), ids(ref.got))
			return
		}
	}
}

// ---- C08: lifecycle ---------------------------------------------------------------

func genLife(r *hk.Rng) *hk.Plan {
	p := &hk.Plan{Cfg: map[string]int64{"busbuf": caps(r), "init": int64(r.R(0, 3)), "closers": int64(r.N(4)), "names": int64(r.R(1, 4)), "together": int64(r.N(2))}}
	for t, n := 0, r.R(1, 4); t < n; t++ {
		var ops []hk.Op
		for i, k := 0, r.R(1, 7); i < k; i++ {
			switch r.N(7) {
			case 0, 1:
				ops = append(ops, hk.Op{K: "send", A: int64(t*100 + i)})
			case 2:
				ops = append(ops, hk.Op{K: "sleep", A: r.Pick(1, 10)})
			case 3:
				ops = append(ops, hk.Op{K: "join", A: caps(r), B: int64(r.N(2)), C: r.Pick(-1, -1, 0, 1, 3)})
			default:
				ops = append(ops, hk.Op{K: "close", A: int64(r.N(6))})
			}
		}
		p.Ops = append(p.Ops, ops)
	}
	p.Sim = hk.GenSim(r, 400, r.P(1, 4), 1000)
	return p
}

func runLife(p *hk.Plan, x *hk.X) {
	w := &world{x: x, bus: event.NewFanOutBus(p.I("busbuf"))}
	cons := 0
	add := func(cap int, st event.FullStrategy, stop int) {
		name := fmt.Sprint("N", len(w.rcvs)%p.I("names"))
		c := w.join(name, cap, st)
		c.stopAfter = stop
		for _, o := range w.rcvs {
			if o != c && o.name == name {
				// the later registration of a name may replace this one; which of two
				// concurrent ones stays is open
				o.orphaned = true
				if o.joinSeq > c.joinCall {
					c.orphaned = true
				}
			}
		}
		cons++
		rt.Spawn(name, func() { w.consume(c); cons-- })
	}
	for i := 0; i < p.I("init"); i++ {
		add(i%3, event.FullStrategy(i%2), -1)
	}
	w.bus.GoDispatch()
	nt := len(p.Ops)
	for i := range p.Ops {
		ops := p.Ops[i]
		x.Thread(fmt.Sprint("T", i), func() {
			for _, op := range ops {
				rt.YH()
				switch op.K {
				case "send":
					w.send(int(op.A))
				case "sleep":
					rt.Sleep(op.A)
				case "join":
					st := event.Drop
					if op.B == 1 {
						st = event.Block
					}
					add(int(op.A), st, int(op.C))
				case "close":
					if len(w.rcvs) > 0 {
						c := w.rcvs[int(op.A)%len(w.rcvs)]
						if c.closeCall != 0 {
							x.Probe("closed_again")
						}
						w.close(c)
					}
				}
			}
		})
	}
	if !x.JoinFor(600e9) {
		x.Fail("stuck", "a send, registration or close never returned")
		return
	}
	_ = nt
	rt.Sleep(60e9)
	for _, c := range w.rcvs {
		if c.closeRet != 0 && !c.closed {
			x.Fail("close", "receiver %s was closed but its channel still blocks", c.name)
			return
		}
		if c.closeRet == 0 && c.closed {
			x.Fail("close", "the channel of receiver %s was closed though nobody closed it", c.name)
			return
		}
		w.order(c)
	}
	// the bus goes on for those that are left
	n0 := make([]int, len(w.rcvs))
	closed0 := make([]bool, len(w.rcvs))
	for i, c := range w.rcvs {
		n0[i] = len(c.got)
		closed0[i] = c.closeRet != 0
	}
	w.send(100001)
	rt.Sleep(60e9)
	for i, c := range w.rcvs {
		if closed0[i] {
			if len(c.got) != n0[i] {
				x.Fail("close", "receiver %s got an event after it had been closed", c.name)
				return
			}
			continue
		}
		if c.orphaned {
			continue
		}
		if len(c.got) != n0[i]+1 || c.got[n0[i]].id != 100001 {
			x.Fail("lost", "open receiver %s, waiting for events, did not get the event sent after other receivers had been closed", c.name)
			return
		}
		x.Probe("survivor_served")
	}
	// close the bus, with receivers being closed at the same time
	late := len(w.rcvs)
	if p.C("together") == 1 {
		for k := 0; k < p.I("closers"); k++ {
			k := k
			x.Thread("closer", func() {
				for i := 0; i < late; i++ {
					if (i+k)%2 == 0 {
						w.close(w.rcvs[(i*7+k)%late])
					}
				}
			})
		}
	}
	rt.Rec("busclose", 0, 0, "", nil)
	w.bus.Close()
	rt.Rec("busclose.ret", 0, 0, "", nil)
	if !x.JoinFor(600e9) {
		x.Fail("stuck", "closing a receiver while the bus is closed never returned")
		return
	}
	rt.Sleep(60e9)
	for _, c := range w.rcvs {
		if !c.closed && !c.orphaned {
			x.Fail("close", "the bus is closed but the channel of receiver %s still blocks", c.name)
			return
		}
	}
	// closing what the bus has closed already, and the replaced ones
	for _, c := range w.rcvs {
		w.close(c)
	}
	rt.Sleep(60e9)
	for _, c := range w.rcvs {
		if !c.closed {
			x.Fail("close", "receiver %s was closed but its channel still blocks", c.name)
			return
		}
	}
	if n := rt.NumForeign(); n != 0 {
		x.Fail("leak", "%d goroutines are left after the bus was closed: %v", n, rt.ForeignStacks())
	}
}

// ---- C09: Drain and CollectTimeout ------------------------------------------------

func genCollect(r *hk.Rng) *hk.Plan {
	p := &hk.Plan{Cfg: map[string]int64{"busbuf": caps(r), "cap": r.Pick(0, 0, 1, 2, 3, 10, 100), "block": r.Pick(1, 1, 1, 0), "close": int64(r.N(3)), "closeat": r.Pick(0, 1, 10, 100, 1000)}}
	var s []hk.Op
	for i, k := 0, r.R(0, 10); i < k; i++ {
		if r.P(1, 3) {
			s = append(s, hk.Op{K: "sleep", A: r.Pick(0, 1, 10, 100)})
		}
		s = append(s, hk.Op{K: "send", A: int64(i)})
	}
	p.Ops = append(p.Ops, s)
	for t, n := 0, r.R(1, 2); t < n; t++ {
		var ops []hk.Op
		for i, k := 0, r.R(1, 6); i < k; i++ {
			switch r.N(4) {
			case 0:
				ops = append(ops, hk.Op{K: "drain"})
			case 1:
				ops = append(ops, hk.Op{K: "sleep", A: r.Pick(1, 10, 100)})
			default:
				ops = append(ops, hk.Op{K: "collect", A: r.Pick(0, 1, 2, 10, 11, 100, 1000)})
			}
		}
		p.Ops = append(p.Ops, ops)
	}
	p.Sim = hk.GenSim(r, 300, false, 0)
	return p
}

func runCollect(p *hk.Plan, x *hk.X) {
	w := &world{x: x, bus: event.NewFanOutBus(p.I("busbuf"))}
	st := event.Drop
	if p.C("block") == 1 {
		st = event.Block
	}
	c := w.join("C", p.I("cap"), st)
	w.bus.GoDispatch()
	closed := false // Close has been called
	closedAt := int64(-1)
	mode := p.C("close")
	if mode > 0 {
		x.Thread("closer", func() {
			rt.Sleep(p.C("closeat"))
			closed = true
			closedAt = rt.Mono()
			w.close(c)
		})
	}
	collectors := 0
	x.RunOps(func(t int, op hk.Op) {
		switch op.K {
		case "sleep":
			rt.Sleep(op.A)
		case "send":
			w.send(int(op.A))
		case "drain", "collect":
			collectors++
			t0 := rt.Mono()
			c0 := c.closeRet != 0
			rt.Rec(op.K, op.A, 0, "", nil)
			var d []interface{}
			if op.K == "drain" {
				d = c.r.Drain()
			} else {
				d = c.r.CollectTimeout(time.Duration(op.A))
			}
			rt.Rec(op.K+".ret", op.A, int64(len(d)), fmt.Sprint(d), nil)
			el := rt.Mono() - t0
			if d == nil {
				x.Probe("nil_result")
			}
			for _, v := range d {
				id, ok := v.(int)
				if !ok {
					x.Fail("content", "%s yielded %v, which nobody sent", op.K, v)
					return
				}
				c.got = append(c.got, got{id, rt.Seq(), rt.Mono()})
			}
			if op.K == "drain" {
				if el != 0 {
					x.Fail("blocked", "Drain took %v", time.Duration(el))
				}
				return
			}
			if el > op.A {
				x.Fail("late", "CollectTimeout(%v) returned after %v", time.Duration(op.A), time.Duration(el))
			} else if el < op.A {
				// only a closed receiver ends the collection early, and then at once
				if !closed {
					x.Fail("early", "CollectTimeout(%v) returned after %v though the receiver is open", time.Duration(op.A), time.Duration(el))
				} else if c0 && el != 0 {
					x.Fail("late", "CollectTimeout(%v) on a closed receiver took %v", time.Duration(op.A), time.Duration(el))
				} else if !c0 && rt.Mono() != closedAt {
					x.Fail("early", "CollectTimeout(%v) returned %v after the receiver had been closed", time.Duration(op.A), time.Duration(rt.Mono()-closedAt))
				}
				x.Probe("collect_ended_by_close")
			} else if closedAt >= 0 && t0 < closedAt && rt.Mono() > closedAt {
				x.Fail("late", "CollectTimeout(%v) went on for %v after the receiver had been closed", time.Duration(op.A), time.Duration(rt.Mono()-closedAt))
			} else if c0 && op.A > 0 {
				x.Fail("late", "CollectTimeout(%v) on a closed receiver took %v", time.Duration(op.A), time.Duration(el))
			}
		}
	})
	if !x.JoinFor(10e9) {
		// an undrained Block receiver legitimately blocks the sender
		if st == event.Block && !closed {
			x.Probe("sender_blocked")
		} else {
			x.Fail("stuck", "a call never returned")
			return
		}
	}
	// the rest
	for i := 0; i < 3; i++ {
		for k := 0; k < 200; k++ {
			d := c.r.Drain()
			for _, v := range d {
				id, ok := v.(int)
				if !ok {
					x.Fail("content", "Drain yielded %v, which nobody sent", v)
					return
				}
				c.got = append(c.got, got{id, rt.Seq(), rt.Mono()})
			}
			rt.Sleep(1e6)
		}
	}
	// nothing lost, nothing twice
	seen := map[int]int{}
	for _, g := range c.got {
		seen[g.id]++
		if seen[g.id] > 1 {
			x.Fail("duplicate", "event %d was collected twice", g.id)
			return
		}
	}
	if len(p.Ops) == 2 {
		w.order(c)
	}
	if st == event.Block && !closed {
		for _, s := range w.sent {
			if s.ret != 0 && seen[s.id] != 1 {
				x.Fail("lost", "event %d was delivered but neither Drain nor CollectTimeout returned it: %v", s.id, ids(c.got))
				return
			}
		}
	}
}

// quiescent: Drain returns exactly what is buffered; CollectTimeout what arrives in time
func genDrainQ(r *hk.Rng) *hk.Plan {
	p := &hk.Plan{Cfg: map[string]int64{"busbuf": caps(r), "cap": r.Pick(20, 50, 100), "block": int64(r.N(2)), "closeend": int64(r.N(2))}}
	var ops []hk.Op
	for i, n := 0, r.R(2, 8); i < n; i++ {
		switch r.N(4) {
		case 0, 1:
			ops = append(ops, hk.Op{K: "send", A: int64(r.N(6))})
		case 2:
			ops = append(ops, hk.Op{K: "drain"})
		case 3:
			// B more events, C apart, arrive meanwhile
			ops = append(ops, hk.Op{K: "collect", A: r.Pick(0, 1, 5, 10, 1000), B: int64(r.N(5)), C: r.Pick(1, 2, 5, 10)})
		}
	}
	if r.P(1, 60) {
		p.Cfg["cap"] = r.Pick(130, 300, 600)
		for i := range ops {
			if ops[i].K == "send" {
				ops[i].A = r.Pick(33, 65, 129, p.C("cap"))
			} else if ops[i].K == "collect" {
				ops[i].B = r.Pick(0, 20, 70, 130)
			}
		}
	}
	if r.P(1, 2) {
		// the receiver is closed during the last collection
		ops = append(ops, hk.Op{K: "collectclose", A: r.Pick(10, 11, 50, 1000, 3600e9), B: int64(r.N(5)), C: r.Pick(1, 2)})
		p.Cfg["closeend"] = 0
	}
	p.Ops = [][]hk.Op{ops}
	p.Sim = hk.GenSim(r, 200, false, 0)
	return p
}

func runDrainQ(p *hk.Plan, x *hk.X) {
	w := &world{x: x, bus: event.NewFanOutBus(p.I("busbuf"))}
	st := event.Drop
	if p.C("block") == 1 {
		st = event.Block
	}
	c := w.join("C", p.I("cap"), st)
	w.bus.GoDispatch()
	var buf []int
	id := 0
	x.RunOps(func(t int, op hk.Op) {
		switch op.K {
		case "send":
			if c.closeCall != 0 {
				return
			}
			for i := int64(0); i < op.A && len(buf) < c.cap; i++ {
				id++
				w.send(id)
				buf = append(buf, id)
			}
			rt.WaitIdle()
		case "drain":
			d := c.r.Drain()
			if d == nil || len(d)+len(buf) > 0 && fmt.Sprint(d) != fmt.Sprint(buf) {
				x.Fail("drain", "Drain returned %v, %v were waiting", d, buf)
			}
			buf = nil
		case "collectclose":
			if c.closeCall != 0 {
				return
			}
			t0 := rt.Mono()
			want := append([]int(nil), buf...)
			for i := 1; i <= int(op.B); i++ {
				want = append(want, id+i)
			}
			k, at := id, op.B*op.C+1
			rt.Spawn("late", func() {
				for i := int64(1); i <= op.B; i++ {
					rt.SleepUntil(t0 + i*op.C)
					w.send(k + int(i))
				}
				rt.SleepUntil(t0 + at)
				w.close(c)
			})
			id += int(op.B)
			d := c.r.CollectTimeout(time.Duration(op.A))
			el := rt.Mono() - t0
			rt.Sleep(100)
			if len(d)+len(want) > 0 && fmt.Sprint(d) != fmt.Sprint(want) {
				x.Fail("collect", "CollectTimeout returned %v, %v had been delivered when the receiver was closed", d, want)
			} else if at < op.A && el != at {
				x.Fail("late", "CollectTimeout(%v) returned after %v, the receiver had been closed after %v", time.Duration(op.A), time.Duration(el), time.Duration(at))
			}
			buf = nil
		case "collect":
			if c.closeCall != 0 {
				return
			}
			t0 := rt.Mono()
			want := append([]int(nil), buf...)
			var after []int
			k := id
			for i := int64(1); i <= op.B; i++ {
				if i*op.C < op.A {
					want = append(want, k+int(i))
				} else {
					after = append(after, k+int(i))
				}
			}
			tie := op.A > 0 && op.B*op.C >= op.A && op.A%op.C == 0
			id += int(op.B)
			done := make(chan struct{})
			rt.Spawn("late", func() {
				for i := int64(1); i <= op.B; i++ {
					rt.SleepUntil(t0 + i*op.C)
					w.send(k + int(i))
				}
				rt.Close(done)
			})
			d := c.r.CollectTimeout(time.Duration(op.A))
			el := rt.Mono() - t0
			rt.Recv2(done)
			rt.WaitIdle()
			if el != op.A {
				x.Fail("late", "CollectTimeout(%v) returned after %v", time.Duration(op.A), time.Duration(el))
				return
			}
			g := fmt.Sprint(d)
			ok := g == fmt.Sprint(want) || len(d)+len(want) == 0
			buf = after
			if op.A == 0 && len(d) < len(want) {
				// the timer may win against what is waiting
				ok = g == fmt.Sprint(want[:len(d)]) || len(d) == 0
				buf = append(append([]int(nil), want[len(d):]...), after...)
			} else if !ok && tie {
				// an event that arrives at the very instant of the timeout
				w2 := append(append([]int(nil), want...), after[0])
				if g == fmt.Sprint(w2) {
					ok = true
					buf = after[1:]
				}
			}
			if !ok {
				x.Fail("collect", "CollectTimeout(%v) returned %v, expected %v", time.Duration(op.A), d, want)
			}
		}
	})
	x.Join()
	if p.C("closeend") == 1 {
		w.close(c)
		d := c.r.Drain()
		if len(d)+len(buf) > 0 && fmt.Sprint(d) != fmt.Sprint(buf) {
			x.Fail("drain", "Drain of a closed receiver returned %v, %v were waiting", d, buf)
		}
		if d := c.r.Drain(); len(d) != 0 {
			x.Fail("drain", "second Drain of a closed receiver returned %v", d)
		}
	}
}

func main() {
	hk.Bystander = bystander
	hk.Main("event", []*hk.Scenario{
		{Prop: "C06", Name: "ev-block", Runs: 100000, Gen: func(r *hk.Rng) *hk.Plan { return genBlock(r, false) }, Run: runBlock, Real: real, Stub: stub},
		{Prop: "C06", Name: "ev-block-big", Runs: 900, Cost: 40, Gen: genBig, Run: runBlock, Real: real, Stub: stub},
		{Prop: "C06", Name: "ev-block-dyn", Runs: 100000, Gen: func(r *hk.Rng) *hk.Plan { return genBlock(r, true) }, Run: runBlock, Real: real, Stub: stub},
		{Prop: "C07", Name: "ev-drop", Runs: 80000, Gen: genDrop, Run: runDrop, Real: real, Stub: stub},
		{Prop: "C07", Name: "ev-drop-wait", Runs: 40000, Gen: genDropWait, Run: runDropWait, Real: real, Stub: stub},
		{Prop: "C07", Name: "ev-drop-conc", Runs: 80000, Gen: genDropConc, Run: runDropConc, Real: real, Stub: stub},
		{Prop: "C08", Name: "ev-life", Runs: 150000, Gen: genLife, Run: runLife, Real: real, Stub: stub},
		{Prop: "C09", Name: "ev-collect", Runs: 100000, Gen: genCollect, Run: runCollect, Real: real, Stub: stub},
		{Prop: "C09", Name: "ev-drain", Runs: 80000, Gen: genDrainQ, Run: runDrainQ, Real: real, Stub: stub},
	})
}
