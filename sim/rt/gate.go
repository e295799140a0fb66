//go:build go1.21

package rt

// Gate is a wait queue of simulated devices: Wait may be left early.
type Gate struct {
	q     wq
	epoch uint32
}

// Wait blocks until woken or until d nanoseconds have passed (d<0: no limit).
//
//go:norace
func (g *Gate) Wait(d int64) {
	if !s.on || s.dead {
		return
	}
	if g.epoch != s.epoch {
		g.epoch = s.epoch
		g.q = wq{}
	}
	me := s.cur
	if d == 0 {
		Y(-80)
		return
	}
	var t *tmr
	n := &wnode{g: me}
	if g.q.tail == nil {
		g.q.head = n
	} else {
		g.q.tail.next = n
	}
	g.q.tail = n
	if d > 0 {
		t = SimTimer(d, func() {
			if n.g != nil {
				n.g = nil
				s.ready(me)
			}
		})
	}
	block("network", -80)
	if t != nil {
		s.tremove(t)
	}
}

// WakeAll wakes every waiter; may be called from timer callbacks.
//
//go:norace
func (g *Gate) WakeAll() {
	if g.epoch != s.epoch {
		return
	}
	for n := g.q.head; n != nil; n = n.next {
		if n.g != nil {
			x := n.g
			n.g = nil
			s.ready(x)
		}
	}
	g.q = wq{}
}
