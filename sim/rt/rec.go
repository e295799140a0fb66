//go:build go1.21

package rt

// Event is one entry of the run's history, stamped with the global sequence
// number and the simulated clock.
type Event struct {
	Seq  int
	Mono int64
	G    int
	Kind string
	A, B int64
	S    string
	V    any
}

var (
	recBuf []Event
	recN   int
)

//go:norace
func recReset() {
	if len(recBuf) == 0 {
		recBuf = make([]Event, 4096)
	}
	recN = 0
}

// Rec appends to the history and returns the event's sequence number.
//
//go:norace
func Rec(kind string, a, b int64, str string, v any) int {
	if s.dead {
		return recN
	}
	if recN == len(recBuf) {
		nb := make([]Event, 2*len(recBuf))
		for i := 0; i < recN; i++ {
			nb[i] = recBuf[i]
		}
		recBuf = nb
	}
	recBuf[recN] = Event{Seq: recN, Mono: s.mono, G: GID(), Kind: kind, A: a, B: b, S: str, V: v}
	h := s.hash
	for i := 0; i < len(kind); i++ {
		h = h*1099511628211 + uint64(kind[i])
	}
	for i := 0; i < len(str); i++ {
		h = h*1099511628211 + uint64(str[i])
	}
	s.hash = mix(h, uint64(a)^uint64(b)<<17^uint64(s.mono))
	recN++
	return recN - 1
}

// History returns the events recorded so far.
//
//go:norace
func History() []Event { return recBuf[:recN] }

// Seq is the current length of the history.
//
//go:norace
func Seq() int { return recN }

// ThreadDone and JoinThreads let the root wait for the harness threads.
//
//go:norace
func ThreadDone() {
	s.threadsDone++
	if s.joiner != nil && s.threadsDone >= s.joinN {
		g := s.joiner
		s.joiner = nil
		s.ready(g)
	}
}

// JoinThreads waits for n ThreadDone calls.
//
//go:norace
func JoinThreads(n int) {
	if s.threadsDone >= n {
		return
	}
	s.joinN = n
	s.joiner = s.cur
	block("join", 0)
}

// JoinThreadsFor waits at most ns; it reports whether all are done.
//
//go:norace
func JoinThreadsFor(n int, ns int64) bool {
	if s.threadsDone >= n {
		return true
	}
	s.joinN = n
	g := s.cur
	s.joiner = g
	t := &tmr{when: satAdd(s.mono, ns), idx: -1}
	t.fire = func() {
		if s.joiner == g {
			s.joiner = nil
			s.ready(g)
		}
	}
	s.tpush(t)
	block("join", 0)
	s.tremove(t)
	return s.threadsDone >= n
}
