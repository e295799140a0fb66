//go:build go1.21

package hk

// LinOp is one operation of a concurrent history.
type LinOp struct {
	Call, Ret   int   // global event sequence numbers
	CallT, RetT int64 // simulated time of call and return
	In          Op
	Out         interface{}
	Pending     bool // never returned: may or may not have taken effect
	Thread      int
}

// LinModel is a (possibly nondeterministic) sequential specification.
type LinModel struct {
	Init interface{}
	// Step returns the states reachable if op takes effect now; none if op's
	// output is impossible.
	Step func(st interface{}, op *LinOp) []interface{}
	// Key identifies a state.
	Key func(st interface{}) string
}

// LinResult: 1 linearizable, 0 not, -1 budget exhausted.
func CheckLin(ops []*LinOp, m LinModel, budget int) int {
	n := len(ops)
	if n > 63 {
		return -1
	}
	var req uint64
	for i, o := range ops {
		if !o.Pending {
			req |= 1 << uint(i)
		}
	}
	type key struct {
		mask uint64
		k    string
	}
	seen := map[key]bool{}
	nodes := 0
	var dfs func(mask uint64, st interface{}) int
	dfs = func(mask uint64, st interface{}) int {
		if mask&req == req {
			return 1
		}
		k := key{mask, m.Key(st)}
		if seen[k] {
			return 0
		}
		seen[k] = true
		nodes++
		if nodes > budget {
			return -1
		}
		// earliest return among the remaining
		minRet := int(^uint(0) >> 1)
		for i, o := range ops {
			if mask&(1<<uint(i)) == 0 && !o.Pending && o.Ret < minRet {
				minRet = o.Ret
			}
		}
		for i, o := range ops {
			b := uint64(1) << uint(i)
			if mask&b != 0 || o.Call > minRet {
				continue
			}
			for _, ns := range m.Step(st, o) {
				if r := dfs(mask|b, ns); r != 0 {
					return r
				}
			}
		}
		return 0
	}
	return dfs(0, m.Init)
}
