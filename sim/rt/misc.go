//go:build go1.21

package rt

import (
	"fmt"
	"sort"
	"time"
	"unsafe"

	"github.com/chanjarster/gears/zzsim/ra"
)

type timeTime = time.Time

// MapKeys returns the keys of m in a deterministic but decided order: Go's map
// iteration order is one more nondeterminism the simulator owns.
//
//go:norace
func MapKeys[K comparable, V any](site int, m map[K]V) []K {
	if len(m) == 0 {
		return nil
	}
	ks := make([]K, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	if len(ks) == 1 {
		return ks
	}
	names := make([]string, len(ks))
	for i, k := range ks {
		names[i] = keyName(any(k))
	}
	sort.Sort(&keySorter[K]{ks, names})
	for i := 0; i < len(ks)-1; i++ {
		if j := permChoice(len(ks) - i); j > 0 {
			ks[i], ks[i+j] = ks[i+j], ks[i]
		}
	}
	return ks
}

//go:norace
func permChoice(n int) int {
	c := Choose(n)
	if c > 0 {
		s.mperms++
	}
	return c
}

//go:norace
func keyName(k any) string {
	if v, ok := k.(string); ok {
		return v
	}
	return fmt.Sprintf("%T:%020v", k, k)
}

type keySorter[K any] struct {
	ks []K
	ns []string
}

//go:norace
func (s *keySorter[K]) Len() int { return len(s.ks) }

//go:norace
func (s *keySorter[K]) Less(i, j int) bool { return s.ns[i] < s.ns[j] }

//go:norace
func (s *keySorter[K]) Swap(i, j int) {
	s.ks[i], s.ks[j] = s.ks[j], s.ks[i]
	s.ns[i], s.ns[j] = s.ns[j], s.ns[i]
}

// ---- atomics: a scheduling point, then the real operation --------------------

//go:norace
func atom(p unsafe.Pointer) {
	Y(-50)
	raceAcquire(p)
}

//go:norace
func atomEnd(p unsafe.Pointer) { raceRelMerge(p) }

//go:norace
func LoadInt32(p *int32) int32 {
	Y(-50)
	return ra.LoadInt32(p)
}

//go:norace
func StoreInt32(p *int32, v int32) {
	Y(-50)
	ra.StoreInt32(p, v)
}

//go:norace
func AddInt32(p *int32, d int32) int32 {
	Y(-50)
	return ra.AddInt32(p, d)
}

//go:norace
func SwapInt32(p *int32, v int32) int32 {
	Y(-50)
	return ra.SwapInt32(p, v)
}

//go:norace
func CompareAndSwapInt32(p *int32, o, n int32) bool {
	Y(-50)
	return ra.CompareAndSwapInt32(p, o, n)
}

//go:norace
func LoadInt64(p *int64) int64 {
	Y(-50)
	return ra.LoadInt64(p)
}

//go:norace
func StoreInt64(p *int64, v int64) {
	Y(-50)
	ra.StoreInt64(p, v)
}

//go:norace
func AddInt64(p *int64, d int64) int64 {
	Y(-50)
	return ra.AddInt64(p, d)
}

//go:norace
func SwapInt64(p *int64, v int64) int64 {
	Y(-50)
	return ra.SwapInt64(p, v)
}

//go:norace
func CompareAndSwapInt64(p *int64, o, n int64) bool {
	Y(-50)
	return ra.CompareAndSwapInt64(p, o, n)
}

//go:norace
func LoadUint32(p *uint32) uint32 {
	Y(-50)
	return ra.LoadUint32(p)
}

//go:norace
func StoreUint32(p *uint32, v uint32) {
	Y(-50)
	ra.StoreUint32(p, v)
}

//go:norace
func AddUint32(p *uint32, d uint32) uint32 {
	Y(-50)
	return ra.AddUint32(p, d)
}

//go:norace
func SwapUint32(p *uint32, v uint32) uint32 {
	Y(-50)
	return ra.SwapUint32(p, v)
}

//go:norace
func CompareAndSwapUint32(p *uint32, o, n uint32) bool {
	Y(-50)
	return ra.CompareAndSwapUint32(p, o, n)
}

//go:norace
func LoadUint64(p *uint64) uint64 {
	Y(-50)
	return ra.LoadUint64(p)
}

//go:norace
func StoreUint64(p *uint64, v uint64) {
	Y(-50)
	ra.StoreUint64(p, v)
}

//go:norace
func AddUint64(p *uint64, d uint64) uint64 {
	Y(-50)
	return ra.AddUint64(p, d)
}

//go:norace
func SwapUint64(p *uint64, v uint64) uint64 {
	Y(-50)
	return ra.SwapUint64(p, v)
}

//go:norace
func CompareAndSwapUint64(p *uint64, o, n uint64) bool {
	Y(-50)
	return ra.CompareAndSwapUint64(p, o, n)
}

//go:norace
func LoadPointer(p *unsafe.Pointer) unsafe.Pointer {
	Y(-50)
	return ra.LoadPointer(p)
}

//go:norace
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) {
	Y(-50)
	ra.StorePointer(p, v)
}

//go:norace
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	Y(-50)
	return ra.SwapPointer(p, v)
}

//go:norace
func CompareAndSwapPointer(p *unsafe.Pointer, o, n unsafe.Pointer) bool {
	Y(-50)
	return ra.CompareAndSwapPointer(p, o, n)
}

//go:norace
func LoadUintptr(p *uintptr) uintptr {
	Y(-50)
	return ra.LoadUintptr(p)
}

//go:norace
func StoreUintptr(p *uintptr, v uintptr) {
	Y(-50)
	ra.StoreUintptr(p, v)
}

//go:norace
func AddUintptr(p *uintptr, d uintptr) uintptr {
	Y(-50)
	return ra.AddUintptr(p, d)
}

//go:norace
func SwapUintptr(p *uintptr, v uintptr) uintptr {
	Y(-50)
	return ra.SwapUintptr(p, v)
}

//go:norace
func CompareAndSwapUintptr(p *uintptr, o, n uintptr) bool {
	Y(-50)
	return ra.CompareAndSwapUintptr(p, o, n)
}

//go:norace
func AndInt32(p *int32, m int32) int32 {
	Y(-50)
	o := ra.LoadInt32(p)
	ra.CompareAndSwapInt32(p, o, o&m)
	return o
}

//go:norace
func OrInt32(p *int32, m int32) int32 {
	Y(-50)
	o := ra.LoadInt32(p)
	ra.CompareAndSwapInt32(p, o, o|m)
	return o
}

//go:norace
func AndInt64(p *int64, m int64) int64 {
	Y(-50)
	o := ra.LoadInt64(p)
	ra.CompareAndSwapInt64(p, o, o&m)
	return o
}

//go:norace
func OrInt64(p *int64, m int64) int64 {
	Y(-50)
	o := ra.LoadInt64(p)
	ra.CompareAndSwapInt64(p, o, o|m)
	return o
}

//go:norace
func AndUint32(p *uint32, m uint32) uint32 {
	Y(-50)
	o := ra.LoadUint32(p)
	ra.CompareAndSwapUint32(p, o, o&m)
	return o
}

//go:norace
func OrUint32(p *uint32, m uint32) uint32 {
	Y(-50)
	o := ra.LoadUint32(p)
	ra.CompareAndSwapUint32(p, o, o|m)
	return o
}

//go:norace
func AndUint64(p *uint64, m uint64) uint64 {
	Y(-50)
	o := ra.LoadUint64(p)
	ra.CompareAndSwapUint64(p, o, o&m)
	return o
}

//go:norace
func OrUint64(p *uint64, m uint64) uint64 {
	Y(-50)
	o := ra.LoadUint64(p)
	ra.CompareAndSwapUint64(p, o, o|m)
	return o
}

//go:norace
func AndUintptr(p *uintptr, m uintptr) uintptr {
	Y(-50)
	o := ra.LoadUintptr(p)
	ra.CompareAndSwapUintptr(p, o, o&m)
	return o
}

//go:norace
func OrUintptr(p *uintptr, m uintptr) uintptr {
	Y(-50)
	o := ra.LoadUintptr(p)
	ra.CompareAndSwapUintptr(p, o, o|m)
	return o
}

type AInt32 struct{ v int32 }

//go:norace
func (x *AInt32) Load() int32 { return LoadInt32(&x.v) }

//go:norace
func (x *AInt32) Store(v int32) { StoreInt32(&x.v, v) }

//go:norace
func (x *AInt32) Add(d int32) int32 { return AddInt32(&x.v, d) }

//go:norace
func (x *AInt32) Swap(v int32) int32 { return SwapInt32(&x.v, v) }

//go:norace
func (x *AInt32) CompareAndSwap(o, n int32) bool { return CompareAndSwapInt32(&x.v, o, n) }

type AInt64 struct{ v int64 }

//go:norace
func (x *AInt64) Load() int64 { return LoadInt64(&x.v) }

//go:norace
func (x *AInt64) Store(v int64) { StoreInt64(&x.v, v) }

//go:norace
func (x *AInt64) Add(d int64) int64 { return AddInt64(&x.v, d) }

//go:norace
func (x *AInt64) Swap(v int64) int64 { return SwapInt64(&x.v, v) }

//go:norace
func (x *AInt64) CompareAndSwap(o, n int64) bool { return CompareAndSwapInt64(&x.v, o, n) }

type AUint32 struct{ v uint32 }

//go:norace
func (x *AUint32) Load() uint32 { return LoadUint32(&x.v) }

//go:norace
func (x *AUint32) Store(v uint32) { StoreUint32(&x.v, v) }

//go:norace
func (x *AUint32) Add(d uint32) uint32 { return AddUint32(&x.v, d) }

//go:norace
func (x *AUint32) Swap(v uint32) uint32 { return SwapUint32(&x.v, v) }

//go:norace
func (x *AUint32) CompareAndSwap(o, n uint32) bool { return CompareAndSwapUint32(&x.v, o, n) }

type AUint64 struct{ v uint64 }

//go:norace
func (x *AUint64) Load() uint64 { return LoadUint64(&x.v) }

//go:norace
func (x *AUint64) Store(v uint64) { StoreUint64(&x.v, v) }

//go:norace
func (x *AUint64) Add(d uint64) uint64 { return AddUint64(&x.v, d) }

//go:norace
func (x *AUint64) Swap(v uint64) uint64 { return SwapUint64(&x.v, v) }

//go:norace
func (x *AUint64) CompareAndSwap(o, n uint64) bool { return CompareAndSwapUint64(&x.v, o, n) }

type AUintptr struct{ v uintptr }

//go:norace
func (x *AUintptr) Load() uintptr { return LoadUintptr(&x.v) }

//go:norace
func (x *AUintptr) Store(v uintptr) { StoreUintptr(&x.v, v) }

//go:norace
func (x *AUintptr) Add(d uintptr) uintptr { return AddUintptr(&x.v, d) }

//go:norace
func (x *AUintptr) Swap(v uintptr) uintptr { return SwapUintptr(&x.v, v) }

//go:norace
func (x *AUintptr) CompareAndSwap(o, n uintptr) bool { return CompareAndSwapUintptr(&x.v, o, n) }

//go:norace
func (x *AInt32) And(m int32) int32 { return AndInt32(&x.v, m) }

//go:norace
func (x *AInt32) Or(m int32) int32 { return OrInt32(&x.v, m) }

//go:norace
func (x *AInt64) And(m int64) int64 { return AndInt64(&x.v, m) }

//go:norace
func (x *AInt64) Or(m int64) int64 { return OrInt64(&x.v, m) }

//go:norace
func (x *AUint32) And(m uint32) uint32 { return AndUint32(&x.v, m) }

//go:norace
func (x *AUint32) Or(m uint32) uint32 { return OrUint32(&x.v, m) }

//go:norace
func (x *AUint64) And(m uint64) uint64 { return AndUint64(&x.v, m) }

//go:norace
func (x *AUint64) Or(m uint64) uint64 { return OrUint64(&x.v, m) }

//go:norace
func (x *AUintptr) And(m uintptr) uintptr { return AndUintptr(&x.v, m) }

//go:norace
func (x *AUintptr) Or(m uintptr) uintptr { return OrUintptr(&x.v, m) }

type ABool struct{ v uint32 }

//go:norace
func b2u(b bool) uint32 {
	if b {
		return 1
	}
	return 0
}

//go:norace
func (x *ABool) Load() bool { return LoadUint32(&x.v) != 0 }

//go:norace
func (x *ABool) Store(v bool) { StoreUint32(&x.v, b2u(v)) }

//go:norace
func (x *ABool) Swap(v bool) bool { return SwapUint32(&x.v, b2u(v)) != 0 }

//go:norace
func (x *ABool) CompareAndSwap(o, n bool) bool { return CompareAndSwapUint32(&x.v, b2u(o), b2u(n)) }

type APointer[T any] struct{ v unsafe.Pointer }

//go:norace
func (x *APointer[T]) Load() *T { return (*T)(LoadPointer(&x.v)) }

//go:norace
func (x *APointer[T]) Store(v *T) { StorePointer(&x.v, unsafe.Pointer(v)) }

//go:norace
func (x *APointer[T]) Swap(v *T) *T { return (*T)(SwapPointer(&x.v, unsafe.Pointer(v))) }

//go:norace
func (x *APointer[T]) CompareAndSwap(o, n *T) bool {
	return CompareAndSwapPointer(&x.v, unsafe.Pointer(o), unsafe.Pointer(n))
}

// AValue replaces atomic.Value.
type AValue struct{ v any }

//go:norace
func (x *AValue) Load() any {
	atom(unsafe.Pointer(x))
	return x.v
}

//go:norace
func (x *AValue) Store(v any) {
	atom(unsafe.Pointer(x))
	if v == nil {
		panic("sync/atomic: store of nil value into Value")
	}
	x.v = v
	atomEnd(unsafe.Pointer(x))
}

//go:norace
func (x *AValue) Swap(v any) any {
	atom(unsafe.Pointer(x))
	o := x.v
	x.v = v
	atomEnd(unsafe.Pointer(x))
	return o
}

//go:norace
func (x *AValue) CompareAndSwap(o, n any) bool {
	atom(unsafe.Pointer(x))
	defer atomEnd(unsafe.Pointer(x))
	if x.v == o {
		x.v = n
		return true
	}
	return false
}

// ---- runtime / math/rand -----------------------------------------------------

// Gosched replaces runtime.Gosched.
//
//go:norace
func Gosched() {
	if !s.on || s.dead {
		return
	}
	g := s.cur
	if s.rqLen == 0 {
		Y(-60)
		return
	}
	g.state = gRunnable
	g.whySite = -60
	s.rqPush(g)
	s.schedule(g)
}

// NumGoroutine replaces runtime.NumGoroutine.
//
//go:norace
func NumGoroutine() int {
	n := 0
	for h := s.allHead; h != nil; h = h.allNext {
		if h.state != gDone {
			n++
		}
	}
	return n
}

//go:norace
func rnd() uint64 { return s.next2() }

//go:norace
func (st *simState) next2() uint64 {
	st.rrng += 0x9e3779b97f4a7c15
	z := st.rrng
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// math/rand's global functions, driven by a fixed stream of the run.
//
//go:norace
func RandInt() int { return int(rnd() >> 1) }

//go:norace
func RandIntn(n int) int { return int((rnd() >> 1) % uint64(n)) }

//go:norace
func RandInt31() int32 { return int32(rnd() >> 33) }

//go:norace
func RandInt31n(n int32) int32 { return int32((rnd() >> 1) % uint64(n)) }

//go:norace
func RandInt63() int64 { return int64(rnd() >> 1) }

//go:norace
func RandInt63n(n int64) int64 { return int64((rnd() >> 1) % uint64(n)) }

//go:norace
func RandUint32() uint32 { return uint32(rnd() >> 32) }

//go:norace
func RandUint64() uint64 { return rnd() }

//go:norace
func RandFloat64() float64 { return float64(rnd()>>11) / (1 << 53) }

//go:norace
func RandFloat32() float32 { return float32(rnd()>>40) / (1 << 24) }

//go:norace
func RandSeed(int64) {}

//go:norace
func RandPerm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	RandShuffle(n, func(i, j int) { p[i], p[j] = p[j], p[i] })
	return p
}

//go:norace
func RandShuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, RandIntn(i+1))
	}
}

// MapIt walks a map in a decided order; entries removed meanwhile are skipped.
type MapIt[K comparable, V any] struct {
	m  map[K]V
	ks []K
	i  int
}

// MapIter starts a walk.
//
//go:norace
func MapIter[K comparable, V any](site int, m map[K]V) *MapIt[K, V] {
	return &MapIt[K, V]{m: m, ks: MapKeys(site, m)}
}

// MapIter1 also declares the key variable, MapIter2 key and value, MapIterV the value.
//
//go:norace
func MapIter1[K comparable, V any](site int, m map[K]V) (it *MapIt[K, V], k K) {
	return MapIter(site, m), k
}

//go:norace
func MapIterV[K comparable, V any](site int, m map[K]V) (it *MapIt[K, V], v V) {
	return MapIter(site, m), v
}

//go:norace
func MapIter2[K comparable, V any](site int, m map[K]V) (it *MapIt[K, V], k K, v V) {
	return MapIter(site, m), k, v
}

// Next advances and stores key and value through the non-nil pointers.
//
//go:norace
func (it *MapIt[K, V]) Next(kp *K, vp *V) bool {
	for it.i < len(it.ks) {
		k := it.ks[it.i]
		it.i++
		v, ok := it.m[k]
		if !ok {
			continue
		}
		if kp != nil {
			*kp = k
		}
		if vp != nil {
			*vp = v
		}
		return true
	}
	return false
}

// ChanIt walks a channel until it is closed.
type ChanIt[T any] struct{ ch <-chan T }

// ChanIter starts; ChanIter1 also declares the variable.
//
//go:norace
func ChanIter[T any](ch <-chan T) *ChanIt[T] { return &ChanIt[T]{ch} }

//go:norace
func ChanIter1[T any](ch <-chan T) (it *ChanIt[T], v T) {
	return &ChanIt[T]{ch}, v
}

// Next receives.
//
//go:norace
func (it *ChanIt[T]) Next(vp *T) bool {
	v, ok := Recv2(it.ch)
	if ok && vp != nil {
		*vp = v
	}
	return ok
}
