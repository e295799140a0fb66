//go:build go1.21

// Package ra performs the atomic operations of the code under test. It is the one simulator
// package compiled WITH race instrumentation in race builds, so that the detector sees each
// of them as the atomic access it is (acquire on loads, release on stores, and a race against
// plain accesses of the same word); nothing here may be inlined into the simulator.
package ra

import (
	"sync/atomic"
	"unsafe"
)

//go:noinline
func LoadInt32(p *int32) int32 { return atomic.LoadInt32(p) }

//go:noinline
func StoreInt32(p *int32, v int32) { atomic.StoreInt32(p, v) }

//go:noinline
func AddInt32(p *int32, d int32) int32 { return atomic.AddInt32(p, d) }

//go:noinline
func SwapInt32(p *int32, v int32) int32 { return atomic.SwapInt32(p, v) }

//go:noinline
func CompareAndSwapInt32(p *int32, o, n int32) bool { return atomic.CompareAndSwapInt32(p, o, n) }

//go:noinline
func LoadInt64(p *int64) int64 { return atomic.LoadInt64(p) }

//go:noinline
func StoreInt64(p *int64, v int64) { atomic.StoreInt64(p, v) }

//go:noinline
func AddInt64(p *int64, d int64) int64 { return atomic.AddInt64(p, d) }

//go:noinline
func SwapInt64(p *int64, v int64) int64 { return atomic.SwapInt64(p, v) }

//go:noinline
func CompareAndSwapInt64(p *int64, o, n int64) bool { return atomic.CompareAndSwapInt64(p, o, n) }

//go:noinline
func LoadUint32(p *uint32) uint32 { return atomic.LoadUint32(p) }

//go:noinline
func StoreUint32(p *uint32, v uint32) { atomic.StoreUint32(p, v) }

//go:noinline
func AddUint32(p *uint32, d uint32) uint32 { return atomic.AddUint32(p, d) }

//go:noinline
func SwapUint32(p *uint32, v uint32) uint32 { return atomic.SwapUint32(p, v) }

//go:noinline
func CompareAndSwapUint32(p *uint32, o, n uint32) bool { return atomic.CompareAndSwapUint32(p, o, n) }

//go:noinline
func LoadUint64(p *uint64) uint64 { return atomic.LoadUint64(p) }

//go:noinline
func StoreUint64(p *uint64, v uint64) { atomic.StoreUint64(p, v) }

//go:noinline
func AddUint64(p *uint64, d uint64) uint64 { return atomic.AddUint64(p, d) }

//go:noinline
func SwapUint64(p *uint64, v uint64) uint64 { return atomic.SwapUint64(p, v) }

//go:noinline
func CompareAndSwapUint64(p *uint64, o, n uint64) bool { return atomic.CompareAndSwapUint64(p, o, n) }

//go:noinline
func LoadPointer(p *unsafe.Pointer) unsafe.Pointer { return atomic.LoadPointer(p) }

//go:noinline
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) { atomic.StorePointer(p, v) }

//go:noinline
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer { return atomic.SwapPointer(p, v) }

//go:noinline
func CompareAndSwapPointer(p *unsafe.Pointer, o, n unsafe.Pointer) bool {
	return atomic.CompareAndSwapPointer(p, o, n)
}

//go:noinline
func LoadUintptr(p *uintptr) uintptr { return atomic.LoadUintptr(p) }

//go:noinline
func StoreUintptr(p *uintptr, v uintptr) { atomic.StoreUintptr(p, v) }

//go:noinline
func AddUintptr(p *uintptr, d uintptr) uintptr { return atomic.AddUintptr(p, d) }

//go:noinline
func SwapUintptr(p *uintptr, v uintptr) uintptr { return atomic.SwapUintptr(p, v) }

//go:noinline
func CompareAndSwapUintptr(p *uintptr, o, n uintptr) bool {
	return atomic.CompareAndSwapUintptr(p, o, n)
}
