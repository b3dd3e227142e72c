//go:build go1.22

package verifsched

import (
	"sync/atomic"
	"unsafe"
)

// The types and functions below stand in for package sync/atomic: every
// operation is a scheduling point followed by the real operation.

type AtomicInt32 struct{ v atomic.Int32 }

func (a *AtomicInt32) Load() int32                    { Yield(); return a.v.Load() }
func (a *AtomicInt32) Store(x int32)                  { Yield(); a.v.Store(x) }
func (a *AtomicInt32) Add(x int32) int32              { Yield(); return a.v.Add(x) }
func (a *AtomicInt32) And(x int32) int32              { Yield(); return a.v.And(x) }
func (a *AtomicInt32) Or(x int32) int32               { Yield(); return a.v.Or(x) }
func (a *AtomicInt32) Swap(x int32) int32             { Yield(); return a.v.Swap(x) }
func (a *AtomicInt32) CompareAndSwap(o, n int32) bool { Yield(); return a.v.CompareAndSwap(o, n) }

func AtomicLoadInt32(p *int32) int32          { Yield(); return atomic.LoadInt32(p) }
func AtomicStoreInt32(p *int32, x int32)      { Yield(); atomic.StoreInt32(p, x) }
func AtomicAddInt32(p *int32, x int32) int32  { Yield(); return atomic.AddInt32(p, x) }
func AtomicSwapInt32(p *int32, x int32) int32 { Yield(); return atomic.SwapInt32(p, x) }
func AtomicCompareAndSwapInt32(p *int32, o, n int32) bool {
	Yield()
	return atomic.CompareAndSwapInt32(p, o, n)
}

type AtomicInt64 struct{ v atomic.Int64 }

func (a *AtomicInt64) Load() int64                    { Yield(); return a.v.Load() }
func (a *AtomicInt64) Store(x int64)                  { Yield(); a.v.Store(x) }
func (a *AtomicInt64) Add(x int64) int64              { Yield(); return a.v.Add(x) }
func (a *AtomicInt64) And(x int64) int64              { Yield(); return a.v.And(x) }
func (a *AtomicInt64) Or(x int64) int64               { Yield(); return a.v.Or(x) }
func (a *AtomicInt64) Swap(x int64) int64             { Yield(); return a.v.Swap(x) }
func (a *AtomicInt64) CompareAndSwap(o, n int64) bool { Yield(); return a.v.CompareAndSwap(o, n) }

func AtomicLoadInt64(p *int64) int64          { Yield(); return atomic.LoadInt64(p) }
func AtomicStoreInt64(p *int64, x int64)      { Yield(); atomic.StoreInt64(p, x) }
func AtomicAddInt64(p *int64, x int64) int64  { Yield(); return atomic.AddInt64(p, x) }
func AtomicSwapInt64(p *int64, x int64) int64 { Yield(); return atomic.SwapInt64(p, x) }
func AtomicCompareAndSwapInt64(p *int64, o, n int64) bool {
	Yield()
	return atomic.CompareAndSwapInt64(p, o, n)
}

type AtomicUint32 struct{ v atomic.Uint32 }

func (a *AtomicUint32) Load() uint32                    { Yield(); return a.v.Load() }
func (a *AtomicUint32) Store(x uint32)                  { Yield(); a.v.Store(x) }
func (a *AtomicUint32) Add(x uint32) uint32             { Yield(); return a.v.Add(x) }
func (a *AtomicUint32) And(x uint32) uint32             { Yield(); return a.v.And(x) }
func (a *AtomicUint32) Or(x uint32) uint32              { Yield(); return a.v.Or(x) }
func (a *AtomicUint32) Swap(x uint32) uint32            { Yield(); return a.v.Swap(x) }
func (a *AtomicUint32) CompareAndSwap(o, n uint32) bool { Yield(); return a.v.CompareAndSwap(o, n) }

func AtomicLoadUint32(p *uint32) uint32           { Yield(); return atomic.LoadUint32(p) }
func AtomicStoreUint32(p *uint32, x uint32)       { Yield(); atomic.StoreUint32(p, x) }
func AtomicAddUint32(p *uint32, x uint32) uint32  { Yield(); return atomic.AddUint32(p, x) }
func AtomicSwapUint32(p *uint32, x uint32) uint32 { Yield(); return atomic.SwapUint32(p, x) }
func AtomicCompareAndSwapUint32(p *uint32, o, n uint32) bool {
	Yield()
	return atomic.CompareAndSwapUint32(p, o, n)
}

type AtomicUint64 struct{ v atomic.Uint64 }

func (a *AtomicUint64) Load() uint64                    { Yield(); return a.v.Load() }
func (a *AtomicUint64) Store(x uint64)                  { Yield(); a.v.Store(x) }
func (a *AtomicUint64) Add(x uint64) uint64             { Yield(); return a.v.Add(x) }
func (a *AtomicUint64) And(x uint64) uint64             { Yield(); return a.v.And(x) }
func (a *AtomicUint64) Or(x uint64) uint64              { Yield(); return a.v.Or(x) }
func (a *AtomicUint64) Swap(x uint64) uint64            { Yield(); return a.v.Swap(x) }
func (a *AtomicUint64) CompareAndSwap(o, n uint64) bool { Yield(); return a.v.CompareAndSwap(o, n) }

func AtomicLoadUint64(p *uint64) uint64           { Yield(); return atomic.LoadUint64(p) }
func AtomicStoreUint64(p *uint64, x uint64)       { Yield(); atomic.StoreUint64(p, x) }
func AtomicAddUint64(p *uint64, x uint64) uint64  { Yield(); return atomic.AddUint64(p, x) }
func AtomicSwapUint64(p *uint64, x uint64) uint64 { Yield(); return atomic.SwapUint64(p, x) }
func AtomicCompareAndSwapUint64(p *uint64, o, n uint64) bool {
	Yield()
	return atomic.CompareAndSwapUint64(p, o, n)
}

type AtomicUintptr struct{ v atomic.Uintptr }

func (a *AtomicUintptr) Load() uintptr                    { Yield(); return a.v.Load() }
func (a *AtomicUintptr) Store(x uintptr)                  { Yield(); a.v.Store(x) }
func (a *AtomicUintptr) Add(x uintptr) uintptr            { Yield(); return a.v.Add(x) }
func (a *AtomicUintptr) And(x uintptr) uintptr            { Yield(); return a.v.And(x) }
func (a *AtomicUintptr) Or(x uintptr) uintptr             { Yield(); return a.v.Or(x) }
func (a *AtomicUintptr) Swap(x uintptr) uintptr           { Yield(); return a.v.Swap(x) }
func (a *AtomicUintptr) CompareAndSwap(o, n uintptr) bool { Yield(); return a.v.CompareAndSwap(o, n) }

func AtomicLoadUintptr(p *uintptr) uintptr            { Yield(); return atomic.LoadUintptr(p) }
func AtomicStoreUintptr(p *uintptr, x uintptr)        { Yield(); atomic.StoreUintptr(p, x) }
func AtomicAddUintptr(p *uintptr, x uintptr) uintptr  { Yield(); return atomic.AddUintptr(p, x) }
func AtomicSwapUintptr(p *uintptr, x uintptr) uintptr { Yield(); return atomic.SwapUintptr(p, x) }
func AtomicCompareAndSwapUintptr(p *uintptr, o, n uintptr) bool {
	Yield()
	return atomic.CompareAndSwapUintptr(p, o, n)
}

type AtomicBool struct{ v atomic.Bool }

func (a *AtomicBool) Load() bool                    { Yield(); return a.v.Load() }
func (a *AtomicBool) Store(x bool)                  { Yield(); a.v.Store(x) }
func (a *AtomicBool) Swap(x bool) bool              { Yield(); return a.v.Swap(x) }
func (a *AtomicBool) CompareAndSwap(o, n bool) bool { Yield(); return a.v.CompareAndSwap(o, n) }

type AtomicValue struct{ v atomic.Value }

func (a *AtomicValue) Load() any                    { Yield(); return a.v.Load() }
func (a *AtomicValue) Store(x any)                  { Yield(); a.v.Store(x) }
func (a *AtomicValue) Swap(x any) any               { Yield(); return a.v.Swap(x) }
func (a *AtomicValue) CompareAndSwap(o, n any) bool { Yield(); return a.v.CompareAndSwap(o, n) }

type AtomicPointer[T any] struct{ v atomic.Pointer[T] }

func (a *AtomicPointer[T]) Load() *T                    { Yield(); return a.v.Load() }
func (a *AtomicPointer[T]) Store(x *T)                  { Yield(); a.v.Store(x) }
func (a *AtomicPointer[T]) Swap(x *T) *T                { Yield(); return a.v.Swap(x) }
func (a *AtomicPointer[T]) CompareAndSwap(o, n *T) bool { Yield(); return a.v.CompareAndSwap(o, n) }

func AtomicLoadPointer(p *unsafe.Pointer) unsafe.Pointer     { Yield(); return atomic.LoadPointer(p) }
func AtomicStorePointer(p *unsafe.Pointer, x unsafe.Pointer) { Yield(); atomic.StorePointer(p, x) }
func AtomicSwapPointer(p *unsafe.Pointer, x unsafe.Pointer) unsafe.Pointer {
	Yield()
	return atomic.SwapPointer(p, x)
}
func AtomicCompareAndSwapPointer(p *unsafe.Pointer, o, n unsafe.Pointer) bool {
	Yield()
	return atomic.CompareAndSwapPointer(p, o, n)
}
