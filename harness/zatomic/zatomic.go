// Package zatomic stands in for sync/atomic in the instrumented packages: every
// operation is preceded by a scheduling point.
package zatomic

import (
	"sync/atomic"
	"unsafe"

	"gopkg.in/addrs.v1/zzverif/sched"
)

func LoadInt32(p *int32) int32          { sched.P(); return atomic.LoadInt32(p) }
func StoreInt32(p *int32, v int32)      { sched.P(); atomic.StoreInt32(p, v) }
func SwapInt32(p *int32, v int32) int32 { sched.P(); return atomic.SwapInt32(p, v) }
func CompareAndSwapInt32(p *int32, o, n int32) bool {
	sched.P()
	return atomic.CompareAndSwapInt32(p, o, n)
}
func AddInt32(p *int32, d int32) int32  { sched.P(); return atomic.AddInt32(p, d) }
func AndInt32(p *int32, d int32) int32  { sched.P(); return atomic.AndInt32(p, d) }
func OrInt32(p *int32, d int32) int32   { sched.P(); return atomic.OrInt32(p, d) }
func LoadInt64(p *int64) int64          { sched.P(); return atomic.LoadInt64(p) }
func StoreInt64(p *int64, v int64)      { sched.P(); atomic.StoreInt64(p, v) }
func SwapInt64(p *int64, v int64) int64 { sched.P(); return atomic.SwapInt64(p, v) }
func CompareAndSwapInt64(p *int64, o, n int64) bool {
	sched.P()
	return atomic.CompareAndSwapInt64(p, o, n)
}
func AddInt64(p *int64, d int64) int64      { sched.P(); return atomic.AddInt64(p, d) }
func AndInt64(p *int64, d int64) int64      { sched.P(); return atomic.AndInt64(p, d) }
func OrInt64(p *int64, d int64) int64       { sched.P(); return atomic.OrInt64(p, d) }
func LoadUint32(p *uint32) uint32           { sched.P(); return atomic.LoadUint32(p) }
func StoreUint32(p *uint32, v uint32)       { sched.P(); atomic.StoreUint32(p, v) }
func SwapUint32(p *uint32, v uint32) uint32 { sched.P(); return atomic.SwapUint32(p, v) }
func CompareAndSwapUint32(p *uint32, o, n uint32) bool {
	sched.P()
	return atomic.CompareAndSwapUint32(p, o, n)
}
func AddUint32(p *uint32, d uint32) uint32  { sched.P(); return atomic.AddUint32(p, d) }
func AndUint32(p *uint32, d uint32) uint32  { sched.P(); return atomic.AndUint32(p, d) }
func OrUint32(p *uint32, d uint32) uint32   { sched.P(); return atomic.OrUint32(p, d) }
func LoadUint64(p *uint64) uint64           { sched.P(); return atomic.LoadUint64(p) }
func StoreUint64(p *uint64, v uint64)       { sched.P(); atomic.StoreUint64(p, v) }
func SwapUint64(p *uint64, v uint64) uint64 { sched.P(); return atomic.SwapUint64(p, v) }
func CompareAndSwapUint64(p *uint64, o, n uint64) bool {
	sched.P()
	return atomic.CompareAndSwapUint64(p, o, n)
}
func AddUint64(p *uint64, d uint64) uint64      { sched.P(); return atomic.AddUint64(p, d) }
func AndUint64(p *uint64, d uint64) uint64      { sched.P(); return atomic.AndUint64(p, d) }
func OrUint64(p *uint64, d uint64) uint64       { sched.P(); return atomic.OrUint64(p, d) }
func LoadUintptr(p *uintptr) uintptr            { sched.P(); return atomic.LoadUintptr(p) }
func StoreUintptr(p *uintptr, v uintptr)        { sched.P(); atomic.StoreUintptr(p, v) }
func SwapUintptr(p *uintptr, v uintptr) uintptr { sched.P(); return atomic.SwapUintptr(p, v) }
func CompareAndSwapUintptr(p *uintptr, o, n uintptr) bool {
	sched.P()
	return atomic.CompareAndSwapUintptr(p, o, n)
}
func AddUintptr(p *uintptr, d uintptr) uintptr         { sched.P(); return atomic.AddUintptr(p, d) }
func AndUintptr(p *uintptr, d uintptr) uintptr         { sched.P(); return atomic.AndUintptr(p, d) }
func OrUintptr(p *uintptr, d uintptr) uintptr          { sched.P(); return atomic.OrUintptr(p, d) }
func LoadPointer(p *unsafe.Pointer) unsafe.Pointer     { sched.P(); return atomic.LoadPointer(p) }
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) { sched.P(); atomic.StorePointer(p, v) }
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	sched.P()
	return atomic.SwapPointer(p, v)
}
func CompareAndSwapPointer(p *unsafe.Pointer, o, n unsafe.Pointer) bool {
	sched.P()
	return atomic.CompareAndSwapPointer(p, o, n)
}

type Int32 struct{ v atomic.Int32 }

func (x *Int32) Load() int32                    { sched.P(); return x.v.Load() }
func (x *Int32) Store(v int32)                  { sched.P(); x.v.Store(v) }
func (x *Int32) Swap(v int32) int32             { sched.P(); return x.v.Swap(v) }
func (x *Int32) CompareAndSwap(o, n int32) bool { sched.P(); return x.v.CompareAndSwap(o, n) }
func (x *Int32) Add(d int32) int32              { sched.P(); return x.v.Add(d) }
func (x *Int32) And(d int32) int32              { sched.P(); return x.v.And(d) }
func (x *Int32) Or(d int32) int32               { sched.P(); return x.v.Or(d) }

type Int64 struct{ v atomic.Int64 }

func (x *Int64) Load() int64                    { sched.P(); return x.v.Load() }
func (x *Int64) Store(v int64)                  { sched.P(); x.v.Store(v) }
func (x *Int64) Swap(v int64) int64             { sched.P(); return x.v.Swap(v) }
func (x *Int64) CompareAndSwap(o, n int64) bool { sched.P(); return x.v.CompareAndSwap(o, n) }
func (x *Int64) Add(d int64) int64              { sched.P(); return x.v.Add(d) }
func (x *Int64) And(d int64) int64              { sched.P(); return x.v.And(d) }
func (x *Int64) Or(d int64) int64               { sched.P(); return x.v.Or(d) }

type Uint32 struct{ v atomic.Uint32 }

func (x *Uint32) Load() uint32                    { sched.P(); return x.v.Load() }
func (x *Uint32) Store(v uint32)                  { sched.P(); x.v.Store(v) }
func (x *Uint32) Swap(v uint32) uint32            { sched.P(); return x.v.Swap(v) }
func (x *Uint32) CompareAndSwap(o, n uint32) bool { sched.P(); return x.v.CompareAndSwap(o, n) }
func (x *Uint32) Add(d uint32) uint32             { sched.P(); return x.v.Add(d) }
func (x *Uint32) And(d uint32) uint32             { sched.P(); return x.v.And(d) }
func (x *Uint32) Or(d uint32) uint32              { sched.P(); return x.v.Or(d) }

type Uint64 struct{ v atomic.Uint64 }

func (x *Uint64) Load() uint64                    { sched.P(); return x.v.Load() }
func (x *Uint64) Store(v uint64)                  { sched.P(); x.v.Store(v) }
func (x *Uint64) Swap(v uint64) uint64            { sched.P(); return x.v.Swap(v) }
func (x *Uint64) CompareAndSwap(o, n uint64) bool { sched.P(); return x.v.CompareAndSwap(o, n) }
func (x *Uint64) Add(d uint64) uint64             { sched.P(); return x.v.Add(d) }
func (x *Uint64) And(d uint64) uint64             { sched.P(); return x.v.And(d) }
func (x *Uint64) Or(d uint64) uint64              { sched.P(); return x.v.Or(d) }

type Uintptr struct{ v atomic.Uintptr }

func (x *Uintptr) Load() uintptr                    { sched.P(); return x.v.Load() }
func (x *Uintptr) Store(v uintptr)                  { sched.P(); x.v.Store(v) }
func (x *Uintptr) Swap(v uintptr) uintptr           { sched.P(); return x.v.Swap(v) }
func (x *Uintptr) CompareAndSwap(o, n uintptr) bool { sched.P(); return x.v.CompareAndSwap(o, n) }
func (x *Uintptr) Add(d uintptr) uintptr            { sched.P(); return x.v.Add(d) }
func (x *Uintptr) And(d uintptr) uintptr            { sched.P(); return x.v.And(d) }
func (x *Uintptr) Or(d uintptr) uintptr             { sched.P(); return x.v.Or(d) }

type Bool struct{ v atomic.Bool }

func (x *Bool) Load() bool                    { sched.P(); return x.v.Load() }
func (x *Bool) Store(v bool)                  { sched.P(); x.v.Store(v) }
func (x *Bool) Swap(v bool) bool              { sched.P(); return x.v.Swap(v) }
func (x *Bool) CompareAndSwap(o, n bool) bool { sched.P(); return x.v.CompareAndSwap(o, n) }

type Pointer[T any] struct{ v atomic.Pointer[T] }

func (x *Pointer[T]) Load() *T                    { sched.P(); return x.v.Load() }
func (x *Pointer[T]) Store(v *T)                  { sched.P(); x.v.Store(v) }
func (x *Pointer[T]) Swap(v *T) *T                { sched.P(); return x.v.Swap(v) }
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool { sched.P(); return x.v.CompareAndSwap(o, n) }

type Value struct{ v atomic.Value }

func (x *Value) Load() interface{}                    { sched.P(); return x.v.Load() }
func (x *Value) Store(v interface{})                  { sched.P(); x.v.Store(v) }
func (x *Value) Swap(v interface{}) interface{}       { sched.P(); return x.v.Swap(v) }
func (x *Value) CompareAndSwap(o, n interface{}) bool { sched.P(); return x.v.CompareAndSwap(o, n) }
