//go:build go1.21

// Package vatomic replaces sync/atomic in instrumented code.
package vatomic

import (
	"sync/atomic"
	"unsafe"

	"github.com/go-air/dupi/zz_verif/vrt"
)

func LoadInt32(p *int32) int32 {
	vrt.AtomicAt(unsafe.Pointer(p), false)
	return atomic.LoadInt32(p)
}
func StoreInt32(p *int32, v int32) {
	vrt.AtomicAt(unsafe.Pointer(p), true)
	atomic.StoreInt32(p, v)
}
func SwapInt32(p *int32, v int32) int32 {
	vrt.AtomicAt(unsafe.Pointer(p), true)
	return atomic.SwapInt32(p, v)
}
func CompareAndSwapInt32(p *int32, o, n int32) bool {
	vrt.AtomicAt(unsafe.Pointer(p), true)
	return atomic.CompareAndSwapInt32(p, o, n)
}
func AddInt32(p *int32, d int32) int32 {
	vrt.AtomicAt(unsafe.Pointer(p), true)
	return atomic.AddInt32(p, d)
}
func LoadInt64(p *int64) int64 {
	vrt.AtomicAt(unsafe.Pointer(p), false)
	return atomic.LoadInt64(p)
}
func StoreInt64(p *int64, v int64) {
	vrt.AtomicAt(unsafe.Pointer(p), true)
	atomic.StoreInt64(p, v)
}
func SwapInt64(p *int64, v int64) int64 {
	vrt.AtomicAt(unsafe.Pointer(p), true)
	return atomic.SwapInt64(p, v)
}
func CompareAndSwapInt64(p *int64, o, n int64) bool {
	vrt.AtomicAt(unsafe.Pointer(p), true)
	return atomic.CompareAndSwapInt64(p, o, n)
}
func AddInt64(p *int64, d int64) int64 {
	vrt.AtomicAt(unsafe.Pointer(p), true)
	return atomic.AddInt64(p, d)
}
func LoadUint32(p *uint32) uint32 {
	vrt.AtomicAt(unsafe.Pointer(p), false)
	return atomic.LoadUint32(p)
}
func StoreUint32(p *uint32, v uint32) {
	vrt.AtomicAt(unsafe.Pointer(p), true)
	atomic.StoreUint32(p, v)
}
func SwapUint32(p *uint32, v uint32) uint32 {
	vrt.AtomicAt(unsafe.Pointer(p), true)
	return atomic.SwapUint32(p, v)
}
func CompareAndSwapUint32(p *uint32, o, n uint32) bool {
	vrt.AtomicAt(unsafe.Pointer(p), true)
	return atomic.CompareAndSwapUint32(p, o, n)
}
func AddUint32(p *uint32, d uint32) uint32 {
	vrt.AtomicAt(unsafe.Pointer(p), true)
	return atomic.AddUint32(p, d)
}
func LoadUint64(p *uint64) uint64 {
	vrt.AtomicAt(unsafe.Pointer(p), false)
	return atomic.LoadUint64(p)
}
func StoreUint64(p *uint64, v uint64) {
	vrt.AtomicAt(unsafe.Pointer(p), true)
	atomic.StoreUint64(p, v)
}
func SwapUint64(p *uint64, v uint64) uint64 {
	vrt.AtomicAt(unsafe.Pointer(p), true)
	return atomic.SwapUint64(p, v)
}
func CompareAndSwapUint64(p *uint64, o, n uint64) bool {
	vrt.AtomicAt(unsafe.Pointer(p), true)
	return atomic.CompareAndSwapUint64(p, o, n)
}
func AddUint64(p *uint64, d uint64) uint64 {
	vrt.AtomicAt(unsafe.Pointer(p), true)
	return atomic.AddUint64(p, d)
}
func LoadUintptr(p *uintptr) uintptr {
	vrt.AtomicAt(unsafe.Pointer(p), false)
	return atomic.LoadUintptr(p)
}
func StoreUintptr(p *uintptr, v uintptr) {
	vrt.AtomicAt(unsafe.Pointer(p), true)
	atomic.StoreUintptr(p, v)
}
func SwapUintptr(p *uintptr, v uintptr) uintptr {
	vrt.AtomicAt(unsafe.Pointer(p), true)
	return atomic.SwapUintptr(p, v)
}
func CompareAndSwapUintptr(p *uintptr, o, n uintptr) bool {
	vrt.AtomicAt(unsafe.Pointer(p), true)
	return atomic.CompareAndSwapUintptr(p, o, n)
}
func AddUintptr(p *uintptr, d uintptr) uintptr {
	vrt.AtomicAt(unsafe.Pointer(p), true)
	return atomic.AddUintptr(p, d)
}
func LoadPointer(p *unsafe.Pointer) unsafe.Pointer {
	vrt.AtomicAt(unsafe.Pointer(p), false)
	return atomic.LoadPointer(p)
}
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) {
	vrt.AtomicAt(unsafe.Pointer(p), true)
	atomic.StorePointer(p, v)
}
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	vrt.AtomicAt(unsafe.Pointer(p), true)
	return atomic.SwapPointer(p, v)
}
func CompareAndSwapPointer(p *unsafe.Pointer, o, n unsafe.Pointer) bool {
	vrt.AtomicAt(unsafe.Pointer(p), true)
	return atomic.CompareAndSwapPointer(p, o, n)
}

type Int32 struct {
	v atomic.Int32
	o vrt.ObjState
}

func (x *Int32) Load() int32                    { x.o.Atomic(false); return x.v.Load() }
func (x *Int32) Store(v int32)                  { x.o.Atomic(true); x.v.Store(v) }
func (x *Int32) Swap(v int32) int32             { x.o.Atomic(true); return x.v.Swap(v) }
func (x *Int32) CompareAndSwap(o, n int32) bool { x.o.Atomic(true); return x.v.CompareAndSwap(o, n) }
func (x *Int32) Add(d int32) int32              { x.o.Atomic(true); return x.v.Add(d) }

type Int64 struct {
	v atomic.Int64
	o vrt.ObjState
}

func (x *Int64) Load() int64                    { x.o.Atomic(false); return x.v.Load() }
func (x *Int64) Store(v int64)                  { x.o.Atomic(true); x.v.Store(v) }
func (x *Int64) Swap(v int64) int64             { x.o.Atomic(true); return x.v.Swap(v) }
func (x *Int64) CompareAndSwap(o, n int64) bool { x.o.Atomic(true); return x.v.CompareAndSwap(o, n) }
func (x *Int64) Add(d int64) int64              { x.o.Atomic(true); return x.v.Add(d) }

type Uint32 struct {
	v atomic.Uint32
	o vrt.ObjState
}

func (x *Uint32) Load() uint32                    { x.o.Atomic(false); return x.v.Load() }
func (x *Uint32) Store(v uint32)                  { x.o.Atomic(true); x.v.Store(v) }
func (x *Uint32) Swap(v uint32) uint32            { x.o.Atomic(true); return x.v.Swap(v) }
func (x *Uint32) CompareAndSwap(o, n uint32) bool { x.o.Atomic(true); return x.v.CompareAndSwap(o, n) }
func (x *Uint32) Add(d uint32) uint32             { x.o.Atomic(true); return x.v.Add(d) }

type Uint64 struct {
	v atomic.Uint64
	o vrt.ObjState
}

func (x *Uint64) Load() uint64                    { x.o.Atomic(false); return x.v.Load() }
func (x *Uint64) Store(v uint64)                  { x.o.Atomic(true); x.v.Store(v) }
func (x *Uint64) Swap(v uint64) uint64            { x.o.Atomic(true); return x.v.Swap(v) }
func (x *Uint64) CompareAndSwap(o, n uint64) bool { x.o.Atomic(true); return x.v.CompareAndSwap(o, n) }
func (x *Uint64) Add(d uint64) uint64             { x.o.Atomic(true); return x.v.Add(d) }

type Uintptr struct {
	v atomic.Uintptr
	o vrt.ObjState
}

func (x *Uintptr) Load() uintptr          { x.o.Atomic(false); return x.v.Load() }
func (x *Uintptr) Store(v uintptr)        { x.o.Atomic(true); x.v.Store(v) }
func (x *Uintptr) Swap(v uintptr) uintptr { x.o.Atomic(true); return x.v.Swap(v) }
func (x *Uintptr) CompareAndSwap(o, n uintptr) bool {
	x.o.Atomic(true)
	return x.v.CompareAndSwap(o, n)
}
func (x *Uintptr) Add(d uintptr) uintptr { x.o.Atomic(true); return x.v.Add(d) }

type Bool struct {
	v atomic.Bool
	o vrt.ObjState
}

func (x *Bool) Load() bool                    { x.o.Atomic(false); return x.v.Load() }
func (x *Bool) Store(v bool)                  { x.o.Atomic(true); x.v.Store(v) }
func (x *Bool) Swap(v bool) bool              { x.o.Atomic(true); return x.v.Swap(v) }
func (x *Bool) CompareAndSwap(o, n bool) bool { x.o.Atomic(true); return x.v.CompareAndSwap(o, n) }

type Pointer[T any] struct {
	v atomic.Pointer[T]
	o vrt.ObjState
}

func (x *Pointer[T]) Load() *T                    { x.o.Atomic(false); return x.v.Load() }
func (x *Pointer[T]) Store(v *T)                  { x.o.Atomic(true); x.v.Store(v) }
func (x *Pointer[T]) Swap(v *T) *T                { x.o.Atomic(true); return x.v.Swap(v) }
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool { x.o.Atomic(true); return x.v.CompareAndSwap(o, n) }

type Value struct {
	v atomic.Value
	o vrt.ObjState
}

func (x *Value) Load() any                    { x.o.Atomic(false); return x.v.Load() }
func (x *Value) Store(v any)                  { x.o.Atomic(true); x.v.Store(v) }
func (x *Value) Swap(v any) any               { x.o.Atomic(true); return x.v.Swap(v) }
func (x *Value) CompareAndSwap(o, n any) bool { x.o.Atomic(true); return x.v.CompareAndSwap(o, n) }
