package fam

import (
	"fmt"
	"reflect"
	"unsafe"
)

// dump hashes the structure reachable from x: every field, exported or not,
// following pointers. Function values and addresses are left out. Two values
// with the same dump behave the same (up to hash collisions); values that
// behave the same may have different dumps.
func dump(x interface{}) uint64 {
	d := dumper{seen: map[unsafe.Pointer]int{}}
	v := reflect.New(reflect.TypeOf(x)).Elem()
	v.Set(reflect.ValueOf(x))
	d.walk(v, 0)
	return d.h
}

type dumper struct {
	h    uint64
	seen map[unsafe.Pointer]int
}

func (d *dumper) mix(x uint64) {
	d.h ^= x + 0x9e3779b97f4a7c15 + d.h<<6 + d.h>>2
	d.h *= 0xff51afd7ed558ccd
	d.h ^= d.h >> 33
}

func (d *dumper) walk(v reflect.Value, depth int) {
	if depth > 2000 {
		d.mix(99)
		return
	}
	switch v.Kind() {
	case reflect.Bool:
		if v.Bool() {
			d.mix(1)
		} else {
			d.mix(2)
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		d.mix(uint64(v.Int()))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		d.mix(v.Uint())
	case reflect.Float32, reflect.Float64:
		d.mix(uint64(v.Float()))
	case reflect.String:
		for _, b := range []byte(v.String()) {
			d.mix(uint64(b))
		}
		d.mix(3)
	case reflect.Ptr:
		if v.IsNil() {
			d.mix(4)
			return
		}
		p := unsafe.Pointer(v.Pointer())
		if i, ok := d.seen[p]; ok && v.Elem().Kind() == reflect.Struct {
			d.mix(5)
			d.mix(uint64(i))
			return
		}
		d.seen[p] = len(d.seen)
		d.mix(6)
		d.walk(v.Elem(), depth+1)
	case reflect.Interface:
		if v.IsNil() {
			d.mix(7)
			return
		}
		d.mix(8)
		d.walk(v.Elem(), depth+1)
	case reflect.Struct:
		d.mix(9)
		for i := 0; i < v.NumField(); i++ {
			d.walk(v.Field(i), depth+1)
		}
	case reflect.Array, reflect.Slice:
		d.mix(uint64(10 + v.Len()))
		for i := 0; i < v.Len(); i++ {
			d.walk(v.Index(i), depth+1)
		}
	case reflect.Map:
		d.mix(uint64(11 + v.Len()))
	}
}

// reach visits the distinct heap objects reachable from x through pointers:
// their number, their size, and the pointers themselves.
type reach struct {
	objects int
	bytes   uintptr
	seen    map[unsafe.Pointer]bool
}

func reachable(x interface{}) *reach {
	r := &reach{seen: map[unsafe.Pointer]bool{}}
	v := reflect.New(reflect.TypeOf(x)).Elem()
	v.Set(reflect.ValueOf(x))
	r.walk(v)
	return r
}

func (r *reach) String() string { return fmt.Sprintf("%d objects of %d bytes", r.objects, r.bytes) }

func (r *reach) walk(v reflect.Value) {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return
		}
		p := unsafe.Pointer(v.Pointer())
		if r.seen[p] {
			return
		}
		r.seen[p] = true
		r.objects++
		r.bytes += v.Type().Elem().Size()
		r.walk(v.Elem())
	case reflect.Interface:
		if !v.IsNil() {
			r.walk(v.Elem())
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			r.walk(v.Field(i))
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			r.walk(v.Index(i))
		}
	case reflect.Slice:
		if v.IsNil() || v.Cap() == 0 {
			return
		}
		p := unsafe.Pointer(v.Pointer())
		if !r.seen[p] {
			r.seen[p] = true
			r.objects++
			r.bytes += uintptr(v.Cap()) * v.Type().Elem().Size()
		}
		for i := 0; i < v.Len(); i++ {
			r.walk(v.Index(i))
		}
	case reflect.Map:
		if v.IsNil() {
			return
		}
		p := unsafe.Pointer(v.Pointer())
		if r.seen[p] {
			return
		}
		r.seen[p] = true
		r.objects += 1 + v.Len()
		r.bytes += uintptr(v.Len()) * (v.Type().Elem().Size() + v.Type().Key().Size() + 8)
		it := v.MapRange()
		for it.Next() {
			r.walk(it.Key())
			r.walk(it.Value())
		}
	}
}
