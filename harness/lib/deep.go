package lib

import (
	"reflect"
	"strings"
	"unsafe"
)

// DeepHash hashes everything reachable from x, unexported fields included.
// Locks, pools, functions and channels are skipped.
func DeepHash(x any) uint64 {
	h := &deep{seen: map[visit]int{}}
	h.walk(reflect.ValueOf(x), 0)
	return h.h
}

type visit struct {
	p unsafe.Pointer
	t reflect.Type
	n int
}

type deep struct {
	h    uint64
	seen map[visit]int
}

func (d *deep) add(x uint64) { d.h = MixWord(d.h*31 + x) }

func (d *deep) walk(v reflect.Value, depth int) {
	if !v.IsValid() {
		d.add(1)
		return
	}
	if depth > 200 {
		return
	}
	switch v.Kind() {
	case reflect.Bool:
		if v.Bool() {
			d.add(2)
		} else {
			d.add(3)
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		d.add(uint64(v.Int()))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		d.add(v.Uint())
	case reflect.Float32, reflect.Float64:
		f := v.Float()
		d.add(*(*uint64)(unsafe.Pointer(&f)))
	case reflect.String:
		for _, c := range []byte(v.String()) {
			d.add(uint64(c))
		}
		d.add(uint64(v.Len()))
	case reflect.Pointer:
		if v.IsNil() {
			d.add(5)
			return
		}
		k := visit{v.UnsafePointer(), v.Type(), 0}
		if n, ok := d.seen[k]; ok {
			d.add(uint64(n) + 100)
			return
		}
		d.seen[k] = len(d.seen)
		d.walk(v.Elem(), depth+1)
	case reflect.Interface:
		if v.IsNil() {
			d.add(6)
			return
		}
		d.walk(v.Elem(), depth+1)
	case reflect.Slice:
		d.add(uint64(v.Len()))
		if v.Len() == 0 {
			return
		}
		k := visit{v.UnsafePointer(), v.Type(), v.Len()}
		if n, ok := d.seen[k]; ok {
			d.add(uint64(n) + 100)
			return
		}
		d.seen[k] = len(d.seen)
		switch v.Type().Elem().Kind() {
		case reflect.Uint64:
			for _, x := range unsafe.Slice((*uint64)(v.UnsafePointer()), v.Len()) {
				d.add(x)
			}
			return
		case reflect.Uint8:
			for _, x := range unsafe.Slice((*uint8)(v.UnsafePointer()), v.Len()) {
				d.add(uint64(x))
			}
			return
		}
		for i := range v.Len() {
			d.walk(v.Index(i), depth+1)
		}
	case reflect.Array:
		for i := range v.Len() {
			d.walk(v.Index(i), depth+1)
		}
	case reflect.Struct:
		if p := v.Type().PkgPath(); p == "sync" || strings.HasPrefix(p, "internal/sync") || p == "sync/atomic" {
			return
		}
		for i := range v.NumField() {
			d.walk(v.Field(i), depth+1)
		}
	case reflect.Map:
		var sum uint64
		it := v.MapRange()
		for it.Next() {
			s := &deep{seen: d.seen}
			s.walk(it.Key(), depth+1)
			s.walk(it.Value(), depth+1)
			sum += s.h
		}
		d.add(sum)
	}
}
