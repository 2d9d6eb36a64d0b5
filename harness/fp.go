package main

import (
	"reflect"
)

// Fingerprint walks everything reachable from the roots (unexported fields
// included) and hashes its structure: values, types, slice lengths and
// capacities, and sharing. Two structures with the same fingerprint behave the
// same, so exploring one of them is enough. Function values and channels
// contribute only whether they are nil.
type fpr struct {
	a, b uint64
	seen map[fpKey]uint64
	n    uint64
}

type fpKey struct {
	p uintptr
	t reflect.Type
}

type FP [2]uint64

func (f *fpr) u(x uint64) {
	f.a ^= x
	f.a *= 0x9E3779B97F4A7C15
	f.a ^= f.a >> 29
	f.b += x + 0x632BE59BD9B4E019
	f.b *= 0xD6E8FEB86659FD93
	f.b ^= f.b >> 32
}

func (f *fpr) s(s string) {
	f.u(uint64(len(s)))
	var w uint64
	for i := 0; i < len(s); i++ {
		w = w<<8 | uint64(s[i])
		if i&7 == 7 {
			f.u(w)
			w = 0
		}
	}
	f.u(w)
}

func Fingerprint(roots ...interface{}) FP {
	f := &fpr{a: 1, b: 2, seen: make(map[fpKey]uint64, 32)}
	for _, r := range roots {
		f.walk(reflect.ValueOf(r))
	}
	return FP{f.a, f.b}
}

func (f *fpr) walk(v reflect.Value) {
	switch v.Kind() {
	case reflect.Invalid:
		f.u(0)
	case reflect.Bool:
		if v.Bool() {
			f.u(3)
		} else {
			f.u(2)
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		f.u(uint64(v.Int()))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		f.u(v.Uint())
	case reflect.Float32, reflect.Float64:
		f.u(uint64(int64(v.Float() * 1e6)))
	case reflect.String:
		f.s(v.String())
	case reflect.Ptr:
		if v.IsNil() {
			f.u(5)
			return
		}
		p := fpKey{v.Pointer(), v.Type()}
		if id, ok := f.seen[p]; ok {
			f.u(7)
			f.u(id)
			return
		}
		f.n++
		f.seen[p] = f.n
		f.u(11)
		f.walk(v.Elem())
	case reflect.Interface:
		if v.IsNil() {
			f.u(13)
			return
		}
		e := v.Elem()
		f.s(e.Type().String())
		f.walk(e)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if x := v.Type().Field(i); x.Name == "Stack" && x.Type.Kind() == reflect.Slice {
				continue // the text of a stack trace
			}
			f.walk(v.Field(i))
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			f.walk(v.Index(i))
		}
	case reflect.Slice:
		if v.IsNil() {
			f.u(17)
			return
		}
		f.u(19)
		f.u(uint64(v.Len()))
		f.u(uint64(v.Cap()))
		if v.Cap() > 0 { // slices of one array end at the same address
			p := fpKey{v.Pointer() + uintptr(v.Cap())*v.Type().Elem().Size(), v.Type()}
			if id, ok := f.seen[p]; ok {
				f.u(43)
				f.u(id)
			} else {
				f.n++
				f.seen[p] = f.n
			}
		}
		for i := 0; i < v.Len(); i++ {
			f.walk(v.Index(i))
		}
	case reflect.Map:
		if v.IsNil() {
			f.u(23)
			return
		}
		f.u(29)
		var sa, sb uint64
		for _, k := range v.MapKeys() {
			g := &fpr{a: 1, b: 2, seen: f.seen, n: f.n}
			g.walk(k)
			g.walk(v.MapIndex(k))
			sa += g.a
			sb += g.b
		}
		f.u(sa)
		f.u(sb)
	case reflect.Func, reflect.Chan, reflect.UnsafePointer:
		if v.Pointer() == 0 {
			f.u(31)
		} else {
			f.u(37)
		}
	default:
		f.u(41)
	}
}
