package rt

import (
	"reflect"
	"strings"
	"unsafe"
)

// Package-level variables of the code under test are registered by generated
// code, snapshotted before the first run and restored at the start of every
// run, so that no run can observe what an earlier run of the same process did.

type global struct {
	name string
	v    reflect.Value // addressable
	snap *shot
}

var globals []*global
var snapped bool

// Global registers a package-level variable.
func Global(name string, ptr any) {
	globals = append(globals, &global{name: name, v: reflect.ValueOf(ptr).Elem()})
}

func restoreGlobals() {
	if !snapped {
		snapped = true
		for _, g := range globals {
			g.snap = take(g.v, 0)
		}
		return
	}
	for _, g := range globals {
		g.snap.put(g.v)
	}
}

func rw(v reflect.Value) reflect.Value {
	if v.CanAddr() {
		return reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
	}
	return v
}

const maxDepth = 6

// shot is a snapshot of one value: a shallow copy, plus snapshots of what it
// contains or points to.
type shot struct {
	v    reflect.Value
	kids []*shot
}

func flat(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Struct, reflect.Array, reflect.Slice, reflect.Map, reflect.Ptr, reflect.Interface:
		return false
	}
	return true
}

func follow(v reflect.Value) bool {
	return v.Kind() == reflect.Ptr && !v.IsNil() && v.Elem().Kind() == reflect.Struct &&
		strings.Contains(v.Type().Elem().PkgPath(), "justyntemme/vst3go")
}

func copyMap(v reflect.Value) reflect.Value {
	m := reflect.MakeMapWithSize(v.Type(), v.Len())
	it := v.MapRange()
	for it.Next() {
		m.SetMapIndex(it.Key(), it.Value())
	}
	return m
}

func take(v reflect.Value, d int) *shot {
	v = rw(v)
	out := reflect.New(v.Type()).Elem()
	out.Set(v)
	s := &shot{v: out}
	if d > maxDepth {
		return s
	}
	switch v.Kind() {
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			s.kids = append(s.kids, take(v.Field(i), d+1))
		}
	case reflect.Array:
		if !flat(v.Type().Elem()) {
			for i := 0; i < v.Len(); i++ {
				s.kids = append(s.kids, take(v.Index(i), d+1))
			}
		}
	case reflect.Slice:
		if !v.IsNil() {
			c := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
			reflect.Copy(c, v)
			s.kids = append(s.kids, &shot{v: c})
		}
	case reflect.Map:
		if !v.IsNil() {
			s.kids = append(s.kids, &shot{v: copyMap(v)})
		}
	case reflect.Ptr:
		if follow(v) {
			s.kids = append(s.kids, take(v.Elem(), d+1))
		}
	}
	return s
}

func (s *shot) put(v reflect.Value) {
	v = rw(v)
	switch v.Kind() {
	case reflect.Struct, reflect.Array:
		if len(s.kids) == 0 {
			v.Set(s.v)
			return
		}
		for i, k := range s.kids {
			if v.Kind() == reflect.Struct {
				k.put(v.Field(i))
			} else {
				k.put(v.Index(i))
			}
		}
	case reflect.Slice:
		v.Set(s.v)
		if len(s.kids) > 0 {
			reflect.Copy(v, s.kids[0].v)
		}
	case reflect.Map:
		if len(s.kids) > 0 {
			v.Set(copyMap(s.kids[0].v))
		} else {
			v.Set(s.v)
		}
	case reflect.Ptr:
		v.Set(s.v)
		if len(s.kids) > 0 {
			s.kids[0].put(v.Elem())
		}
	default:
		v.Set(s.v)
	}
}
