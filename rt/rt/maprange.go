package rt

import (
	"fmt"
	"iter"
	"reflect"
	"sort"
)

// MapRange iterates over a map in a seeded order: the language leaves the
// order open, so the simulator decides it.
func MapRange[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] {
	return func(yield func(K, V) bool) {
		keys := make([]K, 0, len(m))
		for k := range m {
			keys = append(keys, k)
		}
		less := func(a, b K) bool { return fmt.Sprint(a) < fmt.Sprint(b) }
		var z K
		switch reflect.TypeOf(&z).Elem().Kind() {
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			less = func(a, b K) bool { return reflect.ValueOf(a).Int() < reflect.ValueOf(b).Int() }
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			less = func(a, b K) bool { return reflect.ValueOf(a).Uint() < reflect.ValueOf(b).Uint() }
		case reflect.String:
			less = func(a, b K) bool { return reflect.ValueOf(a).String() < reflect.ValueOf(b).String() }
		}
		sort.SliceStable(keys, func(i, j int) bool { return less(keys[i], keys[j]) })
		for i := len(keys) - 1; i > 0; i-- {
			j := int(LibRand() % uint64(i+1))
			keys[i], keys[j] = keys[j], keys[i]
		}
		for _, k := range keys {
			v, ok := m[k]
			if !ok {
				continue
			}
			if !yield(k, v) {
				return
			}
		}
	}
}

// MapKeys is MapRange for a loop that has no value variable.
func MapKeys[M ~map[K]V, K comparable, V any](m M) iter.Seq[K] {
	return func(yield func(K) bool) {
		for k := range MapRange(m) {
			if !yield(k) {
				return
			}
		}
	}
}
