// Package vmap iterates over maps in an order the explorer chooses. A build overlay rewrites
// every range over a map in the code generator to use it.
package vmap

import (
	"fmt"
	"iter"
	"reflect"
	"sort"
)

// Choose picks one of n next keys (nil: always the first, that is sorted order).
var Choose func(n int) int

// Ranges counts the ranges over maps with at least two keys.
var Ranges int

func less(a, b reflect.Value) bool {
	switch a.Kind() {
	case reflect.String:
		return a.String() < b.String()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return a.Int() < b.Int()
	}
	return fmt.Sprint(a.Interface()) < fmt.Sprint(b.Interface())
}

// All iterates over m.
func All[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] {
	return func(yield func(K, V) bool) {
		keys := make([]K, 0, len(m))
		for k := range m {
			keys = append(keys, k)
		}
		if len(keys) > 1 {
			Ranges++
			sort.SliceStable(keys, func(i, j int) bool { return less(reflect.ValueOf(&keys[i]).Elem(), reflect.ValueOf(&keys[j]).Elem()) })
		}
		for len(keys) > 0 {
			i := 0
			if len(keys) > 1 && Choose != nil {
				i = Choose(len(keys))
			}
			k := keys[i]
			keys = append(keys[:i:i], keys[i+1:]...)
			v, ok := m[k]
			if !ok { // deleted in the meantime
				continue
			}
			if !yield(k, v) {
				return
			}
		}
	}
}
