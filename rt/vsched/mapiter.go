package vsched

import (
	"fmt"
	"reflect"
	"sort"
)

// MapIter iterates over a map in a reproducible order.
type MapIter[K comparable, V any] struct {
	m    map[K]V
	keys []K
	i    int
	Key  K
	Val  V
}

// Iter starts an iteration.
func Iter[M ~map[K]V, K comparable, V any](m M) *MapIter[K, V] {
	it := &MapIter[K, V]{m: m}
	if len(m) == 0 {
		return it
	}
	it.keys = make([]K, 0, len(m))
	for k := range m {
		it.keys = append(it.keys, k)
	}
	sortKeys(it.keys)
	if len(it.keys) > 1 && ex != nil && ex.o.MapReverse && ex.quiet == 0 && Choose(2, 1) == 1 {
		for i, j := 0, len(it.keys)-1; i < j; i, j = i+1, j-1 {
			it.keys[i], it.keys[j] = it.keys[j], it.keys[i]
		}
	}
	return it
}

// IterKV starts an iteration and gives the zero key and value.
func IterKV[M ~map[K]V, K comparable, V any](m M) (*MapIter[K, V], K, V) {
	var k K
	var v V
	return Iter(m), k, v
}

// Next moves on.
func (it *MapIter[K, V]) Next() bool {
	for it.i < len(it.keys) {
		k := it.keys[it.i]
		it.i++
		if v, ok := it.m[k]; ok {
			it.Key, it.Val = k, v
			return true
		}
	}
	return false
}

func sortKeys[K comparable](keys []K) {
	if len(keys) < 2 {
		return
	}
	switch ks := interface{}(keys).(type) {
	case []string:
		sort.Strings(ks)
		return
	case []int:
		sort.Ints(ks)
		return
	case []uint64:
		sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
		return
	}
	v := reflect.ValueOf(keys)
	less := func(a, b reflect.Value) bool { return compare(a, b) < 0 }
	sort.Slice(keys, func(i, j int) bool { return less(v.Index(i), v.Index(j)) })
}

func compare(a, b reflect.Value) int {
	switch a.Kind() {
	case reflect.String:
		switch {
		case a.String() < b.String():
			return -1
		case a.String() > b.String():
			return 1
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		switch {
		case a.Int() < b.Int():
			return -1
		case a.Int() > b.Int():
			return 1
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		switch {
		case a.Uint() < b.Uint():
			return -1
		case a.Uint() > b.Uint():
			return 1
		}
	case reflect.Bool:
		switch {
		case !a.Bool() && b.Bool():
			return -1
		case a.Bool() && !b.Bool():
			return 1
		}
	case reflect.Array:
		for i := 0; i < a.Len(); i++ {
			if c := compare(a.Index(i), b.Index(i)); c != 0 {
				return c
			}
		}
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if c := compare(a.Field(i), b.Field(i)); c != 0 {
				return c
			}
		}
	case reflect.Ptr, reflect.Chan, reflect.UnsafePointer, reflect.Func:
		switch {
		case a.Pointer() < b.Pointer():
			return -1
		case a.Pointer() > b.Pointer():
			return 1
		}
	case reflect.Interface:
		x, y := a.Elem(), b.Elem()
		if !x.IsValid() || !y.IsValid() || x.Type() != y.Type() {
			s, t := fmt.Sprintf("%v", a), fmt.Sprintf("%v", b)
			switch {
			case s < t:
				return -1
			case s > t:
				return 1
			}
			return 0
		}
		return compare(x, y)
	}
	return 0
}
