package vs

import (
	"fmt"
	"reflect"
	"sort"
	"unsafe"
)

// MapIter walks a map in a controlled order: the keys present at the start, sorted; a key deleted
// meanwhile is skipped, as Go's iteration does; with Budget.MapOrder the reverse order is explored too.
type MapIter[K comparable, V any] struct {
	m    map[K]V
	keys []K
	i    int
}

//go:norace
func Iter[M ~map[K]V, K comparable, V any](m M) (k K, v V, it *MapIter[K, V]) {
	it = &MapIter[K, V]{m: m, keys: Keys(m)}
	return
}

//go:norace
func (it *MapIter[K, V]) Next(k *K, v *V) bool {
	for it.i < len(it.keys) {
		key := it.keys[it.i]
		it.i++
		val, ok := it.m[key]
		if !ok {
			continue
		}
		if k != nil {
			*k = key
		}
		if v != nil {
			*v = val
		}
		return true
	}
	return false
}

// Iter2 is Iter for "for k, v = range m".
//
//go:norace
func Iter2[M ~map[K]V, K comparable, V any](m M) *MapIter[K, V] {
	_, _, it := Iter(m)
	return it
}

// FixedOrder turns the exploration of iteration orders off (reset before every execution).
var FixedOrder bool

func init() { OnReset(func() { FixedOrder = false }) }

// Keys returns the keys of m in controlled order.
//
//go:norace
func Keys[M ~map[K]V, K comparable, V any](m M) []K {
	keys := make([]K, 0, len(m))
	for k := range m {
		Push(&keys, k)
	}
	if len(keys) < 2 {
		return keys
	}
	sortKeys(keys)
	if E != nil && E.b.MapOrder && !FixedOrder {
		if E.choose(2, KFree, false) == 1 {
			for i, j := 0, len(keys)-1; i < j; i, j = i+1, j-1 {
				keys[i], keys[j] = keys[j], keys[i]
			}
		}
	}
	return keys
}

//go:norace
func sortKeys[K comparable](keys []K) {
	var z K
	t := reflect.TypeOf(z)
	if t == nil { // interface keys
		sortBy(keys, func(k K) string { return fmt.Sprint(k) })
		return
	}
	switch t.Kind() {
	case reflect.String:
		sort.Slice(keys, func(i, j int) bool {
			return *(*string)(unsafe.Pointer(&keys[i])) < *(*string)(unsafe.Pointer(&keys[j]))
		})
	case reflect.Array:
		if t.Elem().Kind() == reflect.Uint8 {
			n := t.Len()
			sort.Slice(keys, func(i, j int) bool {
				return string(unsafe.Slice((*byte)(unsafe.Pointer(&keys[i])), n)) < string(unsafe.Slice((*byte)(unsafe.Pointer(&keys[j])), n))
			})
			return
		}
		sortBy(keys, func(k K) string { return fmt.Sprint(k) })
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		sort.Slice(keys, func(i, j int) bool { return reflect.ValueOf(keys[i]).Int() < reflect.ValueOf(keys[j]).Int() })
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		sort.Slice(keys, func(i, j int) bool { return reflect.ValueOf(keys[i]).Uint() < reflect.ValueOf(keys[j]).Uint() })
	default:
		sortBy(keys, func(k K) string { return fmt.Sprint(k) })
	}
}

//go:norace
func sortBy[K any](keys []K, f func(K) string) {
	s := make([]string, len(keys))
	ix := make([]int, len(keys))
	for i, k := range keys {
		s[i] = f(k)
		ix[i] = i
	}
	sort.SliceStable(ix, func(a, b int) bool { return s[ix[a]] < s[ix[b]] })
	out := make([]K, len(keys))
	for i, j := range ix {
		out[i] = keys[j]
	}
	copy(keys, out)
}
