//go:build go1.21

package simrt

import (
	"fmt"
	"reflect"
	"sort"
)

// order puts keys in canonical order, then permutes them by the map seed.
func order[K comparable](keys []K) {
	if len(keys) < 2 {
		return
	}
	switch ks := any(keys).(type) {
	case []int:
		sort.Ints(ks)
	case []int64:
		sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
	case []string:
		sort.Strings(ks)
	default:
		strs := make([]string, len(keys))
		for i, k := range keys {
			v := reflect.ValueOf(&k).Elem()
			if v.Kind() == reflect.Interface && !v.IsNil() {
				v = v.Elem()
			}
			switch v.Kind() {
			case reflect.Int, reflect.Int64, reflect.Int32, reflect.Int16, reflect.Int8:
				strs[i] = fmt.Sprintf("i%020d", uint64(v.Int())+1<<63)
			case reflect.Ptr:
				if v.IsNil() {
					strs[i] = "nil"
				} else {
					strs[i] = fmt.Sprintf("p%+v", v.Elem().Interface())
				}
			default:
				strs[i] = fmt.Sprintf("%T%+v", any(k), any(k))
			}
		}
		idx := make([]int, len(keys))
		for i := range idx {
			idx[i] = i
		}
		sort.SliceStable(idx, func(a, b int) bool { return strs[idx[a]] < strs[idx[b]] })
		out := make([]K, len(keys))
		for i, j := range idx {
			out[i] = keys[j]
		}
		copy(keys, out)
	}
	permute(len(keys), func(i, j int) { keys[i], keys[j] = keys[j], keys[i] })
}

func permute(n int, swap func(i, j int)) {
	w := W
	if w == nil || w.Cfg.MapSeed == 0 {
		return
	}
	w.mapRanges++
	for i := n - 1; i > 0; i-- {
		swap(i, w.mrng.Intn(i+1))
	}
}

// MapIter is a rewritten `for k, v := range m`.
type MapIter[K comparable, V any] struct {
	m    map[K]V
	keys []K
	i    int
}

func MapRange[M ~map[K]V, K comparable, V any](m M) *MapIter[K, V] {
	it := &MapIter[K, V]{m: m}
	if len(m) > 0 {
		it.keys = make([]K, 0, len(m))
		for k := range m {
			it.keys = append(it.keys, k)
		}
		order(it.keys)
	}
	return it
}

// MapRangeKV declares the loop variables as well.
func MapRangeKV[M ~map[K]V, K comparable, V any](m M) (K, V, *MapIter[K, V]) {
	var k K
	var v V
	return k, v, MapRange(m)
}
func MapRangeK[M ~map[K]V, K comparable, V any](m M) (K, *MapIter[K, V]) {
	var k K
	return k, MapRange(m)
}
func MapRangeV[M ~map[K]V, K comparable, V any](m M) (V, *MapIter[K, V]) {
	var v V
	return v, MapRange(m)
}

func (it *MapIter[K, V]) Next(pk *K, pv *V) bool {
	for it.i < len(it.keys) {
		k := it.keys[it.i]
		it.i++
		v, ok := it.m[k]
		if !ok {
			continue
		}
		if pk != nil {
			*pk = k
		}
		if pv != nil {
			*pv = v
		}
		return true
	}
	return false
}

// RMapIter stands for reflect.MapIter.
type RMapIter struct {
	m    reflect.Value
	keys []reflect.Value
	i    int
}

func ReflectMapKeys(v reflect.Value) []reflect.Value {
	keys := v.MapKeys()
	strs := make([]string, len(keys))
	for i, k := range keys {
		strs[i] = fmt.Sprintf("%v", k.Interface())
	}
	idx := make([]int, len(keys))
	for i := range idx {
		idx[i] = i
	}
	sort.SliceStable(idx, func(a, b int) bool { return strs[idx[a]] < strs[idx[b]] })
	out := make([]reflect.Value, len(keys))
	for i, j := range idx {
		out[i] = keys[j]
	}
	permute(len(out), func(i, j int) { out[i], out[j] = out[j], out[i] })
	return out
}

func ReflectMapRange(v reflect.Value) *RMapIter {
	return &RMapIter{m: v, keys: ReflectMapKeys(v), i: -1}
}
func (it *RMapIter) Next() bool           { it.i++; return it.i < len(it.keys) }
func (it *RMapIter) Key() reflect.Value   { return it.keys[it.i] }
func (it *RMapIter) Value() reflect.Value { return it.m.MapIndex(it.keys[it.i]) }

// Hint reduces a large constant capacity hint; it does not change meaning.
func Hint(n int) int {
	if n > 256 {
		return 64
	}
	return n
}
