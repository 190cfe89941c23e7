package rt

import (
	"fmt"
	"iter"
	"reflect"
	"sort"
)

// It iterates over a map in an order the simulator decides.
type It[K comparable, V any] struct {
	m    map[K]V
	keys []K
	i    int
}

//go:norace
func mapSeed() uint64 {
	if !active {
		return 0
	}
	mapIters++
	t := tasks[cur]
	t.iters++
	if cfg.MapSeed == 0 {
		return 0
	}
	id := int64(cur)<<32 | t.iters
	if cfg.MapOnly != nil && !cfg.MapOnly[id] {
		return 0
	}
	mapPerm++
	return mix(cfg.MapSeed ^ mix(uint64(id)))
}

func keysOf[M ~map[K]V, K comparable, V any](m M) []K {
	keys := make([]K, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	if ss, ok := any(keys).([]string); ok {
		sort.Strings(ss)
	} else {
		sort.Slice(keys, func(i, j int) bool { return fmt.Sprint(keys[i]) < fmt.Sprint(keys[j]) })
	}
	permute(keys)
	return keys
}

func permute[K any](keys []K) {
	s := mapSeed()
	if s == 0 {
		return
	}
	if s%8 == 0 { // reversed
		for i, j := 0, len(keys)-1; i < j; i, j = i+1, j-1 {
			keys[i], keys[j] = keys[j], keys[i]
		}
		return
	}
	for i := len(keys) - 1; i > 0; i-- {
		s = mix(s)
		j := int(s % uint64(i+1))
		keys[i], keys[j] = keys[j], keys[i]
	}
}

// MapKeysOf orders what reflect.Value.MapKeys returned.
func MapKeysOf(keys []reflect.Value) []reflect.Value {
	sort.Slice(keys, func(i, j int) bool { return fmt.Sprint(keys[i]) < fmt.Sprint(keys[j]) })
	permute(keys)
	return keys
}

// MapsAll, MapsKeys and MapsValues stand in for the functions of package maps.
func MapsAll[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] {
	return func(yield func(K, V) bool) {
		it := Iter0[M, K, V](m)
		var k K
		var v V
		for it.Next(&k, &v) {
			if !yield(k, v) {
				return
			}
		}
	}
}

func MapsKeys[M ~map[K]V, K comparable, V any](m M) iter.Seq[K] {
	return func(yield func(K) bool) {
		for k := range MapsAll[M, K, V](m) {
			if !yield(k) {
				return
			}
		}
	}
}

func MapsValues[M ~map[K]V, K comparable, V any](m M) iter.Seq[V] {
	return func(yield func(V) bool) {
		for _, v := range MapsAll[M, K, V](m) {
			if !yield(v) {
				return
			}
		}
	}
}

func Iter0[M ~map[K]V, K comparable, V any](m M) *It[K, V] {
	return &It[K, V]{m: m, keys: keysOf[M, K, V](m)}
}

func IterKV[M ~map[K]V, K comparable, V any](m M) (k K, v V, it *It[K, V]) {
	return k, v, Iter0[M, K, V](m)
}

func IterK[M ~map[K]V, K comparable, V any](m M) (k K, it *It[K, V]) {
	return k, Iter0[M, K, V](m)
}

func IterV[M ~map[K]V, K comparable, V any](m M) (v V, it *It[K, V]) {
	return v, Iter0[M, K, V](m)
}

// Next stores the next live entry; entries deleted meanwhile are skipped.
func (it *It[K, V]) Next(k *K, v *V) bool {
	for it.i < len(it.keys) {
		key := it.keys[it.i]
		it.i++
		val, ok := it.m[key]
		if !ok && key == key {
			continue
		}
		if k != nil {
			*k = key
		}
		if v != nil {
			*v = val
		}
		return true
	}
	return false
}

// Zero resets a package variable.
func Zero[T any](p *T) {
	var z T
	*p = z
}
