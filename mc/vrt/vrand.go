package vrt

import (
	"cmp"
	"fmt"
	"iter"
	"reflect"
	"sort"
)

func rnd(n int) int {
	if n <= 1 {
		return 0
	}
	if !Active() {
		return 0
	}
	m := n
	if m > 4 {
		m = 4
	}
	return Choose(m)
}

// RandIntn replaces rand.Intn.
func RandIntn(n int) int {
	if n <= 0 {
		panic("invalid argument to Intn")
	}
	return rnd(n)
}

// RandInt31n replaces rand.Int31n.
func RandInt31n(n int32) int32 {
	if n <= 0 {
		panic("invalid argument to Int31n")
	}
	return int32(rnd(int(n)))
}

// RandInt63n replaces rand.Int63n.
func RandInt63n(n int64) int64 {
	if n <= 0 {
		panic("invalid argument to Int63n")
	}
	return int64(rnd(int(n)))
}

// RandN replaces rand/v2 N helpers.
func RandN[T ~int | ~int32 | ~int64 | ~uint | ~uint32 | ~uint64](n T) T {
	if n <= 0 {
		panic("invalid argument to N")
	}
	return T(rnd(int(n)))
}

// RandInt replaces rand.Int.
func RandInt() int { return rnd(4) }

// RandInt31 replaces rand.Int31.
func RandInt31() int32 { return int32(rnd(4)) }

// RandInt63 replaces rand.Int63.
func RandInt63() int64 { return int64(rnd(4)) }

// RandUint32 replaces rand.Uint32.
func RandUint32() uint32 { return uint32(rnd(4)) }

// RandFloat64 replaces rand.Float64.
func RandFloat64() float64 { return float64(rnd(4)) / 4 }

// RandPerm replaces rand.Perm.
func RandPerm(n int) []int {
	r := make([]int, n)
	for i := range r {
		r[i] = i
	}
	RandShuffle(n, func(i, j int) { r[i], r[j] = r[j], r[i] })
	return r
}

// RandShuffle replaces rand.Shuffle.
func RandShuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		if j := i - rnd(i+1); j != i {
			swap(i, j)
		}
	}
}

// RandSeed replaces rand.Seed.
func RandSeed(int64) {}

// MapOrder makes map iteration order a choice (set by the harness).
var MapOrder = true

// Keys lists the keys of m in an order decided by the explorer (default:
// sorted; deviations: rotations and, for up to 3 keys, every permutation).
func Keys[K comparable, V any](m map[K]V) []K {
	ks := make([]K, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sortKeys(ks)
	n := len(ks)
	if n < 2 || !Active() || !MapOrder {
		return ks
	}
	switch {
	case n == 2:
		if Choose(2) == 1 {
			ks[0], ks[1] = ks[1], ks[0]
		}
	case n == 3:
		perms := [6][3]int{{0, 1, 2}, {1, 0, 2}, {2, 0, 1}, {0, 2, 1}, {1, 2, 0}, {2, 1, 0}}
		p := perms[Choose(6)]
		ks = []K{ks[p[0]], ks[p[1]], ks[p[2]]}
	default:
		if r := Choose(n); r > 0 {
			ks = append(append([]K{}, ks[r:]...), ks[:r]...)
		}
	}
	return ks
}

// MapKeys replaces maps.Keys.
func MapKeys[M ~map[K]V, K comparable, V any](m M) iter.Seq[K] {
	return func(yield func(K) bool) {
		for _, k := range Keys(m) {
			if _, ok := m[k]; ok && !yield(k) {
				return
			}
		}
	}
}

// MapValues replaces maps.Values.
func MapValues[M ~map[K]V, K comparable, V any](m M) iter.Seq[V] {
	return func(yield func(V) bool) {
		for _, k := range Keys(m) {
			if v, ok := m[k]; ok && !yield(v) {
				return
			}
		}
	}
}

// MapAll replaces maps.All.
func MapAll[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] {
	return func(yield func(K, V) bool) {
		for _, k := range Keys(m) {
			if v, ok := m[k]; ok && !yield(k, v) {
				return
			}
		}
	}
}

func sortKeys[K comparable](ks []K) {
	sort.Slice(ks, func(i, j int) bool { return lessAny(reflect.ValueOf(ks[i]), reflect.ValueOf(ks[j])) })
}

func lessAny(a, b reflect.Value) bool {
	switch a.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return a.Int() < b.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return a.Uint() < b.Uint()
	case reflect.String:
		return cmp.Less(a.String(), b.String())
	}
	return fmt.Sprint(a.Interface()) < fmt.Sprint(b.Interface())
}
