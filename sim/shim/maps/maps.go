// Package maps stands in for maps: iteration is in the order the world decides.
package maps

import (
	"iter"
	"maps"

	"vsim/simrt"
)

func All[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] { return simrt.RangeMap(m) }
func Keys[M ~map[K]V, K comparable, V any](m M) iter.Seq[K] {
	return func(yield func(K) bool) {
		for k := range simrt.RangeMap(m) {
			if !yield(k) {
				return
			}
		}
	}
}
func Values[M ~map[K]V, K comparable, V any](m M) iter.Seq[V] {
	return func(yield func(V) bool) {
		for _, v := range simrt.RangeMap(m) {
			if !yield(v) {
				return
			}
		}
	}
}
func Clone[M ~map[K]V, K comparable, V any](m M) M                       { return maps.Clone(m) }
func Collect[K comparable, V any](s iter.Seq2[K, V]) map[K]V             { return maps.Collect(s) }
func Copy[M1 ~map[K]V, M2 ~map[K]V, K comparable, V any](d M1, s M2)     { maps.Copy(d, s) }
func DeleteFunc[M ~map[K]V, K comparable, V any](m M, f func(K, V) bool) { maps.DeleteFunc(m, f) }
func Equal[M1, M2 ~map[K]V, K, V comparable](a M1, b M2) bool            { return maps.Equal(a, b) }
func Insert[M ~map[K]V, K comparable, V any](m M, s iter.Seq2[K, V])     { maps.Insert(m, s) }
func EqualFunc[M1 ~map[K]V1, M2 ~map[K]V2, K comparable, V1, V2 any](a M1, b M2, eq func(V1, V2) bool) bool {
	return maps.EqualFunc(a, b, eq)
}
