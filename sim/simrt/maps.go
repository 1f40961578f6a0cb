package simrt

import (
	"fmt"
	"iter"
	"reflect"
	"sort"
)

// RangeMap iterates over a map in the order the world decides.
func RangeMap[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] {
	return func(yield func(K, V) bool) {
		for _, k := range mapKeys(m) {
			v, ok := m[k]
			if !ok {
				if k == k {
					continue // deleted meanwhile
				}
			}
			if !yield(k, v) {
				return
			}
		}
	}
}

func mapKeys[M ~map[K]V, K comparable, V any](m M) []K {
	keys := make([]K, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	if len(keys) < 2 {
		return keys
	}
	switch reflect.TypeFor[K]().Kind() {
	case reflect.String:
		sort.Slice(keys, func(i, j int) bool { return reflect.ValueOf(keys[i]).String() < reflect.ValueOf(keys[j]).String() })
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		sort.Slice(keys, func(i, j int) bool { return reflect.ValueOf(keys[i]).Int() < reflect.ValueOf(keys[j]).Int() })
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		sort.Slice(keys, func(i, j int) bool { return reflect.ValueOf(keys[i]).Uint() < reflect.ValueOf(keys[j]).Uint() })
	default:
		// pointers have no order of their own: what they print as must do,
		// addresses taken away
		name := map[any]string{}
		for _, k := range keys {
			name[k] = describe(reflect.ValueOf(any(k)), 0)
		}
		sort.SliceStable(keys, func(i, j int) bool { return name[keys[i]] < name[keys[j]] })
	}
	if r := MapRand(); r != nil {
		r.Shuffle(len(keys), func(i, j int) { keys[i], keys[j] = keys[j], keys[i] })
	}
	return keys
}

func describe(v reflect.Value, depth int) string {
	if depth > 3 || !v.IsValid() {
		return ""
	}
	if v.CanInterface() {
		switch x := v.Interface().(type) {
		case interface{ Ident() string }:
			return safe(x.Ident)
		case interface{ Name() string }:
			return safe(x.Name)
		}
	}
	switch v.Kind() {
	case reflect.Pointer, reflect.Interface:
		return describe(v.Elem(), depth+1)
	case reflect.Struct:
		s := v.Type().String()
		for i := 0; i < v.NumField(); i++ {
			s += "," + describe(v.Field(i), depth+1)
		}
		return s
	case reflect.String:
		return v.String()
	case reflect.Bool, reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return fmt.Sprint(v)
	}
	return v.Type().String()
}

func safe(f func() string) (s string) {
	defer func() { recover() }()
	return f()
}
