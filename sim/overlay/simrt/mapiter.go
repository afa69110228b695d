package simrt

import (
	"fmt"
	"reflect"
	"sort"
)

// MapKeys returns the keys of m in an order that is a function of the seed only.
func MapKeys[M ~map[K]V, K comparable, V any](m M) []K {
	ks := make([]K, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	if len(ks) < 2 {
		return ks
	}
	sort.Slice(ks, func(i, j int) bool { return less(reflect.ValueOf(&ks[i]).Elem(), reflect.ValueOf(&ks[j]).Elem()) < 0 })
	if S != nil && !S.aborted {
		if x := S.Draw(StreamMisc, 1<<20); x != 0 {
			r := NewRand(uint64(x))
			for i := len(ks) - 1; i > 0; i-- {
				j := r.Intn(i + 1)
				ks[i], ks[j] = ks[j], ks[i]
			}
		}
	}
	return ks
}

func less(a, b reflect.Value) int {
	cmp := func(x, y bool) int {
		if x {
			return -1
		}
		if y {
			return 1
		}
		return 0
	}
	switch a.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return cmp(a.Int() < b.Int(), b.Int() < a.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return cmp(a.Uint() < b.Uint(), b.Uint() < a.Uint())
	case reflect.String:
		return cmp(a.String() < b.String(), b.String() < a.String())
	case reflect.Float32, reflect.Float64:
		return cmp(a.Float() < b.Float(), b.Float() < a.Float())
	case reflect.Bool:
		return cmp(!a.Bool() && b.Bool(), !b.Bool() && a.Bool())
	case reflect.Array:
		for i := 0; i < a.Len(); i++ {
			if c := less(a.Index(i), b.Index(i)); c != 0 {
				return c
			}
		}
		return 0
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if c := less(a.Field(i), b.Field(i)); c != 0 {
				return c
			}
		}
		return 0
	case reflect.Interface:
		if a.IsNil() || b.IsNil() {
			return cmp(a.IsNil() && !b.IsNil(), b.IsNil() && !a.IsNil())
		}
		x, y := fmt.Sprint(a.Elem().Type()), fmt.Sprint(b.Elem().Type())
		if x != y {
			return cmp(x < y, y < x)
		}
		return less(a.Elem(), b.Elem())
	}
	return 0
}
