// Package zzverif is the run-time library of the executable specifications in
// /verif/contracts. The deductive verifier gives every function below its
// logical meaning; the definitions here are the executable meaning used by the
// replay and by the bounded stand-ins.
package zzverif

import (
	"fmt"
	"reflect"
)

// Skipped is raised when a precondition is not met.
type Skipped struct{}

// Failed is raised when a postcondition is not met.
type Failed struct{ Label string }

// Panics is set by MayPanic for the current evaluation.
var Panics bool

// Mods holds the values declared with Modifies during the current evaluation.
var Mods []any

// Checked counts evaluated postconditions.
var Checked int

// Seen counts postconditions by label.
var Seen = map[string]int{}

var reqs int

func Requires(c bool) {
	reqs++
	if !c {
		panic(Skipped{})
	}
}

func Ensures(label string, c bool) {
	Checked++
	Seen[label]++
	if !c {
		panic(Failed{label})
	}
}

// Assert is an intermediate proof step.
func Assert(label string, c bool) {
	if !c {
		panic(Failed{label})
	}
}

// Lemma is an intermediate proof step.
func Lemma(label string, c bool) { Assert(label, c) }

func ForAll(n int, f func(i int) bool) bool {
	for i := 0; i < n; i++ {
		if !f(i) {
			return false
		}
	}
	return true
}

func Exists(n int, f func(i int) bool) bool {
	for i := 0; i < n; i++ {
		if f(i) {
			return true
		}
	}
	return false
}

func ForAllKeys[M ~map[K]V, K comparable, V any](m M, f func(k K, v V) bool) bool {
	for k, v := range m {
		if !f(k, v) {
			return false
		}
	}
	return true
}

func Modifies[T any](v T) { Mods = append(Mods, v) }
func MayPanic()           { Panics = true }
func Split[T any](v T)    {}

// Using: the specification stands for a call in the verification of a caller.
func Using() bool         { return false }
func Prove() bool         { return false }
func Bounded(c bool) bool { return c }

// IsFresh: v was not reachable from the inputs.
func IsFresh[T any](v T) bool {
	r := reflect.ValueOf(&v).Elem()
	for r.Kind() == reflect.Interface {
		r = r.Elem()
	}
	switch r.Kind() {
	case reflect.Pointer, reflect.Map, reflect.Slice:
		return !inputObjs[r.Pointer()]
	}
	return true
}

// Same is identity: equal scalars, the same pointer, the same backing array.
func Same[T any](a, b T) bool {
	return same(reflect.ValueOf(&a).Elem(), reflect.ValueOf(&b).Elem())
}

func same(a, b reflect.Value) bool {
	switch a.Kind() {
	case reflect.Slice:
		return a.Len() == b.Len() && a.Pointer() == b.Pointer() && a.IsNil() == b.IsNil()
	case reflect.Map, reflect.Func, reflect.Pointer, reflect.Chan:
		return a.Pointer() == b.Pointer()
	case reflect.Interface:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		if a.Elem().Type() != b.Elem().Type() {
			return false
		}
		return same(a.Elem(), b.Elem())
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if !same(a.Field(i), b.Field(i)) {
				return false
			}
		}
		return true
	case reflect.Array:
		for i := 0; i < a.Len(); i++ {
			if !same(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Bool:
		return a.Bool() == b.Bool()
	case reflect.String:
		return a.String() == b.String()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return a.Int() == b.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return a.Uint() == b.Uint()
	case reflect.Float32, reflect.Float64:
		return a.Float() == b.Float()
	}
	panic(fmt.Sprintf("zzverif.Same: %s", a.Kind()))
}

func MapClone[M ~map[K]V, K comparable, V any](m M) M {
	n := M{}
	for k, v := range m {
		n[k] = v
	}
	return n
}
