package zzverif

import (
	"encoding/json"
	"errors"
	"fmt"
	"hash/fnv"
	"math"
	"math/rand"
	"os"
	"reflect"
	"runtime/debug"
	"sort"
	"strings"
	"sync/atomic"
	"time"
	"unsafe"
)

// SpecEntry is a specification function to execute.
type SpecEntry struct {
	Name   string
	Fn     any
	Inputs any  // func(*Gen) (args...) or nil
	NReq   int  // preconditions
	Iface  bool // the first argument is not nil
}

// TypeEntry is a type an interface may hold.
type TypeEntry struct {
	T    reflect.Type
	Name string
}

// Reg is the registry of a package under replay.
type Reg struct {
	Types []TypeEntry
	Gens  []any // func(*Gen) T
	Specs []SpecEntry
}

// Task asks for the execution of one specification.
type Task struct {
	Spec string
	Only string // dynamic type of the first interface parameter, "" for any
	Ms   int    // time limit
	N    int    // number of evaluations (0: by time)
	From int    // first iteration
	Seed int64
}

// Config is read from the file named by VC_FUZZ.
type Config struct {
	Tasks []Task
	Ints  []int64
	Strs  []string
	Out   string
}

// Report of one task.
type Report struct {
	Spec     string
	Only     string
	GenErr   string
	Evals    int // evaluations whose precondition held
	Tried    int
	Checked  int // postconditions evaluated
	Distinct int
	Label    string // failed postcondition, "" when none
	Kind     string // postcondition, panic, frame, hang
	Detail   string
	Input    string
	Seed     int64
	Iter     int
	Samples  []string
	Done     bool
}

// Gen generates values.
type Gen struct {
	R      *rand.Rand
	reg    *Reg
	ints   []int64
	strs   []string
	max    int
	budget int
	only   string
}

var gens map[reflect.Type]reflect.Value

// Make generates a value of type T.
func Make[T any](g *Gen) T {
	var z T
	v := g.val(reflect.TypeOf(&z).Elem(), 1)
	for v.Kind() == reflect.Pointer && v.IsNil() && g.budget > -2000 {
		v = g.val(reflect.TypeOf(&z).Elem(), 1)
	}
	reflect.ValueOf(&z).Elem().Set(v)
	return z
}

// MakeOnly generates a value of the interface type T that has the dynamic type
// asked for.
func MakeOnly[T any](g *Gen) T {
	t := reflect.TypeFor[T]()
	if g.only != "" {
		for _, te := range g.reg.Types {
			if te.Name == g.only && te.T.Implements(t) {
				var z T
				reflect.ValueOf(&z).Elem().Set(g.concrete(te.T, 1))
				return z
			}
		}
	}
	return Make[T](g)
}

// MakeRaw generates a value of type T without its registered generator.
func MakeRaw[T any](g *Gen) T {
	var z T
	v := g.raw(reflect.TypeOf(&z).Elem(), 1)
	reflect.ValueOf(&z).Elem().Set(v)
	return z
}

func (g *Gen) Intn(n int) int { return g.R.Intn(n) }
func (g *Gen) Bool() bool     { return g.R.Intn(2) == 0 }

// Chance is true with probability n in d.
func (g *Gen) Chance(n, d int) bool { return g.R.Intn(d) < n }

// Depth is how deep values may still nest.
func (g *Gen) Depth() int { return g.max }

// Deeper runs f with less depth available.
func (g *Gen) Deeper(f func()) {
	g.max--
	f()
	g.max++
}

// OneOf picks one of its arguments.
func OneOf[T any](g *Gen, vs ...T) T { return vs[g.Intn(len(vs))] }

// Only is the dynamic type asked for the first interface parameter.
func (g *Gen) Only() string { return g.only }

// Str generates a string.
func (g *Gen) Str() string {
	switch k := g.Intn(10); {
	case k < 6:
		return []string{"", "a", "b", "c", "ab"}[g.Intn(5)]
	case k < 9 && len(g.strs) > 0:
		return g.strs[g.Intn(len(g.strs))]
	}
	if g.Intn(4) == 0 {
		return []string{"h\u00e9", "\u65e5\u672c", "a b", "A", "\x00"}[g.Intn(5)]
	}
	return fmt.Sprintf("s%d", g.Intn(100))
}

// Near generates a string close to s: with something added, dropped or changed.
func (g *Gen) Near(s string) string {
	piece := func() string {
		if len(g.ints) > 0 && g.Chance(1, 2) {
			for i := 0; i < 8; i++ {
				if c := g.ints[g.Intn(len(g.ints))]; c > 32 && c < 127 {
					return string(rune(c))
				}
			}
		}
		if len(g.strs) > 0 && g.Chance(1, 3) {
			return g.strs[g.Intn(len(g.strs))]
		}
		return []string{"/", ":", "_", " ", ".", "?", "x", "s", "0"}[g.Intn(9)]
	}
	switch k := g.Intn(10); {
	case k < 5:
		return s + piece()
	case k < 7:
		return piece() + s
	case k == 7 && len(s) > 0:
		return s[:len(s)-1]
	case k == 8:
		return strings.ToUpper(s)
	}
	return s
}

// Int generates an integer, mostly small.
func (g *Gen) Int() int64 {
	switch k := g.Intn(20); {
	case k < 8:
		return int64(g.Intn(4))
	case k < 13:
		return int64(g.Intn(12)) - 1
	case k < 17 && len(g.ints) > 0:
		return g.ints[g.Intn(len(g.ints))] + int64(g.Intn(3)) - 1
	case k < 18:
		return []int64{math.MinInt64, math.MaxInt64, math.MinInt32, math.MaxInt32, math.MaxUint32, math.MaxInt16, 1 << 53, math.MinInt32 - 1, math.MaxInt32 + 1}[g.Intn(9)]
	case k < 19:
		return int64(g.R.Uint64())
	}
	return int64(g.Intn(300)) - 100
}

func internalType(t reflect.Type) bool {
	return strings.HasPrefix(t.PkgPath(), "google.golang.org/protobuf/internal") || strings.HasPrefix(t.PkgPath(), "sync")
}

func skipField(f reflect.StructField) bool {
	switch f.Name {
	case "state", "sizeCache", "unknownFields", "weakFields", "extensionFields":
		return true
	}
	return internalType(f.Type)
}

func settable(v reflect.Value) reflect.Value {
	if v.CanSet() {
		return v
	}
	return reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
}

func (g *Gen) val(t reflect.Type, d int) reflect.Value {
	if f, ok := gens[t]; ok {
		return f.Call([]reflect.Value{reflect.ValueOf(g)})[0]
	}
	return g.raw(t, d)
}

func (g *Gen) raw(t reflect.Type, d int) reflect.Value {
	v := reflect.New(t).Elem()
	g.budget--
	if d > g.max+12 || g.budget < -2000 {
		return v
	}
	switch t.Kind() {
	case reflect.Bool:
		v.SetBool(g.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(g.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		v.SetUint(uint64(g.Int()))
	case reflect.Float32, reflect.Float64:
		v.SetFloat([]float64{0, 1, 1.5, -2.25, 1e30, float64(g.Intn(100))}[g.Intn(6)])
	case reflect.String:
		v.SetString(g.Str())
	case reflect.Pointer:
		if g.Intn(30) == 0 {
			return v
		}
		e := reflect.New(t.Elem())
		e.Elem().Set(g.val(t.Elem(), d))
		if t != e.Type() {
			e = e.Convert(t)
		}
		return e
	case reflect.Slice:
		if g.Intn(8) == 0 {
			return v
		}
		n := 0
		if d <= g.max || leafy(t.Elem(), 0) {
			n = []int{0, 1, 1, 2, 2, 3, 4}[g.Intn(7)]
		}
		c := n
		if g.Bool() {
			c += 1 + g.Intn(3)
		}
		s := reflect.MakeSlice(t, c, c)
		for i := 0; i < c; i++ {
			s.Index(i).Set(g.val(t.Elem(), d+1))
		}
		return s.Slice3(0, n, c)
	case reflect.Array:
		for i := 0; i < t.Len(); i++ {
			v.Index(i).Set(g.val(t.Elem(), d))
		}
	case reflect.Map:
		if g.Intn(10) == 0 {
			return v
		}
		m := reflect.MakeMap(t)
		for i := g.Intn(4); i > 0; i-- {
			m.SetMapIndex(g.val(t.Key(), d+1), g.val(t.Elem(), d+1))
		}
		return m
	case reflect.Struct:
		if internalType(t) {
			return v
		}
		for i := 0; i < t.NumField(); i++ {
			if skipField(t.Field(i)) {
				continue
			}
			settable(v.Field(i)).Set(g.val(t.Field(i).Type, d+1))
		}
	case reflect.Interface:
		return g.iface(t, d)
	case reflect.Func:
		return g.fn(t)
	}
	return v
}

var candC = map[reflect.Type][]reflect.Type{}
var leafC = map[reflect.Type][]reflect.Type{}

// leafy: values of the type hold no further interfaces or message pointers.
func leafy(t reflect.Type, d int) bool {
	if d > 4 {
		return false
	}
	switch t.Kind() {
	case reflect.Interface, reflect.Func, reflect.Chan, reflect.Map:
		return false
	case reflect.Slice:
		return leafy(t.Elem(), d+1) && t.Elem().Kind() != reflect.Struct && t.Elem().Kind() != reflect.Pointer
	case reflect.Pointer, reflect.Array:
		return leafy(t.Elem(), d+1)
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if skipField(t.Field(i)) {
				continue
			}
			if !leafy(t.Field(i).Type, d+1) {
				return false
			}
		}
	}
	return true
}

var errT = reflect.TypeOf((*error)(nil)).Elem()

func (g *Gen) iface(t reflect.Type, d int) reflect.Value {
	v := reflect.New(t).Elem()
	if t == errT {
		if g.Intn(3) == 0 {
			v.Set(reflect.ValueOf(errors.New("e")))
		}
		return v
	}
	cs, ok := candC[t]
	if !ok {
		for _, te := range g.reg.Types {
			c := te.T
			if c.Implements(t) {
				cs = append(cs, c)
				if leafy(c, 0) {
					leafC[t] = append(leafC[t], c)
				}
			}
		}
		candC[t] = cs
	}
	if t.NumMethod() == 0 {
		switch g.Intn(4) {
		case 0:
			v.Set(reflect.ValueOf(g.Int()))
		case 1:
			v.Set(reflect.ValueOf(g.Str()))
		case 2:
			v.Set(reflect.ValueOf(int32(g.Int())))
		}
		return v
	}
	if len(cs) == 0 || g.Intn(40) == 0 {
		return v
	}
	if d > g.max {
		if len(leafC[t]) == 0 {
			if d > g.max+4 {
				return v
			}
		} else {
			cs = leafC[t]
		}
	}
	c := cs[g.Intn(len(cs))]
	v.Set(g.concrete(c, d))
	return v
}

func (g *Gen) concrete(c reflect.Type, d int) reflect.Value {
	if c.Kind() == reflect.Pointer {
		if f, ok := gens[c]; ok {
			return f.Call([]reflect.Value{reflect.ValueOf(g)})[0]
		}
		e := reflect.New(c.Elem())
		e.Elem().Set(g.val(c.Elem(), d))
		return e
	}
	return g.val(c, d)
}

// fn makes a deterministic function.
func (g *Gen) fn(t reflect.Type) reflect.Value {
	seed := g.R.Int63()
	h := *g
	return reflect.MakeFunc(t, func(args []reflect.Value) []reflect.Value {
		s := seed
		for _, a := range args {
			s = s*1000003 + int64(deep(a))
		}
		k := h
		k.R = rand.New(rand.NewSource(s))
		k.budget = 50
		k.max = 1
		var out []reflect.Value
		for i := 0; i < t.NumOut(); i++ {
			o := t.Out(i)
			if o == errT {
				z := reflect.New(o).Elem()
				if k.Intn(6) == 0 {
					z.Set(reflect.ValueOf(errors.New("refused")))
				}
				out = append(out, z)
				continue
			}
			done := false
			if k.Bool() {
				for _, a := range args {
					if a.Type() == o {
						out = append(out, a)
						done = true
						break
					}
				}
			}
			if !done {
				out = append(out, k.val(o, 1))
			}
		}
		return out
	})
}

// ---- digests

func deep(v reflect.Value) uint64 {
	h := fnv.New64a()
	deepW(v, h, 0)
	return h.Sum64()
}

type hasher interface{ Write([]byte) (int, error) }

func deepW(v reflect.Value, h hasher, d int) {
	if d > 40 {
		return
	}
	if !v.IsValid() {
		fmt.Fprint(h, "!")
		return
	}
	fmt.Fprint(h, int(v.Kind()), ";")
	switch v.Kind() {
	case reflect.Pointer, reflect.Interface:
		if v.IsNil() {
			fmt.Fprint(h, "nil")
			return
		}
		if v.Kind() == reflect.Interface {
			fmt.Fprint(h, v.Elem().Type().String())
		}
		deepW(v.Elem(), h, d+1)
	case reflect.Slice, reflect.Array:
		fmt.Fprint(h, v.Len())
		for i := 0; i < v.Len(); i++ {
			deepW(v.Index(i), h, d+1)
		}
	case reflect.Map:
		var s uint64
		for _, k := range v.MapKeys() {
			f := fnv.New64a()
			deepW(k, f, d+1)
			deepW(v.MapIndex(k), f, d+1)
			s += f.Sum64()
		}
		fmt.Fprint(h, s)
	case reflect.Struct:
		if internalType(v.Type()) {
			return
		}
		for i := 0; i < v.NumField(); i++ {
			if !skipField(v.Type().Field(i)) {
				deepW(v.Field(i), h, d+1)
			}
		}
	case reflect.Func:
	default:
		scalar(v, h)
	}
}

func scalar(v reflect.Value, h hasher) {
	switch v.Kind() {
	case reflect.Bool:
		fmt.Fprint(h, v.Bool())
	case reflect.String:
		fmt.Fprint(h, len(v.String()), v.String())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		fmt.Fprint(h, v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		fmt.Fprint(h, v.Uint())
	case reflect.Float32, reflect.Float64:
		fmt.Fprint(h, math.Float64bits(v.Float()))
	}
}

// shallow: contents of one object, references by address.
func shallow(v reflect.Value, h hasher) {
	switch v.Kind() {
	case reflect.Pointer, reflect.Map, reflect.Func, reflect.Chan, reflect.UnsafePointer:
		fmt.Fprint(h, v.Pointer(), ";")
	case reflect.Slice:
		fmt.Fprint(h, v.Pointer(), ",", v.Len(), ",", v.Cap(), ";")
	case reflect.Interface:
		if v.IsNil() {
			fmt.Fprint(h, "nil;")
			return
		}
		fmt.Fprint(h, v.Elem().Type().String(), ":")
		shallow(v.Elem(), h)
	case reflect.Struct:
		if internalType(v.Type()) {
			return
		}
		for i := 0; i < v.NumField(); i++ {
			if !skipField(v.Type().Field(i)) {
				shallow(v.Field(i), h)
			}
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			shallow(v.Index(i), h)
		}
	default:
		scalar(v, h)
		fmt.Fprint(h, ";")
	}
}

type object struct {
	v    reflect.Value
	kind int // 0 pointer target, 1 slice array, 2 map
	addr uintptr
	dig  uint64
}

func (o *object) digest() uint64 {
	h := fnv.New64a()
	switch o.kind {
	case 0:
		shallow(o.v, h)
	case 1:
		for i := 0; i < o.v.Len(); i++ {
			shallow(o.v.Index(i), h)
		}
	case 2:
		var s uint64
		for _, k := range o.v.MapKeys() {
			f := fnv.New64a()
			shallow(k, f)
			shallow(o.v.MapIndex(k), f)
			s += f.Sum64()
		}
		fmt.Fprint(h, s)
	}
	return h.Sum64()
}

type objKey struct {
	addr uintptr
	t    reflect.Type
}

var inputObjs map[uintptr]bool

func snapshot(args []reflect.Value) []*object {
	seen := map[objKey]bool{}
	var out []*object
	var walk func(v reflect.Value)
	add := func(o *object) { o.dig = o.digest(); out = append(out, o) }
	walk = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Pointer:
			if v.IsNil() || seen[objKey{v.Pointer(), v.Type()}] {
				return
			}
			seen[objKey{v.Pointer(), v.Type()}] = true
			add(&object{v.Elem(), 0, v.Pointer(), 0})
			walk(v.Elem())
		case reflect.Slice:
			if v.Cap() == 0 || seen[objKey{v.Pointer(), v.Type()}] {
				return
			}
			seen[objKey{v.Pointer(), v.Type()}] = true
			b := v.Slice3(0, v.Cap(), v.Cap())
			add(&object{b, 1, v.Pointer(), 0})
			for i := 0; i < b.Len(); i++ {
				walk(b.Index(i))
			}
		case reflect.Map:
			if v.IsNil() || seen[objKey{v.Pointer(), v.Type()}] {
				return
			}
			seen[objKey{v.Pointer(), v.Type()}] = true
			add(&object{v, 2, v.Pointer(), 0})
			for _, k := range v.MapKeys() {
				walk(k)
				walk(v.MapIndex(k))
			}
		case reflect.Interface:
			if !v.IsNil() {
				walk(v.Elem())
			}
		case reflect.Struct:
			if internalType(v.Type()) {
				return
			}
			for i := 0; i < v.NumField(); i++ {
				if !skipField(v.Type().Field(i)) {
					walk(v.Field(i))
				}
			}
		case reflect.Array:
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i))
			}
		}
	}
	for _, a := range args {
		walk(a)
	}
	return out
}

// ---- display

// Show writes out a value, following references.
func Show(v reflect.Value) string {
	var b strings.Builder
	show(&b, v, 0)
	s := b.String()
	if len(s) > 6000 {
		s = s[:6000] + "..."
	}
	return s
}

func show(b *strings.Builder, v reflect.Value, d int) {
	if d > 25 || b.Len() > 8000 {
		b.WriteString("...")
		return
	}
	if !v.IsValid() {
		b.WriteString("nil")
		return
	}
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		b.WriteString("&")
		show(b, v.Elem(), d+1)
	case reflect.Interface:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		show(b, v.Elem(), d+1)
	case reflect.Struct:
		b.WriteString(v.Type().String() + "{")
		first := true
		for i := 0; i < v.NumField(); i++ {
			f := v.Type().Field(i)
			if skipField(f) || v.Field(i).IsZero() {
				continue
			}
			if !first {
				b.WriteString(", ")
			}
			first = false
			b.WriteString(f.Name + ": ")
			show(b, v.Field(i), d+1)
		}
		b.WriteString("}")
	case reflect.Slice, reflect.Array:
		if v.Kind() == reflect.Slice && v.IsNil() {
			b.WriteString("nil")
			return
		}
		b.WriteString(v.Type().String() + "{")
		for i := 0; i < v.Len(); i++ {
			if i > 0 {
				b.WriteString(", ")
			}
			show(b, v.Index(i), d+1)
		}
		b.WriteString("}")
		if v.Kind() == reflect.Slice && v.Cap() > v.Len() {
			fmt.Fprintf(b, "/*cap %d*/", v.Cap())
		}
	case reflect.Map:
		b.WriteString(v.Type().String() + "{")
		var es []string
		for _, k := range v.MapKeys() {
			var e strings.Builder
			show(&e, k, d+1)
			e.WriteString(": ")
			show(&e, v.MapIndex(k), d+1)
			es = append(es, e.String())
		}
		sort.Strings(es)
		b.WriteString(strings.Join(es, ", ") + "}")
	case reflect.String:
		fmt.Fprintf(b, "%q", v.String())
	case reflect.Bool:
		fmt.Fprint(b, v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		fmt.Fprint(b, v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		fmt.Fprint(b, v.Uint())
	case reflect.Float32, reflect.Float64:
		fmt.Fprint(b, v.Float())
	case reflect.Func:
		b.WriteString("func(...)")
	default:
		b.WriteString(v.Kind().String())
	}
}

// ---- copies with one change

// Clone is a deep copy.
func Clone[T any](v T) T {
	r := copyV(reflect.ValueOf(&v).Elem(), 0)
	return r.Interface().(T)
}

func copyV(v reflect.Value, d int) reflect.Value {
	n := reflect.New(v.Type()).Elem()
	if d > 60 {
		return n
	}
	if v.CanAddr() && !v.CanInterface() {
		v = settable(v)
	}
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() {
			return n
		}
		e := reflect.New(v.Type().Elem())
		e.Elem().Set(copyV(v.Elem(), d+1))
		n.Set(e)
	case reflect.Interface:
		if v.IsNil() {
			return n
		}
		e := v.Elem()
		if e.Kind() != reflect.Pointer {
			t := reflect.New(e.Type()).Elem()
			t.Set(e)
			e = t
		}
		n.Set(copyV(e, d+1))
	case reflect.Slice:
		if v.IsNil() {
			return n
		}
		n.Set(reflect.MakeSlice(v.Type(), v.Len(), v.Len()))
		for i := 0; i < v.Len(); i++ {
			n.Index(i).Set(copyV(v.Index(i), d+1))
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			n.Index(i).Set(copyV(v.Index(i), d+1))
		}
	case reflect.Map:
		if v.IsNil() {
			return n
		}
		n.Set(reflect.MakeMap(v.Type()))
		for _, k := range v.MapKeys() {
			n.SetMapIndex(k, v.MapIndex(k))
		}
	case reflect.Struct:
		if internalType(v.Type()) {
			return n
		}
		if !v.CanAddr() {
			t := reflect.New(v.Type()).Elem()
			t.Set(v)
			v = t
		}
		for i := 0; i < v.NumField(); i++ {
			if !skipField(v.Type().Field(i)) {
				settable(n.Field(i)).Set(copyV(settable(v.Field(i)), d+1))
			}
		}
	default:
		n.Set(v)
	}
	return n
}

// Mutate changes one place of v (a pointer to the value).
func (g *Gen) Mutate(p any) { g.mutate(reflect.ValueOf(p).Elem(), false) }

// MutateKeep is Mutate that puts no nil pointer or interface in.
func (g *Gen) MutateKeep(p any) { g.mutate(reflect.ValueOf(p).Elem(), true) }

func holdsNil(v reflect.Value, d int) bool {
	switch v.Kind() {
	case reflect.Pointer, reflect.Interface:
		return v.IsNil() || d > 0 && holdsNil(v.Elem(), d-1)
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			if holdsNil(v.Index(i), d) {
				return true
			}
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if k := v.Field(i).Kind(); k == reflect.Struct || k == reflect.Interface || k == reflect.Pointer {
				if holdsNil(v.Field(i), 0) {
					return true
				}
			}
		}
	}
	return false
}

func (g *Gen) mutate(v reflect.Value, keep bool) {
	newVal := func(t reflect.Type) (reflect.Value, bool) {
		for i := 0; i < 20; i++ {
			if w := g.val(t, 2); !keep || !holdsNil(w, 0) {
				return w, true
			}
		}
		return reflect.Value{}, false
	}
	var spots []reflect.Value
	var walk func(v reflect.Value, d int)
	walk = func(v reflect.Value, d int) {
		if d > 30 || len(spots) > 300 {
			return
		}
		if v.CanAddr() {
			v = settable(v)
			spots = append(spots, v)
		}
		if strings.HasSuffix(v.Type().String(), "FunctionVariant") {
			return // declarations are shared and not part of the value
		}
		switch v.Kind() {
		case reflect.Pointer:
			if !v.IsNil() {
				walk(v.Elem(), d+1)
			}
		case reflect.Interface:
			if !v.IsNil() && v.Elem().Kind() == reflect.Pointer {
				walk(v.Elem(), d+1)
			}
		case reflect.Slice, reflect.Array:
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i), d+1)
			}
		case reflect.Struct:
			if internalType(v.Type()) {
				return
			}
			for i := 0; i < v.NumField(); i++ {
				if !skipField(v.Type().Field(i)) {
					walk(v.Field(i), d+1)
				}
			}
		}
	}
	walk(v, 0)
	if len(spots) == 0 {
		return
	}
	s := spots[g.Intn(len(spots))]
	if s.Kind() == reflect.Slice && g.Bool() {
		switch {
		case s.Len() > 0 && g.Bool():
			s.Set(s.Slice(0, s.Len()-1))
		default:
			if w, ok := newVal(s.Type().Elem()); ok {
				s.Set(reflect.Append(s, w))
			}
		}
		return
	}
	if w, ok := newVal(s.Type()); ok {
		s.Set(w)
	}
}

// ---- execution

func (g *Gen) args(e *SpecEntry, ft reflect.Type) []reflect.Value {
	if e.Inputs != nil {
		return reflect.ValueOf(e.Inputs).Call([]reflect.Value{reflect.ValueOf(g)})
	}
	var out []reflect.Value
	restricted := g.only == ""
	for i := 0; i < ft.NumIn(); i++ {
		t := ft.In(i)
		var v reflect.Value
		done := false
		if t.Kind() == reflect.Interface && !restricted {
			restricted = true
			for _, te := range g.reg.Types {
				c := te.T
				if te.Name == g.only && c.Implements(t) {
					v = reflect.New(t).Elem()
					v.Set(g.concrete(c, 1))
					done = true
				}
			}
		}
		if !done {
			for j := 0; j < i; j++ {
				if ft.In(j) == t && (t.Kind() == reflect.Interface || t.Kind() == reflect.Pointer || t.Kind() == reflect.Slice || t.Kind() == reflect.Struct) && g.Intn(3) != 0 {
					switch g.Intn(4) {
					case 0:
						v = out[j]
					default:
						v = copyV(out[j], 0)
						if g.Bool() {
							p := reflect.New(t).Elem()
							p.Set(v)
							g.mutate(p, false)
							v = p
						}
					}
					done = true
					break
				}
			}
		}
		if !done {
			v = g.val(t, 1)
		}
		out = append(out, v)
	}
	return out
}

var evalStart atomic.Int64

func evalOne(e *SpecEntry, args []reflect.Value) (skipped bool, kind, label, detail string) {
	snap := snapshot(args)
	inputObjs = map[uintptr]bool{}
	for _, o := range snap {
		if o.kind == 0 && o.v.Type().Size() == 0 {
			continue
		}
		inputObjs[o.addr] = true
	}
	Panics, Mods, reqs = false, nil, 0
	evalStart.Store(time.Now().UnixNano())
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch f := r.(type) {
				case Skipped:
					skipped = true
				case Failed:
					kind, label = "postcondition", f.Label
				default:
					st := string(debug.Stack())
					if inSpec(st) && reqs < e.NReq {
						skipped = true
						return
					}
					if !Panics || inSpec(st) {
						kind, label = "panic", "no-panic"
						detail = fmt.Sprintf("panic: %v\n%s", r, trimStack(st))
					}
				}
			}
		}()
		reflect.ValueOf(e.Fn).Call(args)
	}()
	evalStart.Store(0)
	if skipped || kind != "" {
		return
	}
	mods := map[uintptr]bool{}
	for _, m := range Mods {
		v := reflect.ValueOf(m)
		switch v.Kind() {
		case reflect.Pointer, reflect.Map, reflect.Slice:
			mods[v.Pointer()] = true
		}
	}
	for _, o := range snap {
		if mods[o.addr] {
			continue
		}
		if o.digest() != o.dig {
			kind, label = "frame", "frame"
			detail = fmt.Sprintf("an input object of type %s was modified; it is now %s", o.v.Type(), Show(o.v))
			return
		}
	}
	return
}

// inSpec: the panic was raised by the specification itself.
func inSpec(st string) bool {
	ls := strings.Split(st, "\n")
	for i, l := range ls {
		if strings.HasPrefix(l, "panic(") {
			for j := i + 1; j < len(ls); j++ {
				if strings.HasPrefix(ls[j], "\t") {
					if strings.Contains(ls[j], "/src/runtime/") {
						continue
					}
					return strings.Contains(ls[j], "zz_verif_")
				}
			}
		}
	}
	return false
}

func trimStack(s string) string {
	ls := strings.Split(s, "\n")
	var out []string
	for i, l := range ls {
		if strings.Contains(l, "zz_verif_fuzz.go") || strings.Contains(l, "/runtime/") || strings.Contains(l, "reflect.") {
			continue
		}
		if i > 0 && len(out) < 16 {
			out = append(out, l)
		}
	}
	return strings.Join(out, "\n")
}

// RunFuzz executes the tasks of the configuration.
func RunFuzz(reg *Reg) {
	path := os.Getenv("VC_FUZZ")
	if path == "" {
		return
	}
	b, err := os.ReadFile(path)
	if err != nil {
		panic(err)
	}
	var c Config
	if err := json.Unmarshal(b, &c); err != nil {
		panic(err)
	}
	debug.SetMaxStack(256 << 20)
	gens = map[reflect.Type]reflect.Value{}
	for _, f := range reg.Gens {
		v := reflect.ValueOf(f)
		gens[v.Type().Out(0)] = v
	}
	specs := map[string]*SpecEntry{}
	for i := range reg.Specs {
		specs[reg.Specs[i].Name] = &reg.Specs[i]
	}
	f, err := os.Create(c.Out)
	if err != nil {
		panic(err)
	}
	defer f.Close()
	out := json.NewEncoder(f)
	var cur Report
	go func() {
		for {
			time.Sleep(500 * time.Millisecond)
			if s := evalStart.Load(); s != 0 && time.Now().UnixNano()-s > int64(20*time.Second) {
				r := cur
				r.Kind, r.Label, r.Detail, r.Done = "hang", "terminates", "one evaluation ran for more than 20 s", true
				out.Encode(r)
				f.Close()
				os.Exit(3)
			}
		}
	}()
	for _, t := range c.Tasks {
		e := specs[t.Spec]
		if e == nil {
			continue
		}
		ft := reflect.TypeOf(e.Fn)
		cur = Report{Spec: t.Spec, Only: t.Only, Seed: t.Seed, Iter: -1}
		out.Encode(cur)
		Checked = 0
		deadline := time.Now().Add(time.Duration(t.Ms) * time.Millisecond)
		seen := map[uint64]bool{}
		for i := t.From; ; i++ {
			if t.N > 0 && i-t.From >= t.N {
				break
			}
			if i&15 == 0 && time.Now().After(deadline) {
				break
			}
			hs := fnv.New64a()
			fmt.Fprintf(hs, "%d/%s/%s/%d", t.Seed, t.Spec, t.Only, i)
			g := &Gen{R: rand.New(rand.NewSource(int64(hs.Sum64()))), reg: reg, ints: c.Ints, strs: c.Strs, only: t.Only, budget: 400}
			g.max = g.Intn(2 + min(3, (i-t.From)/40))
			args, gerr := tryArgs(g, e, ft)
			if gerr != "" {
				cur.Tried++
				if cur.GenErr == "" && gerr != "-" {
					cur.GenErr = gerr
				}
				continue
			}
			if e.Iface && args[0].IsNil() {
				continue
			}
			cur.Iter = i
			cur.Tried++
			sk, kind, label, detail := evalOne(e, args)
			if sk {
				continue
			}
			cur.Evals++
			if len(seen) < 200000 {
				var d uint64
				for _, a := range args {
					d = d*1000003 + deep(a)
				}
				seen[d] = true
			}
			if len(cur.Samples) < 2 && cur.Evals > 5 {
				cur.Samples = append(cur.Samples, showArgs(ft, args))
			}
			if kind != "" {
				cur.Kind, cur.Label, cur.Detail = kind, label, detail
				cur.Input = showArgs(ft, args)
				break
			}
		}
		cur.Checked = Checked
		cur.Distinct = len(seen)
		cur.Done = true
		out.Encode(cur)
	}
}

// tryArgs: a generator that calls code under test may panic.
func tryArgs(g *Gen, e *SpecEntry, ft reflect.Type) (args []reflect.Value, err string) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(Skipped); ok {
				err = "-"
				return
			}
			err = fmt.Sprintf("%v\n%s", r, trimStack(string(debug.Stack())))
		}
	}()
	return g.args(e, ft), ""
}

func showArgs(ft reflect.Type, args []reflect.Value) string {
	var ss []string
	for i, a := range args {
		ss = append(ss, fmt.Sprintf("arg%d = %s", i, Show(a)))
	}
	return strings.Join(ss, "; ")
}
