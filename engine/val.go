package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// ---- canonical types
type typeCanon struct {
	m   typeutil.Map
	key typeutil.Map
	n   int
}

func (c *typeCanon) init() {}
func (c *typeCanon) get(t types.Type) types.Type {
	t = types.Unalias(t)
	if v := c.m.At(t); v != nil {
		return v.(types.Type)
	}
	t = deepUnalias(t)
	c.m.Set(t, t)
	return t
}

// deepUnalias names element types by what they are, not by the alias through
// which they were first met (the names are used as labels).
func deepUnalias(t types.Type) types.Type {
	switch t := types.Unalias(t).(type) {
	case *types.Pointer:
		return types.NewPointer(deepUnalias(t.Elem()))
	case *types.Slice:
		return types.NewSlice(deepUnalias(t.Elem()))
	case *types.Map:
		return types.NewMap(deepUnalias(t.Key()), deepUnalias(t.Elem()))
	default:
		return t
	}
}

// keyOf gives a stable readable unique key.
func (c *typeCanon) keyOf(t types.Type) string {
	t = c.get(t)
	if v := c.key.At(t); v != nil {
		return v.(string)
	}
	k := types.TypeString(t, func(p *types.Package) string { return p.Name() })
	if strings.Contains(k, "struct{") || len(k) > 120 {
		c.n++
		k = fmt.Sprintf("anon%d", c.n)
	}
	c.key.Set(t, k)
	return k
}

func (P *Prog) tag(t types.Type) int64 {
	c := P.canon.get(t)
	if n, ok := P.tagOf[c]; ok {
		return n
	}
	P.tagT = append(P.tagT, c)
	n := int64(len(P.tagT))
	P.tagOf[c] = n
	return n
}

func (P *Prog) tagType(n int64) types.Type {
	if n <= 0 || int(n) > len(P.tagT) {
		return nil
	}
	return P.tagT[n-1]
}

// ---- values
type Val interface{}

type Sc struct{ t *Term } // scalar
type St struct {          // struct value
	typ types.Type
	f   []Val
}
type Sl struct{ arr, off, ln, cp *Term }
type If struct{ tag, pay *Term }
type Tup []Val

// Ar is an array value [n]T (fields individually)
type Ar struct {
	typ types.Type
	f   []Val
}

// Ptr: non-root pointer.
type Ptr struct {
	kind int // 0: cell, 1: interior of heap object, 2: slice element, 3: global
	cell int
	glob *ssa.Global
	base *Term      // heap object ref (kind 1)
	root types.Type // type of the root object / element type (kind 2)
	arr  *Term
	idx  *Term
	path []int // field path from the root
	typ  types.Type
}

type Closure struct {
	fn   *ssa.Function
	free []Val
}

// MapIt is an iterator over a map/string
type MapIt struct {
	m   Val
	typ *types.Map
	id  int
	vis string
}

type Unsupported struct{ msg string }

func unsupported(f string, a ...any) {
	panic(Unsupported{fmt.Sprintf(f, a...)})
}

// ---- leaves
type leafKind int

const (
	LInt leafKind = iota // integer of basic kind (bk)
	LBool
	LStr
	LFloat
	LRef // pointer, map, chan
	LTag
	LPay
	LArr
	LOff
	LLen
	LCap
	LFunc
	LOpaque
)

type Leaf struct {
	kind leafKind
	typ  types.Type // Go type of the scalar leaf / of the slice / interface
	name string
}

func (l Leaf) sort() Sort {
	if l.kind == LBool {
		return SBool
	}
	return SInt
}

type layout struct {
	leaves []Leaf
}

func under(t types.Type) types.Type { return types.Unalias(t).Underlying() }

func isOpaqueProtoField(t types.Type) bool {
	s := types.Unalias(t).String()
	return strings.HasPrefix(s, "google.golang.org/protobuf/internal/impl.") || strings.HasPrefix(s, "sync.") || strings.HasPrefix(s, "sync/atomic.")
}

func (P *Prog) leaves(t types.Type) []Leaf {
	c := P.canon.get(t)
	if l, ok := P.leafCache()[c]; ok {
		return l
	}
	var out []Leaf
	P.addLeaves(c, "", &out)
	P.leafCache()[c] = out
	return out
}

var leafCacheM = map[types.Type][]Leaf{}

func (P *Prog) leafCache() map[types.Type][]Leaf { return leafCacheM }

func (P *Prog) addLeaves(t types.Type, path string, out *[]Leaf) {
	if isOpaqueProtoField(t) {
		*out = append(*out, Leaf{LOpaque, t, path})
		return
	}
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			*out = append(*out, Leaf{LBool, t, path})
		case u.Info()&types.IsInteger != 0:
			*out = append(*out, Leaf{LInt, t, path})
		case u.Info()&types.IsString != 0:
			*out = append(*out, Leaf{LStr, t, path})
		case u.Info()&types.IsFloat != 0:
			*out = append(*out, Leaf{LFloat, t, path})
		case u.Kind() == types.UntypedNil, u.Kind() == types.UnsafePointer:
			*out = append(*out, Leaf{LOpaque, t, path})
		default:
			*out = append(*out, Leaf{LOpaque, t, path})
		}
	case *types.Pointer, *types.Map, *types.Chan:
		*out = append(*out, Leaf{LRef, t, path})
	case *types.Signature:
		*out = append(*out, Leaf{LFunc, t, path})
	case *types.Interface:
		*out = append(*out, Leaf{LTag, t, path + ".tag"}, Leaf{LPay, t, path + ".val"})
	case *types.Slice:
		*out = append(*out, Leaf{LArr, t, path + ".arr"}, Leaf{LOff, t, path + ".off"}, Leaf{LLen, t, path + ".len"}, Leaf{LCap, t, path + ".cap"})
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			P.addLeaves(u.Field(i).Type(), path+"."+u.Field(i).Name(), out)
		}
	case *types.Array:
		if u.Len() > 64 {
			unsupported("array too long %s", t)
		}
		for i := int64(0); i < u.Len(); i++ {
			P.addLeaves(u.Elem(), fmt.Sprintf("%s[%d]", path, i), out)
		}
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			P.addLeaves(u.At(i).Type(), fmt.Sprintf("%s#%d", path, i), out)
		}
	default:
		unsupported("leaf type %s", t)
	}
}

func (P *Prog) unflatten(t types.Type, ts []*Term) Val {
	v, rest := P.unflat(t, ts)
	if len(rest) != 0 {
		panic("unflatten leftover")
	}
	return v
}

func (P *Prog) unflat(t types.Type, ts []*Term) (Val, []*Term) {
	if isOpaqueProtoField(t) {
		return Sc{ts[0]}, ts[1:]
	}
	switch u := under(t).(type) {
	case *types.Interface:
		return If{ts[0], ts[1]}, ts[2:]
	case *types.Slice:
		return Sl{ts[0], ts[1], ts[2], ts[3]}, ts[4:]
	case *types.Struct:
		s := St{typ: t}
		for i := 0; i < u.NumFields(); i++ {
			var v Val
			v, ts = P.unflat(u.Field(i).Type(), ts)
			s.f = append(s.f, v)
		}
		return s, ts
	case *types.Array:
		s := Ar{typ: t}
		for i := int64(0); i < u.Len(); i++ {
			var v Val
			v, ts = P.unflat(u.Elem(), ts)
			s.f = append(s.f, v)
		}
		return s, ts
	case *types.Tuple:
		var s Tup
		for i := 0; i < u.Len(); i++ {
			var v Val
			v, ts = P.unflat(u.At(i).Type(), ts)
			s = append(s, v)
		}
		return s, ts
	}
	return Sc{ts[0]}, ts[1:]
}

func (x *Exec) flatten(v Val) []*Term {
	switch a := v.(type) {
	case Sc:
		return []*Term{a.t}
	case If:
		return []*Term{a.tag, a.pay}
	case Sl:
		return []*Term{a.arr, a.off, a.ln, a.cp}
	case St:
		var out []*Term
		for _, f := range a.f {
			out = append(out, x.flatten(f)...)
		}
		return out
	case Ar:
		var out []*Term
		for _, f := range a.f {
			out = append(out, x.flatten(f)...)
		}
		return out
	case Tup:
		var out []*Term
		for _, f := range a {
			out = append(out, x.flatten(f)...)
		}
		return out
	case *Closure:
		return []*Term{x.closureTerm(a)}
	case *Ptr:
		unsupported("interior pointer stored or merged (%s)", a.typ)
	case nil:
		unsupported("flatten nil value")
	}
	unsupported("flatten %T", v)
	return nil
}

var closureTab = map[*Term]*Closure{}
var closureIDs = map[*Closure]*Term{}

func (x *Exec) closureTerm(c *Closure) *Term {
	if len(c.free) == 0 {
		// plain function value: stable identity
		t := App("fn~"+c.fn.String(), SInt)
		if _, ok := closureTab[t]; !ok {
			closureTab[t] = c
		}
		return t
	}
	if t, ok := closureIDs[c]; ok {
		return t
	}
	t := Fresh("closure", SInt)
	closureIDs[c] = t
	closureTab[t] = c
	return t
}

func (P *Prog) zero(t types.Type) Val {
	ls := P.leaves(t)
	ts := make([]*Term, len(ls))
	for i, l := range ls {
		if l.kind == LBool {
			ts[i] = TFalse
		} else {
			ts[i] = I(0)
		}
	}
	return P.unflatten(t, ts)
}

// strings: literal table. "" is 0.
var strIDs = map[string]int64{"": 0}
var strTab = []string{""}

func StrLit(s string) *Term {
	if n, ok := strIDs[s]; ok {
		return I(n)
	}
	n := int64(len(strTab))
	strIDs[s] = n
	strTab = append(strTab, s)
	return I(n)
}

// String term domain: literals have ids 0..n; every other string value is some
// other integer; strlen is an uninterpreted function with strlen(lit) known.
func StrLen(t *Term) *Term {
	if t.op == OConst {
		if n := t.val.Int64(); n >= 0 && int(n) < len(strTab) {
			return I(int64(len(strTab[n])))
		}
	}
	return App("strlen", SInt, t)
}

func intRange(t types.Type) (lo, hi string, ok bool) {
	b, isb := under(t).(*types.Basic)
	if !isb {
		return "", "", false
	}
	switch b.Kind() {
	case types.Int8:
		return "-128", "127", true
	case types.Int16:
		return "-32768", "32767", true
	case types.Int32, types.UntypedRune:
		return "-2147483648", "2147483647", true
	case types.Int64, types.Int, types.UntypedInt:
		return "-9223372036854775808", "9223372036854775807", true
	case types.Uint8:
		return "0", "255", true
	case types.Uint16:
		return "0", "65535", true
	case types.Uint32:
		return "0", "4294967295", true
	case types.Uint64, types.Uint, types.Uintptr:
		return "0", "18446744073709551615", true
	}
	return "", "", false
}

// memOf names the memory a struct type lives in: types declared with the same
// underlying struct share it, as their pointers convert into each other.
func (P *Prog) memOf(t types.Type) string {
	k := P.canon.keyOf(t)
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.TypeArgs().Len() > 0 {
		return k
	}
	s, ok := n.Underlying().(*types.Struct)
	if !ok {
		return k
	}
	if P.memTyp == nil {
		P.memTyp = map[*types.Struct][]*types.Named{}
		seen := map[*types.Package]bool{}
		var visit func(p *types.Package, deep bool)
		visit = func(p *types.Package, deep bool) {
			if seen[p] {
				return
			}
			seen[p] = true
			for _, name := range p.Scope().Names() {
				tn, ok := p.Scope().Lookup(name).(*types.TypeName)
				if !ok || tn.IsAlias() {
					continue
				}
				if nt, ok := tn.Type().(*types.Named); ok && nt.TypeParams().Len() == 0 {
					if st, ok := nt.Underlying().(*types.Struct); ok {
						P.memTyp[st] = append(P.memTyp[st], nt)
					}
				}
			}
			for _, q := range p.Imports() {
				if strings.HasPrefix(q.Path(), modPath) || strings.Contains(q.Path(), "substraitpb") {
					visit(q, true)
				}
			}
		}
		for _, p := range P.pkgs {
			visit(p.Types, true)
		}
	}
	for _, m := range P.memTyp[s] {
		if c := P.canon.keyOf(m); c < k {
			k = c
		}
	}
	return k
}
