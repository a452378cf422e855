package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (x *Exec) builtin(fr *frame, st *State, f *ssa.Builtin, args []Val, com *ssa.CallCommon, c *ssa.Call) []Outcome {
	switch f.Name() {
	case "len", "cap":
		switch a := args[0].(type) {
		case Sl:
			if f.Name() == "cap" {
				return ret1(st, Sc{a.cp})
			}
			return ret1(st, Sc{a.ln})
		case Ar:
			return ret1(st, Sc{I(int64(len(a.f)))})
		case Sc:
			t := com.Args[0].Type()
			if isString(t) {
				x.strFacts(st, a.t)
				return ret1(st, Sc{StrLen(a.t)})
			}
			if _, ok := under(t).(*types.Map); ok {
				return ret1(st, Sc{x.mapLen(st, t, a.t)})
			}
		}
		unsupported("len of %T", args[0])
	case "append":
		et := under(com.Args[0].Type()).(*types.Slice).Elem()
		s := args[0].(Sl)
		if sc, ok := args[1].(Sc); ok { // append([]byte, string...)
			x.strFacts(st, sc.t)
			arr := x.newRef(st)
			k := fmt.Sprintf("E|%s|%d", x.P.canon.keyOf(et), 0)
			h := x.heapGet(st, k, arrSort(arrSort(SInt)))
			st.heap[k] = Store(h, arr, App("strbytes", arrSort(SInt), sc.t))
			return x.appendSlice(fr, st, s, Sl{arr, I(0), StrLen(sc.t), StrLen(sc.t)}, et)
		}
		return x.appendSlice(fr, st, s, args[1].(Sl), et)
	case "copy":
		et := under(com.Args[0].Type()).(*types.Slice).Elem()
		if _, ok := args[1].(Sc); ok {
			unsupported("copy from string")
		}
		return x.copySlice(fr, st, args[0].(Sl), args[1].(Sl), et)
	case "delete":
		x.mapDelete(st, com.Args[0].Type(), args[0].(Sc).t, args[1], fr.fn)
		return []Outcome{{st, nil}}
	case "min", "max":
		a, b := args[0].(Sc).t, args[1].(Sc).t
		if len(args) != 2 || isFloat(com.Args[0].Type()) || isString(com.Args[0].Type()) {
			unsupported("min/max")
		}
		if f.Name() == "min" {
			return ret1(st, Sc{Ite(Le(a, b), a, b)})
		}
		return ret1(st, Sc{Ite(Le(a, b), b, a)})
	case "ssa:wrapnilchk":
		if s, ok := args[0].(Sc); ok {
			if !x.require(st, "nil-deref", fr.fn, Not(Eq(s.t, I(0)))) {
				return nil
			}
		}
		return ret1(st, args[0])
	case "print", "println":
		return []Outcome{{st, nil}}
	}
	unsupported("builtin %s", f.Name())
	return nil
}

func (x *Exec) opaqueErr(st *State) If {
	x.assumeNote("errors made by fmt.Errorf and errors.New/Join are opaque non-nil values")
	t := Fresh("errpay", SInt)
	x.assume(st, Lt(I(0), t), true)
	cleanRef[t] = true
	return If{I(errTag), t}
}

var errTag int64 = 1000000

// pure external packages whose scalar functions are modelled as uninterpreted
var purePkgs = map[string]bool{"strings": true, "strconv": true, "math": true, "unicode": true, "unicode/utf8": true, "fmt": true, "time": true, "cloud.google.com/go/civil": true, "math/bits": true, "path": true, "reflect": false}

// stub models calls into code outside the verified packages.
func (x *Exec) stub(fr *frame, st *State, fn *ssa.Function, args []Val) ([]Outcome, bool) {
	name := fn.String()
	if o := fn.Origin(); o != nil {
		name = o.String()
	}
	if isSyncFn(fn) {
		x.assumeNote("locks are no-ops (sequential semantics)")
		return []Outcome{{st, nil}}, true
	}
	switch name {
	case "fmt.Errorf", "errors.New", "errors.Join":
		return ret1(st, x.opaqueErr(st)), true
	case "errors.Is", "errors.As":
		r := Fresh("errors", SBool)
		return ret1(st, Sc{r}), true
	case "reflect.TypeFor":
		if ta := fn.TypeArgs(); len(ta) == 1 {
			return ret1(st, If{I(errTag + 1), I(x.P.tag(ta[0]))}), true
		}
	case "reflect.TypeOf":
		a := args[0].(If)
		if v, ok := x.decide(st, Eq(a.tag, I(0))); ok && !v {
			return ret1(st, If{I(errTag + 1), a.tag}), true
		}
		return ret1(st, If{Ite(Eq(a.tag, I(0)), I(0), I(errTag+1)), a.tag}), true
	case "math.Float32bits", "math.Float64bits", "math.Float32frombits", "math.Float64frombits":
		return ret1(st, args[0]), true
	case "math.IsNaN":
		return ret1(st, Sc{floatNaN(types.Typ[types.Float64], args[0].(Sc).t)}), true
	case "bytes.Equal":
		a, b := args[0].(Sl), args[1].(Sl)
		et := types.Typ[types.Byte]
		k := BoundVar()
		f := Forall(k, Imp(And(Le(I(0), k), Lt(k, a.ln)), Eq(Select(x.row(st, et, 0, a.arr), Add(a.off, k)), Select(x.row(st, et, 0, b.arr), Add(b.off, k)))))
		return ret1(st, Sc{And(Eq(a.ln, b.ln), f)}), true
	case "slices.EqualFunc", "slices.Equal":
		if r, ok := x.nestedEqual(fr, st, name, fn, args); ok {
			return r, true
		}
	case "fmt.Sprintf", "fmt.Sprint", "fmt.Sprintln":
		return ret1(st, Sc{x.sprintf(st, name, fn, args)}), true
	case "google.golang.org/protobuf/proto.Equal":
		a, b := args[0].(If), args[1].(If)
		r := Fresh("pbeq", SBool)
		tag := a.tag
		if k, ok := st.eqc[tag]; ok {
			tag = k
		}
		if v, ok := x.decide(st, Eq(a.tag, b.tag)); ok && v && tag.op == OConst {
			if t := x.P.tagType(tag.val.Int64()); t != nil {
				if f := x.flatMsgEq(st, t, a.pay, b.pay); f != nil {
					return ret1(st, Sc{f}), true
				}
			}
		}
		x.assumeNote("proto.Equal: identical messages are equal, otherwise its result is arbitrary")
		x.assume(st, Imp(And(Eq(a.tag, b.tag), Eq(a.pay, b.pay)), r), true)
		return ret1(st, Sc{r}), true
	case "reflect.DeepEqual":
		return ret1(st, Sc{x.deepEqual(st, args[0].(If), args[1].(If))}), true
	case "strings.ToLower", "strings.ToUpper", "strings.TrimSpace":
		r := App("ext~"+name, SInt, x.flatten(args[0])...)
		return ret1(st, Sc{r}), true
	case "strings.Join":
		r := Fresh("joined", SInt)
		return ret1(st, Sc{r}), true
	case "google.golang.org/protobuf/proto.Int32", "google.golang.org/protobuf/proto.Int64", "google.golang.org/protobuf/proto.Uint32", "google.golang.org/protobuf/proto.String", "google.golang.org/protobuf/proto.Bool":
		t := fn.Signature.Results().At(0).Type().(*types.Pointer).Elem()
		o := x.allocate(st, t, true, fr)
		x.heapStore(st, t, o[0].res[0].(Sc).t, 0, x.flatten(args[0]), fn)
		return o, true
	}
	if len(fn.Blocks) > 0 {
		return nil, false
	}
	if fn.Pkg != nil || fn.Object() != nil {
		pp := ""
		if fn.Pkg != nil {
			pp = fn.Pkg.Pkg.Path()
		} else if fn.Object() != nil && fn.Object().Pkg() != nil {
			pp = fn.Object().Pkg().Path()
		}
		if purePkgs[pp] && scalarSig(fn.Signature) {
			var as []*Term
			for _, a := range args {
				as = append(as, x.flatten(a)...)
			}
			x.assumeNote("external function modelled as uninterpreted: " + name)
			return ret1Tup(st, x.ufResult(st, "ext~"+name, as, fn.Signature.Results())), true
		}
	}
	return nil, false
}

func scalarSig(s *types.Signature) bool {
	ok := func(t types.Type) bool {
		switch u := under(t).(type) {
		case *types.Basic:
			return true
		case *types.Struct:
			_ = u
			return true
		case *types.Interface:
			return t.String() == "error"
		}
		return false
	}
	if s.Recv() != nil && !ok(s.Recv().Type()) {
		return false
	}
	for i := 0; i < s.Params().Len(); i++ {
		if !ok(s.Params().At(i).Type()) {
			return false
		}
	}
	for i := 0; i < s.Results().Len(); i++ {
		if !ok(s.Results().At(i).Type()) {
			return false
		}
	}
	return true
}

// sprintf: an unknown string determined by its arguments when these are
// scalars; otherwise an arbitrary string.
func (x *Exec) sprintf(st *State, name string, fn *ssa.Function, args []Val) *Term {
	x.assumeNote("fmt.Sprintf and friends return an arbitrary string and have no side effects")
	return Fresh("sprintf", SInt)
}

func (x *Exec) externName(fn *ssa.Function) string { return strings.TrimPrefix(fn.String(), "*") }

// deepEqual is exact on strings, booleans, integers and byte slices, and on
// values of different types; on anything else its result is arbitrary.
func (x *Exec) deepEqual(st *State, a, b If) *Term {
	x.assumeNote("reflect.DeepEqual: exact on integers, booleans, strings and byte slices, arbitrary on other values of one type")
	r := Fresh("deepeq", SBool)
	x.assume(st, Imp(Not(Eq(a.tag, b.tag)), Not(r)), true)
	both := func(t types.Type) *Term {
		return And(Eq(a.tag, I(x.P.tag(t))), Eq(b.tag, I(x.P.tag(t))))
	}
	for _, k := range []types.BasicKind{types.String, types.Bool, types.Int8, types.Int16, types.Int32, types.Int64, types.Uint32, types.Uint64, types.Int} {
		t := types.Typ[k]
		c := both(t)
		if v, ok := x.decide(st, c); ok && !v {
			continue
		}
		u, v := x.unbox(st, a.pay, t).(Sc).t, x.unbox(st, b.pay, t).(Sc).t
		x.assume(st, Imp(c, Eq(r, Eq(u, v))), true)
	}
	bs := types.NewSlice(types.Typ[types.Byte])
	c := both(bs)
	if v, ok := x.decide(st, c); v || !ok {
		et := types.Typ[types.Byte]
		u, v := x.unbox(st, a.pay, bs).(Sl), x.unbox(st, b.pay, bs).(Sl)
		k := BoundVar()
		f := Forall(k, Imp(And(Le(I(0), k), Lt(k, u.ln)), Eq(Select(x.row(st, et, 0, u.arr), Add(u.off, k)), Select(x.row(st, et, 0, v.arr), Add(v.off, k)))))
		x.assume(st, Imp(c, Eq(r, And(Eq(Eq(u.arr, I(0)), Eq(v.arr, I(0))), Eq(u.ln, v.ln), f))), true)
	}
	return r
}

// flatMsgEq: proto.Equal on messages whose fields are numbers, booleans,
// strings and lists of these.
func (x *Exec) flatMsgEq(st *State, t types.Type, a, b *Term) *Term {
	pt, ok := t.(*types.Pointer)
	if !ok {
		return nil
	}
	s, ok := under(pt.Elem()).(*types.Struct)
	if !ok {
		return nil
	}
	p, q := x.unbox(st, a, t).(Sc).t, x.unbox(st, b, t).(Sc).t
	scalar := func(t types.Type) bool {
		b, ok := under(t).(*types.Basic)
		return ok && b.Info()&types.IsFloat == 0
	}
	var cs []*Term
	off := 0
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		n := len(x.P.leaves(f.Type()))
		if f.Exported() {
			if sl, ok := under(f.Type()).(*types.Slice); ok && scalar(sl.Elem()) {
				u := x.P.unflatten(f.Type(), x.heapLoad(st, pt.Elem(), p, off, n)).(Sl)
				v := x.P.unflatten(f.Type(), x.heapLoad(st, pt.Elem(), q, off, n)).(Sl)
				k := BoundVar()
				cs = append(cs, Eq(u.ln, v.ln), Forall(k, Imp(And(Le(I(0), k), Lt(k, u.ln)),
					Eq(Select(x.row(st, sl.Elem(), 0, u.arr), Add(u.off, k)), Select(x.row(st, sl.Elem(), 0, v.arr), Add(v.off, k))))))
			} else if scalar(f.Type()) {
				cs = append(cs, Eq(x.heapLoad(st, pt.Elem(), p, off, 1)[0], x.heapLoad(st, pt.Elem(), q, off, 1)[0]))
			} else {
				return nil
			}
		}
		off += n
	}
	x.assumeNote("proto.Equal on flat messages compares their fields (no unknown fields)")
	same := Eq(Eq(p, I(0)), Eq(q, I(0)))
	return Or(Eq(p, q), And(same, And(cs...)))
}

// nestedEqual: slices.EqualFunc and slices.Equal called while another of them
// runs are taken as what they are documented to compute; the comparison is
// checked for one arbitrary index.
func (x *Exec) nestedEqual(fr *frame, st *State, name string, fn *ssa.Function, args []Val) ([]Outcome, bool) {
	nested := false
	for _, f := range x.stack {
		if o := f.Origin(); o != nil && (o.String() == "slices.EqualFunc" || o.String() == "slices.Equal") {
			nested = true
		}
	}
	if !nested {
		return nil, false
	}
	x.assumeNote(name + " inside another comparison compares lengths and elements pairwise")
	a, b := args[0].(Sl), args[1].(Sl)
	elem := func(st *State, i int, s Sl, k *Term) (Val, types.Type) {
		et := under(fn.Signature.Params().At(i).Type()).(*types.Slice).Elem()
		ls := x.P.leaves(et)
		ts := make([]*Term, len(ls))
		for j := range ls {
			ts[j] = Select(x.row(st, et, j, s.arr), Add(s.off, k))
		}
		x.readFacts(st, ls, ts)
		return x.P.unflatten(et, ts), et
	}
	body := func(s2 *State, k *Term) []Outcome {
		u, et := elem(s2, 0, a, k)
		v, _ := elem(s2, 1, b, k)
		if name == "slices.Equal" {
			return ret1(s2, Sc{x.equal(s2, fr, u, v, et)})
		}
		return x.dynamic(fr, s2, args[2], []Val{u, v}, under(fn.Signature.Params().At(2).Type()).(*types.Signature))
	}
	if x.logicD == 0 {
		k := Fresh("anyindex", SInt)
		s2 := st.clone()
		rng := And(Le(I(0), k), Lt(k, a.ln), Eq(a.ln, b.ln))
		s2.push(rng, false)
		s2.learn(rng, true)
		body(s2, k)
	}
	k := BoundVar()
	s2 := st.clone()
	rng := And(Le(I(0), k), Lt(k, a.ln))
	s2.push(rng, false)
	s2.learn(rng, true)
	base := s2.pc
	x.logicD++
	outs := body(s2, k)
	x.logicD--
	res, facts := x.mergeLogic(base, outs)
	if res == nil {
		return ret1(st, Sc{And(Eq(a.ln, b.ln), Not(Lt(I(0), a.ln)))}), true
	}
	var qf []*Term
	for _, f := range conj(facts) {
		if f == TTrue {
			continue
		}
		if f.Syms()[k] {
			qf = append(qf, f)
		} else {
			x.assume(st, Imp(Lt(I(0), a.ln), f), true)
		}
	}
	if len(qf) > 0 {
		x.assume(st, Forall(k, Imp(rng, And(qf...))), true)
	}
	return ret1(st, Sc{And(Eq(a.ln, b.ln), Forall(k, Imp(rng, res[0].(Sc).t)))}), true
}
