package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (x *Exec) callInstr(fr *frame, env Env, st *State, c *ssa.Call) []Outcome {
	com := c.Common()
	var args []Val
	for _, a := range com.Args {
		args = append(args, x.val(fr, env, st, a))
	}
	if com.IsInvoke() {
		recv := x.val(fr, env, st, com.Value)
		return x.invoke(fr, st, x.toIf(recv), com, args, c)
	}
	switch f := com.Value.(type) {
	case *ssa.Builtin:
		return x.builtin(fr, st, f, args, com, c)
	case *ssa.Function:
		return x.static(fr, st, f, args, nil, c.Type(), com)
	}
	fv := x.val(fr, env, st, com.Value)
	return x.dynamic(fr, st, fv, args, com.Signature())
}

func tupleOf(sig *types.Signature) *types.Tuple { return sig.Results() }

// dynamic calls a function value.
func (x *Exec) dynamic(fr *frame, st *State, fv Val, args []Val, sig *types.Signature) []Outcome {
	if cl, ok := fv.(*Closure); ok {
		return x.static(fr, st, cl.fn, args, cl.free, nil, nil)
	}
	t := fv.(Sc).t
	if cl, ok := closureTab[t]; ok {
		return x.static(fr, st, cl.fn, args, cl.free, nil, nil)
	}
	if !x.require(st, "nil-func-call", fr.fn, Not(Eq(t, I(0)))) {
		return nil
	}
	x.assumeNote("function-valued parameters are pure, deterministic and total")
	var as []*Term
	as = append(as, t)
	for _, a := range args {
		as = append(as, x.flatten(a)...)
	}
	return ret1Tup(st, x.ufResult(st, "call~"+x.P.canon.keyOf(sig), as, sig.Results()))
}

func (x *Exec) allClean(as []*Term) bool {
	for _, a := range as {
		if a.sort == SInt && !x.isClean(a) && mayBeRef(a) {
			return false
		}
	}
	return true
}

func ret1Tup(st *State, t Tup) []Outcome { return []Outcome{{st, t}} }

func (x *Exec) ufResult(st *State, name string, args []*Term, res *types.Tuple) Tup {
	var out Tup
	for i := 0; i < res.Len(); i++ {
		ls := x.P.leaves(res.At(i).Type())
		ts := make([]*Term, len(ls))
		for j, l := range ls {
			ts[j] = App(fmt.Sprintf("%s~%d.%d", name, i, j), l.sort(), args...)
			if l.kind == LOff {
				ts[j] = I(0)
			}
		}
		if x.allClean(args) {
			for j, l := range ls {
				switch l.kind {
				case LRef, LArr, LPay:
					cleanRef[ts[j]] = true
				}
			}
		}
		x.readFacts(st, ls, ts)
		out = append(out, x.P.unflatten(res.At(i).Type(), ts))
	}
	return out
}

func (x *Exec) onStack(fn *ssa.Function) bool {
	for _, f := range x.stack {
		if f == fn {
			return true
		}
	}
	return false
}

func (x *Exec) static(fr *frame, st *State, fn *ssa.Function, args []Val, free []Val, rt types.Type, com *ssa.CallCommon) []Outcome {
	if fn.Pkg != nil && fn.Pkg.Pkg.Path() == rtPath || fn.Origin() != nil && fn.Origin().Pkg != nil && fn.Origin().Pkg.Pkg.Path() == rtPath {
		return x.intrinsic(fr, st, fn, args)
	}
	if x.P.logic[fn] {
		r := x.evalLogic(fn, args, st)
		return ret1(st, r)
	}
	// the specified call of the specification being processed
	if sc := fr.spec; sc != nil && sc.spec.TargetFn == fn && !sc.called {
		return x.targetCall(fr, st, sc, fn, args, free)
	}
	if s := x.P.contr[fn]; s != nil && x.logicD == 0 {
		return x.useContract(fr, st, s, args)
	}
	if r, ok := x.stub(fr, st, fn, args); ok {
		return r
	}
	if x.P.pureFn(fn) && x.logicD == 0 {
		x.assumeNote("methods that only report (" + fn.Name() + ") are deterministic, total and write nothing")
		var as []*Term
		for _, a := range args {
			as = append(as, x.flatten(a)...)
		}
		kinds := []leafKind{}
		for _, p := range fn.Params {
			for _, l := range x.P.leaves(p.Type()) {
				kinds = append(kinds, l.kind)
			}
		}
		as = append([]*Term{x.epochFor(st, as, kinds)}, as...)
		return ret1Tup(st, x.ufResult(st, "D~"+fn.String(), as, fn.Signature.Results()))
	}
	if x.onStack(fn) && x.logicD == 0 {
		if r, ok := x.recursiveIface(fr, st, fn, args); ok {
			return r
		}
	}
	if fn.Synthetic != "" && len(fn.Blocks) > 0 && (strings.HasPrefix(fn.Synthetic, "bound") || strings.HasPrefix(fn.Synthetic, "wrapper") || strings.HasPrefix(fn.Synthetic, "thunk")) {
		return x.callFn(fn, args, free, st)
	}
	if len(fn.Blocks) == 0 {
		unsupported("external function %s", fn)
	}
	return x.callFn(fn, args, free, st)
}

// recursiveIface: a recursive static call of a method that implements a
// contracted interface method uses that contract.
func (x *Exec) recursiveIface(fr *frame, st *State, fn *ssa.Function, args []Val) ([]Outcome, bool) {
	sig := fn.Signature
	if sig.Recv() == nil {
		return nil, false
	}
	for mo, s := range x.P.ifaceC {
		if mo.Name() != fn.Name() {
			continue
		}
		if !types.Implements(sig.Recv().Type(), under(s.IfaceT).(*types.Interface)) {
			continue
		}
		a := append([]Val{x.makeIface(st, args[0], sig.Recv().Type())}, args[1:]...)
		return x.useContract(fr, st, s, a), true
	}
	return nil, false
}

func (x *Exec) methodOf(t types.Type, mo *types.Func) *ssa.Function {
	sel := x.P.prog.MethodSets.MethodSet(t).Lookup(mo.Pkg(), mo.Name())
	if sel == nil {
		return nil
	}
	return x.P.prog.MethodValue(sel)
}

func (x *Exec) invoke(fr *frame, st *State, recv If, com *ssa.CallCommon, args []Val, c *ssa.Call) []Outcome {
	mo := com.Method
	if !x.require(st, "nil-interface-call", fr.fn, Not(Eq(recv.tag, I(0)))) {
		return nil
	}
	tag := recv.tag
	if k, ok := st.eqc[tag]; ok {
		tag = k
	}
	if tag.op == OIte && x.logicD == 0 {
		// split on the alternatives
		if d, ok := x.decide(st, tag.args[0]); ok {
			if d {
				tag = tag.args[1]
			} else {
				tag = tag.args[2]
			}
		} else {
			s2 := st.clone()
			cnd := tag.args[0]
			x.assume(st, cnd, false)
			x.assume(s2, Not(cnd), false)
			pick := func(t *Term, i int) *Term {
				if t.op == OIte && t.args[0] == cnd {
					return t.args[i]
				}
				return t
			}
			o1 := x.invoke(fr, st, If{pick(recv.tag, 1), pick(recv.pay, 1)}, com, args, c)
			o2 := x.invoke(fr, s2, If{pick(recv.tag, 2), pick(recv.pay, 2)}, com, args, c)
			return append(o1, o2...)
		}
	}
	static := com.Value.Type()
	if sc := fr.spec; sc != nil && sc.spec.IfaceObj == mo && !sc.called {
		return x.targetInvoke(fr, st, sc, If{tag, recv.pay}, mo, args)
	}
	if x.P.pureM[mo] && x.logicD == 0 || x.P.pureDyn[mo] && tag.op != OConst && (x.P.ifaceC[mo] == nil || x.logicD > 0) {
		x.assumeNote("methods that only report (" + mo.Name() + ") are deterministic, total and write nothing")
		as := []*Term{tag, recv.pay}
		for _, a := range args {
			as = append(as, x.flatten(a)...)
		}
		kinds := []leafKind{LTag, LPay}
		for i, ps := 0, mo.Type().(*types.Signature).Params(); i < ps.Len(); i++ {
			for _, l := range x.P.leaves(ps.At(i).Type()) {
				kinds = append(kinds, l.kind)
			}
		}
		as = append([]*Term{x.epochFor(st, as, kinds)}, as...)
		return ret1Tup(st, x.ufResult(st, "D~"+mo.FullName(), as, mo.Type().(*types.Signature).Results()))
	}
	if tag.op == OConst {
		t := x.P.tagType(tag.val.Int64())
		if t == nil {
			unsupported("invoke on unknown tag")
		}
		fn := x.methodOf(t, mo)
		if fn == nil {
			unsupported("no method %s on %s", mo.Name(), t)
		}
		if x.onStack(fn) && x.logicD == 0 {
			if s := x.P.ifaceC[mo]; s != nil {
				return x.useContract(fr, st, s, append([]Val{recv}, args...))
			}
		}
		v := x.unbox(st, recv.pay, t)
		return x.static(fr, st, fn, append([]Val{v}, args...), nil, nil, com)
	}
	if s := x.P.ifaceC[mo]; s != nil && x.logicD == 0 {
		return x.useContract(fr, st, s, append([]Val{recv}, args...))
	}
	if types.TypeString(static, nil) == "error" {
		return ret1Tup(st, x.ufResult(st, "D~error", []*Term{tag, recv.pay}, mo.Type().(*types.Signature).Results()))
	}
	set := x.P.implementers(static)
	if len(set) > 0 && len(set) <= 4 {
		x.assumeNote("closed world: interface values hold only concrete types that occur in this module")
		var outs []Outcome
		cur := st
		for i, t := range set {
			cnd := Eq(recv.tag, I(x.P.tag(t)))
			s1 := cur
			if i < len(set)-1 {
				s1 = cur.clone()
			}
			x.assume(s1, cnd, false)
			if i < len(set)-1 {
				x.assume(cur, Not(cnd), false)
			}
			fn := x.methodOf(t, mo)
			v := x.unbox(s1, recv.pay, t)
			outs = append(outs, x.static(fr, s1, fn, append([]Val{v}, args...), nil, nil, com)...)
		}
		return x.mergeOutcomes(st, outs)
	}
	unsupported("call of interface method %s on an opaque value", mo.FullName())
	return nil
}

// epochFor: logic applications over immutable (clean) arguments do not depend
// on the state; others are stamped with the current epoch.
func (x *Exec) epochFor(st *State, as []*Term, kinds []leafKind) *Term {
	for i, a := range as {
		if kinds != nil {
			switch kinds[i] {
			case LRef, LArr, LPay, LFunc:
			default:
				continue
			}
		}
		if a.sort == SInt && !x.isClean(a) && mayBeRef(a) {
			st.logAl = st.alloc
			return st.epoch
		}
	}
	return I(0)
}

func mayBeRef(t *Term) bool { return t.op != OConst || t.val.Sign() < 0 }

// ---- contracts at call sites and target calls

func (x *Exec) targetCall(fr *frame, st *State, sc *specCtx, fn *ssa.Function, args []Val, free []Val) []Outcome {
	if sc.verify {
		save := fr.spec
		fr.spec = &specCtx{spec: sc.spec, verify: true, called: true, mods: sc.mods}
		defer func() { fr.spec = save }()
		old := x.mods
		x.mods = sc.mods
		r := x.callFnTop(fn, args, free, st)
		x.mods = old
		return r
	}
	return x.havocCall(fr, st, sc, fn.Signature.Results(), fn.Name())
}

func (x *Exec) callFnTop(fn *ssa.Function, args []Val, free []Val, st *State) []Outcome {
	if r, ok := x.stub(nil, st, fn, args); ok {
		return r
	}
	return x.callFn(fn, args, free, st)
}

func (x *Exec) targetInvoke(fr *frame, st *State, sc *specCtx, recv If, mo *types.Func, args []Val) []Outcome {
	if sc.verify {
		if recv.tag.op != OConst {
			unsupported("specification of an interface method must split its receiver")
		}
		t := x.P.tagType(recv.tag.val.Int64())
		fn := x.methodOf(t, mo)
		v := x.unbox(st, recv.pay, t)
		old := x.mods
		x.mods = sc.mods
		r := x.callFnTop(fn, append([]Val{v}, args...), nil, st)
		x.mods = old
		return r
	}
	return x.havocCall(fr, st, sc, mo.Type().(*types.Signature).Results(), mo.Name())
}

// havocCall: result of a call known only through its contract.
func (x *Exec) havocCall(fr *frame, st *State, sc *specCtx, res *types.Tuple, name string) []Outcome {
	na := newAllocVar(st.alloc)
	x.assume(st, Le(na, st.alloc), true)
	st.alloc = na
	for _, m := range sc.mods {
		x.havocMod(fr, st, m)
	}
	var out Tup
	if mo := sc.spec.IfaceObj; mo != nil && x.P.pureDyn[mo] && sc.args != nil {
		x.assumeNote("methods that only report (" + mo.Name() + ") are deterministic, total and write nothing")
		as, kinds := []*Term{}, []leafKind{}
		for i, a := range sc.args {
			as = append(as, x.flatten(a)...)
			for _, l := range x.P.leaves(sc.spec.Func.Params[i].Type()) {
				kinds = append(kinds, l.kind)
			}
		}
		as = append([]*Term{x.epochFor(st, as, kinds)}, as...)
		out = x.ufResult(st, "D~"+mo.FullName(), as, res)
	}
	for i := len(out); i < res.Len(); i++ {
		out = append(out, x.havoc(st, res.At(i).Type(), "r~"+name, false))
	}
	if sc.clean {
		for i, v := range out {
			ls := x.P.leaves(res.At(i).Type())
			for j, t := range x.flatten(v) {
				switch ls[j].kind {
				case LRef, LArr, LPay:
					cleanRef[t] = true
				}
			}
		}
	}
	st.useStack = append(st.useStack[:len(st.useStack):len(st.useStack)], useEntry{sc, out})
	sc.ncalls++
	return ret1Tup(st, out)
}

func (x *Exec) havocMod(fr *frame, st *State, m modTarget) {
	switch t := under(m.t).(type) {
	case *types.Pointer:
		r := m.v.(Sc).t
		x.checkFrame(st, r, "callee "+x.P.canon.keyOf(t.Elem()), fr.fn, t.Elem())
		x.bumpEpoch(st, r)
		for i, l := range x.P.leaves(t.Elem()) {
			k := fmt.Sprintf("M|%s|%d", x.P.memOf(t.Elem()), i)
			h := x.heapGet(st, k, arrSort(l.sort()))
			st.heap[k] = Store(h, r, Fresh("mod", l.sort()))
			if x.stores != nil {
				*x.stores = append(*x.stores, storeEv{key: k, ref: r})
			}
		}
	case *types.Map:
		r := m.v.(Sc).t
		ks := x.P.canon.keyOf(t)
		x.checkFrame(st, r, "callee "+ks, fr.fn, m.t)
		x.bumpEpoch(st, r)
		put := func(k string, s Sort) {
			h := x.heapGet(st, k, arrSort(s))
			st.heap[k] = Store(h, r, Fresh("mod", s))
			if x.stores != nil {
				*x.stores = append(*x.stores, storeEv{key: k, ref: r})
			}
		}
		put("D|"+ks, arrSort(SBool))
		put("N|"+ks, SInt)
		for i, l := range x.P.leaves(t.Elem()) {
			put(fmt.Sprintf("V|%s|%d", ks, i), arrSort(l.sort()))
		}
	case *types.Slice:
		r := m.v.(Sl).arr
		x.checkFrame(st, r, "callee []"+x.P.canon.keyOf(t.Elem()), fr.fn, t.Elem())
		x.bumpEpoch(st, r)
		for i, l := range x.P.leaves(t.Elem()) {
			x.setRow(st, t.Elem(), i, r, Fresh("mod", arrSort(l.sort())))
		}
	default:
		unsupported("modifies %s", m.t)
	}
}

// useContract runs the specification at a call site.
func (x *Exec) useContract(fr *frame, st *State, s *Spec, args []Val) []Outcome {
	x.used[s.Name] = true
	if len(x.stack) > 60 {
		unsupported("contract nesting too deep")
	}
	x.stack = append(x.stack, s.Func)
	defer func() { x.stack = x.stack[:len(x.stack)-1] }()
	sc := &specCtx{spec: s, caller: fr}
	sf := &frame{fn: s.Func, spec: sc, loops: x.loopsOf(s.Func)}
	env := Env{}
	for i, p := range s.Func.Params {
		if i >= len(args) {
			// universally quantified: an arbitrary value
			args = append(args[:i:i], x.havoc(st, p.Type(), p.Name(), false))
		}
		env[p] = args[i]
	}
	clean := !x.anyMods
	for i, a := range args {
		for j, t := range x.flattenOrNil(a) {
			if ls := x.P.leaves(s.Func.Params[i].Type()); j < len(ls) {
				switch ls[j].kind {
				case LRef, LArr, LPay, LFunc:
					if !x.isClean(t) {
						clean = false
					}
				}
			}
		}
	}
	sc.clean = clean
	sc.args = args
	x.useDepth++
	x.region(sf, nil, []edge{{to: s.Func.Blocks[0], env: env, st: st}})
	x.useDepth--
	var outs []Outcome
	for _, r := range sf.rets {
		n := len(r.st.useStack)
		if n == 0 || r.st.useStack[n-1].sc != sc {
			unsupported("specification %s does not call its target on some path", s.Name)
		}
		res := r.st.useStack[n-1].res
		r.st.useStack = r.st.useStack[:n-1]
		outs = append(outs, Outcome{r.st, res})
	}
	return outs
}

func (x *Exec) flattenOrNil(v Val) (r []*Term) {
	switch v.(type) {
	case *Ptr:
		return []*Term{I(-1)}
	}
	return x.flatten(v)
}

// pureFn: fn implements a pure interface method.
func (P *Prog) pureFn(fn *ssa.Function) bool {
	if P.pureF == nil {
		P.pureF = map[*ssa.Function]bool{}
		for mo := range P.pureM {
			it := mo.Type().(*types.Signature).Recv().Type()
			for _, t := range P.implementers(it) {
				if sel := P.prog.MethodSets.MethodSet(t).Lookup(mo.Pkg(), mo.Name()); sel != nil {
					if f := P.prog.MethodValue(sel); f != nil {
						P.pureF[f] = true
					}
				}
			}
		}
	}
	return P.pureF[fn]
}
