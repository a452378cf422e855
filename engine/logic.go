package main

import (
	"fmt"
	"go/types"
	"sort"
	"time"

	"golang.org/x/tools/go/ssa"
)

// LemmaIH carries the induction hypothesis of a lemma under proof.
type LemmaIH struct{}

// mergeLogic folds all outcomes of a pure evaluation into one value, and
// returns the collected standing facts.
func (x *Exec) mergeLogic(base *pcNode, outs []Outcome) (Tup, *Term) {
	if len(outs) == 0 {
		return nil, TTrue
	}
	var res Tup
	var fs []*Term
	for i := len(outs) - 1; i >= 0; i-- {
		o := outs[i]
		c, f := suffix(o.st.pc, base)
		cond := And(c...)
		fs = append(fs, Imp(cond, And(f...)))
		if res == nil {
			res = o.res
			continue
		}
		n := make(Tup, len(res))
		for j := range res {
			v, ok := x.mergeVal(cond, res[j], o.res[j])
			if !ok {
				unsupported("merge of logic results")
			}
			n[j] = v
		}
		res = n
	}
	return res, And(fs...)
}

func (x *Exec) logicArgs(args []Val) []*Term {
	var as []*Term
	for _, a := range args {
		as = append(as, x.flatten(a)...)
	}
	return as
}

func (x *Exec) atom(fn *ssa.Function, as []*Term, st *State) Val {
	var kinds []leafKind
	for _, p := range fn.Params {
		for _, l := range x.P.leaves(p.Type()) {
			kinds = append(kinds, l.kind)
		}
	}
	e := x.epochFor(st, as, kinds)
	all := append([]*Term{e}, as...)
	res := fn.Signature.Results()
	var ts []*Term
	rt := res.At(0).Type()
	for j, l := range x.P.leaves(rt) {
		ts = append(ts, App(fmt.Sprintf("L~%s~%d", fnName(fn), j), l.sort(), all...))
	}
	logicByName["L~"+fnName(fn)+"~0"] = fn
	if len(ts) > 1 || ts[0].sort != SBool {
		if x.made == nil {
			x.made = map[*Term]bool{}
		}
		if x.unaryProbe == 0 {
			x.made[ts[0]] = true
		}
		if x.allClean(as) {
			for j, l := range x.P.leaves(rt) {
				switch l.kind {
				case LRef, LArr, LPay:
					cleanRef[ts[j]] = true
				}
			}
		}
		x.readFacts(st, x.P.leaves(rt), ts)
	}
	if len(ts) == 1 && ts[0].sort == SBool {
		nf := x.nilFalse(fn)
		i := 0
		for j, p := range fn.Params {
			if nf[j] {
				if _, ok := constOf(as[i]); !ok {
					x.assume(st, Imp(ts[0], Not(Eq(as[i], I(0)))), true)
				}
			}
			i += len(x.P.leaves(p.Type()))
		}
	}
	return x.P.unflatten(rt, ts)
}

func constOf(t *Term) (*Term, bool) { return t, t.op == OConst }

var nilFalseC = map[*ssa.Function][]bool{}

// nilFalse: for which parameters the predicate is false when the parameter is
// nil (computed by evaluating its body).
func (x *Exec) nilFalse(fn *ssa.Function) []bool {
	if r, ok := nilFalseC[fn]; ok {
		return r
	}
	out := make([]bool, len(fn.Params))
	nilFalseC[fn] = out
	if x.P.opaque[fn] {
		return out
	}
	for i, p := range fn.Params {
		switch under(p.Type()).(type) {
		case *types.Interface, *types.Pointer, *types.Map:
		default:
			continue
		}
		func() {
			defer func() { recover() }()
			y := NewExec(x.P, x.solver)
			y.deadline = time.Now().Add(5 * time.Second)
			st := y.initState()
			var args []Val
			for j, q := range fn.Params {
				if j == i {
					args = append(args, x.P.zero(q.Type()))
				} else {
					args = append(args, y.havoc(st, q.Type(), q.Name(), true))
				}
			}
			y.unfoldD[fn] = 0
			r, _ := y.unfold(fn, args, st)
			if sc, ok := r.(Sc); ok && sc.t == TFalse {
				out[i] = true
			}
		}()
	}
	return out
}

var logicByName = map[string]*ssa.Function{}

// evalLogic evaluates a logic function. It is unfolded once when the dynamic
// type of its interface arguments is known, otherwise it is an atom.
func (x *Exec) evalLogic(fn *ssa.Function, args []Val, st *State) Val {
	// normalise known tags; the first interface parameter is the one the
	// function is defined by cases on
	known := true
	first := true
	nargs := make([]Val, len(args))
	for i, a := range args {
		nargs[i] = a
		if v, ok := a.(If); ok {
			if k, ok := st.eqc[v.tag]; ok {
				v.tag = k
				if k.val.Sign() == 0 {
					v.pay = I(0)
				}
				nargs[i] = v
			}
			if v.tag.op != OConst && first {
				known = false
			}
			first = false
		}
	}
	as := x.logicArgs(nargs)
	if x.P.opaque[fn] || x.unfoldD[fn] > 0 || !known {
		return x.atom(fn, as, st)
	}
	if !x.recLogic(fn) {
		r, _ := x.unfold(fn, nargs, st)
		return r
	}
	a := x.atom(fn, as, st)
	if sc, ok := a.(Sc); ok && sc.t.sort == SBool {
		if v, ok := x.decide(st, sc.t); ok {
			if v {
				return Sc{TTrue}
			}
			return Sc{TFalse}
		}
	}
	r, _ := x.unfold(fn, nargs, st)
	p, q := x.flatten(a), x.flatten(r)
	for i := range p {
		x.assume(st, Eq(p[i], q[i]), true)
	}
	if len(p) == 1 && p[0].sort == SBool {
		if q[0].op == OTrue || q[0].op == OFalse {
			return r
		}
		st.defs[p[0]] = q[0]
		return a
	}
	return r
}

var recLogicC = map[*ssa.Function]bool{}

// recLogic: the logic function is (mutually) recursive.
func (x *Exec) recLogic(fn *ssa.Function) bool {
	if r, ok := recLogicC[fn]; ok {
		return r
	}
	seen := map[*ssa.Function]bool{}
	var reach func(f *ssa.Function) bool
	reach = func(f *ssa.Function) bool {
		if seen[f] {
			return false
		}
		seen[f] = true
		for _, g := range append([]*ssa.Function{f}, f.AnonFuncs...) {
			for _, b := range g.Blocks {
				for _, ins := range b.Instrs {
					if c, ok := ins.(ssa.CallInstruction); ok {
						if h := c.Common().StaticCallee(); h != nil {
							if h == fn || x.P.isSpecFile(h.Pos()) && reach(h) {
								return true
							}
						}
					}
				}
			}
		}
		return false
	}
	r := reach(fn)
	recLogicC[fn] = r
	return r
}

func (x *Exec) unfold(fn *ssa.Function, args []Val, st *State) (Val, *Term) {
	x.unfoldD[fn]++
	x.logicD++
	s2 := st.clone()
	base := s2.pc
	save := x.stack
	outs := x.callFn(fn, args, nil, s2)
	x.stack = save
	x.logicD--
	x.unfoldD[fn]--
	res, facts := x.mergeLogic(base, outs)
	if res == nil {
		unsupported("logic function %s has no result", fn)
	}
	x.assume(st, facts, true)
	if st.logAl == nil {
		for _, o := range outs {
			if o.st.logAl != nil {
				st.logAl = st.alloc
			}
		}
	}
	return res[0], facts
}

// onTag is called when the dynamic type of an interface value becomes known on
// a path: known logic atoms over it are unfolded.
func (x *Exec) onTag(st *State, v If, static types.Type) {
	k, ok := st.eqc[v.tag]
	if !ok {
		return
	}
	if x.unfoldGuard > 0 || v.tag.op == OConst {
		return
	}
	// ground atoms in the path condition mentioning (tag,pay)
	var atoms []*Term
	for t := range st.known {
		if t.op == OApp && len(t.name) > 2 && t.name[:2] == "L~" {
			for i := 1; i+1 < len(t.args); i++ {
				if t.args[i] == v.tag && t.args[i+1] == v.pay {
					atoms = append(atoms, t)
					break
				}
			}
		}
	}
	_ = k
	for i := 0; i < len(atoms); i++ {
		for j := i + 1; j < len(atoms); j++ {
			if atoms[j].id < atoms[i].id {
				atoms[i], atoms[j] = atoms[j], atoms[i]
			}
		}
	}
	seen := map[*Term]bool{}
	for _, a := range atoms {
		seen[a] = true
		x.unfoldAtom(st, a)
	}
	// unary predicates over this static type
	for _, fn := range x.unaryLogic(static) {
		as := []*Term{v.tag, v.pay}
		x.unaryProbe++
		a := x.atom(fn, as, st).(Sc).t
		x.unaryProbe--
		if a.sort == SBool && !seen[a] || a.sort != SBool && x.made[a] {
			x.unfoldAtom(st, a)
		}
	}
}

func (x *Exec) unfoldAtom(st *State, a *Term) {
	fn := logicByName[a.name]
	if fn == nil || x.P.opaque[fn] || x.unfoldD[fn] > 0 {
		return
	}
	var args []Val
	ts := a.args[1:]
	for _, p := range fn.Params {
		n := len(x.P.leaves(p.Type()))
		args = append(args, x.P.unflatten(p.Type(), append([]*Term(nil), ts[:n]...)))
		ts = ts[n:]
	}
	first := true
	for i, v := range args {
		if w, ok := v.(If); ok {
			if k, ok := st.eqc[w.tag]; ok {
				args[i] = If{k, w.pay}
			} else if w.tag.op != OConst && first {
				return
			}
			first = false
		}
	}
	x.unfoldGuard++
	r, _ := x.unfold(fn, args, st)
	x.unfoldGuard--
	x.assume(st, mkEqBool(a, r.(Sc).t), true)
	if st.known[a] {
		x.assume(st, r.(Sc).t, true)
	}
}

func mkEqBool(a, b *Term) *Term { return Eq(a, b) }

var unaryCache = map[types.Type][]*ssa.Function{}

func (x *Exec) unaryLogic(static types.Type) []*ssa.Function {
	c := x.P.canon.get(static)
	if r, ok := unaryCache[c]; ok {
		return r
	}
	var out []*ssa.Function
	for fn := range x.P.logic {
		if x.P.opaque[fn] {
			continue
		}
		s := fn.Signature
		if s.Params().Len() == 1 && types.Identical(s.Params().At(0).Type(), static) && s.Results().Len() == 1 {
			if _, ok := under(s.Results().At(0).Type()).(*types.Basic); ok {
				out = append(out, fn)
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return fnName(out[i]) < fnName(out[j]) })
	unaryCache[c] = out
	return out
}

// ---- intrinsics of the run-time library of specifications
func (x *Exec) intrinsic(fr *frame, st *State, fn *ssa.Function, args []Val) []Outcome {
	name := fn.Name()
	if fn.Origin() != nil {
		name = fn.Origin().Name()
	}
	sc := fr.spec
	for f := fr; sc == nil && f != nil; f = nil {
	}
	switch name {
	case "Requires":
		c := args[0].(Sc).t
		if sc == nil || x.logicD > 0 {
			unsupported("Requires outside a specification")
		}
		if sc.verify {
			x.assume(st, c, true)
			if d, ok := x.decide(st, c); ok && !d || c == TFalse {
				return nil
			}
		} else {
			u := x.useDepth
			x.useDepth = u - 1
			if u == 1 || true {
				x.oblig(st, "requires/"+sc.spec.Name+"@"+x.callerName(sc), "", c)
			}
			x.useDepth = u
			x.assume(st, c, true)
			if c == TFalse {
				return nil
			}
		}
		return []Outcome{{st, nil}}
	case "Ensures":
		c := args[1].(Sc).t
		lbl := "?"
		if l := args[0].(Sc).t; l.op == OConst && int(l.val.Int64()) < len(strTab) {
			lbl = strTab[l.val.Int64()]
		}
		if sc == nil || x.logicD > 0 {
			unsupported("Ensures outside a specification")
		}
		if sc.verify {
			x.oblig(st, "ensures/"+lbl, "", c)
		}
		x.assume(st, c, true)
		if c == TFalse {
			return nil
		}
		return []Outcome{{st, nil}}
	case "Lemma", "Assert":
		c := args[1].(Sc).t
		lbl := strTab[args[0].(Sc).t.val.Int64()]
		if sc != nil && sc.verify && x.logicD == 0 {
			x.oblig(st, "assert/"+lbl, "", c)
		}
		x.assume(st, c, true)
		return []Outcome{{st, nil}}
	case "ForAll":
		return ret1(st, Sc{x.forall(fr, st, args[0].(Sc).t, args[1], fn.Signature, true)})
	case "Exists":
		return ret1(st, Sc{x.forall(fr, st, args[0].(Sc).t, args[1], fn.Signature, false)})
	case "Modifies":
		if sc == nil {
			unsupported("Modifies outside a specification")
		}
		// argument: a value of generic type
		sc.mods = append(sc.mods, modTarget{args[0], fn.Signature.Params().At(0).Type()})
		if sc.verify {
			x.anyMods = true
			st.logAl = st.alloc
			if sc.spec.TargetFn == nil && sc.spec.IfaceObj == nil {
				x.mods = sc.mods
			}
		}
		return []Outcome{{st, nil}}
	case "MayPanic":
		if sc.verify {
			x.mayPan = true
		}
		return []Outcome{{st, nil}}
	case "Split":
		if sc == nil || !sc.verify {
			return []Outcome{{st, nil}}
		}
		return x.split(st, args[0].(If), fn.Signature.Params().At(0).Type())
	case "Same":
		p, q := x.flatten(args[0]), x.flatten(args[1])
		var cs []*Term
		for i := range p {
			cs = append(cs, Eq(p[i], q[i]))
		}
		return ret1(st, Sc{And(cs...)})
	case "IsFresh":
		p := x.flatten(args[0])
		t := p[0]
		if _, ok := args[0].(If); ok {
			t = p[1]
		}
		return ret1(st, Sc{Lt(t, I(0))})
	case "MapClone":
		return x.mapClone(st, args[0].(Sc).t, fn.Signature.Params().At(0).Type())
	case "Bounded":
		// evaluated only by the bounded (executable) check
		return ret1(st, Sc{TTrue})
	case "ForAllKeys":
		return ret1(st, Sc{x.forallKeys(fr, st, args[0].(Sc).t, args[1], fn.Signature.Params().At(0).Type())})
	case "Using":
		return ret1(st, Sc{B(sc != nil && !sc.verify)})
	case "Prove":
		// true in the verifier, false when executed
		return ret1(st, Sc{TTrue})
	case "Skip":
		return []Outcome{{st, nil}}
	}
	unsupported("intrinsic %s", name)
	return nil
}

func (x *Exec) callerName(sc *specCtx) string {
	if sc.caller != nil {
		return fnName(sc.caller.fn)
	}
	return "?"
}

func (x *Exec) split(st *State, v If, t types.Type) []Outcome {
	if v.tag.op == OConst {
		return []Outcome{{st, nil}}
	}
	set := x.P.implementers(t)
	open := false
	if it, ok := under(t).(*types.Interface); ok && it.NumMethods() == 0 {
		set, open = plainTypes, true
	}
	if len(set) == 0 {
		unsupported("split over %s: no implementing types", t)
	}
	var outs []Outcome
	only := x.onlySplit
	if only != "" && st.label == "" && !x.splitSeen {
		x.splitSeen = true
		ok := only == "nil"
		for _, t := range set {
			ok = ok || shortType(t) == only
		}
		if !ok && only != "nil pointer" && !(open && only == "other") {
			unsupported("no alternative %s", only)
		}
	}
	n := len(set)
	if open {
		n++
	} else {
		x.assumeNote("closed world: interface values hold only concrete types that occur in this module")
	}
	for i := -1; i < n; i++ {
		s := st.clone()
		var lbl string
		if i == len(set) { // any other type
			lbl = "other"
			x.assume(s, Not(Eq(v.tag, I(0))), false)
			for _, t := range set {
				x.assume(s, Not(Eq(v.tag, I(x.P.tag(t)))), false)
			}
		} else if i < 0 {
			x.assume(s, Eq(v.tag, I(0)), false)
			lbl = "nil"
		} else {
			x.assume(s, Eq(v.tag, I(x.P.tag(set[i]))), false)
			lbl = shortType(set[i])
		}
		if only != "" && lbl != only && s.label == "" {
			continue
		}
		if s.label != "" {
			lbl = s.label + "," + lbl
		}
		s.label = lbl
		if i >= 0 && i < len(set) {
			x.onTag(s, v, t)
			if ls := x.P.leaves(set[i]); len(ls) == 1 && ls[0].kind == LRef {
				x.assume(s, Not(Eq(v.pay, I(0))), true)
				x.assumeNote("interfaces do not hold typed nil pointers")
			}
		}
		outs = append(outs, Outcome{s, nil})
	}
	return outs
}

// plainTypes: the alternatives told apart when splitting over any.
var plainTypes = []types.Type{types.Typ[types.Bool], types.Typ[types.String], types.Typ[types.Int64], types.Typ[types.Float64], types.NewSlice(types.Typ[types.Byte])}

func shortType(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string {
		if p.Name() == "substraitpb" {
			return "pb"
		}
		return p.Name()
	})
}

func (x *Exec) forall(fr *frame, st *State, n *Term, f Val, sig *types.Signature, all bool) *Term {
	if n.op == OConst && n.val.IsInt64() && n.val.Int64() <= 6 {
		// a short range of known length: one instance each
		var rs []*Term
		for i := int64(0); i < n.val.Int64(); i++ {
			s2 := st.clone()
			base := s2.pc
			x.logicD++
			outs := x.dynamic(fr, s2, f, []Val{Sc{I(i)}}, sig)
			x.logicD--
			res, facts := x.mergeLogic(base, outs)
			if res == nil {
				continue
			}
			if facts != TTrue {
				x.assume(st, facts, true)
			}
			for _, o := range outs {
				if o.st.logAl != nil && st.logAl == nil {
					st.logAl = st.alloc
				}
			}
			rs = append(rs, res[0].(Sc).t)
		}
		if all {
			return And(rs...)
		}
		return Or(rs...)
	}
	k := BoundVar()
	s2 := st.clone()
	rng := And(Le(I(0), k), Lt(k, n))
	s2.push(rng, false)
	s2.learn(rng, true)
	base := s2.pc
	x.logicD++
	outs := x.dynamic(fr, s2, f, []Val{Sc{k}}, sig)
	x.logicD--
	res, facts := x.mergeLogic(base, outs)
	if res == nil {
		if all {
			return Not(Lt(I(0), n))
		}
		return TFalse
	}
	var qf []*Term
	for _, a := range conj(facts) {
		if a == TTrue {
			continue
		}
		if a.Syms()[k] {
			qf = append(qf, a)
		} else {
			x.assume(st, Imp(Lt(I(0), n), a), true)
		}
	}
	if len(qf) > 0 {
		x.assume(st, Forall(k, Imp(rng, And(qf...))), true)
	}
	for _, o := range outs {
		if o.st.logAl != nil && st.logAl == nil {
			st.logAl = st.alloc
		}
	}
	r := res[0].(Sc).t
	if all {
		return Forall(k, Imp(rng, r))
	}
	return Not(Forall(k, Imp(rng, Not(r))))
}

func conj(t *Term) []*Term {
	if t.op == OAnd {
		return t.args
	}
	return []*Term{t}
}

func (x *Exec) forallKeys(fr *frame, st *State, m *Term, f Val, mt types.Type) *Term {
	mm := under(mt).(*types.Map)
	ks := x.P.canon.keyOf(mm)
	kl := x.P.leaves(mm.Key())
	k := BoundVar()
	s2 := st.clone()
	dom := Select(Select(x.heapGet(st, "D|"+ks, arrSort(arrSort(SBool))), m), k)
	rng := And(Not(Eq(m, I(0))), dom)
	s2.push(rng, false)
	s2.learn(rng, true)
	base := s2.pc
	var key Val
	if len(kl) == 1 {
		if kl[0].kind == LBool {
			unsupported("map with bool key")
		}
		key = x.P.unflatten(mm.Key(), []*Term{k})
	} else {
		ts := make([]*Term, len(kl))
		for i := range kl {
			ts[i] = App(fmt.Sprintf("proj~%s~%d", x.P.canon.keyOf(mm.Key()), i), SInt, k)
		}
		// every key is a box
		x.assume(st, Forall(k, Imp(rng, Eq(k, App("box~"+x.P.canon.keyOf(mm.Key()), SInt, ts...)))), true)
		key = x.P.unflatten(mm.Key(), ts)
	}
	val, _ := x.mapGet(s2, mt, m, k)
	x.logicD++
	outs := x.dynamic(fr, s2, f, []Val{key, val}, nil)
	x.logicD--
	res, facts := x.mergeLogic(base, outs)
	var qf []*Term
	for _, a := range conj(facts) {
		if a == TTrue {
			continue
		}
		if a.Syms()[k] {
			qf = append(qf, a)
		} else {
			x.assume(st, a, true)
		}
	}
	if len(qf) > 0 {
		x.assume(st, Forall(k, Imp(rng, And(qf...))), true)
	}
	return Forall(k, Imp(rng, res[0].(Sc).t))
}

func (x *Exec) mapClone(st *State, m *Term, t types.Type) []Outcome {
	r := x.newRef(st)
	ks, mt := x.mapKeys(t)
	cp := func(k string, s Sort, z *Term) {
		h := x.heapGet(st, k, arrSort(s))
		v := Select(h, m)
		if z != nil {
			v = Ite(Eq(m, I(0)), z, v)
		}
		st.heap[k] = Store(h, r, v)
	}
	cp("D|"+ks, arrSort(SBool), ConstArr(arrSort(SBool), TFalse))
	cp("N|"+ks, SInt, I(0))
	for i, l := range x.P.leaves(mt.Elem()) {
		cp(fmt.Sprintf("V|%s|%d", ks, i), arrSort(l.sort()), nil)
	}
	return ret1(st, Sc{r})
}
