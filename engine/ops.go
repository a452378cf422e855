package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

var two = big.NewInt(2)

func bitsOf(t types.Type) (int, bool, bool) { // bits, signed, ok
	b, ok := under(t).(*types.Basic)
	if !ok {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32:
		return 32, true, true
	case types.Int64, types.Int:
		return 64, true, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint64, types.Uint, types.Uintptr:
		return 64, false, true
	}
	return 0, false, false
}

// wrap reduces a mathematical integer to the machine type.
func (x *Exec) wrap(t *Term, ty types.Type) *Term {
	n, signed, ok := bitsOf(ty)
	if !ok {
		return t
	}
	mod := new(big.Int).Exp(two, big.NewInt(int64(n)), nil)
	lo, hi := big.NewInt(0), new(big.Int).Sub(mod, big.NewInt(1))
	if signed {
		half := new(big.Int).Rsh(mod, 1)
		lo = new(big.Int).Neg(half)
		hi = new(big.Int).Sub(half, big.NewInt(1))
	}
	if t.op == OConst {
		if t.val.Cmp(lo) >= 0 && t.val.Cmp(hi) <= 0 {
			return t
		}
		v := new(big.Int).Sub(t.val, lo)
		v.Mod(v, mod)
		return IB(v.Add(v, lo))
	}
	// general: ((t-lo) mod 2^n) + lo, only when out of range
	in := And(Le(IB(lo), t), Le(t, IB(hi)))
	return Ite(in, t, Add(Mod(Sub(t, IB(lo)), IB(mod)), IB(lo)))
}

// wrapAdd: sum of two in-range values leaves the range by at most one modulus.
func (x *Exec) wrapAdd(t *Term, ty types.Type) *Term {
	n, signed, ok := bitsOf(ty)
	if !ok || t.op == OConst {
		return x.wrap(t, ty)
	}
	mod := new(big.Int).Exp(two, big.NewInt(int64(n)), nil)
	lo, hi := big.NewInt(0), new(big.Int).Sub(mod, big.NewInt(1))
	if signed {
		half := new(big.Int).Rsh(mod, 1)
		lo = new(big.Int).Neg(half)
		hi = new(big.Int).Sub(half, big.NewInt(1))
	}
	return Ite(Lt(IB(hi), t), Sub(t, IB(mod)), Ite(Lt(t, IB(lo)), Add(t, IB(mod)), t))
}

func isIntKind(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isString(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isPlainInt(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Kind() == types.Int
}

func smallConst(t *Term) bool {
	return t.op == OConst && t.val.IsInt64() && t.val.Int64() > -(1<<20) && t.val.Int64() < 1<<20
}

// tquo, trem: Go's truncated division on mathematical integers.
func tquo(a, b *Term) *Term {
	if b.op == OConst && b.val.Sign() > 0 {
		return Ite(Le(I(0), a), Div(a, b), Sub(I(0), Div(Sub(I(0), a), b)))
	}
	return Ite(Le(I(0), a),
		Ite(Lt(I(0), b), Div(a, b), Sub(I(0), Div(a, Sub(I(0), b)))),
		Ite(Lt(I(0), b), Sub(I(0), Div(Sub(I(0), a), b)), Div(Sub(I(0), a), Sub(I(0), b))))
}

func (x *Exec) binop(fr *frame, st *State, op token.Token, a, b Val, t, rt types.Type) []Outcome {
	switch op {
	case token.EQL:
		return ret1(st, Sc{x.equal(st, fr, a, b, t)})
	case token.NEQ:
		return ret1(st, Sc{Not(x.equal(st, fr, a, b, t))})
	}
	p, q := a.(Sc).t, b.(Sc).t
	if isString(t) {
		switch op {
		case token.ADD:
			return ret1(st, Sc{strcat(p, q)})
		case token.LSS:
			return ret1(st, Sc{strLt(p, q)})
		case token.GTR:
			return ret1(st, Sc{strLt(q, p)})
		case token.LEQ:
			return ret1(st, Sc{Not(strLt(q, p))})
		case token.GEQ:
			return ret1(st, Sc{Not(strLt(p, q))})
		}
	}
	if isFloat(t) {
		x.assumeNote("floating-point arithmetic and ordering are uninterpreted")
		switch op {
		case token.LSS:
			return ret1(st, Sc{App("flt", SBool, p, q)})
		case token.GTR:
			return ret1(st, Sc{App("flt", SBool, q, p)})
		case token.LEQ:
			return ret1(st, Sc{App("fle", SBool, p, q)})
		case token.GEQ:
			return ret1(st, Sc{App("fle", SBool, q, p)})
		}
		return ret1(st, Sc{App("f"+op.String(), SInt, p, q)})
	}
	if p.sort == SBool {
		switch op {
		case token.AND:
			return ret1(st, Sc{And(p, q)})
		case token.OR:
			return ret1(st, Sc{Or(p, q)})
		}
	}
	switch op {
	case token.LSS:
		return ret1(st, Sc{Lt(p, q)})
	case token.LEQ:
		return ret1(st, Sc{Le(p, q)})
	case token.GTR:
		return ret1(st, Sc{Gt(p, q)})
	case token.GEQ:
		return ret1(st, Sc{Ge(p, q)})
	case token.ADD, token.SUB:
		var s *Term
		if op == token.ADD {
			s = Add(p, q)
		} else {
			s = Sub(p, q)
		}
		if isPlainInt(rt) && (smallConst(p) || smallConst(q) || isLenLike(p) || isLenLike(q)) {
			x.assumeNote("int additions of small constants, lengths and indices do not overflow 64 bits")
			return ret1(st, Sc{s})
		}
		return ret1(st, Sc{x.wrapAdd(s, rt)})
	case token.MUL:
		return ret1(st, Sc{x.wrap(Mul(p, q), rt)})
	case token.QUO:
		if !x.require(st, "divide-by-zero", fr.fn, Not(Eq(q, I(0)))) {
			return nil
		}
		return ret1(st, Sc{x.wrap(tquo(p, q), rt)})
	case token.REM:
		if !x.require(st, "divide-by-zero", fr.fn, Not(Eq(q, I(0)))) {
			return nil
		}
		return ret1(st, Sc{Sub(p, Mul(q, tquo(p, q)))})
	case token.SHL:
		if q.op == OConst && q.val.IsInt64() && q.val.Int64() < 128 && q.val.Sign() >= 0 {
			return ret1(st, Sc{x.wrap(Mul(p, IB(new(big.Int).Lsh(big.NewInt(1), uint(q.val.Int64())))), rt)})
		}
		r := App("shl~"+rt.String(), SInt, p, q)
		x.leafFact(st, Leaf{LInt, rt, ""}, r)
		return ret1(st, Sc{r})
	case token.SHR:
		if q.op == OConst && q.val.IsInt64() && q.val.Int64() < 128 && q.val.Sign() >= 0 {
			return ret1(st, Sc{Div(p, IB(new(big.Int).Lsh(big.NewInt(1), uint(q.val.Int64()))))})
		}
		r := App("shr~"+rt.String(), SInt, p, q)
		x.leafFact(st, Leaf{LInt, rt, ""}, r)
		return ret1(st, Sc{r})
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		if op == token.AND && q.op == OConst && q.val.Sign() > 0 {
			m := new(big.Int).Add(q.val, big.NewInt(1))
			if new(big.Int).And(m, q.val).Sign() == 0 {
				return ret1(st, Sc{Mod(p, IB(m))})
			}
		}
		if p.op == OConst && q.op == OConst {
			r := new(big.Int)
			switch op {
			case token.AND:
				r.And(p.val, q.val)
			case token.OR:
				r.Or(p.val, q.val)
			case token.XOR:
				r.Xor(p.val, q.val)
			case token.AND_NOT:
				r.AndNot(p.val, q.val)
			}
			return ret1(st, Sc{IB(r)})
		}
		x.assumeNote("bitwise operators on non-constant operands are uninterpreted")
		r := App("bit~"+op.String()+"~"+rt.String(), SInt, p, q)
		x.leafFact(st, Leaf{LInt, rt, ""}, r)
		return ret1(st, Sc{r})
	}
	unsupported("binop %s", op)
	return nil
}

// isLenLike: slice lengths, offsets and bound variables (bounded by 2^40).
func isLenLike(t *Term) bool {
	if t.op == OVar && t.bnd {
		return true
	}
	return false
}

func strcat(a, b *Term) *Term {
	if a.op == OConst && b.op == OConst {
		i, j := a.val.Int64(), b.val.Int64()
		if i >= 0 && j >= 0 && int(i) < len(strTab) && int(j) < len(strTab) {
			return StrLit(strTab[i] + strTab[j])
		}
	}
	if a.op == OConst && a.val.Sign() == 0 {
		return b
	}
	if b.op == OConst && b.val.Sign() == 0 {
		return a
	}
	return App("strcat", SInt, a, b)
}

func strLt(a, b *Term) *Term {
	if a == b {
		return TFalse
	}
	if a.op == OConst && b.op == OConst {
		i, j := a.val.Int64(), b.val.Int64()
		if i >= 0 && j >= 0 && int(i) < len(strTab) && int(j) < len(strTab) {
			return B(strTab[i] < strTab[j])
		}
	}
	return App("strlt", SBool, a, b)
}

func (x *Exec) equal(st *State, fr *frame, a, b Val, t types.Type) *Term {
	switch u := under(t).(type) {
	case *types.Interface:
		p, q := x.toIf(a), x.toIf(b)
		return And(Eq(p.tag, q.tag), Eq(p.pay, q.pay))
	case *types.Struct:
		p, q := a.(St), b.(St)
		var cs []*Term
		for i := 0; i < u.NumFields(); i++ {
			cs = append(cs, x.equal(st, fr, p.f[i], q.f[i], u.Field(i).Type()))
		}
		return And(cs...)
	case *types.Array:
		p, q := a.(Ar), b.(Ar)
		var cs []*Term
		for i := range p.f {
			cs = append(cs, x.equal(st, fr, p.f[i], q.f[i], u.Elem()))
		}
		return And(cs...)
	case *types.Slice: // comparison with nil only
		p, q := a.(Sl), b.(Sl)
		if q.arr.op == OConst && q.arr.val.Sign() == 0 {
			return Eq(p.arr, I(0))
		}
		return Eq(q.arr, I(0))
	case *types.Basic:
		if u.Info()&types.IsFloat != 0 {
			p, q := a.(Sc).t, b.(Sc).t
			return floatEq(t, p, q)
		}
	case *types.Signature:
		p, q := x.flatten(a)[0], x.flatten(b)[0]
		if p.op == OApp && strings_HasPrefix(p.name, "fn~") || closureTab[p] != nil {
			p = I(1)
		}
		return Eq(p, q)
	}
	if pp, ok := a.(*Ptr); ok {
		if qq, ok := b.(Sc); ok && qq.t.op == OConst {
			return TFalse
		}
		if qq, ok := b.(*Ptr); ok {
			return B(sameVal(pp, qq))
		}
		unsupported("pointer comparison")
	}
	if _, ok := b.(*Ptr); ok {
		return x.equal(st, fr, b, a, t)
	}
	return Eq(a.(Sc).t, b.(Sc).t)
}

func strings_HasPrefix(s, p string) bool { return len(s) >= len(p) && s[:len(p)] == p }

func (x *Exec) toIf(v Val) If {
	if i, ok := v.(If); ok {
		return i
	}
	unsupported("interface value expected, got %T", v)
	return If{}
}

func (x *Exec) convert(fr *frame, st *State, v Val, from, to types.Type) []Outcome {
	if hasTypeParam(to) {
		unsupported("conversion to type parameter")
	}
	switch {
	case isIntKind(from) && isIntKind(to):
		return ret1(st, Sc{x.wrap(v.(Sc).t, to)})
	case isString(from) && isString(to):
		return ret1(st, v)
	case isFloat(from) && isFloat(to):
		if types.Identical(under(from), under(to)) {
			return ret1(st, v)
		}
		return ret1(st, Sc{App("fconv~"+to.String(), SInt, v.(Sc).t)})
	case isIntKind(from) && isFloat(to):
		t := v.(Sc).t
		if t.op == OConst && t.val.Sign() == 0 {
			return ret1(st, v)
		}
		return ret1(st, Sc{App("i2f~"+to.String(), SInt, t)})
	case isFloat(from) && isIntKind(to):
		r := App("f2i~"+to.String(), SInt, v.(Sc).t)
		x.leafFact(st, Leaf{LInt, to, ""}, r)
		return ret1(st, Sc{r})
	}
	// string <-> []byte
	if s, ok := under(to).(*types.Slice); ok && isString(from) {
		t := v.(Sc).t
		x.strFacts(st, t)
		arr := x.newRef(st)
		k := fmt.Sprintf("E|%s|%d", x.P.canon.keyOf(s.Elem()), 0)
		h := x.heapGet(st, k, arrSort(arrSort(SInt)))
		st.heap[k] = Store(h, arr, App("strbytes", arrSort(SInt), t))
		return ret1(st, Sl{arr, I(0), StrLen(t), StrLen(t)})
	}
	if s, ok := under(from).(*types.Slice); ok && isString(to) {
		sl := v.(Sl)
		k := fmt.Sprintf("E|%s|%d", x.P.canon.keyOf(s.Elem()), 0)
		h := x.heapGet(st, k, arrSort(arrSort(SInt)))
		r := App("bytesstr", SInt, Select(h, sl.arr), sl.off, sl.ln)
		x.assume(st, Eq(StrLen(r), sl.ln), true)
		x.strFacts(st, r)
		return ret1(st, Sc{r})
	}
	if isIntKind(from) && isString(to) {
		return ret1(st, Sc{App("runestr", SInt, v.(Sc).t)})
	}
	if types.Identical(under(from), under(to)) {
		return ret1(st, retype(v, to))
	}
	unsupported("convert %s -> %s", from, to)
	return nil
}

// ---- maps
func (x *Exec) mapKey(st *State, v Val, t types.Type) *Term {
	if ts, ls := x.flatten(v), x.P.leaves(t); len(ts) == 1 {
		if ls[0].kind == LBool {
			return Ite(ts[0], I(1), I(0))
		}
		return ts[0]
	}
	return x.box(st, v, t)
}

func (x *Exec) mapKeys(t types.Type) (string, *types.Map) {
	m := under(t).(*types.Map)
	return x.P.canon.keyOf(m), m
}

func (x *Exec) newMap(st *State, t types.Type) *Term {
	r := x.newRef(st)
	k, _ := x.mapKeys(t)
	dk, lk := "D|"+k, "N|"+k
	st.heap[dk] = Store(x.heapGet(st, dk, arrSort(arrSort(SBool))), r, ConstArr(arrSort(SBool), TFalse))
	st.heap[lk] = Store(x.heapGet(st, lk, arrSort(SInt)), r, I(0))
	if x.stores != nil {
		*x.stores = append(*x.stores, storeEv{key: dk, ref: r}, storeEv{key: lk, ref: r})
	}
	return r
}

func (x *Exec) mapStore(st *State, t types.Type, m *Term, key, val Val, fn *ssa.Function) {
	ks, mt := x.mapKeys(t)
	x.checkFrame(st, m, ks, fn, t)
	x.bumpEpoch(st, m)
	k := x.mapKey(st, key, mt.Key())
	dk, lk := "D|"+ks, "N|"+ks
	d := x.heapGet(st, dk, arrSort(arrSort(SBool)))
	n := x.heapGet(st, lk, arrSort(SInt))
	was := Select(Select(d, m), k)
	st.heap[dk] = Store(d, m, Store(Select(d, m), k, TTrue))
	st.heap[lk] = Store(n, m, Add(Select(n, m), Ite(was, I(0), I(1))))
	vs := x.flatten(val)
	x.keyTyp[dk] = mt
	for i, l := range x.P.leaves(mt.Elem()) {
		vk := fmt.Sprintf("V|%s|%d", ks, i)
		x.keyTyp[vk] = mt
		h := x.heapGet(st, vk, arrSort(arrSort(l.sort())))
		st.heap[vk] = Store(h, m, Store(Select(h, m), k, vs[i]))
		if x.stores != nil {
			*x.stores = append(*x.stores, storeEv{key: vk, ref: m, idx: k, val: vs[i]})
		}
	}
	if x.stores != nil {
		*x.stores = append(*x.stores, storeEv{key: dk, ref: m, idx: k, val: TTrue}, storeEv{key: lk, ref: m})
	}
}

func (x *Exec) mapDelete(st *State, t types.Type, m *Term, key Val, fn *ssa.Function) {
	ks, mt := x.mapKeys(t)
	x.checkFrame(st, m, ks, fn, t)
	x.bumpEpoch(st, m)
	k := x.mapKey(st, key, mt.Key())
	dk, lk := "D|"+ks, "N|"+ks
	d := x.heapGet(st, dk, arrSort(arrSort(SBool)))
	n := x.heapGet(st, lk, arrSort(SInt))
	was := And(Not(Eq(m, I(0))), Select(Select(d, m), k))
	st.heap[dk] = Store(d, m, Store(Select(d, m), k, TFalse))
	st.heap[lk] = Store(n, m, Sub(Select(n, m), Ite(was, I(1), I(0))))
	if x.stores != nil {
		*x.stores = append(*x.stores, storeEv{key: dk, ref: m, idx: k}, storeEv{key: lk, ref: m})
	}
}

func (x *Exec) mapGet(st *State, t types.Type, m *Term, k *Term) (Val, *Term) {
	ks, mt := x.mapKeys(t)
	dom := And(Not(Eq(m, I(0))), Select(Select(x.heapGet(st, "D|"+ks, arrSort(arrSort(SBool))), m), k))
	ls := x.P.leaves(mt.Elem())
	ts := make([]*Term, len(ls))
	for i, l := range ls {
		h := x.heapGet(st, fmt.Sprintf("V|%s|%d", ks, i), arrSort(arrSort(l.sort())))
		ts[i] = Select(Select(h, m), k)
	}
	x.readFacts(st, ls, ts)
	return x.P.unflatten(mt.Elem(), ts), dom
}

func (x *Exec) mapLen(st *State, t types.Type, m *Term) *Term {
	ks, _ := x.mapKeys(t)
	n := Select(x.heapGet(st, "N|"+ks, arrSort(SInt)), m)
	if n.op != OConst {
		x.assume(st, And(Le(I(0), n), Le(n, I(1<<40))), true)
	}
	return Ite(Eq(m, I(0)), I(0), n)
}

func (x *Exec) lookup(fr *frame, st *State, v, key Val, t types.Type, commaOk bool) []Outcome {
	if isString(t) {
		return x.index(fr, st, v, key.(Sc).t, t)
	}
	mt := under(t).(*types.Map)
	m := v.(Sc).t
	k := x.mapKey(st, key, mt.Key())
	val, dom := x.mapGet(st, t, m, k)
	if commaOk {
		if d, ok := x.decide(st, dom); ok {
			if d {
				return ret1(st, Tup{val, Sc{TTrue}})
			}
			return ret1(st, Tup{x.P.zero(mt.Elem()), Sc{TFalse}})
		}
		s2 := st.clone()
		x.assume(st, dom, false)
		x.assume(s2, Not(dom), false)
		return []Outcome{{st, Tup{Tup{val, Sc{TTrue}}}}, {s2, Tup{Tup{x.P.zero(mt.Elem()), Sc{TFalse}}}}}
	}
	z, ok := x.mergeVal(dom, x.P.zero(mt.Elem()), val)
	if !ok {
		unsupported("map lookup merge")
	}
	return ret1(st, z)
}

// next: iteration over a map. The order is arbitrary; the set of visited keys
// is ghost state.
func (x *Exec) next(fr *frame, st *State, v Val, c *ssa.Next) []Outcome {
	it, ok := v.(*MapIt)
	if !ok {
		unsupported("next on %T", v)
	}
	m := it.m.(Sc).t
	ks := x.P.canon.keyOf(it.typ)
	vis := st.heap[it.vis]
	dom := Select(x.heapGet(st, "D|"+ks, arrSort(arrSort(SBool))), m)
	// exhausted
	s2 := st.clone()
	bv := BoundVar()
	x.assume(s2, Or(Eq(m, I(0)), Forall(bv, Imp(Select(dom, bv), Select(vis, bv)))), false)
	out := []Outcome{}
	// one more key
	key := x.havoc(st, it.typ.Key(), "key", false)
	k := x.mapKey(st, key, it.typ.Key())
	x.assume(st, And(Not(Eq(m, I(0))), Select(dom, k), Not(Select(vis, k))), false)
	st.heap[it.vis] = Store(vis, k, TTrue)
	if x.stores != nil {
		*x.stores = append(*x.stores, storeEv{key: it.vis, ref: k, idx: k, val: TTrue})
	}
	val, _ := x.mapGet(st, it.typ, m, k)
	kt, vt := c.Type().(*types.Tuple).At(1).Type(), c.Type().(*types.Tuple).At(2).Type()
	var kv, vv Val = key, val
	if kt == types.Typ[types.Invalid] {
		kv = Sc{I(0)}
	}
	if vt == types.Typ[types.Invalid] {
		vv = Sc{I(0)}
	}
	out = append(out, Outcome{st, Tup{Tup{Sc{TTrue}, kv, vv}}})
	out = append(out, Outcome{s2, Tup{Tup{Sc{TFalse}, x.P.zero(it.typ.Key()), x.P.zero(it.typ.Elem())}}})
	return out
}

// ---- slicing
func (x *Exec) sliceOp(fr *frame, env Env, st *State, c *ssa.Slice) []Outcome {
	v := x.val(fr, env, st, c.X)
	opt := func(a ssa.Value, d *Term) *Term {
		if a == nil {
			return d
		}
		return x.val(fr, env, st, a).(Sc).t
	}
	switch u := under(c.X.Type()).(type) {
	case *types.Slice:
		s := v.(Sl)
		lo := opt(c.Low, I(0))
		hi := opt(c.High, s.ln)
		mx := opt(c.Max, s.cp)
		if !x.require(st, "slice-bounds", fr.fn, And(Le(I(0), lo), Le(lo, hi), Le(hi, mx), Le(mx, s.cp))) {
			return nil
		}
		off := Add(s.off, lo)
		return ret1(st, Sl{s.arr, off, Sub(hi, lo), Sub(mx, lo)})
	case *types.Pointer:
		at, _ := isArrayT(u.Elem())
		sc, ok := v.(Sc)
		if at == nil || !ok {
			unsupported("slice of %s", c.X.Type())
		}
		n := I(at.Len())
		lo, hi := opt(c.Low, I(0)), opt(c.High, n)
		mx := opt(c.Max, n)
		if !x.require(st, "slice-bounds", fr.fn, And(Le(I(0), lo), Le(lo, hi), Le(hi, mx), Le(mx, n))) {
			return nil
		}
		return ret1(st, Sl{sc.t, lo, Sub(hi, lo), Sub(mx, lo)})
	case *types.Basic:
		s := v.(Sc).t
		x.strFacts(st, s)
		lo, hi := opt(c.Low, I(0)), opt(c.High, StrLen(s))
		if !x.require(st, "slice-bounds", fr.fn, And(Le(I(0), lo), Le(lo, hi), Le(hi, StrLen(s)))) {
			return nil
		}
		r := App("substr", SInt, s, lo, hi)
		x.assume(st, Eq(StrLen(r), Sub(hi, lo)), true)
		x.strFacts(st, r)
		return ret1(st, Sc{r})
	}
	unsupported("slice of %s", c.X.Type())
	return nil
}

// row gives the content array of leaf i of a slice's backing array.
func (x *Exec) row(st *State, et types.Type, i int, arr *Term) *Term {
	l := x.P.leaves(et)[i]
	k := fmt.Sprintf("E|%s|%d", x.P.canon.keyOf(et), i)
	return Select(x.heapGet(st, k, arrSort(arrSort(l.sort()))), arr)
}

func (x *Exec) setRow(st *State, et types.Type, i int, arr, row *Term) {
	l := x.P.leaves(et)[i]
	k := fmt.Sprintf("E|%s|%d", x.P.canon.keyOf(et), i)
	st.heap[k] = Store(x.heapGet(st, k, arrSort(arrSort(l.sort()))), arr, row)
	if x.stores != nil {
		*x.stores = append(*x.stores, storeEv{key: k, ref: arr, val: row})
	}
}

func (x *Exec) setElem(st *State, et types.Type, i int, arr, idx, v *Term) {
	l := x.P.leaves(et)[i]
	k := fmt.Sprintf("E|%s|%d", x.P.canon.keyOf(et), i)
	h := x.heapGet(st, k, arrSort(arrSort(l.sort())))
	x.keyTyp[k] = et
	st.heap[k] = Store(h, arr, Store(Select(h, arr), idx, v))
	if x.stores != nil {
		*x.stores = append(*x.stores, storeEv{key: k, ref: arr, idx: idx, val: v})
	}
}

// appendSlice implements append(s, t...).
func (x *Exec) appendSlice(fr *frame, st *State, s, t Sl, et types.Type) []Outcome {
	if t.ln.op == OConst && t.ln.val.Sign() == 0 {
		return ret1(st, s)
	}
	m := t.ln
	nl := Add(s.ln, m)
	ls := x.P.leaves(et)
	var outs []Outcome
	concrete := m.op == OConst && m.val.Int64() <= 16
	grow := func(st *State) {
		// values read before anything is written
		vals := x.srcVals(st, et, t, concrete)
		arr := x.newRef(st)
		cp := Fresh("cap", SInt)
		x.assume(st, And(Le(nl, cp), Le(cp, I(1<<40))), true)
		for i, l := range ls {
			old := x.row(st, et, i, s.arr)
			var row *Term
			if s.ln.op == OConst && s.ln.val.Sign() == 0 {
				z := I(0)
				if l.kind == LBool {
					z = TFalse
				}
				row = ConstArr(arrSort(l.sort()), z)
			} else if s.off.op == OConst && s.off.val.Sign() == 0 {
				row = old
			} else {
				row = Fresh("row", arrSort(l.sort()))
				cleanRow[row] = cleanRowTerm(old)
				k := BoundVar()
				x.assume(st, Forall(k, Imp(And(Le(I(0), k), Lt(k, s.ln)), Eq(Select(row, k), Select(old, Add(s.off, k))))), true)
			}
			row = x.appendRow(st, row, s.ln, t, vals[i], concrete, l)
			x.setRow(st, et, i, arr, row)
		}
		outs = append(outs, Outcome{st, Tup{Sl{arr, I(0), nl, cp}}})
	}
	inplace := func(st *State) {
		vals := x.srcVals(st, et, t, concrete)
		if !(concrete) {
			// frame only matters when something is written
			if x.logicD == 0 {
				x.checkFrame(st, s.arr, "[]"+x.P.canon.keyOf(et)+" (append in place)", fr.fn, et)
			}
		} else {
			x.checkFrame(st, s.arr, "[]"+x.P.canon.keyOf(et)+" (append in place)", fr.fn, et)
		}
		x.bumpEpoch(st, s.arr)
		for i, l := range ls {
			row := x.row(st, et, i, s.arr)
			if concrete {
				for j := int64(0); j < m.val.Int64(); j++ {
					x.setElem(st, et, i, s.arr, Add(Add(s.off, s.ln), I(j)), vals[i][j])
				}
				continue
			}
			row = x.appendRow(st, row, Add(s.off, s.ln), t, vals[i], concrete, l)
			x.setRow(st, et, i, s.arr, row)
		}
		outs = append(outs, Outcome{st, Tup{Sl{s.arr, s.off, nl, s.cp}}})
	}
	fits := Le(nl, s.cp)
	if s.arr.op == OConst && s.arr.val.Sign() == 0 {
		fits = Le(nl, I(0))
	}
	if !concrete {
		// append of an empty tail returns the slice itself
		if d, ok := x.decide(st, Eq(m, I(0))); !(ok && !d) {
			s0 := st.clone()
			x.assume(s0, Eq(m, I(0)), false)
			x.assume(st, Lt(I(0), m), false)
			outs = append(outs, Outcome{s0, Tup{s}})
		}
	}
	if d, ok := x.decide(st, fits); ok {
		if d {
			inplace(st)
		} else {
			grow(st)
		}
		return outs
	}
	s2 := st.clone()
	x.assume(st, fits, false)
	inplace(st)
	x.assume(s2, Not(fits), false)
	grow(s2)
	return outs
}

func (x *Exec) srcVals(st *State, et types.Type, t Sl, concrete bool) [][]*Term {
	ls := x.P.leaves(et)
	out := make([][]*Term, len(ls))
	for i := range ls {
		r := x.row(st, et, i, t.arr)
		if concrete {
			for j := int64(0); j < t.ln.val.Int64(); j++ {
				out[i] = append(out[i], Select(r, Add(t.off, I(j))))
			}
		} else {
			out[i] = []*Term{r}
		}
	}
	return out
}

func (x *Exec) appendRow(st *State, row, at *Term, t Sl, vals []*Term, concrete bool, l Leaf) *Term {
	if concrete {
		for j, v := range vals {
			row = Store(row, Add(at, I(int64(j))), v)
		}
		return row
	}
	src := vals[0]
	n := Fresh("row", arrSort(l.sort()))
	cleanRow[n] = cleanRowTerm(row) && cleanRowTerm(src)
	k := BoundVar()
	x.assume(st, Forall(k, Imp(Or(Lt(k, at), Le(Add(at, t.ln), k)), Eq(Select(n, k), Select(row, k)))), true)
	k2 := BoundVar()
	x.assume(st, Forall(k2, Imp(And(Le(at, k2), Lt(k2, Add(at, t.ln))), Eq(Select(n, k2), Select(src, Add(t.off, Sub(k2, at)))))), true)
	return n
}

func (x *Exec) copySlice(fr *frame, st *State, d, s Sl, et types.Type) []Outcome {
	n := Ite(Le(s.ln, d.ln), s.ln, d.ln)
	if dd, ok := x.decide(st, Le(s.ln, d.ln)); ok {
		if dd {
			n = s.ln
		} else {
			n = d.ln
		}
	}
	x.checkFrame(st, d.arr, "[]"+x.P.canon.keyOf(et)+" (copy)", fr.fn, et)
	x.bumpEpoch(st, d.arr)
	for i, l := range x.P.leaves(et) {
		src := x.row(st, et, i, s.arr)
		old := x.row(st, et, i, d.arr)
		r := Fresh("row", arrSort(l.sort()))
		cleanRow[r] = cleanRowTerm(old) && cleanRowTerm(src)
		k := BoundVar()
		x.assume(st, Forall(k, Imp(And(Le(d.off, k), Lt(k, Add(d.off, n))), Eq(Select(r, k), Select(src, Add(s.off, Sub(k, d.off)))))), true)
		k2 := BoundVar()
		x.assume(st, Forall(k2, Imp(Or(Lt(k2, d.off), Le(Add(d.off, n), k2)), Eq(Select(r, k2), Select(old, k2)))), true)
		x.setRow(st, et, i, d.arr, r)
	}
	return ret1(st, Sc{n})
}
