package expr

import (
	"github.com/substrait-io/substrait-go/v8/types"
	"github.com/substrait-io/substrait-go/v8/zzverif"
)

// Rewriting, one contract per kind of expression: the very same expression if
// the visitor keeps every operand, otherwise a new one of the same kind.

// vKept: the visitor returns every one unchanged.
func vKept(es []Expression, f VisitFunc) bool {
	return zzverif.ForAll(len(es), func(i int) bool { return f(es[i]) == es[i] })
}

// vEach: the operands are what the visitor made of the old ones.
func vEach(es, old []Expression, f VisitFunc) bool {
	return len(es) == len(old) && zzverif.ForAll(len(es), func(i int) bool { return es[i] == f(old[i]) })
}

// A literal has no operands.
//
//verif:iface Literal.Visit
//verif:props C10
func SpecLiteralVisit(l Literal, f VisitFunc) {
	zzverif.Requires(f != nil && VTyped(l))
	zzverif.Ensures("itself", l.Visit(f) == Expression(l))
}

// Nor has a reference: its root is part of the path.
//
//verif:contract (*FieldReference).Visit
//verif:props C10
func SpecFieldRefVisit(e *FieldReference, f VisitFunc) {
	zzverif.Requires(e != nil && f != nil)
	zzverif.Ensures("itself", e.Visit(f) == Expression(e))
}

//verif:contract (*DynamicParameter).Visit
//verif:props C10
func SpecParamVisit(e *DynamicParameter, f VisitFunc) {
	zzverif.Requires(e != nil && f != nil)
	zzverif.Ensures("itself", e.Visit(f) == Expression(e))
}

//verif:contract (*Cast).Visit
//verif:props C10
func SpecCastVisit(e *Cast, f VisitFunc) {
	zzverif.Requires(e != nil && f != nil && e.Input != nil)
	r := e.Visit(f)
	if f(e.Input) == e.Input {
		zzverif.Ensures("unchanged", r == Expression(e))
		return
	}
	o, ok := r.(*Cast)
	zzverif.Ensures("kind", ok && o != nil && o != e)
	zzverif.Ensures("operands", o.Input == f(e.Input))
	zzverif.Ensures("attributes", o.Type == e.Type && o.FailureBehavior == e.FailureBehavior)
}

//verif:contract (*Lambda).Visit
//verif:props C10
func SpecLambdaVisit(e *Lambda, f VisitFunc) {
	zzverif.Requires(e != nil && f != nil && e.Body != nil)
	r := e.Visit(f)
	if f(e.Body) == e.Body {
		zzverif.Ensures("unchanged", r == Expression(e))
		return
	}
	o, ok := r.(*Lambda)
	zzverif.Ensures("kind", ok && o != nil && o != e)
	zzverif.Ensures("operands", o.Body == f(e.Body))
	zzverif.Ensures("attributes", o.Parameters == e.Parameters)
}

//verif:contract (*IfThen).Visit
//verif:props C10
func SpecIfThenVisit(e *IfThen, f VisitFunc) {
	zzverif.Requires(f != nil && vIfOK(e))
	r := e.Visit(f)
	if f(e.elseClause) == e.elseClause && zzverif.ForAll(len(e.ifs), func(i int) bool {
		return f(e.ifs[i].If) == e.ifs[i].If && f(e.ifs[i].Then) == e.ifs[i].Then
	}) {
		zzverif.Ensures("unchanged", r == Expression(e))
		return
	}
	o, ok := r.(*IfThen)
	zzverif.Ensures("kind", ok && o != nil && o != e)
	zzverif.Ensures("operands", len(o.ifs) == len(e.ifs) && zzverif.ForAll(len(e.ifs), func(i int) bool {
		return o.ifs[i].If == f(e.ifs[i].If) && o.ifs[i].Then == f(e.ifs[i].Then)
	}))
	zzverif.Ensures("else", o.elseClause == f(e.elseClause))
}

// The case values of a switch must remain literals.
//
//verif:contract (*SwitchExpr).Visit
//verif:props C10
func SpecSwitchVisit(e *SwitchExpr, f VisitFunc) {
	zzverif.Requires(f != nil && vSwitchOK(e))
	zzverif.Requires(zzverif.ForAll(len(e.ifs), func(i int) bool {
		l, ok := f(e.ifs[i].If).(Literal)
		return ok && l != nil
	}))
	r := e.Visit(f)
	if f(e.match) == e.match && (e.elseClause == nil || f(e.elseClause) == e.elseClause) && zzverif.ForAll(len(e.ifs), func(i int) bool {
		return f(e.ifs[i].If) == Expression(e.ifs[i].If) && f(e.ifs[i].Then) == e.ifs[i].Then
	}) {
		zzverif.Ensures("unchanged", r == Expression(e))
		return
	}
	o, ok := r.(*SwitchExpr)
	zzverif.Ensures("kind", ok && o != nil && o != e)
	zzverif.Ensures("match", o.match == f(e.match))
	zzverif.Ensures("operands", len(o.ifs) == len(e.ifs) && zzverif.ForAll(len(e.ifs), func(i int) bool {
		return Expression(o.ifs[i].If) == f(e.ifs[i].If) && o.ifs[i].Then == f(e.ifs[i].Then)
	}))
	if e.elseClause == nil {
		zzverif.Ensures("else", o.elseClause == nil)
	} else {
		zzverif.Ensures("else", o.elseClause == f(e.elseClause))
	}
}

//verif:contract (*SingularOrList).Visit
//verif:props C10
func SpecSingularVisit(e *SingularOrList, f VisitFunc) {
	zzverif.Requires(e != nil && f != nil && e.Value != nil && vNone(e.Options))
	r := e.Visit(f)
	if f(e.Value) == e.Value && vKept(e.Options, f) {
		zzverif.Ensures("unchanged", r == Expression(e))
		return
	}
	o, ok := r.(*SingularOrList)
	zzverif.Ensures("kind", ok && o != nil && o != e)
	zzverif.Ensures("operands", o.Value == f(e.Value) && vEach(o.Options, e.Options, f))
}

// Replayed only: the invariants of its nested loops are out of reach.
//
//verif:contract (*MultiOrList).Visit
//verif:noprove
//verif:props C10
func SpecMultiVisit(e *MultiOrList, f VisitFunc) {
	zzverif.Requires(e != nil && f != nil && vNone(e.Value) && zzverif.ForAll(len(e.Options), func(i int) bool { return vNone(e.Options[i]) }))
	r := e.Visit(f)
	if vKept(e.Value, f) && zzverif.ForAll(len(e.Options), func(i int) bool { return vKept(e.Options[i], f) }) {
		zzverif.Ensures("unchanged", r == Expression(e))
		return
	}
	o, ok := r.(*MultiOrList)
	zzverif.Ensures("kind", ok && o != nil && o != e)
	zzverif.Ensures("values", vEach(o.Value, e.Value, f))
	zzverif.Ensures("rows", len(o.Options) == len(e.Options))
	zzverif.Ensures("options", zzverif.ForAll(len(e.Options), func(i int) bool { return vEach(o.Options[i], e.Options[i], f) }))
}

//verif:contract (*MapExpr).Visit
//verif:props C10
func SpecMapExprVisit(e *MapExpr, f VisitFunc) {
	zzverif.Requires(f != nil && vPairsOK(e))
	r := e.Visit(f)
	if zzverif.ForAll(len(e.KeyValues), func(i int) bool {
		return f(e.KeyValues[i].Key) == e.KeyValues[i].Key && f(e.KeyValues[i].Value) == e.KeyValues[i].Value
	}) {
		zzverif.Ensures("unchanged", r == Expression(e))
		return
	}
	o, ok := r.(*MapExpr)
	zzverif.Ensures("kind", ok && o != nil && o != e)
	zzverif.Ensures("operands", len(o.KeyValues) == len(e.KeyValues) && zzverif.ForAll(len(e.KeyValues), func(i int) bool {
		return o.KeyValues[i].Key == f(e.KeyValues[i].Key) && o.KeyValues[i].Value == f(e.KeyValues[i].Value)
	}))
	zzverif.Ensures("attributes", o.Nullable == e.Nullable && o.TypeVariationRef == e.TypeVariationRef)
}

//verif:contract (*StructExpr).Visit
//verif:props C10
func SpecStructExprVisit(e *StructExpr, f VisitFunc) {
	zzverif.Requires(e != nil && f != nil && vNone(e.Fields))
	r := e.Visit(f)
	if vKept(e.Fields, f) {
		zzverif.Ensures("unchanged", r == Expression(e))
		return
	}
	o, ok := r.(*StructExpr)
	zzverif.Ensures("kind", ok && o != nil && o != e)
	zzverif.Ensures("operands", vEach(o.Fields, e.Fields, f))
	zzverif.Ensures("attributes", o.Nullable == e.Nullable && o.TypeVariationRef == e.TypeVariationRef)
}

//verif:contract (*ListExpr).Visit
//verif:props C10
func SpecListExprVisit(e *ListExpr, f VisitFunc) {
	zzverif.Requires(e != nil && f != nil && vNone(e.Values))
	r := e.Visit(f)
	if vKept(e.Values, f) {
		zzverif.Ensures("unchanged", r == Expression(e))
		return
	}
	o, ok := r.(*ListExpr)
	zzverif.Ensures("kind", ok && o != nil && o != e)
	zzverif.Ensures("operands", vEach(o.Values, e.Values, f))
	zzverif.Ensures("attributes", o.Nullable == e.Nullable && o.TypeVariationRef == e.TypeVariationRef)
}

// vAfter: the visitor sees the arguments that are expressions.
func vAfter(a types.FuncArg, f VisitFunc) types.FuncArg {
	if e, ok := a.(Expression); ok {
		return f(e)
	}
	return a
}

func vArgsKept(as []types.FuncArg, f VisitFunc) bool {
	return zzverif.ForAll(len(as), func(i int) bool { return vAfter(as[i], f) == as[i] })
}

func vArgsEach(as, old []types.FuncArg, f VisitFunc) bool {
	return len(as) == len(old) && zzverif.ForAll(len(as), func(i int) bool { return as[i] == vAfter(old[i], f) })
}

//verif:contract (*ScalarFunction).Visit
//verif:props C10
func SpecScalarFnVisit(e *ScalarFunction, f VisitFunc) {
	zzverif.Requires(e != nil && f != nil && vArgsOK(e.args))
	r := e.Visit(f)
	if vArgsKept(e.args, f) {
		zzverif.Ensures("unchanged", r == Expression(e))
		return
	}
	o, ok := r.(*ScalarFunction)
	zzverif.Ensures("kind", ok && o != nil && o != e)
	zzverif.Ensures("operands", vArgsEach(o.args, e.args, f))
	zzverif.Ensures("attributes", o.funcRef == e.funcRef && o.declaration == e.declaration && o.outputType == e.outputType &&
		zzverif.Same(o.options, e.options))
}

//verif:contract (*WindowFunction).Visit
//verif:props C10
func SpecWindowFnVisit(e *WindowFunction, f VisitFunc) {
	zzverif.Requires(e != nil && f != nil && vArgsOK(e.args) && vNone(e.Partitions) && vSortsOK(e.Sorts))
	r := e.Visit(f)
	if vArgsKept(e.args, f) && vKept(e.Partitions, f) && zzverif.ForAll(len(e.Sorts), func(i int) bool { return f(e.Sorts[i].Expr) == e.Sorts[i].Expr }) {
		zzverif.Ensures("unchanged", r == Expression(e))
		return
	}
	o, ok := r.(*WindowFunction)
	zzverif.Ensures("kind", ok && o != nil && o != e)
	zzverif.Ensures("operands", vArgsEach(o.args, e.args, f))
	zzverif.Ensures("partitions", vEach(o.Partitions, e.Partitions, f))
	zzverif.Ensures("sorts", len(o.Sorts) == len(e.Sorts) && zzverif.ForAll(len(e.Sorts), func(i int) bool {
		return o.Sorts[i].Expr == f(e.Sorts[i].Expr) && o.Sorts[i].Kind == e.Sorts[i].Kind
	}))
	zzverif.Ensures("attributes", o.funcRef == e.funcRef && o.declaration == e.declaration && o.outputType == e.outputType &&
		o.phase == e.phase && o.invocation == e.invocation && o.BoundsType == e.BoundsType &&
		o.LowerBound == e.LowerBound && o.UpperBound == e.UpperBound && zzverif.Same(o.options, e.options))
}

// vVisitor draws a visitor; like a rewrite, it answers alike for the same
// expression. Literals become literals.
func vVisitor(g *zzverif.Gen, es ...Expression) VisitFunc {
	memo := map[Expression]Expression{}
	for _, e := range es {
		if g.Chance(1, 3) {
			if _, ok := e.(Literal); ok {
				memo[e] = vLit(g)
			} else {
				memo[e] = VChild(g)
			}
		}
	}
	k := g.Intn(4)
	return func(e Expression) Expression {
		if k == 0 || e == nil {
			return e
		}
		if r, ok := memo[e]; ok {
			return r
		}
		if _, lit := e.(Literal); k == 1 && !lit {
			memo[e] = &Cast{Type: &types.Int32Type{Nullability: types.NullabilityRequired}, Input: e}
			return memo[e]
		}
		return e
	}
}

// vOperands: the direct operands of an expression.
func vOperands(e Expression) (es []Expression) {
	args := func(as []types.FuncArg) {
		for _, a := range as {
			if e, ok := a.(Expression); ok {
				es = append(es, e)
			}
		}
	}
	switch e := e.(type) {
	case *Cast:
		return []Expression{e.Input}
	case *Lambda:
		return []Expression{e.Body}
	case *IfThen:
		for _, c := range e.ifs {
			es = append(es, c.If, c.Then)
		}
		return append(es, e.elseClause)
	case *SwitchExpr:
		es = append(es, e.match)
		for _, c := range e.ifs {
			es = append(es, c.If, c.Then)
		}
		if e.elseClause != nil {
			es = append(es, e.elseClause)
		}
	case *SingularOrList:
		return append(append(es, e.Value), e.Options...)
	case *MultiOrList:
		es = append(es, e.Value...)
		for _, o := range e.Options {
			es = append(es, o...)
		}
	case *MapExpr:
		for _, kv := range e.KeyValues {
			es = append(es, kv.Key, kv.Value)
		}
	case *StructExpr:
		return append(es, e.Fields...)
	case *ListExpr:
		return append(es, e.Values...)
	case *ScalarFunction:
		args(e.args)
	case *WindowFunction:
		args(e.args)
		for _, s := range e.Sorts {
			es = append(es, s.Expr)
		}
		es = append(es, e.Partitions...)
	}
	return es
}

// SpecVisitOnce: the visitor sees each direct operand once and nothing else, the
// result equals the original exactly if every operand was kept.
//
//verif:bounded
//verif:weight 4
//verif:props C10
func SpecVisitOnce(e Expression, f VisitFunc) {
	zzverif.Requires(f != nil && VDeep(e))
	want := map[Expression]int{}
	for _, o := range vOperands(e) {
		want[o]++
	}
	got := map[Expression]int{}
	kept := true
	r := e.Visit(func(o Expression) Expression {
		got[o]++
		n := f(o)
		kept = kept && n == o
		return n
	})
	zzverif.Ensures("each-once", len(got) == len(want) && zzverif.ForAllKeys(want, func(o Expression, n int) bool { return got[o] == n }))
	zzverif.Ensures("itself", !kept || r == e)
	zzverif.Ensures("new", kept || r != e)
	was := vOperands(e)
	now := vOperands(r)
	zzverif.Ensures("operands", len(now) == len(was) && zzverif.ForAll(len(now), func(i int) bool { return now[i] == f(was[i]) }))
}

func vVisited[T Expression](g *zzverif.Gen, e T) (T, VisitFunc) {
	return e, vVisitor(g, vOperands(e)...)
}

//verif:inputs SpecVisitOnce
func VGenVisitOnce(g *zzverif.Gen) (Expression, VisitFunc) { return vVisited(g, VChild(g)) }

//verif:inputs SpecLiteralVisit
func VGenLiteralVisit(g *zzverif.Gen) (Literal, VisitFunc) { return vVisited(g, vLit(g)) }

//verif:inputs SpecFieldRefVisit
func VGenFieldRefVisit(g *zzverif.Gen) (*FieldReference, VisitFunc) {
	return vVisited(g, VGenFieldRef(g))
}

//verif:inputs SpecParamVisit
func VGenParamVisit(g *zzverif.Gen) (*DynamicParameter, VisitFunc) { return vVisited(g, VGenParam(g)) }

//verif:inputs SpecCastVisit
func VGenCastVisit(g *zzverif.Gen) (*Cast, VisitFunc) { return vVisited(g, VGenCast(g)) }

//verif:inputs SpecLambdaVisit
func VGenLambdaVisit(g *zzverif.Gen) (*Lambda, VisitFunc) { return vVisited(g, VGenLambda(g)) }

//verif:inputs SpecIfThenVisit
func VGenIfThenVisit(g *zzverif.Gen) (*IfThen, VisitFunc) { return vVisited(g, VGenIfThen(g)) }

//verif:inputs SpecSwitchVisit
func VGenSwitchVisit(g *zzverif.Gen) (*SwitchExpr, VisitFunc) { return vVisited(g, VGenSwitch(g)) }

//verif:inputs SpecSingularVisit
func VGenSingularVisit(g *zzverif.Gen) (*SingularOrList, VisitFunc) {
	return vVisited(g, VGenSingular(g))
}

//verif:inputs SpecMultiVisit
func VGenMultiVisit(g *zzverif.Gen) (*MultiOrList, VisitFunc) { return vVisited(g, VGenMulti(g)) }

//verif:inputs SpecMapExprVisit
func VGenMapExprVisit(g *zzverif.Gen) (*MapExpr, VisitFunc) { return vVisited(g, VGenMapExpr(g)) }

//verif:inputs SpecStructExprVisit
func VGenStructExprVisit(g *zzverif.Gen) (*StructExpr, VisitFunc) {
	return vVisited(g, VGenStructExpr(g))
}

//verif:inputs SpecListExprVisit
func VGenListExprVisit(g *zzverif.Gen) (*ListExpr, VisitFunc) { return vVisited(g, VGenListExpr(g)) }

//verif:inputs SpecScalarFnVisit
func VGenScalarFnVisit(g *zzverif.Gen) (*ScalarFunction, VisitFunc) {
	return vVisited(g, VGenScalarFn(g))
}

//verif:inputs SpecWindowFnVisit
func VGenWindowFnVisit(g *zzverif.Gen) (*WindowFunction, VisitFunc) {
	return vVisited(g, VGenWindowFn(g))
}
