package expr

import (
	"github.com/substrait-io/substrait-go/v8/types"
	"github.com/substrait-io/substrait-go/v8/zzverif"
	pb "google.golang.org/protobuf/proto"
)

// Equality of expressions, one contract per kind: the operands' own equality is
// what the recursive calls answer, so that the contracts together define
// structural equality by induction on the expression.

//verif:puredyn Expression.Equals
//verif:puredyn Literal.Equals

// vNone: no absent operand.
func vNone(es []Expression) bool {
	return zzverif.ForAll(len(es), func(i int) bool { return es[i] != nil })
}

// vPair: equally many operands, pairwise equal.
func vPair(a, b []Expression) bool {
	return len(a) == len(b) && zzverif.ForAll(len(a), func(i int) bool { return a[i].Equals(b[i]) })
}

// vAltType: a type expressions may have, interval literals' own type included.
func vAltType(t types.Type) bool { return t != nil && types.VConcType(t) }

// Nothing equals the absent expression; of other comparisons this contract says
// nothing.
//
//verif:iface Expression.Equals
//verif:props C09
func SpecExprEqualsNil(e Expression, o Expression) {
	if o != nil {
		if zzverif.Using() {
			e.Equals(o)
		}
		return
	}
	zzverif.Ensures("not-the-absent-one", !e.Equals(o))
}

//verif:contract (*Cast).Equals
//verif:props C09
func SpecCastEquals(a *Cast, o Expression) {
	zzverif.Requires(zzverif.Bounded(VDeep(a) && VDeep(o)))
	zzverif.Requires(a != nil && vAltType(a.Type) && a.Input != nil)
	b, ok := o.(*Cast)
	zzverif.Requires(!ok || b != nil && vAltType(b.Type) && b.Input != nil)
	zzverif.Ensures("structural", a.Equals(o) == (ok && types.VEqType(a.Type, b.Type) && a.Input.Equals(b.Input) && a.FailureBehavior == b.FailureBehavior))
}

//verif:contract (*DynamicParameter).Equals
//verif:props C09
func SpecParamEquals(a *DynamicParameter, o Expression) {
	zzverif.Requires(zzverif.Bounded(VDeep(a) && VDeep(o)))
	zzverif.Requires(a != nil && vAltType(a.OutputType))
	b, ok := o.(*DynamicParameter)
	zzverif.Requires(!ok || b != nil && vAltType(b.OutputType))
	zzverif.Ensures("structural", a.Equals(o) == (ok && types.VEqType(a.OutputType, b.OutputType) && a.ParameterReference == b.ParameterReference))
}

func vIfOK(a *IfThen) bool {
	return a != nil && a.elseClause != nil && zzverif.ForAll(len(a.ifs), func(i int) bool { return a.ifs[i].If != nil && a.ifs[i].Then != nil })
}

//verif:contract (*IfThen).Equals
//verif:props C09
func SpecIfThenEquals(a *IfThen, o Expression) {
	zzverif.Requires(zzverif.Bounded(VDeep(a) && VDeep(o)))
	zzverif.Requires(vIfOK(a))
	b, ok := o.(*IfThen)
	zzverif.Requires(!ok || vIfOK(b))
	zzverif.Ensures("structural", a.Equals(o) == (ok && a.elseClause.Equals(b.elseClause) && len(a.ifs) == len(b.ifs) &&
		zzverif.ForAll(len(a.ifs), func(i int) bool {
			return a.ifs[i].If.Equals(b.ifs[i].If) && a.ifs[i].Then.Equals(b.ifs[i].Then)
		})))
}

func vSwitchOK(a *SwitchExpr) bool {
	return a != nil && a.match != nil && zzverif.ForAll(len(a.ifs), func(i int) bool { return VTyped(a.ifs[i].If) && a.ifs[i].Then != nil })
}

//verif:contract (*SwitchExpr).Equals
//verif:props C09
func SpecSwitchEquals(a *SwitchExpr, o Expression) {
	zzverif.Requires(zzverif.Bounded(VDeep(a) && VDeep(o)))
	zzverif.Requires(vSwitchOK(a))
	b, ok := o.(*SwitchExpr)
	zzverif.Requires(!ok || vSwitchOK(b))
	zzverif.Ensures("structural", a.Equals(o) == (ok && a.match.Equals(b.match) &&
		(a.elseClause == nil) == (b.elseClause == nil) && (a.elseClause == nil || a.elseClause.Equals(b.elseClause)) &&
		len(a.ifs) == len(b.ifs) && zzverif.ForAll(len(a.ifs), func(i int) bool {
		return a.ifs[i].If.Equals(b.ifs[i].If) && a.ifs[i].Then.Equals(b.ifs[i].Then)
	})))
}

//verif:contract (*SingularOrList).Equals
//verif:props C09
func SpecSingularEquals(a *SingularOrList, o Expression) {
	zzverif.Requires(zzverif.Bounded(VDeep(a) && VDeep(o)))
	zzverif.Requires(a != nil && a.Value != nil && vNone(a.Options))
	b, ok := o.(*SingularOrList)
	zzverif.Requires(!ok || b != nil && b.Value != nil && vNone(b.Options))
	zzverif.Ensures("structural", a.Equals(o) == (ok && a.Value.Equals(b.Value) && vPair(a.Options, b.Options)))
}

//verif:contract (*MultiOrList).Equals
//verif:props C09
func SpecMultiEquals(a *MultiOrList, o Expression) {
	zzverif.Requires(zzverif.Bounded(VDeep(a) && VDeep(o)))
	zzverif.Requires(a != nil && vNone(a.Value) && zzverif.ForAll(len(a.Options), func(i int) bool { return vNone(a.Options[i]) }))
	b, ok := o.(*MultiOrList)
	zzverif.Requires(!ok || b != nil && vNone(b.Value) && zzverif.ForAll(len(b.Options), func(i int) bool { return vNone(b.Options[i]) }))
	zzverif.Ensures("structural", a.Equals(o) == (ok && vPair(a.Value, b.Value) && len(a.Options) == len(b.Options) &&
		zzverif.ForAll(len(a.Options), func(i int) bool { return vPair(a.Options[i], b.Options[i]) })))
}

func vPairsOK(a *MapExpr) bool {
	return a != nil && zzverif.ForAll(len(a.KeyValues), func(i int) bool { return a.KeyValues[i].Key != nil && a.KeyValues[i].Value != nil })
}

//verif:contract (*MapExpr).Equals
//verif:props C09
func SpecMapExprEquals(a *MapExpr, o Expression) {
	zzverif.Requires(zzverif.Bounded(VDeep(a) && VDeep(o)))
	zzverif.Requires(vPairsOK(a))
	b, ok := o.(*MapExpr)
	zzverif.Requires(!ok || vPairsOK(b))
	zzverif.Ensures("structural", a.Equals(o) == (ok && a.Nullable == b.Nullable && a.TypeVariationRef == b.TypeVariationRef &&
		len(a.KeyValues) == len(b.KeyValues) && zzverif.ForAll(len(a.KeyValues), func(i int) bool {
		return a.KeyValues[i].Key.Equals(b.KeyValues[i].Key) && a.KeyValues[i].Value.Equals(b.KeyValues[i].Value)
	})))
}

//verif:contract (*StructExpr).Equals
//verif:props C09
func SpecStructExprEquals(a *StructExpr, o Expression) {
	zzverif.Requires(zzverif.Bounded(VDeep(a) && VDeep(o)))
	zzverif.Requires(a != nil && vNone(a.Fields))
	b, ok := o.(*StructExpr)
	zzverif.Requires(!ok || b != nil && vNone(b.Fields))
	zzverif.Ensures("structural", a.Equals(o) == (ok && a.Nullable == b.Nullable && a.TypeVariationRef == b.TypeVariationRef && vPair(a.Fields, b.Fields)))
}

//verif:contract (*ListExpr).Equals
//verif:props C09
func SpecListExprEquals(a *ListExpr, o Expression) {
	zzverif.Requires(zzverif.Bounded(VDeep(a) && VDeep(o)))
	zzverif.Requires(a != nil && vNone(a.Values))
	b, ok := o.(*ListExpr)
	zzverif.Requires(!ok || b != nil && vNone(b.Values))
	zzverif.Ensures("structural", a.Equals(o) == (ok && a.Nullable == b.Nullable && a.TypeVariationRef == b.TypeVariationRef && vPair(a.Values, b.Values)))
}

func vLambdaOK(a *Lambda) bool {
	return a != nil && a.Body != nil && a.Parameters != nil && types.VConcType(a.Parameters)
}

//verif:contract (*Lambda).Equals
//verif:props C09
func SpecLambdaEquals(a *Lambda, o Expression) {
	zzverif.Requires(zzverif.Bounded(VDeep(a) && VDeep(o)))
	zzverif.Requires(vLambdaOK(a))
	b, ok := o.(*Lambda)
	zzverif.Requires(!ok || vLambdaOK(b))
	zzverif.Ensures("structural", a.Equals(o) == (ok && types.VEqType(a.Parameters, b.Parameters) && a.Body.Equals(b.Body)))
}

// vArgOK: a function argument that is there.
func vArgOK(a types.FuncArg) bool {
	t, ok := a.(types.Type)
	return a != nil && (!ok || vAltType(t))
}

func vArgsOK(as []types.FuncArg) bool {
	return zzverif.ForAll(len(as), func(i int) bool { return vArgOK(as[i]) })
}

// vArgEq: the same argument, or equal ones of the same class.
func vArgEq(a, b types.FuncArg) bool {
	if a == b {
		return true
	}
	switch a := a.(type) {
	case types.Enum:
		return false
	case types.Type:
		b, ok := b.(types.Type)
		return ok && types.VEqType(a, b)
	case Expression:
		b, ok := b.(Expression)
		return ok && a.Equals(b)
	}
	return false
}

func vArgsEq(as, bs []types.FuncArg) bool {
	return len(as) == len(bs) && zzverif.ForAll(len(as), func(i int) bool { return vArgEq(as[i], bs[i]) })
}

//verif:contract FuncArgsEqual
//verif:props C09
func SpecFuncArgsEqual(a, b types.FuncArg) {
	zzverif.Requires(vArgOK(a) && vArgOK(b))
	zzverif.Requires(zzverif.Bounded(vDeepArg(a) && vDeepArg(b)))
	zzverif.Ensures("structural", FuncArgsEqual(a, b) == vArgEq(a, b))
}

func vOptsOK(os []*types.FunctionOption) bool {
	return zzverif.ForAll(len(os), func(i int) bool { return os[i] != nil })
}

func vSameStrs(a, b []string) bool {
	return len(a) == len(b) && zzverif.ForAll(len(a), func(i int) bool { return a[i] == b[i] })
}

func vOptsEq(a, b []*types.FunctionOption) bool {
	return len(a) == len(b) && zzverif.ForAll(len(a), func(i int) bool {
		return a[i].Name == b[i].Name && vSameStrs(a[i].Preference, b[i].Preference)
	})
}

//verif:contract (*ScalarFunction).Equals
//verif:props C09
func SpecScalarFnEquals(a *ScalarFunction, o Expression) {
	zzverif.Requires(zzverif.Bounded(VDeep(a) && VDeep(o)))
	zzverif.Requires(a != nil && vAltType(a.outputType) && vArgsOK(a.args) && vOptsOK(a.options))
	b, ok := o.(*ScalarFunction)
	zzverif.Requires(!ok || b != nil && vAltType(b.outputType) && vArgsOK(b.args) && vOptsOK(b.options))
	zzverif.Ensures("structural", a.Equals(o) == (ok && a.funcRef == b.funcRef && types.VEqType(a.outputType, b.outputType) &&
		vArgsEq(a.args, b.args) && vOptsEq(a.options, b.options)))
}

func vSortsOK(s []SortField) bool {
	return zzverif.ForAll(len(s), func(i int) bool { return s[i].Expr != nil })
}

func vSortsEq(a, b []SortField) bool {
	return len(a) == len(b) && zzverif.ForAll(len(a), func(i int) bool { return a[i].Kind == b[i].Kind && a[i].Expr.Equals(b[i].Expr) })
}

func vWindowOK(a *WindowFunction) bool {
	return a != nil && vAltType(a.outputType) && vArgsOK(a.args) && vOptsOK(a.options) && vNone(a.Partitions) && vSortsOK(a.Sorts)
}

//verif:contract (*WindowFunction).Equals
//verif:props C09
func SpecWindowFnEquals(a *WindowFunction, o Expression) {
	zzverif.Requires(zzverif.Bounded(VDeep(a) && VDeep(o)))
	zzverif.Requires(vWindowOK(a))
	b, ok := o.(*WindowFunction)
	zzverif.Requires(!ok || vWindowOK(b))
	zzverif.Ensures("structural", a.Equals(o) == (ok && a.funcRef == b.funcRef && types.VEqType(a.outputType, b.outputType) &&
		a.phase == b.phase && a.invocation == b.invocation && a.BoundsType == b.BoundsType &&
		a.LowerBound == b.LowerBound && a.UpperBound == b.UpperBound &&
		vArgsEq(a.args, b.args) && vOptsEq(a.options, b.options) && vPair(a.Partitions, b.Partitions) && vSortsEq(a.Sorts, b.Sorts)))
}

func vRootEq(a, b RootRefType) bool {
	switch a := a.(type) {
	case nil:
		return b == nil
	case OuterReference:
		b, ok := b.(OuterReference)
		return ok && a == b
	case LambdaParameterReference:
		b, ok := b.(LambdaParameterReference)
		return ok && a == b
	case Expression:
		b, ok := b.(Expression)
		return ok && a.Equals(b)
	}
	return b == nil
}

func vRefOK(r Reference) bool {
	switch r := r.(type) {
	case ReferenceSegment:
		return VPathOK(r)
	case *MaskExpression:
		return r != nil
	}
	return false
}

//verif:contract (*FieldReference).Equals
//verif:split a.Reference
//verif:props C09
func SpecFieldRefEquals(a *FieldReference, o Expression) {
	zzverif.Requires(zzverif.Bounded(VDeep(a) && VDeep(o)))
	zzverif.Requires(a != nil)
	r, isSeg := a.Reference.(ReferenceSegment)
	zzverif.Requires(isSeg && VExactRef(r))
	b, ok := o.(*FieldReference)
	zzverif.Requires(!ok || b != nil && vRefOK(b.Reference))
	eq := ok && vRootEq(a.Root, b.Root)
	if eq {
		s, isSeg := b.Reference.(ReferenceSegment)
		eq = isSeg && VEqRef(r, s)
	}
	zzverif.Ensures("structural", a.Equals(o) == eq)
}

// Masks are compared as messages.
//
//verif:bounded (*FieldReference).Equals
//verif:props C09
func SpecMaskRefEquals(a, b *FieldReference) {
	zzverif.Requires(VDeep(a) && VDeep(b))
	m, isMask := a.Reference.(*MaskExpression)
	zzverif.Requires(isMask)
	n, ok := b.Reference.(*MaskExpression)
	zzverif.Ensures("structural", a.Equals(b) == (vRootEq(a.Root, b.Root) && ok && pb.Equal(m.ToProto(), n.ToProto())))
}

//verif:inputs SpecMaskRefEquals
func VGenMaskRefEquals(g *zzverif.Gen) (a, b *FieldReference) {
	a, b = VGenFieldRef(g), VGenFieldRef(g)
	if g.Chance(3, 4) {
		a.Reference = VGenMask(g)
	}
	b = zzverif.Clone(a)
	switch g.Intn(4) {
	case 0:
		g.MutateKeep(b)
	case 1:
		b.Reference = VGenMask(g)
	}
	return a, b
}

// vOther draws an expression to compare a with: often a copy, often a copy
// with one change.
func vOther[T Expression](g *zzverif.Gen, a T, gen func(*zzverif.Gen) T) Expression {
	switch g.Intn(8) {
	case 0:
		return VChild(g)
	case 1:
		return gen(g)
	case 2:
		return zzverif.Clone(a)
	}
	b := zzverif.Clone(a)
	g.MutateKeep(b)
	return b
}

//verif:inputs SpecCastEquals
func VGenCastEquals(g *zzverif.Gen) (*Cast, Expression) {
	a := VGenCast(g)
	return a, vOther(g, a, VGenCast)
}

//verif:inputs SpecParamEquals
func VGenParamEquals(g *zzverif.Gen) (*DynamicParameter, Expression) {
	a := VGenParam(g)
	return a, vOther(g, a, VGenParam)
}

//verif:inputs SpecIfThenEquals
func VGenIfThenEquals(g *zzverif.Gen) (*IfThen, Expression) {
	a := VGenIfThen(g)
	return a, vOther(g, a, VGenIfThen)
}

//verif:inputs SpecSwitchEquals
func VGenSwitchEquals(g *zzverif.Gen) (*SwitchExpr, Expression) {
	a := VGenSwitch(g)
	return a, vOther(g, a, VGenSwitch)
}

//verif:inputs SpecSingularEquals
func VGenSingularEquals(g *zzverif.Gen) (*SingularOrList, Expression) {
	a := VGenSingular(g)
	return a, vOther(g, a, VGenSingular)
}

//verif:inputs SpecMultiEquals
func VGenMultiEquals(g *zzverif.Gen) (*MultiOrList, Expression) {
	a := VGenMulti(g)
	return a, vOther(g, a, VGenMulti)
}

//verif:inputs SpecMapExprEquals
func VGenMapExprEquals(g *zzverif.Gen) (*MapExpr, Expression) {
	a := VGenMapExpr(g)
	return a, vOther(g, a, VGenMapExpr)
}

//verif:inputs SpecStructExprEquals
func VGenStructExprEquals(g *zzverif.Gen) (*StructExpr, Expression) {
	a := VGenStructExpr(g)
	return a, vOther(g, a, VGenStructExpr)
}

//verif:inputs SpecListExprEquals
func VGenListExprEquals(g *zzverif.Gen) (*ListExpr, Expression) {
	a := VGenListExpr(g)
	return a, vOther(g, a, VGenListExpr)
}

//verif:inputs SpecLambdaEquals
func VGenLambdaEquals(g *zzverif.Gen) (*Lambda, Expression) {
	a := VGenLambda(g)
	return a, vOther(g, a, VGenLambda)
}

//verif:inputs SpecScalarFnEquals
func VGenScalarFnEquals(g *zzverif.Gen) (*ScalarFunction, Expression) {
	a := VGenScalarFn(g)
	return a, vOther(g, a, VGenScalarFn)
}

//verif:inputs SpecWindowFnEquals
func VGenWindowFnEquals(g *zzverif.Gen) (*WindowFunction, Expression) {
	a := VGenWindowFn(g)
	return a, vOther(g, a, VGenWindowFn)
}

//verif:inputs SpecFieldRefEquals
func VGenFieldRefEquals(g *zzverif.Gen) (*FieldReference, Expression) {
	a := VGenFieldRef(g)
	return a, vOther(g, a, VGenFieldRef)
}

//verif:inputs SpecFuncArgsEqual
func VGenFuncArgsEqual(g *zzverif.Gen) (a, b types.FuncArg) {
	as := append(vGenArgs(g), vGenArgs(g)...)
	for len(as) == 0 {
		as = vGenArgs(g)
	}
	a = as[g.Intn(len(as))]
	if g.Chance(1, 4) {
		return a, as[g.Intn(len(as))]
	}
	b = zzverif.Clone(a)
	if g.Bool() {
		g.MutateKeep(&b)
	}
	return a, b
}

//verif:opaque
func vDeepArg(a types.FuncArg) bool {
	e, ok := a.(Expression)
	return !ok || VDeep(e)
}
