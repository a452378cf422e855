package extensions

import (
	"github.com/substrait-io/substrait-go/v8/types"
	"github.com/substrait-io/substrait-go/v8/types/integer_parameters"
	"github.com/substrait-io/substrait-go/v8/zzverif"
)

// VParamOK: a complete parameter of a signature.
func VParamOK(p FuncParameter) bool {
	switch p := p.(type) {
	case ValueArg:
		return p.Value != nil && types.VWellP(p.Value.ValueType)
	case EnumArg:
		return true
	case TypeArg:
		return true
	}
	return false
}

func VIsTypeArg(p FuncParameter) bool {
	_, ok := p.(TypeArg)
	return ok
}

func VIsEnumArg(p FuncParameter) bool {
	_, ok := p.(EnumArg)
	return ok
}

// VParamMatch: the argument fits the declared parameter.
func VParamMatch(p FuncParameter, t types.Type, strict bool) bool {
	switch p := p.(type) {
	case ValueArg:
		return types.VMatch(p.Value.ValueType, t, strict)
	case EnumArg:
		return types.VMatch(types.CommonEnumType, t, strict)
	}
	return false
}

func VParamsOK(ps FuncParameterList) bool {
	return zzverif.ForAll(len(ps), func(i int) bool { return VParamOK(ps[i]) })
}

func VActuals(ts []types.Type) bool {
	return zzverif.ForAll(len(ts), func(i int) bool { return types.VActual(ts[i]) })
}

func VAllWell(ps []types.FuncDefArgType) bool {
	return zzverif.ForAll(len(ps), func(i int) bool { return types.VWellP(ps[i]) })
}

// VCountOK: the number of arguments of a variadic tail is within its bounds.
func VCountOK(v *VariadicBehavior, n int) bool {
	return n >= v.Min && (v.Max == 0 || n <= v.Max)
}

// VArity: n arguments fit the signature.
func VArity(np int, v *VariadicBehavior, n int) bool {
	if v == nil {
		return n == np
	}
	return np >= 1 && n >= np-1 && VCountOK(v, n-(np-1))
}

// VHandled: a nullability handling with a defined meaning for matching.
func VHandled(n NullabilityHandling) bool {
	return n == MirrorNullability || n == DeclaredOutputNullability || n == DiscreteNullability
}

func vAt(np, i int) int {
	if i < np {
		return i
	}
	return np - 1
}

//verif:contract getFuncDefFromArgList
//verif:props C14
func SpecFuncDefs(ps FuncParameterList) {
	zzverif.Requires(VParamsOK(ps))
	r, err := getFuncDefFromArgList(ps)
	zzverif.Ensures("error", (err != nil) == zzverif.Exists(len(ps), func(i int) bool { return VIsTypeArg(ps[i]) }))
	zzverif.Ensures("length", err != nil || len(r) == len(ps))
	zzverif.Ensures("elements", err != nil || zzverif.ForAll(len(r), func(i int) bool {
		v, ok := ps[i].(ValueArg)
		return !ok || r[i] == v.Value.ValueType
	}))
	zzverif.Ensures("enums", err != nil || zzverif.ForAll(len(r), func(i int) bool {
		_, ok := ps[i].(EnumArg)
		return !ok || r[i] == types.FuncDefArgType(types.CommonEnumType)
	}))
	zzverif.Ensures("complete", err != nil || VAllWell(r))
	zzverif.Ensures("fresh", err != nil || len(r) == 0 || zzverif.IsFresh(r))
}

//verif:contract getLeafParameterizedParams
//verif:props C14
func SpecLeaves(x any) {
	zzverif.Requires(types.VLeafOK(x))
	r := getLeafParameterizedParams(x)
	_ = r
}

//verif:contract HasSyncParams
//verif:props C14
func SpecHasSync(ps []types.FuncDefArgType) {
	zzverif.Requires(VAllWell(ps))
	r := HasSyncParams(ps)
	zzverif.Ensures("closed", !r || zzverif.Exists(len(ps), func(i int) bool { return types.VSym(ps[i]) }))
}

//verif:contract validateAnyTypeBinding
//verif:props C14
func SpecAnyBinding(p types.FuncDefArgType, t types.Type, m map[string]types.Type) {
	zzverif.Requires(types.VWellP(p))
	zzverif.Requires(types.VActual(t))
	zzverif.Requires(m != nil)
	zzverif.Requires(zzverif.ForAllKeys(m, func(k string, v types.Type) bool { return types.VActual(v) }))
	zzverif.Modifies(m)
	err := validateAnyTypeBinding(p, t, m)
	zzverif.Ensures("bindings", zzverif.ForAllKeys(m, func(k string, v types.Type) bool { return types.VActual(v) }))
	zzverif.Ensures("closed", err == nil || types.VNamedAny(p))
}

//verif:contract ValidateConstrainedAnyTypeConsistency
//verif:props C14
func SpecConstrainedAny(ps []types.FuncDefArgType, ts []types.Type, v *VariadicBehavior) {
	zzverif.Requires(VAllWell(ps))
	zzverif.Requires(VActuals(ts))
	zzverif.Requires(v == nil || len(ps) > 0)
	err := ValidateConstrainedAnyTypeConsistency(ps, ts, v)
	zzverif.Ensures("closed", err == nil || zzverif.Exists(len(ps), func(i int) bool { return types.VNamedAny(ps[i]) }))
}

//verif:contract validateVariadicBehaviorForMatch
//verif:props C14
func SpecVariadicMatch(v *VariadicBehavior, ts []types.Type) {
	zzverif.Requires(v != nil)
	zzverif.Requires(VActuals(ts))
	r := validateVariadicBehaviorForMatch(v, ts)
	zzverif.Ensures("count", !r || VCountOK(v, len(ts)))
	zzverif.Ensures("accepts", r || !VCountOK(v, len(ts)) || v.ParameterConsistency == ConsistentParams)
}

//verif:contract matchArgumentAtCommon
//verif:props C14
func SpecMatchAtCommon(t types.Type, pos int, n NullabilityHandling, ps []types.FuncDefArgType, v *VariadicBehavior) {
	zzverif.Requires(VAllWell(ps))
	zzverif.Requires(types.VActual(t))
	zzverif.Requires(pos >= 0 && pos < 1<<62)
	ok, err := matchArgumentAtCommon(t, pos, n, ps, v)
	zzverif.Ensures("error", err == nil || !ok)
	zzverif.Ensures("no-error", err == nil || !VHandled(n))
	inRange := pos < len(ps) || v != nil && len(ps) > 0 && (v.Max == 0 || pos <= v.Max+len(ps)-2)
	zzverif.Ensures("in-range", !ok || inRange)
	zzverif.Ensures("handled", !ok || VHandled(n))
	zzverif.Ensures("exact", !inRange || !VHandled(n) || ok == types.VMatch(ps[vAt(len(ps), pos)], t, n == DiscreteNullability))
}

//verif:contract matchArgumentAt
//verif:props C14
func SpecMatchAt(t types.Type, pos int, n NullabilityHandling, ps FuncParameterList, v *VariadicBehavior) {
	zzverif.Requires(VParamsOK(ps))
	zzverif.Requires(types.VActual(t))
	zzverif.Requires(pos < 1<<62)
	ok, err := matchArgumentAt(t, pos, n, ps, v)
	zzverif.Ensures("negative", pos >= 0 || err != nil)
	zzverif.Ensures("error", err == nil || !ok)
	typeArgs := zzverif.Exists(len(ps), func(i int) bool { return VIsTypeArg(ps[i]) })
	inRange := pos >= 0 && (pos < len(ps) || v != nil && len(ps) > 0 && (v.Max == 0 || pos <= v.Max+len(ps)-2))
	zzverif.Ensures("in-range", !ok || inRange && !typeArgs && VHandled(n))
	zzverif.Ensures("exact", !inRange || typeArgs || !VHandled(n) || err == nil && ok == VParamMatch(ps[vAt(len(ps), pos)], t, n == DiscreteNullability))
}

//verif:contract matchArguments
//verif:props C14
func SpecMatchArguments(n NullabilityHandling, ps FuncParameterList, v *VariadicBehavior, ts []types.Type) {
	zzverif.Requires(VParamsOK(ps))
	zzverif.Requires(VActuals(ts))
	ok, err := matchArguments(n, ps, v, ts)
	zzverif.Ensures("error", err == nil || !ok)
	zzverif.Ensures("arity", !ok || VArity(len(ps), v, len(ts)))
	zzverif.Ensures("no-type-argument", !ok || zzverif.ForAll(len(ps), func(i int) bool { return !VIsTypeArg(ps[i]) }))
	zzverif.Ensures("positions", !ok || zzverif.ForAll(len(ts), func(i int) bool {
		return VParamMatch(ps[vAt(len(ps), i)], ts[i], n == DiscreteNullability)
	}))
	zzverif.Ensures("accepts", ok || !VHandled(n) || !VArity(len(ps), v, len(ts)) ||
		zzverif.Exists(len(ps), func(i int) bool { return VIsTypeArg(ps[i]) || VOpen(ps[i]) }) ||
		v != nil && v.ParameterConsistency == ConsistentParams ||
		zzverif.Exists(len(ts), func(i int) bool {
			return !VParamMatch(ps[vAt(len(ps), i)], ts[i], n == DiscreteNullability)
		}))
}

// VOpen: the parameter mentions a type variable or a symbolic integer.
func VOpen(p FuncParameter) bool {
	v, ok := p.(ValueArg)
	return ok && (types.VSym(v.Value.ValueType) || types.VNamedAny(v.Value.ValueType))
}

var _ integer_parameters.IntegerParameter
