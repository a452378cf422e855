package extensions

import (
	"github.com/substrait-io/substrait-go/v8/types"
	"github.com/substrait-io/substrait-go/v8/types/parser"
	"github.com/substrait-io/substrait-go/v8/zzverif"
)

func vDeclared(p FuncParameter) types.FuncDefArgType {
	if v, ok := p.(ValueArg); ok {
		return v.Value.ValueType
	}
	return types.CommonEnumType
}

// vFits: arity and positions agree.
func vFits(n NullabilityHandling, ps FuncParameterList, v *VariadicBehavior, ts []types.Type) bool {
	if !VArity(len(ps), v, len(ts)) {
		return false
	}
	for _, p := range ps {
		if VIsTypeArg(p) {
			return false
		}
	}
	for i, t := range ts {
		if !VParamMatch(ps[vAt(len(ps), i)], t, n == DiscreteNullability) {
			return false
		}
	}
	return true
}

// vTailOK: a consistent tail holds one type, up to its nullability.
func vTailOK(ps FuncParameterList, v *VariadicBehavior, ts []types.Type) bool {
	if v == nil || v.ParameterConsistency != ConsistentParams {
		return true
	}
	for i := len(ps) - 1; i+1 < len(ts); i++ {
		if !types.VEqActual(ts[i], ts[i+1]) {
			return false
		}
	}
	return true
}

// vBindAll: the bindings of a list that fits. tailInts: an integer of the
// variadic tail differs from the declared parameter's.
func vBindAll(ps FuncParameterList, ts []types.Type) (b *types.VBindings, tailInts bool) {
	b = types.VNewBindings()
	first := types.VNewBindings()
	for i, t := range ts {
		p := vDeclared(ps[vAt(len(ps), i)])
		b.VBind(p, t)
		if i < len(ps) {
			first.VBind(p, t)
		}
	}
	tailInts = len(b.BadInt) > 0
	// the return type refers to the declared parameters
	b.Ints = first.Ints
	b.BadInt = first.BadInt
	return
}

func vOracle(n NullabilityHandling, ps FuncParameterList, v *VariadicBehavior, ts []types.Type) (must, may bool) {
	if !vFits(n, ps, v, ts) || !vTailOK(ps, v, ts) {
		return false, false
	}
	b, tail := vBindAll(ps, ts)
	if b.BadAny || len(b.BadInt) > 0 {
		return false, false
	}
	return !tail, true
}

func vVariant(kind int, n NullabilityHandling, ps FuncParameterList, v *VariadicBehavior, ret types.FuncDefArgType) FunctionVariant {
	impl := ScalarFunctionImpl{Args: ps, Variadic: v, Nullability: n, Return: &parser.TypeExpression{ValueType: ret}}
	switch kind % 3 {
	case 0:
		return &ScalarFunctionVariant{name: "f", urn: "u", impl: impl}
	case 1:
		return &AggregateFunctionVariant{name: "f", urn: "u", impl: AggregateFunctionImpl{ScalarFunctionImpl: impl}}
	}
	return &WindowFunctionVariant{name: "f", urn: "u", impl: WindowFunctionImpl{AggregateFunctionImpl: AggregateFunctionImpl{ScalarFunctionImpl: impl}}}
}

func vVariadicOK(v *VariadicBehavior) bool { return v == nil || v.Min >= 0 && v.Max >= 0 }

// SpecMatchExact: exactly the lists that fit, with consistent bindings.
//
//verif:bounded
//verif:weight 20
//verif:props C14
func SpecMatchExact(kind int, n NullabilityHandling, ps FuncParameterList, v *VariadicBehavior, ts []types.Type, pos int) {
	zzverif.Requires(kind >= 0)
	zzverif.Requires(VParamsOK(ps))
	zzverif.Requires(vDeclParams(ps))
	zzverif.Requires(VActuals(ts))
	zzverif.Requires(VHandled(n))
	zzverif.Requires(vVariadicOK(v))
	f := vVariant(kind, n, ps, v, nil)
	ok, err := f.Match(ts)
	must, may := vOracle(n, ps, v, ts)
	zzverif.Ensures("error-is-no", err == nil || !ok)
	zzverif.Ensures("only-fitting", !ok || may)
	zzverif.Ensures("all-fitting", ok || !must)
	if len(ts) > 0 && len(ps) > 0 {
		at := pos % (len(ps) + 3)
		if at < 0 {
			at = -at
		}
		t := ts[at%len(ts)]
		ok, err := f.MatchAt(t, at)
		inRange := at < len(ps) || v != nil && (v.Max == 0 || at <= v.Max+len(ps)-2)
		typeArg := false
		for _, p := range ps {
			typeArg = typeArg || VIsTypeArg(p)
		}
		want := inRange && !typeArg && VParamMatch(ps[vAt(len(ps), at)], t, n == DiscreteNullability)
		zzverif.Ensures("at-position", ok == want)
		zzverif.Ensures("at-position-error", err == nil || !ok)
	}
	neg, err := f.MatchAt(types.CommonEnumType, -1)
	zzverif.Ensures("negative-position", !neg && err != nil)
}

// VGenMatchExact: mostly lists that fit, or that miss in one place.
//
//verif:inputs SpecMatchExact
func VGenMatchExact(g *zzverif.Gen) (int, NullabilityHandling, FuncParameterList, *VariadicBehavior, []types.Type, int) {
	n, ps, v, ts := vGenSig(g)
	return g.Intn(3), n, ps, v, ts, g.Intn(20)
}

func vGenSig(g *zzverif.Gen) (n NullabilityHandling, ps FuncParameterList, v *VariadicBehavior, ts []types.Type) {
	n = zzverif.OneOf(g, MirrorNullability, DeclaredOutputNullability, DiscreteNullability)
	for i := zzverif.OneOf(g, 0, 1, 1, 2, 2, 3); i > 0; i-- {
		switch {
		case g.Chance(1, 10):
			ps = append(ps, EnumArg{Name: "e", Options: []string{"A", "B"}})
		case g.Chance(1, 40):
			ps = append(ps, TypeArg{Name: "t"})
		default:
			var t types.FuncDefArgType
			g.Deeper(func() {
				switch g.Intn(6) {
				case 0:
					t = types.VGenAny(g)
				case 1:
					t = &types.ParameterizedListType{Nullability: zzverif.OneOf(g, types.NullabilityNullable, types.NullabilityRequired), Type: types.VGenAny(g)}
				case 2:
					t = &types.ParameterizedDecimalType{Nullability: types.NullabilityRequired, Precision: types.VGenVarInt(g), Scale: types.VGenVarInt(g)}
				default:
					t = zzverif.Make[types.FuncDefArgType](g)
				}
			})
			ps = append(ps, ValueArg{Name: "v", Value: &parser.TypeExpression{ValueType: t}})
		}
	}
	if g.Chance(2, 5) {
		v = &VariadicBehavior{Min: g.Intn(3), ParameterConsistency: zzverif.OneOf(g, ConsistentParams, InconsistentParams)}
		if g.Bool() {
			v.Max = v.Min + g.Intn(3)
		}
	}
	if !VParamsOK(ps) {
		return n, ps, v, zzverif.Make[[]types.Type](g)
	}
	count := len(ps)
	if v != nil && len(ps) > 0 {
		count = len(ps) - 1 + v.Min + g.Intn(3)
	}
	if g.Chance(1, 10) {
		count += g.Intn(3) - 1
	}
	for i := 0; i < count && len(ps) > 0; i++ {
		p := ps[vAt(len(ps), i)]
		if i >= len(ps) && g.Bool() {
			t := zzverif.Clone(ts[i-1])
			if g.Chance(1, 3) && types.VActual(t) {
				t = t.WithNullability(types.NullabilityNullable)
			}
			ts = append(ts, t)
			continue
		}
		ts = append(ts, types.VWitness(g, vDeclared(p)))
	}
	// enumerations are passed as the common value
	for i := range ts {
		if e, ok := ts[i].(*types.EnumType); ok && e != nil && g.Chance(5, 6) {
			ts[i] = types.CommonEnumType
		}
	}
	if g.Chance(1, 3) && len(ts) > 0 {
		i := g.Intn(len(ts))
		if ts[i] != types.Type(types.CommonEnumType) {
			t := zzverif.Clone(ts[i])
			g.Mutate(&t)
			ts[i] = t
		}
	}
	return
}

// vRefs: the user defined types of the declared return type are registered.
func vRefs(p types.FuncDefArgType, t types.Type, registry Set) bool {
	switch p := p.(type) {
	case *types.ParameterizedUserDefinedType:
		u := t.(*types.UserDefinedType)
		id, ok := registry.DecodeType(u.TypeReference)
		if !ok || id.Name != p.Name || id.URN != "u" {
			return false
		}
		for i, q := range p.TypeParameters {
			if d, ok := q.(*types.DataTypeUDTParam); ok {
				if !vRefs(d.Type, u.TypeParameters[i].(*types.DataTypeParameter).Type, registry) {
					return false
				}
			}
		}
	case *types.ParameterizedListType:
		return vRefs(p.Type, t.(*types.ListType).Type, registry)
	case *types.ParameterizedMapType:
		return vRefs(p.Key, t.(*types.MapType).Key, registry) && vRefs(p.Value, t.(*types.MapType).Value, registry)
	case *types.ParameterizedStructType:
		for i, q := range p.Types {
			if !vRefs(q, t.(*types.StructType).Types[i], registry) {
				return false
			}
		}
	case *types.OutputDerivation:
		return vRefs(p.FinalType, t, registry)
	}
	return true
}

// SpecResolveExact: the derived type is the declared one under the bindings, with
// the nullability the handling prescribes.
//
//verif:bounded
//verif:weight 20
//verif:props C05
func SpecResolveExact(kind int, n NullabilityHandling, ps FuncParameterList, v *VariadicBehavior, ts []types.Type, ret types.FuncDefArgType) {
	zzverif.Requires(kind >= 0)
	zzverif.Requires(VParamsOK(ps))
	zzverif.Requires(vDeclParams(ps))
	zzverif.Requires(VActuals(ts))
	zzverif.Requires(VHandled(n))
	zzverif.Requires(vVariadicOK(v))
	zzverif.Requires(types.VWellP(ret))
	must, may := vOracle(n, ps, v, ts)
	nullable := false
	for i, t := range ts {
		if len(ps) == 0 {
			break
		}
		switch p := ps[vAt(len(ps), i)].(type) {
		case ValueArg:
			if types.VNullOf(t) != types.NullabilityRequired {
				nullable = true
			}
			if n == DiscreteNullability && (types.VNullOf(t) != types.NullabilityRequired) != (types.VPNull(p.Value.ValueType) == types.NullabilityNullable) {
				must, may = false, false
			}
		case EnumArg:
			if t != types.Type(types.CommonEnumType) {
				must = false
			}
		}
	}
	var b *types.VBindings
	var d types.Type
	dok := false
	if may {
		b, _ = vBindAll(ps, ts)
		zzverif.Requires(types.VWellD(ret, b.Ints))
		d, dok = b.VDerive(ret)
		zzverif.Requires(!dok || types.VConcType(d))
		must = must && dok
	}
	registry := NewSet()
	r, err := vVariant(kind, n, ps, v, ret).ResolveType(ts, registry)
	if err != nil {
		zzverif.Ensures("resolves", !must)
		return
	}
	zzverif.Ensures("accepted", may)
	zzverif.Ensures("bound", dok)
	want := types.NullabilityRequired
	if nullable {
		want = types.NullabilityNullable
	}
	if n == MirrorNullability {
		zzverif.Ensures("mirror", types.VNullOf(r) == want)
		zzverif.Ensures("type", types.VSameDerived(ret, d, r.WithNullability(types.VNullOf(d))))
	} else {
		zzverif.Ensures("type", types.VSameDerived(ret, d, r))
	}
	zzverif.Ensures("references", vRefs(ret, r, registry))
}

//verif:inputs SpecResolveExact
func VGenResolveExact(g *zzverif.Gen) (int, NullabilityHandling, FuncParameterList, *VariadicBehavior, []types.Type, types.FuncDefArgType) {
	n, ps, v, ts := vGenSig(g)
	var ret types.FuncDefArgType
	g.Deeper(func() {
		switch {
		case len(ps) > 0 && g.Chance(1, 3):
			if a, ok := ps[g.Intn(len(ps))].(ValueArg); ok {
				ret = a.Value.ValueType
				break
			}
			fallthrough
		case g.Chance(1, 4):
			ret = types.VGenAny(g)
		case g.Chance(1, 3):
			ret = types.VGenDerivation(g)
		default:
			ret = zzverif.Make[types.FuncDefArgType](g)
		}
	})
	return g.Intn(3), n, ps, v, ts, ret
}

// vDeclParams: no return type program among the declared parameters.
func vDeclParams(ps FuncParameterList) bool {
	for _, p := range ps {
		if v, ok := p.(ValueArg); ok && !types.VDeclParam(v.Value.ValueType) {
			return false
		}
	}
	return true
}
