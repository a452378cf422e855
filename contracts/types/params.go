package types

import (
	"github.com/substrait-io/substrait-go/v8/types/integer_parameters"
	"github.com/substrait-io/substrait-go/v8/zzverif"
)

//verif:pure Type.String Type.ShortString FuncDefArgType.String FuncDefArgType.ShortString
//verif:pure UDTParameter.String

func vSymInt(p integer_parameters.IntegerParameter) bool {
	_, ok := p.(*integer_parameters.VariableIntParam)
	return ok
}

// VSym: the declared type mentions a symbolic integer.
//
//verif:logic
func VSym(p FuncDefArgType) bool {
	switch p := p.(type) {
	case *ParameterizedVarCharType:
		return vSymInt(p.IntegerOption)
	case *ParameterizedFixedCharType:
		return vSymInt(p.IntegerOption)
	case *ParameterizedFixedBinaryType:
		return vSymInt(p.IntegerOption)
	case *ParameterizedPrecisionTimeType:
		return vSymInt(p.IntegerOption)
	case *ParameterizedPrecisionTimestampType:
		return vSymInt(p.IntegerOption)
	case *ParameterizedPrecisionTimestampTzType:
		return vSymInt(p.IntegerOption)
	case *ParameterizedIntervalDayType:
		return vSymInt(p.IntegerOption)
	case *ParameterizedDecimalType:
		return vSymInt(p.Precision) || vSymInt(p.Scale)
	case *ParameterizedListType:
		return VSym(p.Type)
	case *ParameterizedMapType:
		return VSym(p.Key) || VSym(p.Value)
	case *ParameterizedStructType:
		return zzverif.Exists(len(p.Types), func(i int) bool { return VSym(p.Types[i]) })
	case *ParameterizedFuncType:
		return VSym(p.Return) || zzverif.Exists(len(p.Parameters), func(i int) bool { return VSym(p.Parameters[i]) })
	case *ParameterizedUserDefinedType:
		return zzverif.Exists(len(p.TypeParameters), func(i int) bool { return VSymU(p.TypeParameters[i]) })
	case *OutputDerivation:
		return VSym(p.FinalType)
	}
	return false
}

//verif:logic
func VSymU(p UDTParameter) bool {
	d, ok := p.(*DataTypeUDTParam)
	return ok && VSym(d.Type)
}

// VLeafOK: what a list of symbolic parameters holds.
func VLeafOK(x any) bool {
	if p, ok := x.(integer_parameters.IntegerParameter); ok {
		return VIntOK(p)
	}
	if p, ok := x.(*DataTypeUDTParam); ok {
		return VWellU(p)
	}
	if p, ok := x.(FuncDefArgType); ok {
		return VWellP(p)
	}
	return false
}

//verif:iface FuncDefArgType.HasParameterizedParam
//verif:props C14
func SpecHasParam(p FuncDefArgType) {
	zzverif.Requires(VWellP(p))
	r := p.HasParameterizedParam()
	zzverif.Ensures("symbolic", r == VSym(p))
}

//verif:iface FuncDefArgType.GetParameterizedParams
//verif:props C14
func SpecGetParams(p FuncDefArgType) {
	zzverif.Requires(VWellP(p))
	r := p.GetParameterizedParams()
	zzverif.Ensures("none", VSym(p) || len(r) == 0)
	zzverif.Ensures("leaves", zzverif.ForAll(len(r), func(i int) bool { return VLeafOK(r[i]) }))
}

// VNamedAny: the declared type mentions a named type variable (any1, T, ...).
//
//verif:logic
func VNamedAny(p FuncDefArgType) bool {
	switch p := p.(type) {
	case *AnyType:
		return p.Name != "any"
	case *ParameterizedListType:
		return VNamedAny(p.Type)
	case *ParameterizedMapType:
		return VNamedAny(p.Key) || VNamedAny(p.Value)
	case *ParameterizedStructType:
		return zzverif.Exists(len(p.Types), func(i int) bool { return VNamedAny(p.Types[i]) })
	case *ParameterizedFuncType:
		return VNamedAny(p.Return) || zzverif.Exists(len(p.Parameters), func(i int) bool { return VNamedAny(p.Parameters[i]) })
	case *ParameterizedUserDefinedType:
		return zzverif.Exists(len(p.TypeParameters), func(i int) bool { return VNamedAnyU(p.TypeParameters[i]) })
	case *OutputDerivation:
		return VNamedAny(p.FinalType)
	}
	return false
}

//verif:logic
func VNamedAnyU(p UDTParameter) bool {
	d, ok := p.(*DataTypeUDTParam)
	return ok && VNamedAny(d.Type)
}

// VTypesOf: components of a concrete container type come back as types.
//
//verif:iface Type.GetParameters
//verif:props C14
func SpecGetParameters(t Type) {
	zzverif.Requires(VActual(t))
	r := t.GetParameters()
	switch t := t.(type) {
	case *ListType:
		zzverif.Ensures("list", len(r) == 1 && r[0] == any(t.Type))
	case *MapType:
		zzverif.Ensures("map", len(r) == 2 && r[0] == any(t.Key) && r[1] == any(t.Value))
	case *StructType:
		zzverif.Ensures("struct", len(r) == len(t.Types))
		zzverif.Ensures("struct-fields", zzverif.ForAll(len(r), func(i int) bool { return r[i] == any(t.Types[i]) }))
	case *DecimalType:
		zzverif.Ensures("decimal", len(r) == 2 && r[0] == any(int64(t.Precision)) && r[1] == any(int64(t.Scale)))
	case *VarCharType:
		zzverif.Ensures("varchar", len(r) == 1 && r[0] == any(int64(t.Length)))
	case *FixedCharType:
		zzverif.Ensures("fixedchar", len(r) == 1 && r[0] == any(int64(t.Length)))
	case *FixedBinaryType:
		zzverif.Ensures("fixedbinary", len(r) == 1 && r[0] == any(int64(t.Length)))
	}
}

//verif:contract buildTypeParametersNameValueMap
//verif:props C14
func SpecBuildMap(ps []FuncDefArgType, ts []Type) {
	zzverif.Requires(zzverif.ForAll(len(ps), func(i int) bool { return VWellP(ps[i]) }))
	zzverif.Requires(zzverif.ForAll(len(ts), func(i int) bool { return VActual(ts[i]) }))
	m, err := buildTypeParametersNameValueMap(ps, ts)
	zzverif.Ensures("map-or-error", (m != nil) == (err == nil))
	zzverif.Ensures("closed", err == nil || zzverif.Exists(len(ps), func(i int) bool { return VSym(ps[i]) }))
}

// VBindings: what the type variables and symbolic integers stand for.
type VBindings struct {
	Anys   map[string]Type
	Ints   map[string]int64
	BadAny bool // a type variable stands for two types
	BadInt map[string]bool
}

func VNewBindings() *VBindings {
	return &VBindings{Anys: map[string]Type{}, Ints: map[string]int64{}, BadInt: map[string]bool{}}
}

// VEqActual: the same type up to its nullability.
func VEqActual(t, u Type) bool {
	e, ok1 := t.(*EnumType)
	f, ok2 := u.(*EnumType)
	if ok1 || ok2 {
		if !ok1 || !ok2 || e.Name != f.Name || len(e.Options) != len(f.Options) {
			return false
		}
		for i := range e.Options {
			if e.Options[i] != f.Options[i] {
				return false
			}
		}
		return true
	}
	return VEqType(t, u.WithNullability(VNullOf(t)))
}

func (b *VBindings) bindInt(ip integer_parameters.IntegerParameter, v int64) {
	s, ok := ip.(*integer_parameters.VariableIntParam)
	if !ok {
		return
	}
	old, seen := b.Ints[string(*s)]
	b.Ints[string(*s)] = v
	if seen && old != v {
		b.BadInt[string(*s)] = true
	}
}

// VBind adds the bindings of one matching pair.
func (b *VBindings) VBind(p FuncDefArgType, t Type) {
	switch p := p.(type) {
	case *AnyType:
		old, seen := b.Anys[p.Name]
		if !seen {
			b.Anys[p.Name] = t
			return
		}
		if p.Name == "any" {
			return
		}
		if !VEqActual(old, t) {
			b.BadAny = true
		}
	case *ParameterizedVarCharType:
		b.bindInt(p.IntegerOption, int64(t.(*VarCharType).Length))
	case *ParameterizedFixedCharType:
		b.bindInt(p.IntegerOption, int64(t.(*FixedCharType).Length))
	case *ParameterizedFixedBinaryType:
		b.bindInt(p.IntegerOption, int64(t.(*FixedBinaryType).Length))
	case *ParameterizedPrecisionTimeType:
		b.bindInt(p.IntegerOption, int64(t.(*PrecisionTimeType).Precision))
	case *ParameterizedPrecisionTimestampType:
		b.bindInt(p.IntegerOption, int64(t.(*PrecisionTimestampType).Precision))
	case *ParameterizedPrecisionTimestampTzType:
		b.bindInt(p.IntegerOption, int64(t.(*PrecisionTimestampTzType).Precision))
	case *ParameterizedIntervalDayType:
		b.bindInt(p.IntegerOption, int64(t.(*IntervalDayType).Precision))
	case *ParameterizedDecimalType:
		b.bindInt(p.Precision, int64(t.(*DecimalType).Precision))
		b.bindInt(p.Scale, int64(t.(*DecimalType).Scale))
	case *ParameterizedListType:
		b.VBind(p.Type, t.(*ListType).Type)
	case *ParameterizedMapType:
		b.VBind(p.Key, t.(*MapType).Key)
		b.VBind(p.Value, t.(*MapType).Value)
	case *ParameterizedStructType:
		for i, q := range p.Types {
			b.VBind(q, t.(*StructType).Types[i])
		}
	case *ParameterizedFuncType:
		for i, q := range p.Parameters {
			b.VBind(q, t.(*FuncType).ParameterTypes[i])
		}
		b.VBind(p.Return, t.(*FuncType).ReturnType)
	case *ParameterizedUserDefinedType:
		for i, q := range p.TypeParameters {
			if d, ok := q.(*DataTypeUDTParam); ok {
				b.VBind(d.Type, t.(*UserDefinedType).TypeParameters[i].(*DataTypeParameter).Type)
			}
		}
	case *OutputDerivation:
		b.VBind(p.FinalType, t)
	}
}

func vIntVal(p integer_parameters.IntegerParameter, ints map[string]int64) (int64, bool) {
	switch p := p.(type) {
	case *integer_parameters.ConcreteIntParam:
		return int64(*p), true
	case *integer_parameters.VariableIntParam:
		v, ok := ints[string(*p)]
		return v, ok
	}
	return 0, false
}

// VEvalExpr: the value of a derivation expression (nil: none, an error or ill-typed).
func VEvalExpr(e Expr, env map[string]any) any {
	switch e := e.(type) {
	case *LiteralNumber:
		return e.Value
	case StringParameter:
		return env[string(e)]
	}
	return vEvalExpr(e, env)
}

func vEvalExpr(e Expr, env map[string]any) any {
	switch e := e.(type) {
	case BinaryExpr:
		l, r := VEvalExpr(e.Left, env), VEvalExpr(e.Right, env)
		a, ok1 := l.(int64)
		b, ok2 := r.(int64)
		c, ok3 := l.(bool)
		d, ok4 := r.(bool)
		if ok1 && ok2 {
			switch e.Op {
			case Plus:
				return a + b
			case Minus:
				return a - b
			case Multiply:
				return a * b
			case Divide:
				if b == 0 {
					return nil
				}
				return a / b
			case LT:
				return a < b
			case LTE:
				return a <= b
			case GT:
				return a > b
			case GTE:
				return a >= b
			case EQ:
				return a == b
			case NEQ:
				return a != b
			}
		}
		if ok3 && ok4 {
			switch e.Op {
			case And:
				return c && d
			case Or:
				return c || d
			}
		}
		return nil
	case *BinaryExpr:
		return vEvalExpr(*e, env)
	case IfExpr:
		c, ok := VEvalExpr(e.Condition, env).(bool)
		if !ok {
			return nil
		}
		if c {
			return VEvalExpr(e.Then, env)
		}
		return VEvalExpr(e.Else, env)
	case *IfExpr:
		return vEvalExpr(*e, env)
	case NotExpr:
		c, ok := VEvalExpr(e.Expr, env).(bool)
		if !ok {
			return nil
		}
		return !c
	case *NotExpr:
		return vEvalExpr(*e, env)
	case *FunctionCallExpr:
		return vEvalExpr(*e, env)
	case FunctionCallExpr:
		var a []int64
		for _, x := range e.Args {
			v, ok := VEvalExpr(x, env).(int64)
			if !ok {
				return nil
			}
			a = append(a, v)
		}
		switch {
		case e.Name == "abs" && len(a) == 1:
			if a[0] < 0 {
				return -a[0]
			}
			return a[0]
		case e.Name == "max" && len(a) == 2:
			if a[0] > a[1] {
				return a[0]
			}
			return a[1]
		case e.Name == "min" && len(a) == 2:
			if a[0] < a[1] {
				return a[0]
			}
			return a[1]
		}
	}
	return nil
}

// VDerive: the type the declared return type stands for under the bindings; ok is
// false when it has none (an unbound variable, an expression without a value, a
// parameter out of range).
func (b *VBindings) VDerive(p FuncDefArgType) (t Type, ok bool) {
	ip := func(p integer_parameters.IntegerParameter) int32 {
		v, bound := vIntVal(p, b.Ints)
		if !bound || v != int64(int32(v)) {
			ok = false
		}
		return int32(v)
	}
	sub := func(p FuncDefArgType) Type {
		t, good := b.VDerive(p)
		ok = ok && good
		return t
	}
	ok = true
	switch p := p.(type) {
	case *AnyType:
		t, found := b.Anys[p.Name]
		if !found {
			return nil, false
		}
		if p.Nullability == NullabilityNullable {
			t = t.WithNullability(NullabilityNullable)
		}
		return t, true
	case *ParameterizedVarCharType:
		t = &VarCharType{Nullability: p.Nullability, Length: ip(p.IntegerOption)}
	case *ParameterizedFixedCharType:
		t = &FixedCharType{Nullability: p.Nullability, Length: ip(p.IntegerOption)}
	case *ParameterizedFixedBinaryType:
		t = &FixedBinaryType{Nullability: p.Nullability, Length: ip(p.IntegerOption)}
	case *ParameterizedPrecisionTimeType:
		t = &PrecisionTimeType{Nullability: p.Nullability, Precision: TimePrecision(ip(p.IntegerOption))}
	case *ParameterizedPrecisionTimestampType:
		t = &PrecisionTimestampType{Nullability: p.Nullability, Precision: TimePrecision(ip(p.IntegerOption))}
	case *ParameterizedPrecisionTimestampTzType:
		t = &PrecisionTimestampTzType{PrecisionTimestampType{Nullability: p.Nullability, Precision: TimePrecision(ip(p.IntegerOption))}}
	case *ParameterizedIntervalDayType:
		t = &IntervalDayType{Nullability: p.Nullability, Precision: TimePrecision(ip(p.IntegerOption))}
	case *ParameterizedDecimalType:
		t = &DecimalType{Nullability: p.Nullability, Precision: ip(p.Precision), Scale: ip(p.Scale)}
	case *ParameterizedListType:
		t = &ListType{Nullability: p.Nullability, Type: sub(p.Type)}
	case *ParameterizedMapType:
		t = &MapType{Nullability: p.Nullability, Key: sub(p.Key), Value: sub(p.Value)}
	case *ParameterizedStructType:
		st := &StructType{Nullability: p.Nullability}
		for _, q := range p.Types {
			st.Types = append(st.Types, sub(q))
		}
		t = st
	case *ParameterizedFuncType:
		fn := &FuncType{Nullability: p.Nullability, ReturnType: sub(p.Return)}
		for _, q := range p.Parameters {
			fn.ParameterTypes = append(fn.ParameterTypes, sub(q))
		}
		t = fn
	case *ParameterizedUserDefinedType:
		u := &UserDefinedType{Nullability: p.Nullability}
		for _, q := range p.TypeParameters {
			switch q := q.(type) {
			case *DataTypeUDTParam:
				u.TypeParameters = append(u.TypeParameters, &DataTypeParameter{Type: sub(q.Type)})
			case *IntegerUDTParam:
				u.TypeParameters = append(u.TypeParameters, IntegerParameter(q.Integer))
			case *StringUDTParam:
				u.TypeParameters = append(u.TypeParameters, StringParameter(q.StringVal))
			}
		}
		t = u
	case *OutputDerivation:
		env := map[string]any{}
		for k, v := range b.Ints {
			env[k] = v
		}
		for _, a := range p.Assignments {
			v := VEvalExpr(a.Value, env)
			if v == nil {
				return nil, false
			}
			env[a.Name] = v
		}
		c := &VBindings{Anys: b.Anys, Ints: map[string]int64{}}
		for k, v := range env {
			if n, ok := v.(int64); ok {
				c.Ints[k] = n
			}
		}
		return c.VDerive(p.FinalType)
	case Type:
		t = p
	default:
		return nil, false
	}
	return t, ok
}

// VWellD: a derivation, at the top if at all, whose expressions are complete and
// well typed.
func VWellD(p FuncDefArgType, ints map[string]int64) bool {
	d, ok := p.(*OutputDerivation)
	if !ok {
		return VDeclParam(p)
	}
	env := map[string]any{}
	for k, v := range ints {
		env[k] = v
	}
	for _, a := range d.Assignments {
		k := vExprKind(a.Value, env)
		if k == 0 {
			return false
		}
		if v := VEvalExpr(a.Value, env); v != nil {
			env[a.Name] = v
		} else if k == 1 {
			env[a.Name] = int64(0)
		} else {
			env[a.Name] = false
		}
	}
	return VDeclParam(d.FinalType)
}

// vExprKind: 1 integer, 2 boolean, 0 ill typed.
func vExprKind(e Expr, env map[string]any) int {
	switch e := e.(type) {
	case *LiteralNumber:
		return 1
	case StringParameter:
		switch env[string(e)].(type) {
		case nil, int64:
			return 1
		case bool:
			return 2
		}
	case *BinaryExpr:
		l, r := vExprKind(e.Left, env), vExprKind(e.Right, env)
		switch e.Op {
		case Plus, Minus, Multiply, Divide:
			if l == 1 && r == 1 {
				return 1
			}
		case LT, LTE, GT, GTE, EQ, NEQ:
			if l == 1 && r == 1 {
				return 2
			}
		case And, Or:
			if l == 2 && r == 2 {
				return 2
			}
		}
	case *IfExpr:
		c, a, b := vExprKind(e.Condition, env), vExprKind(e.Then, env), vExprKind(e.Else, env)
		if c == 2 && a == b {
			return a
		}
	case *NotExpr:
		if vExprKind(e.Expr, env) == 2 {
			return 2
		}
	case *FunctionCallExpr:
		for _, a := range e.Args {
			if vExprKind(a, env) != 1 {
				return 0
			}
		}
		if e.Name == "abs" && len(e.Args) == 1 || (e.Name == "min" || e.Name == "max") && len(e.Args) == 2 {
			return 1
		}
	}
	return 0
}

// VSameDerived: r is the derived type d, up to the references of user defined
// types (assigned by the registry) and, where ret is a type variable, up to the
// nullability of the binding.
func VSameDerived(ret FuncDefArgType, d, r Type) bool {
	switch p := ret.(type) {
	case *AnyType:
		return VEqType(d, r) || p.Nullability != NullabilityNullable && VEqType(d, r.WithNullability(VNullOf(d)))
	case *ParameterizedListType:
		r, ok := r.(*ListType)
		return ok && r.Nullability == d.(*ListType).Nullability && r.TypeVariationRef == 0 && VSameDerived(p.Type, d.(*ListType).Type, r.Type)
	case *ParameterizedMapType:
		r, ok := r.(*MapType)
		return ok && r.Nullability == d.(*MapType).Nullability && r.TypeVariationRef == 0 &&
			VSameDerived(p.Key, d.(*MapType).Key, r.Key) && VSameDerived(p.Value, d.(*MapType).Value, r.Value)
	case *ParameterizedStructType:
		r, ok := r.(*StructType)
		if !ok || r.Nullability != p.Nullability || len(r.Types) != len(p.Types) {
			return false
		}
		for i, q := range p.Types {
			if !VSameDerived(q, d.(*StructType).Types[i], r.Types[i]) {
				return false
			}
		}
		return true
	case *ParameterizedFuncType:
		r, ok := r.(*FuncType)
		if !ok || r.Nullability != p.Nullability || len(r.ParameterTypes) != len(p.Parameters) {
			return false
		}
		for i, q := range p.Parameters {
			if !VSameDerived(q, d.(*FuncType).ParameterTypes[i], r.ParameterTypes[i]) {
				return false
			}
		}
		return VSameDerived(p.Return, d.(*FuncType).ReturnType, r.ReturnType)
	case *ParameterizedUserDefinedType:
		r, ok := r.(*UserDefinedType)
		if !ok || r.Nullability != p.Nullability || len(r.TypeParameters) != len(p.TypeParameters) {
			return false
		}
		for i, q := range p.TypeParameters {
			if dt, ok := q.(*DataTypeUDTParam); ok {
				x, ok := r.TypeParameters[i].(*DataTypeParameter)
				if !ok || !VSameDerived(dt.Type, d.(*UserDefinedType).TypeParameters[i].(*DataTypeParameter).Type, x.Type) {
					return false
				}
			} else if r.TypeParameters[i] != d.(*UserDefinedType).TypeParameters[i] {
				return false
			}
		}
		return true
	case *OutputDerivation:
		return VSameDerived(p.FinalType, d, r)
	}
	return VEqType(d, r)
}

// VGenVarInt: few names, so that symbols are shared.
//
//verif:gen
func VGenVarInt(g *zzverif.Gen) *integer_parameters.VariableIntParam {
	v := integer_parameters.VariableIntParam(zzverif.OneOf(g, "P", "S", "L1", "P"))
	return &v
}

//verif:gen
func VGenAny(g *zzverif.Gen) *AnyType {
	return &AnyType{Name: zzverif.OneOf(g, "any", "any1", "any2", "any1", "T"), Nullability: zzverif.OneOf(g, NullabilityNullable, NullabilityRequired)}
}

func vGenExpr(g *zzverif.Gen, kind, depth int) Expr {
	if kind == 1 {
		if depth == 0 || g.Chance(1, 3) {
			if g.Bool() {
				return &LiteralNumber{Value: int64(g.Intn(40))}
			}
			return StringParameter(zzverif.OneOf(g, "P", "S", "L1", "P", "X"))
		}
		switch g.Intn(5) {
		case 0:
			return &IfExpr{Condition: vGenExpr(g, 2, depth-1), Then: vGenExpr(g, 1, depth-1), Else: vGenExpr(g, 1, depth-1)}
		case 1:
			return &FunctionCallExpr{Name: zzverif.OneOf(g, "max", "min"), Args: []Expr{vGenExpr(g, 1, depth-1), vGenExpr(g, 1, depth-1)}}
		case 2:
			return &FunctionCallExpr{Name: "abs", Args: []Expr{vGenExpr(g, 1, depth-1)}}
		}
		return &BinaryExpr{Op: zzverif.OneOf(g, Plus, Minus, Multiply, Divide, Plus), Left: vGenExpr(g, 1, depth-1), Right: vGenExpr(g, 1, depth-1)}
	}
	if depth > 0 && g.Chance(1, 3) {
		if g.Bool() {
			return &NotExpr{Expr: vGenExpr(g, 2, depth-1)}
		}
		return &BinaryExpr{Op: zzverif.OneOf(g, And, Or), Left: vGenExpr(g, 2, depth-1), Right: vGenExpr(g, 2, depth-1)}
	}
	if depth < 1 {
		depth = 1
	}
	return &BinaryExpr{Op: zzverif.OneOf(g, LT, LTE, GT, GTE, EQ, NEQ), Left: vGenExpr(g, 1, depth-1), Right: vGenExpr(g, 1, depth-1)}
}

//verif:gen
func VGenDerivation(g *zzverif.Gen) *OutputDerivation {
	d := &OutputDerivation{}
	for i := g.Intn(4); i > 0; i-- {
		d.Assignments = append(d.Assignments, Assignment{Name: zzverif.OneOf(g, "P", "S", "X", "Y", "L1"), Value: vGenExpr(g, 1, 2)})
	}
	g.Deeper(func() { d.FinalType = zzverif.Make[FuncDefArgType](g) })
	return d
}

// VResult: r is a type the declared return type p may stand for.
//
//verif:logic
func VResult(p FuncDefArgType, r Type) bool {
	switch p := p.(type) {
	case *AnyType:
		return VActual(r) && (p.Nullability != NullabilityNullable || VNullOf(r) == NullabilityNullable)
	case *ParameterizedVarCharType:
		r, ok := r.(*VarCharType)
		return ok && r.Nullability == p.Nullability && VIntFits(p.IntegerOption, r.Length)
	case *ParameterizedFixedCharType:
		r, ok := r.(*FixedCharType)
		return ok && r.Nullability == p.Nullability && VIntFits(p.IntegerOption, r.Length)
	case *ParameterizedFixedBinaryType:
		r, ok := r.(*FixedBinaryType)
		return ok && r.Nullability == p.Nullability && VIntFits(p.IntegerOption, r.Length)
	case *ParameterizedPrecisionTimeType:
		r, ok := r.(*PrecisionTimeType)
		return ok && r.Nullability == p.Nullability && VIntFits(p.IntegerOption, int32(r.Precision))
	case *ParameterizedPrecisionTimestampType:
		r, ok := r.(*PrecisionTimestampType)
		return ok && r.Nullability == p.Nullability && VIntFits(p.IntegerOption, int32(r.Precision))
	case *ParameterizedPrecisionTimestampTzType:
		r, ok := r.(*PrecisionTimestampTzType)
		return ok && r.Nullability == p.Nullability && VIntFits(p.IntegerOption, int32(r.Precision))
	case *ParameterizedIntervalDayType:
		r, ok := r.(*IntervalDayType)
		return ok && r.Nullability == p.Nullability && VIntFits(p.IntegerOption, int32(r.Precision))
	case *ParameterizedDecimalType:
		r, ok := r.(*DecimalType)
		return ok && r.Nullability == p.Nullability && VIntFits(p.Precision, r.Precision) && VIntFits(p.Scale, r.Scale)
	case *ParameterizedListType:
		r, ok := r.(*ListType)
		return ok && r.Nullability == p.Nullability && VResult(p.Type, r.Type)
	case *ParameterizedMapType:
		r, ok := r.(*MapType)
		return ok && r.Nullability == p.Nullability && VResult(p.Key, r.Key) && VResult(p.Value, r.Value)
	case *ParameterizedStructType:
		r, ok := r.(*StructType)
		return ok && r.Nullability == p.Nullability && len(p.Types) == len(r.Types) &&
			zzverif.ForAll(len(p.Types), func(i int) bool { return VResult(p.Types[i], r.Types[i]) })
	case *ParameterizedFuncType:
		r, ok := r.(*FuncType)
		return ok && r.Nullability == p.Nullability && len(p.Parameters) == len(r.ParameterTypes) && VResult(p.Return, r.ReturnType) &&
			zzverif.ForAll(len(p.Parameters), func(i int) bool { return VResult(p.Parameters[i], r.ParameterTypes[i]) })
	case *ParameterizedUserDefinedType:
		r, ok := r.(*UserDefinedType)
		return ok && r.Nullability == p.Nullability && len(p.TypeParameters) == len(r.TypeParameters) &&
			zzverif.ForAll(len(p.TypeParameters), func(i int) bool { return VResultU(p.TypeParameters[i], r.TypeParameters[i]) })
	case *EnumType:
		return r == Type(p)
	case *OutputDerivation:
		return VResult(p.FinalType, r)
	case Type:
		return r == p
	}
	return false
}

//verif:logic
func VResultU(p UDTParameter, r TypeParam) bool {
	switch p := p.(type) {
	case *DataTypeUDTParam:
		r, ok := r.(*DataTypeParameter)
		return ok && r != nil && VResult(p.Type, r.Type)
	case *IntegerUDTParam:
		r, ok := r.(IntegerParameter)
		return ok && int64(r) == int64(p.Integer)
	case *StringUDTParam:
		r, ok := r.(StringParameter)
		return ok && string(r) == p.StringVal
	}
	return false
}

// VMentions: the type variable occurs in the declared type.
//
//verif:logic
func VMentions(name string, p FuncDefArgType) bool {
	switch p := p.(type) {
	case *AnyType:
		return p.Name == name
	case *ParameterizedListType:
		return VMentions(name, p.Type)
	case *ParameterizedMapType:
		return VMentions(name, p.Key) || VMentions(name, p.Value)
	case *ParameterizedStructType:
		return zzverif.Exists(len(p.Types), func(i int) bool { return VMentions(name, p.Types[i]) })
	case *ParameterizedFuncType:
		return VMentions(name, p.Return) || zzverif.Exists(len(p.Parameters), func(i int) bool { return VMentions(name, p.Parameters[i]) })
	case *ParameterizedUserDefinedType:
		return zzverif.Exists(len(p.TypeParameters), func(i int) bool { return VMentionsU(name, p.TypeParameters[i]) })
	}
	return false
}

//verif:logic
func VMentionsU(name string, p UDTParameter) bool {
	d, ok := p.(*DataTypeUDTParam)
	return ok && VMentions(name, d.Type)
}

//verif:contract unwrapAnyTypeWithName
//verif:props C05
//verif:split p
func SpecUnwrapAny(name string, p FuncDefArgType, t Type) {
	zzverif.Requires(VWellP(p))
	zzverif.Requires(VActual(t))
	zzverif.Requires(VMatch(p, t, false))
	r, err := unwrapAnyTypeWithName(name, p, t)
	zzverif.Ensures("no-error", err == nil)
	zzverif.Ensures("found", (r != nil) == VMentions(name, p))
	zzverif.Ensures("actual", r == nil || VActual(r))
}

func vMatched(ps []FuncDefArgType, ts []Type) bool {
	return zzverif.ForAll(len(ps), func(i int) bool { return VWellP(ps[i]) }) &&
		zzverif.ForAll(len(ts), func(i int) bool { return VActual(ts[i]) }) &&
		zzverif.ForAll(len(ps), func(i int) bool { return i >= len(ts) || VMatch(ps[i], ts[i], false) })
}

//verif:iface FuncDefArgType.ReturnType
//verif:props C05
func SpecReturnType(p FuncDefArgType, ps []FuncDefArgType, ts []Type) {
	zzverif.Requires(VWellP(p))
	zzverif.Requires(vMatched(ps, ts))
	r, err := p.ReturnType(ps, ts)
	zzverif.Ensures("result", err != nil || VResult(p, r))
	zzverif.Ensures("error", err == nil || r == nil)
	if a, ok := p.(*AnyType); ok {
		zzverif.Ensures("unbound", (err == nil) == zzverif.Exists(len(ps), func(i int) bool { return i < len(ts) && VMentions(a.Name, ps[i]) }))
	}
}

// VGenReturn: a declared type with arguments that fit a list of parameters.
//
//verif:inputs SpecReturnType
func VGenReturn(g *zzverif.Gen) (FuncDefArgType, []FuncDefArgType, []Type) {
	p := zzverif.MakeOnly[FuncDefArgType](g)
	var ps []FuncDefArgType
	var ts []Type
	g.Deeper(func() {
		for i := g.Intn(4); i > 0; i-- {
			q := zzverif.Make[FuncDefArgType](g)
			if g.Chance(1, 3) {
				q = VGenAny(g)
			}
			if !VWellP(q) {
				continue
			}
			ps = append(ps, q)
			ts = append(ts, VWitness(g, q))
		}
	})
	if g.Chance(1, 4) && len(ts) > 0 {
		ts = ts[:g.Intn(len(ts))]
	}
	return p, ps, ts
}

//verif:inputs SpecUnwrapAny
func VGenUnwrap(g *zzverif.Gen) (string, FuncDefArgType, Type) {
	p := zzverif.MakeOnly[FuncDefArgType](g)
	name := zzverif.OneOf(g, "any", "any1", "any2", "T")
	if !VWellP(p) {
		return name, p, nil
	}
	return name, p, VWitness(g, p)
}

//verif:contract resolveFinalType
//verif:props C05
//verif:split p
func SpecResolveFinal(p FuncDefArgType, m map[string]any, ps []FuncDefArgType, ts []Type) {
	zzverif.Requires(VWellP(p))
	zzverif.Requires(vMatched(ps, ts))
	r, err := resolveFinalType(p, m, ps, ts)
	zzverif.Ensures("result", err != nil || VResult(p, r))
	zzverif.Ensures("error", err == nil || r == nil)
}

//verif:inputs SpecResolveFinal
func VGenFinal(g *zzverif.Gen) (FuncDefArgType, map[string]any, []FuncDefArgType, []Type) {
	p, ps, ts := VGenReturn(g)
	m := map[string]any{}
	for _, k := range []string{"P", "S", "L1"} {
		if !g.Chance(1, 6) {
			m[k] = int64(g.Intn(40))
		}
	}
	return p, m, ps, ts
}

//verif:contract typeParameterComponents
//verif:props C05 C14
func SpecComponents(p FuncDefArgType) {
	zzverif.Requires(VWellP(p))
	r := typeParameterComponents(p)
	zzverif.Ensures("leaves", zzverif.ForAll(len(r), func(i int) bool { return VLeafOK(r[i]) }))
}

//verif:contract bindTypeParameters
//verif:props C05 C14
//verif:noprove
func SpecBindParams(p FuncDefArgType, t Type, m map[string]any) {
	zzverif.Requires(VWellP(p))
	zzverif.Requires(VActual(t))
	zzverif.Requires(m != nil)
	zzverif.Modifies(m)
	err := bindTypeParameters(p, t, m)
	zzverif.Ensures("closed", err == nil || VSym(p))
}

// SpecEvaluate: a well typed derivation expression evaluates to its value.
//
//verif:bounded
//verif:weight 10
//verif:props C05
func SpecEvaluate(e Expr, m map[string]int64) {
	env := map[string]any{}
	for k, v := range m {
		env[k] = v
	}
	zzverif.Requires(vExprKind(e, env) != 0)
	want := VEvalExpr(e, env)
	r, err := e.Evaluate(env)
	zzverif.Ensures("defined", (err == nil) == (want != nil))
	zzverif.Ensures("value", err != nil || r == want)
	zzverif.Ensures("table", len(env) == len(m))
}

//verif:inputs SpecEvaluate
func VGenEvaluate(g *zzverif.Gen) (Expr, map[string]int64) {
	m := map[string]int64{}
	for _, k := range []string{"P", "S", "L1", "X", "Y"} {
		if !g.Chance(1, 8) {
			m[k] = int64(g.Intn(80) - 40)
		}
	}
	return vGenExpr(g, 1+g.Intn(2), 1+g.Intn(4)), m
}

// VDeclParam: a type parameters may be declared with: no return type program in
// it (for replay).
//
//verif:opaque
func VDeclParam(p FuncDefArgType) bool {
	switch p := p.(type) {
	case *ParameterizedListType:
		return VDeclParam(p.Type)
	case *ParameterizedMapType:
		return VDeclParam(p.Key) && VDeclParam(p.Value)
	case *ParameterizedStructType:
		for _, t := range p.Types {
			if !VDeclParam(t) {
				return false
			}
		}
	case *ParameterizedFuncType:
		for _, t := range p.Parameters {
			if !VDeclParam(t) {
				return false
			}
		}
		return VDeclParam(p.Return)
	case *ParameterizedUserDefinedType:
		for _, t := range p.TypeParameters {
			if d, ok := t.(*DataTypeUDTParam); ok && !VDeclParam(d.Type) {
				return false
			}
		}
	case *OutputDerivation:
		return false
	}
	return true
}
