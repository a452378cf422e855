package types

import (
	"github.com/substrait-io/substrait-go/v8/types/integer_parameters"
	"github.com/substrait-io/substrait-go/v8/zzverif"
)

// VIntOK: a literal or symbolic integer parameter.
func VIntOK(p integer_parameters.IntegerParameter) bool {
	switch p := p.(type) {
	case *integer_parameters.ConcreteIntParam:
		return p != nil
	case *integer_parameters.VariableIntParam:
		return p != nil
	}
	return false
}

// VIntFits: v fits the declared integer: equal to a literal, anything for a symbol.
func VIntFits(p integer_parameters.IntegerParameter, v int32) bool {
	switch p := p.(type) {
	case *integer_parameters.ConcreteIntParam:
		return int32(*p) == v
	case *integer_parameters.VariableIntParam:
		return true
	}
	return false
}

// VWellP: a complete parameterized type.
//
//verif:logic
func VWellP(p FuncDefArgType) bool {
	switch p := p.(type) {
	case *ParameterizedVarCharType:
		return p != nil && VIntOK(p.IntegerOption)
	case *ParameterizedFixedCharType:
		return p != nil && VIntOK(p.IntegerOption)
	case *ParameterizedFixedBinaryType:
		return p != nil && VIntOK(p.IntegerOption)
	case *ParameterizedPrecisionTimeType:
		return p != nil && VIntOK(p.IntegerOption)
	case *ParameterizedPrecisionTimestampType:
		return p != nil && VIntOK(p.IntegerOption)
	case *ParameterizedPrecisionTimestampTzType:
		return p != nil && VIntOK(p.IntegerOption)
	case *ParameterizedIntervalDayType:
		return p != nil && VIntOK(p.IntegerOption)
	case *ParameterizedDecimalType:
		return p != nil && VIntOK(p.Precision) && VIntOK(p.Scale)
	case *ParameterizedListType:
		return p != nil && VWellP(p.Type)
	case *ParameterizedMapType:
		return p != nil && VWellP(p.Key) && VWellP(p.Value)
	case *ParameterizedStructType:
		return p != nil && zzverif.ForAll(len(p.Types), func(i int) bool { return VWellP(p.Types[i]) })
	case *ParameterizedFuncType:
		return p != nil && VWellP(p.Return) && zzverif.ForAll(len(p.Parameters), func(i int) bool { return VWellP(p.Parameters[i]) })
	case *ParameterizedUserDefinedType:
		return p != nil && zzverif.ForAll(len(p.TypeParameters), func(i int) bool { return VWellU(p.TypeParameters[i]) })
	case *OutputDerivation:
		return p != nil && VWellP(p.FinalType)
	}
	return p != nil
}

//verif:logic
func VWellU(p UDTParameter) bool {
	switch p := p.(type) {
	case *DataTypeUDTParam:
		return p != nil && VWellP(p.Type)
	}
	return p != nil
}

// VActual: any actual argument type: a concrete type or an enumeration.
func VActual(t Type) bool {
	if e, ok := t.(*EnumType); ok {
		return e != nil
	}
	return VConcType(t)
}

// VPNull: declared nullability of a parameterized type.
//
//verif:logic
func VPNull(p FuncDefArgType) Nullability {
	switch p := p.(type) {
	case *AnyType:
		return p.Nullability
	case *ParameterizedVarCharType:
		return p.Nullability
	case *ParameterizedFixedCharType:
		return p.Nullability
	case *ParameterizedFixedBinaryType:
		return p.Nullability
	case *ParameterizedPrecisionTimeType:
		return p.Nullability
	case *ParameterizedPrecisionTimestampType:
		return p.Nullability
	case *ParameterizedPrecisionTimestampTzType:
		return p.Nullability
	case *ParameterizedIntervalDayType:
		return p.Nullability
	case *ParameterizedDecimalType:
		return p.Nullability
	case *ParameterizedListType:
		return p.Nullability
	case *ParameterizedMapType:
		return p.Nullability
	case *ParameterizedStructType:
		return p.Nullability
	case *ParameterizedFuncType:
		return p.Nullability
	case *ParameterizedUserDefinedType:
		return p.Nullability
	case *EnumType:
		return p.Nullability
	case *OutputDerivation:
		return VPNull(p.FinalType)
	case Type:
		return VNullOf(p)
	}
	return 0
}

// VMatch: the concrete type t has the shape p declares; strict: the nullability
// agrees too, at every level.
//
//verif:logic
func VMatch(p FuncDefArgType, t Type, strict bool) bool {
	switch p := p.(type) {
	case *AnyType:
		return !strict || p.Nullability == VNullOf(t)
	case *BooleanType:
		t, ok := t.(*BooleanType)
		return ok && (!strict || p.Nullability == t.Nullability)
	case *Int8Type:
		t, ok := t.(*Int8Type)
		return ok && (!strict || p.Nullability == t.Nullability)
	case *Int16Type:
		t, ok := t.(*Int16Type)
		return ok && (!strict || p.Nullability == t.Nullability)
	case *Int32Type:
		t, ok := t.(*Int32Type)
		return ok && (!strict || p.Nullability == t.Nullability)
	case *Int64Type:
		t, ok := t.(*Int64Type)
		return ok && (!strict || p.Nullability == t.Nullability)
	case *Float32Type:
		t, ok := t.(*Float32Type)
		return ok && (!strict || p.Nullability == t.Nullability)
	case *Float64Type:
		t, ok := t.(*Float64Type)
		return ok && (!strict || p.Nullability == t.Nullability)
	case *StringType:
		t, ok := t.(*StringType)
		return ok && (!strict || p.Nullability == t.Nullability)
	case *BinaryType:
		t, ok := t.(*BinaryType)
		return ok && (!strict || p.Nullability == t.Nullability)
	case *TimestampType:
		t, ok := t.(*TimestampType)
		return ok && (!strict || p.Nullability == t.Nullability)
	case *DateType:
		t, ok := t.(*DateType)
		return ok && (!strict || p.Nullability == t.Nullability)
	case *TimeType:
		t, ok := t.(*TimeType)
		return ok && (!strict || p.Nullability == t.Nullability)
	case *TimestampTzType:
		t, ok := t.(*TimestampTzType)
		return ok && (!strict || p.Nullability == t.Nullability)
	case *IntervalYearType:
		t, ok := t.(*IntervalYearType)
		return ok && (!strict || p.Nullability == t.Nullability)
	case *UUIDType:
		t, ok := t.(*UUIDType)
		return ok && (!strict || p.Nullability == t.Nullability)
	case *ParameterizedVarCharType:
		t, ok := t.(*VarCharType)
		return ok && (!strict || p.Nullability == t.Nullability) && VIntFits(p.IntegerOption, t.Length)
	case *ParameterizedFixedCharType:
		t, ok := t.(*FixedCharType)
		return ok && (!strict || p.Nullability == t.Nullability) && VIntFits(p.IntegerOption, t.Length)
	case *ParameterizedFixedBinaryType:
		t, ok := t.(*FixedBinaryType)
		return ok && (!strict || p.Nullability == t.Nullability) && VIntFits(p.IntegerOption, t.Length)
	case *ParameterizedPrecisionTimeType:
		t, ok := t.(*PrecisionTimeType)
		return ok && (!strict || p.Nullability == t.Nullability) && VIntFits(p.IntegerOption, int32(t.Precision))
	case *ParameterizedPrecisionTimestampType:
		t, ok := t.(*PrecisionTimestampType)
		return ok && (!strict || p.Nullability == t.Nullability) && VIntFits(p.IntegerOption, int32(t.Precision))
	case *ParameterizedPrecisionTimestampTzType:
		t, ok := t.(*PrecisionTimestampTzType)
		return ok && (!strict || p.Nullability == t.Nullability) && VIntFits(p.IntegerOption, int32(t.Precision))
	case *ParameterizedIntervalDayType:
		t, ok := t.(*IntervalDayType)
		return ok && (!strict || p.Nullability == t.Nullability) && VIntFits(p.IntegerOption, int32(t.Precision))
	case *ParameterizedDecimalType:
		t, ok := t.(*DecimalType)
		return ok && (!strict || p.Nullability == t.Nullability) && VIntFits(p.Precision, t.Precision) && VIntFits(p.Scale, t.Scale)
	case *ParameterizedListType:
		t, ok := t.(*ListType)
		return ok && (!strict || p.Nullability == t.Nullability) && VMatch(p.Type, t.Type, strict)
	case *ParameterizedMapType:
		t, ok := t.(*MapType)
		return ok && (!strict || p.Nullability == t.Nullability) && VMatch(p.Key, t.Key, strict) && VMatch(p.Value, t.Value, strict)
	case *ParameterizedStructType:
		t, ok := t.(*StructType)
		return ok && (!strict || p.Nullability == t.Nullability) && len(p.Types) == len(t.Types) &&
			zzverif.ForAll(len(p.Types), func(i int) bool { return VMatch(p.Types[i], t.Types[i], strict) })
	case *ParameterizedFuncType:
		t, ok := t.(*FuncType)
		return ok && (!strict || p.Nullability == t.Nullability) && len(p.Parameters) == len(t.ParameterTypes) && VMatch(p.Return, t.ReturnType, strict) &&
			zzverif.ForAll(len(p.Parameters), func(i int) bool { return VMatch(p.Parameters[i], t.ParameterTypes[i], strict) })
	case *ParameterizedUserDefinedType:
		t, ok := t.(*UserDefinedType)
		return ok && (!strict || p.Nullability == t.Nullability) && len(p.TypeParameters) == len(t.TypeParameters) &&
			zzverif.ForAll(len(p.TypeParameters), func(i int) bool { return VMatchU(p.TypeParameters[i], t.TypeParameters[i], strict) })
	case *EnumType:
		u, ok := t.(*EnumType)
		return ok && (!strict || p.Nullability == u.Nullability) &&
			(u == CommonEnumType || p.Name == u.Name && len(p.Options) == len(u.Options) &&
				zzverif.ForAll(len(p.Options), func(i int) bool { return p.Options[i] == u.Options[i] }))
	case *OutputDerivation:
		return VMatch(p.FinalType, t, strict)
	}
	return false
}

//verif:logic
func VMatchU(p UDTParameter, t TypeParam, strict bool) bool {
	switch p := p.(type) {
	case *DataTypeUDTParam:
		t, ok := t.(*DataTypeParameter)
		return ok && VMatch(p.Type, t.Type, strict)
	case *IntegerUDTParam:
		t, ok := t.(IntegerParameter)
		return ok && int64(t) == int64(p.Integer)
	case *StringUDTParam:
		t, ok := t.(StringParameter)
		return ok && string(t) == p.StringVal
	}
	return false
}

func vWitInt(g *zzverif.Gen, p integer_parameters.IntegerParameter) int32 {
	if c, ok := p.(*integer_parameters.ConcreteIntParam); ok && c != nil {
		return int32(*c)
	}
	if v, ok := p.(*integer_parameters.VariableIntParam); ok && v != nil && !g.Chance(1, 8) {
		n := int32(3)
		for _, c := range string(*v) {
			n = (n*7 + int32(c)) % 9
		}
		return n
	}
	return int32(g.Int())
}

// VWitness makes an argument of the shape p declares.
func VWitness(g *zzverif.Gen, p FuncDefArgType) Type {
	null := func(n Nullability) Nullability {
		if g.Chance(1, 6) {
			return zzverif.OneOf(g, NullabilityNullable, NullabilityRequired, NullabilityUnspecified)
		}
		return n
	}
	switch p := p.(type) {
	case nil:
		return nil
	case *AnyType:
		var t Type
		switch {
		case p.Name == "any1" && g.Chance(2, 3):
			t = &Int64Type{}
		case p.Name == "T" && g.Chance(2, 3):
			t = &ListType{Type: &VarCharType{Length: 3, Nullability: NullabilityRequired}}
		default:
			g.Deeper(func() { t = zzverif.Make[Type](g) })
		}
		if t != nil && VConcType(t) {
			t = t.WithNullability(null(p.Nullability))
		}
		return t
	case *ParameterizedVarCharType:
		return &VarCharType{Nullability: null(p.Nullability), Length: vWitInt(g, p.IntegerOption)}
	case *ParameterizedFixedCharType:
		return &FixedCharType{Nullability: null(p.Nullability), Length: vWitInt(g, p.IntegerOption)}
	case *ParameterizedFixedBinaryType:
		return &FixedBinaryType{Nullability: null(p.Nullability), Length: vWitInt(g, p.IntegerOption)}
	case *ParameterizedPrecisionTimeType:
		return &PrecisionTimeType{Nullability: null(p.Nullability), Precision: TimePrecision(vWitInt(g, p.IntegerOption))}
	case *ParameterizedPrecisionTimestampType:
		return &PrecisionTimestampType{Nullability: null(p.Nullability), Precision: TimePrecision(vWitInt(g, p.IntegerOption))}
	case *ParameterizedPrecisionTimestampTzType:
		return &PrecisionTimestampTzType{PrecisionTimestampType{Nullability: null(p.Nullability), Precision: TimePrecision(vWitInt(g, p.IntegerOption))}}
	case *ParameterizedIntervalDayType:
		return &IntervalDayType{Nullability: null(p.Nullability), Precision: TimePrecision(vWitInt(g, p.IntegerOption))}
	case *ParameterizedDecimalType:
		return &DecimalType{Nullability: null(p.Nullability), Precision: vWitInt(g, p.Precision), Scale: vWitInt(g, p.Scale)}
	case *ParameterizedListType:
		return &ListType{Nullability: null(p.Nullability), Type: VWitness(g, p.Type)}
	case *ParameterizedMapType:
		return &MapType{Nullability: null(p.Nullability), Key: VWitness(g, p.Key), Value: VWitness(g, p.Value)}
	case *ParameterizedStructType:
		t := &StructType{Nullability: null(p.Nullability)}
		for _, q := range p.Types {
			t.Types = append(t.Types, VWitness(g, q))
		}
		return t
	case *ParameterizedFuncType:
		t := &FuncType{Nullability: null(p.Nullability), ReturnType: VWitness(g, p.Return)}
		for _, q := range p.Parameters {
			t.ParameterTypes = append(t.ParameterTypes, VWitness(g, q))
		}
		return t
	case *ParameterizedUserDefinedType:
		t := &UserDefinedType{Nullability: null(p.Nullability)}
		for _, q := range p.TypeParameters {
			t.TypeParameters = append(t.TypeParameters, VWitnessU(g, q))
		}
		return t
	case *OutputDerivation:
		return VWitness(g, p.FinalType)
	case *EnumType:
		if p == nil || g.Chance(1, 6) {
			return CommonEnumType
		}
		return &EnumType{Nullability: null(p.Nullability), Name: p.Name, Options: append([]string(nil), p.Options...)}
	case Type:
		if !VConcType(p) {
			return nil
		}
		return p.WithNullability(null(VNullOf(p)))
	}
	return nil
}

func VWitnessU(g *zzverif.Gen, p UDTParameter) TypeParam {
	switch p := p.(type) {
	case *DataTypeUDTParam:
		return &DataTypeParameter{Type: VWitness(g, p.Type)}
	case *IntegerUDTParam:
		return IntegerParameter(p.Integer)
	case *StringUDTParam:
		return StringParameter(p.StringVal)
	}
	return nil
}

// VGenMatch: mostly pairs that match or differ from a match in one place.
//
//verif:inputs SpecMatchStrict
//verif:inputs SpecMatchLoose
//verif:inputs SpecLemLoose
func VGenMatch(g *zzverif.Gen) (FuncDefArgType, Type) {
	p := zzverif.MakeOnly[FuncDefArgType](g)
	var t Type
	if !VWellP(p) || g.Chance(1, 8) {
		return p, zzverif.Make[Type](g)
	}
	t = VWitness(g, p)
	if g.Chance(1, 3) {
		t = zzverif.Clone(t)
		g.Mutate(&t)
	}
	return p, t
}

//verif:inputs SpecMatchUStrict
//verif:inputs SpecMatchULoose
//verif:inputs SpecLemLooseU
func VGenMatchU(g *zzverif.Gen) (UDTParameter, TypeParam) {
	p := zzverif.MakeOnly[UDTParameter](g)
	if !VWellU(p) || g.Chance(1, 8) {
		return p, zzverif.Make[TypeParam](g)
	}
	t := VWitnessU(g, p)
	if g.Chance(1, 3) {
		t = zzverif.Clone(t)
		g.Mutate(&t)
	}
	return p, t
}

//verif:iface FuncDefArgType.MatchWithNullability
//verif:props C04 C14
func SpecMatchStrict(p FuncDefArgType, t Type) {
	zzverif.Requires(VWellP(p))
	zzverif.Requires(VActual(t))
	r := p.MatchWithNullability(t)
	zzverif.Ensures("exact", r == VMatch(p, t, true))
}

//verif:iface FuncDefArgType.MatchWithoutNullability
//verif:props C04 C14
func SpecMatchLoose(p FuncDefArgType, t Type) {
	zzverif.Requires(VWellP(p))
	zzverif.Requires(VActual(t))
	r := p.MatchWithoutNullability(t)
	zzverif.Ensures("exact", r == VMatch(p, t, false))
}

//verif:iface UDTParameter.MatchWithNullability
//verif:props C04
func SpecMatchUStrict(p UDTParameter, t TypeParam) {
	zzverif.Requires(VWellU(p))
	zzverif.Requires(VConcParam(t))
	r := p.MatchWithNullability(t)
	zzverif.Ensures("exact", r == VMatchU(p, t, true))
}

//verif:iface UDTParameter.MatchWithoutNullability
//verif:props C04
func SpecMatchULoose(p UDTParameter, t TypeParam) {
	zzverif.Requires(VWellU(p))
	zzverif.Requires(VConcParam(t))
	r := p.MatchWithoutNullability(t)
	zzverif.Ensures("exact", r == VMatchU(p, t, false))
}

//verif:iface FuncDefArgType.GetNullability
//verif:props C04 C05
func SpecPNullability(p FuncDefArgType) {
	zzverif.Requires(VWellP(p))
	r := p.GetNullability()
	zzverif.Ensures("value", r == VPNull(p))
}

// VLemLoose: ignoring nullability accepts everything the strict match accepts
// (by induction on the declared type).
func VLemLoose(p FuncDefArgType, t Type) {
	switch p := p.(type) {
	case *ParameterizedListType:
		VLemLoose(p.Type, t.(*ListType).Type)
	case *ParameterizedMapType:
		VLemLoose(p.Key, t.(*MapType).Key)
		VLemLoose(p.Value, t.(*MapType).Value)
	case *ParameterizedStructType:
		for i := range p.Types {
			VLemLoose(p.Types[i], t.(*StructType).Types[i])
		}
	case *ParameterizedFuncType:
		VLemLoose(p.Return, t.(*FuncType).ReturnType)
		for i := range p.Parameters {
			VLemLoose(p.Parameters[i], t.(*FuncType).ParameterTypes[i])
		}
	case *ParameterizedUserDefinedType:
		for i := range p.TypeParameters {
			VLemLooseU(p.TypeParameters[i], t.(*UserDefinedType).TypeParameters[i])
		}
	case *OutputDerivation:
		VLemLoose(p.FinalType, t)
	}
}

func VLemLooseU(p UDTParameter, t TypeParam) {
	switch p := p.(type) {
	case *DataTypeUDTParam:
		VLemLoose(p.Type, t.(*DataTypeParameter).Type)
	}
}

//verif:contract VLemLoose
//verif:split p
//verif:props C04
func SpecLemLoose(p FuncDefArgType, t Type) {
	zzverif.Requires(VWellP(p))
	zzverif.Requires(VActual(t))
	zzverif.Requires(VMatch(p, t, true))
	VLemLoose(p, t)
	zzverif.Ensures("loose", VMatch(p, t, false))
}

//verif:contract VLemLooseU
//verif:split p
//verif:props C04
func SpecLemLooseU(p UDTParameter, t TypeParam) {
	zzverif.Requires(VWellU(p))
	zzverif.Requires(VConcParam(t))
	zzverif.Requires(VMatchU(p, t, true))
	VLemLooseU(p, t)
	zzverif.Ensures("loose", VMatchU(p, t, false))
}
