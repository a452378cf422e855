package types

import (
	"github.com/substrait-io/substrait-go/v8/zzverif"
	proto "github.com/substrait-io/substrait-protobuf/go/substraitpb"
)

// VPrecOK: the time precisions of the specification.
func VPrecOK(p int32) bool { return p >= 0 && p <= 9 }

// VEncType: message p is the encoding of the concrete type t.
//
//verif:logic
func VEncType(p *proto.Type, t Type) bool {
	if p == nil {
		return false
	}
	switch t := t.(type) {
	case *BooleanType:
		k, ok := p.Kind.(*proto.Type_Bool)
		return ok && t != nil && k.Bool != nil && int32(k.Bool.Nullability) == int32(t.Nullability) && k.Bool.TypeVariationReference == t.TypeVariationRef
	case *Int8Type:
		k, ok := p.Kind.(*proto.Type_I8_)
		return ok && t != nil && k.I8 != nil && int32(k.I8.Nullability) == int32(t.Nullability) && k.I8.TypeVariationReference == t.TypeVariationRef
	case *Int16Type:
		k, ok := p.Kind.(*proto.Type_I16_)
		return ok && t != nil && k.I16 != nil && int32(k.I16.Nullability) == int32(t.Nullability) && k.I16.TypeVariationReference == t.TypeVariationRef
	case *Int32Type:
		k, ok := p.Kind.(*proto.Type_I32_)
		return ok && t != nil && k.I32 != nil && int32(k.I32.Nullability) == int32(t.Nullability) && k.I32.TypeVariationReference == t.TypeVariationRef
	case *Int64Type:
		k, ok := p.Kind.(*proto.Type_I64_)
		return ok && t != nil && k.I64 != nil && int32(k.I64.Nullability) == int32(t.Nullability) && k.I64.TypeVariationReference == t.TypeVariationRef
	case *Float32Type:
		k, ok := p.Kind.(*proto.Type_Fp32)
		return ok && t != nil && k.Fp32 != nil && int32(k.Fp32.Nullability) == int32(t.Nullability) && k.Fp32.TypeVariationReference == t.TypeVariationRef
	case *Float64Type:
		k, ok := p.Kind.(*proto.Type_Fp64)
		return ok && t != nil && k.Fp64 != nil && int32(k.Fp64.Nullability) == int32(t.Nullability) && k.Fp64.TypeVariationReference == t.TypeVariationRef
	case *StringType:
		k, ok := p.Kind.(*proto.Type_String_)
		return ok && t != nil && k.String_ != nil && int32(k.String_.Nullability) == int32(t.Nullability) && k.String_.TypeVariationReference == t.TypeVariationRef
	case *BinaryType:
		k, ok := p.Kind.(*proto.Type_Binary_)
		return ok && t != nil && k.Binary != nil && int32(k.Binary.Nullability) == int32(t.Nullability) && k.Binary.TypeVariationReference == t.TypeVariationRef
	case *TimestampType:
		k, ok := p.Kind.(*proto.Type_Timestamp_)
		return ok && t != nil && k.Timestamp != nil && int32(k.Timestamp.Nullability) == int32(t.Nullability) && k.Timestamp.TypeVariationReference == t.TypeVariationRef
	case *DateType:
		k, ok := p.Kind.(*proto.Type_Date_)
		return ok && t != nil && k.Date != nil && int32(k.Date.Nullability) == int32(t.Nullability) && k.Date.TypeVariationReference == t.TypeVariationRef
	case *TimeType:
		k, ok := p.Kind.(*proto.Type_Time_)
		return ok && t != nil && k.Time != nil && int32(k.Time.Nullability) == int32(t.Nullability) && k.Time.TypeVariationReference == t.TypeVariationRef
	case *TimestampTzType:
		k, ok := p.Kind.(*proto.Type_TimestampTz)
		return ok && t != nil && k.TimestampTz != nil && int32(k.TimestampTz.Nullability) == int32(t.Nullability) && k.TimestampTz.TypeVariationReference == t.TypeVariationRef
	case *IntervalYearType:
		k, ok := p.Kind.(*proto.Type_IntervalYear_)
		return ok && t != nil && k.IntervalYear != nil && int32(k.IntervalYear.Nullability) == int32(t.Nullability) && k.IntervalYear.TypeVariationReference == t.TypeVariationRef
	case *UUIDType:
		k, ok := p.Kind.(*proto.Type_Uuid)
		return ok && t != nil && k.Uuid != nil && int32(k.Uuid.Nullability) == int32(t.Nullability) && k.Uuid.TypeVariationReference == t.TypeVariationRef
	case *FixedCharType:
		k, ok := p.Kind.(*proto.Type_FixedChar_)
		return ok && t != nil && k.FixedChar != nil && int32(k.FixedChar.Nullability) == int32(t.Nullability) && k.FixedChar.TypeVariationReference == t.TypeVariationRef && k.FixedChar.Length == t.Length
	case *VarCharType:
		k, ok := p.Kind.(*proto.Type_Varchar)
		return ok && t != nil && k.Varchar != nil && int32(k.Varchar.Nullability) == int32(t.Nullability) && k.Varchar.TypeVariationReference == t.TypeVariationRef && k.Varchar.Length == t.Length
	case *FixedBinaryType:
		k, ok := p.Kind.(*proto.Type_FixedBinary_)
		return ok && t != nil && k.FixedBinary != nil && int32(k.FixedBinary.Nullability) == int32(t.Nullability) && k.FixedBinary.TypeVariationReference == t.TypeVariationRef && k.FixedBinary.Length == t.Length
	case *DecimalType:
		k, ok := p.Kind.(*proto.Type_Decimal_)
		return ok && t != nil && k.Decimal != nil && int32(k.Decimal.Nullability) == int32(t.Nullability) && k.Decimal.TypeVariationReference == t.TypeVariationRef &&
			k.Decimal.Scale == t.Scale && k.Decimal.Precision == t.Precision
	case *PrecisionTimeType:
		k, ok := p.Kind.(*proto.Type_PrecisionTime_)
		return ok && t != nil && k.PrecisionTime != nil && int32(k.PrecisionTime.Nullability) == int32(t.Nullability) && k.PrecisionTime.TypeVariationReference == t.TypeVariationRef && k.PrecisionTime.Precision == int32(t.Precision)
	case *PrecisionTimestampType:
		k, ok := p.Kind.(*proto.Type_PrecisionTimestamp_)
		return ok && t != nil && k.PrecisionTimestamp != nil && int32(k.PrecisionTimestamp.Nullability) == int32(t.Nullability) && k.PrecisionTimestamp.TypeVariationReference == t.TypeVariationRef && k.PrecisionTimestamp.Precision == int32(t.Precision)
	case *PrecisionTimestampTzType:
		k, ok := p.Kind.(*proto.Type_PrecisionTimestampTz)
		return ok && t != nil && k.PrecisionTimestampTz != nil && int32(k.PrecisionTimestampTz.Nullability) == int32(t.Nullability) && k.PrecisionTimestampTz.TypeVariationReference == t.TypeVariationRef && k.PrecisionTimestampTz.Precision == int32(t.Precision)
	case *IntervalDayType:
		k, ok := p.Kind.(*proto.Type_IntervalDay_)
		if !ok || t == nil || k.IntervalDay == nil {
			return false
		}
		prec := int32(6) // the default of the specification: microseconds
		if k.IntervalDay.Precision != nil {
			prec = *k.IntervalDay.Precision
		}
		return int32(k.IntervalDay.Nullability) == int32(t.Nullability) && k.IntervalDay.TypeVariationReference == t.TypeVariationRef && prec == int32(t.Precision)
	case IntervalCompoundType:
		return VEncCompound(p, t)
	case *IntervalCompoundType:
		return t != nil && VEncCompound(p, *t)
	case *StructType:
		k, ok := p.Kind.(*proto.Type_Struct_)
		return ok && t != nil && k.Struct != nil && int32(k.Struct.Nullability) == int32(t.Nullability) && k.Struct.TypeVariationReference == t.TypeVariationRef &&
			len(k.Struct.Types) == len(t.Types) &&
			zzverif.ForAll(len(t.Types), func(i int) bool { return VEncType(k.Struct.Types[i], t.Types[i]) })
	case *FuncType:
		k, ok := p.Kind.(*proto.Type_Func_)
		return ok && t != nil && k.Func != nil && int32(k.Func.Nullability) == int32(t.Nullability) &&
			VEncType(k.Func.ReturnType, t.ReturnType) &&
			len(k.Func.ParameterTypes) == len(t.ParameterTypes) &&
			zzverif.ForAll(len(t.ParameterTypes), func(i int) bool { return VEncType(k.Func.ParameterTypes[i], t.ParameterTypes[i]) })
	case *ListType:
		k, ok := p.Kind.(*proto.Type_List_)
		return ok && t != nil && k.List != nil && int32(k.List.Nullability) == int32(t.Nullability) && k.List.TypeVariationReference == t.TypeVariationRef &&
			VEncType(k.List.Type, t.Type)
	case *MapType:
		k, ok := p.Kind.(*proto.Type_Map_)
		return ok && t != nil && k.Map != nil && int32(k.Map.Nullability) == int32(t.Nullability) && k.Map.TypeVariationReference == t.TypeVariationRef &&
			VEncType(k.Map.Key, t.Key) && VEncType(k.Map.Value, t.Value)
	case *UserDefinedType:
		k, ok := p.Kind.(*proto.Type_UserDefined_)
		return ok && t != nil && k.UserDefined != nil && int32(k.UserDefined.Nullability) == int32(t.Nullability) && k.UserDefined.TypeVariationReference == t.TypeVariationRef &&
			k.UserDefined.TypeReference == t.TypeReference &&
			len(k.UserDefined.TypeParameters) == len(t.TypeParameters) &&
			zzverif.ForAll(len(t.TypeParameters), func(i int) bool { return VEncParam(k.UserDefined.TypeParameters[i], t.TypeParameters[i]) })
	}
	return false
}

func VEncCompound(p *proto.Type, t IntervalCompoundType) bool {
	k, ok := p.Kind.(*proto.Type_IntervalCompound_)
	return ok && k.IntervalCompound != nil && int32(k.IntervalCompound.Nullability) == int32(t.nullability) && k.IntervalCompound.TypeVariationReference == t.typeVariationRef && k.IntervalCompound.Precision == int32(t.precision)
}

// VEncParam: message p is the encoding of the type parameter t.
//
//verif:logic
func VEncParam(p *proto.Type_Parameter, t TypeParam) bool {
	if p == nil {
		return false
	}
	switch t := t.(type) {
	case NullParameter:
		_, ok := p.Parameter.(*proto.Type_Parameter_Null)
		return ok
	case BooleanParameter:
		k, ok := p.Parameter.(*proto.Type_Parameter_Boolean)
		return ok && k.Boolean == bool(t)
	case IntegerParameter:
		k, ok := p.Parameter.(*proto.Type_Parameter_Integer)
		return ok && k.Integer == int64(t)
	case EnumParameter:
		k, ok := p.Parameter.(*proto.Type_Parameter_Enum)
		return ok && k.Enum == string(t)
	case StringParameter:
		k, ok := p.Parameter.(*proto.Type_Parameter_String_)
		return ok && k.String_ == string(t)
	case *DataTypeParameter:
		k, ok := p.Parameter.(*proto.Type_Parameter_DataType)
		return ok && t != nil && VEncType(k.DataType, t.Type)
	}
	return false
}

// VWfType: a well-formed concrete type, one the wire format can carry: all
// components present, precisions in range.
//
//verif:logic
func VWfType(t Type) bool {
	switch t := t.(type) {
	case *BooleanType, *Int8Type, *Int16Type, *Int32Type, *Int64Type, *Float32Type, *Float64Type, *StringType, *BinaryType, *TimestampType, *DateType, *TimeType, *TimestampTzType, *IntervalYearType, *UUIDType:
		return true
	case *FixedCharType, *VarCharType, *FixedBinaryType, *DecimalType:
		return true
	case *PrecisionTimeType:
		return VPrecOK(int32(t.Precision))
	case *PrecisionTimestampType:
		return VPrecOK(int32(t.Precision))
	case *PrecisionTimestampTzType:
		return VPrecOK(int32(t.Precision))
	case *IntervalDayType:
		return VPrecOK(int32(t.Precision))
	case IntervalCompoundType:
		return VPrecOK(int32(t.precision))
	case *IntervalCompoundType:
		return VPrecOK(int32(t.precision))
	case *StructType:
		return zzverif.ForAll(len(t.Types), func(i int) bool { return VWfType(t.Types[i]) })
	case *FuncType:
		return VWfType(t.ReturnType) && zzverif.ForAll(len(t.ParameterTypes), func(i int) bool { return VWfType(t.ParameterTypes[i]) })
	case *ListType:
		return VWfType(t.Type)
	case *MapType:
		return VWfType(t.Key) && VWfType(t.Value)
	case *UserDefinedType:
		return zzverif.ForAll(len(t.TypeParameters), func(i int) bool { return VWfParam(t.TypeParameters[i]) })
	}
	return false
}

//verif:logic
func VWfParam(t TypeParam) bool {
	switch t := t.(type) {
	case NullParameter, BooleanParameter, IntegerParameter, EnumParameter, StringParameter:
		return true
	case *DataTypeParameter:
		return VWfType(t.Type)
	}
	return false
}

// VWfPType: a complete type message: its kind is one this version knows and
// every sub-message is present.
//
//verif:logic
func VWfPType(p *proto.Type) bool {
	if p == nil {
		return false
	}
	switch k := p.Kind.(type) {
	case *proto.Type_Bool:
		return k.Bool != nil
	case *proto.Type_I8_:
		return k.I8 != nil
	case *proto.Type_I16_:
		return k.I16 != nil
	case *proto.Type_I32_:
		return k.I32 != nil
	case *proto.Type_I64_:
		return k.I64 != nil
	case *proto.Type_Fp32:
		return k.Fp32 != nil
	case *proto.Type_Fp64:
		return k.Fp64 != nil
	case *proto.Type_String_:
		return k.String_ != nil
	case *proto.Type_Binary_:
		return k.Binary != nil
	case *proto.Type_Timestamp_:
		return k.Timestamp != nil
	case *proto.Type_Date_:
		return k.Date != nil
	case *proto.Type_Time_:
		return k.Time != nil
	case *proto.Type_TimestampTz:
		return k.TimestampTz != nil
	case *proto.Type_IntervalYear_:
		return k.IntervalYear != nil
	case *proto.Type_Uuid:
		return k.Uuid != nil
	case *proto.Type_FixedChar_:
		return k.FixedChar != nil
	case *proto.Type_Varchar:
		return k.Varchar != nil
	case *proto.Type_FixedBinary_:
		return k.FixedBinary != nil
	case *proto.Type_Decimal_:
		return k.Decimal != nil
	case *proto.Type_PrecisionTime_:
		return k.PrecisionTime != nil && VPrecOK(k.PrecisionTime.Precision)
	case *proto.Type_PrecisionTimestamp_:
		return k.PrecisionTimestamp != nil && VPrecOK(k.PrecisionTimestamp.Precision)
	case *proto.Type_PrecisionTimestampTz:
		return k.PrecisionTimestampTz != nil && VPrecOK(k.PrecisionTimestampTz.Precision)
	case *proto.Type_IntervalCompound_:
		return k.IntervalCompound != nil && VPrecOK(k.IntervalCompound.Precision)
	case *proto.Type_IntervalDay_:
		return k.IntervalDay != nil && (k.IntervalDay.Precision == nil || VPrecOK(*k.IntervalDay.Precision))
	case *proto.Type_Struct_:
		return k.Struct != nil && zzverif.ForAll(len(k.Struct.Types), func(i int) bool { return VWfPType(k.Struct.Types[i]) })
	case *proto.Type_Func_:
		return k.Func != nil && VWfPType(k.Func.ReturnType) && zzverif.ForAll(len(k.Func.ParameterTypes), func(i int) bool { return VWfPType(k.Func.ParameterTypes[i]) })
	case *proto.Type_List_:
		return k.List != nil && VWfPType(k.List.Type)
	case *proto.Type_Map_:
		return k.Map != nil && VWfPType(k.Map.Key) && VWfPType(k.Map.Value)
	case *proto.Type_UserDefined_:
		return k.UserDefined != nil && zzverif.ForAll(len(k.UserDefined.TypeParameters), func(i int) bool { return VWfPParam(k.UserDefined.TypeParameters[i]) })
	}
	return false
}

//verif:logic
func VWfPParam(p *proto.Type_Parameter) bool {
	if p == nil {
		return false
	}
	switch k := p.Parameter.(type) {
	case *proto.Type_Parameter_Null, *proto.Type_Parameter_Boolean, *proto.Type_Parameter_Integer, *proto.Type_Parameter_Enum, *proto.Type_Parameter_String_:
		return true
	case *proto.Type_Parameter_DataType:
		return VWfPType(k.DataType)
	}
	return false
}

// SpecTypeToProto: the encoder writes exactly the type, completely, for every
// well-formed type; it does not panic and does not write to its argument.
//
//verif:contract TypeToProto
//verif:split t
//verif:props C01
func SpecTypeToProto(t Type) {
	zzverif.Requires(VWfType(t))
	r := TypeToProto(t)
	zzverif.Ensures("encodes", VEncType(r, t))
	zzverif.Ensures("complete-message", VWfPType(r))
}

// SpecTypeFromProto: the decoder reads exactly what the message says.
//
//verif:contract TypeFromProto
//verif:props C01
//verif:split p.Kind
func SpecTypeFromProto(p *proto.Type) {
	zzverif.Requires(VWfPType(p))
	r := TypeFromProto(p)
	zzverif.Ensures("decodes", r != nil && VEncType(p, r))
	zzverif.Ensures("well-formed", VWfType(r))
	zzverif.Ensures("complete", VConcType(r))
}

//verif:iface TypeParam.ToProto
//verif:props C01
func SpecParamToProto(t TypeParam) {
	zzverif.Requires(VWfParam(t))
	r := t.ToProto()
	zzverif.Ensures("encodes", VEncParam(r, t))
	zzverif.Ensures("complete-message", VWfPParam(r))
}

//verif:contract TypeParamFromProto
//verif:props C01
func SpecTypeParamFromProto(p *proto.Type_Parameter) {
	zzverif.Requires(VWfPParam(p))
	r := TypeParamFromProto(p)
	zzverif.Ensures("decodes", VEncParam(p, r))
	zzverif.Ensures("well-formed", VWfParam(r))
	zzverif.Ensures("complete", VConcParam(r))
}

// VEqType: structural equality: same kind, nullability, variation, parameters
// and pairwise equal components.
//
//verif:logic
func VEqType(t, u Type) bool {
	switch t := t.(type) {
	case *BooleanType:
		u, ok := u.(*BooleanType)
		return ok && u.Nullability == t.Nullability && u.TypeVariationRef == t.TypeVariationRef
	case *Int8Type:
		u, ok := u.(*Int8Type)
		return ok && u.Nullability == t.Nullability && u.TypeVariationRef == t.TypeVariationRef
	case *Int16Type:
		u, ok := u.(*Int16Type)
		return ok && u.Nullability == t.Nullability && u.TypeVariationRef == t.TypeVariationRef
	case *Int32Type:
		u, ok := u.(*Int32Type)
		return ok && u.Nullability == t.Nullability && u.TypeVariationRef == t.TypeVariationRef
	case *Int64Type:
		u, ok := u.(*Int64Type)
		return ok && u.Nullability == t.Nullability && u.TypeVariationRef == t.TypeVariationRef
	case *Float32Type:
		u, ok := u.(*Float32Type)
		return ok && u.Nullability == t.Nullability && u.TypeVariationRef == t.TypeVariationRef
	case *Float64Type:
		u, ok := u.(*Float64Type)
		return ok && u.Nullability == t.Nullability && u.TypeVariationRef == t.TypeVariationRef
	case *StringType:
		u, ok := u.(*StringType)
		return ok && u.Nullability == t.Nullability && u.TypeVariationRef == t.TypeVariationRef
	case *BinaryType:
		u, ok := u.(*BinaryType)
		return ok && u.Nullability == t.Nullability && u.TypeVariationRef == t.TypeVariationRef
	case *TimestampType:
		u, ok := u.(*TimestampType)
		return ok && u.Nullability == t.Nullability && u.TypeVariationRef == t.TypeVariationRef
	case *DateType:
		u, ok := u.(*DateType)
		return ok && u.Nullability == t.Nullability && u.TypeVariationRef == t.TypeVariationRef
	case *TimeType:
		u, ok := u.(*TimeType)
		return ok && u.Nullability == t.Nullability && u.TypeVariationRef == t.TypeVariationRef
	case *TimestampTzType:
		u, ok := u.(*TimestampTzType)
		return ok && u.Nullability == t.Nullability && u.TypeVariationRef == t.TypeVariationRef
	case *IntervalYearType:
		u, ok := u.(*IntervalYearType)
		return ok && u.Nullability == t.Nullability && u.TypeVariationRef == t.TypeVariationRef
	case *UUIDType:
		u, ok := u.(*UUIDType)
		return ok && u.Nullability == t.Nullability && u.TypeVariationRef == t.TypeVariationRef
	case *FixedCharType:
		u, ok := u.(*FixedCharType)
		return ok && u.Nullability == t.Nullability && u.TypeVariationRef == t.TypeVariationRef && u.Length == t.Length
	case *VarCharType:
		u, ok := u.(*VarCharType)
		return ok && u.Nullability == t.Nullability && u.TypeVariationRef == t.TypeVariationRef && u.Length == t.Length
	case *FixedBinaryType:
		u, ok := u.(*FixedBinaryType)
		return ok && u.Nullability == t.Nullability && u.TypeVariationRef == t.TypeVariationRef && u.Length == t.Length
	case *PrecisionTimeType:
		u, ok := u.(*PrecisionTimeType)
		return ok && u.Nullability == t.Nullability && u.TypeVariationRef == t.TypeVariationRef && u.Precision == t.Precision
	case *PrecisionTimestampType:
		u, ok := u.(*PrecisionTimestampType)
		return ok && u.Nullability == t.Nullability && u.TypeVariationRef == t.TypeVariationRef && u.Precision == t.Precision
	case *PrecisionTimestampTzType:
		u, ok := u.(*PrecisionTimestampTzType)
		return ok && u.Nullability == t.Nullability && u.TypeVariationRef == t.TypeVariationRef && u.Precision == t.Precision
	case *IntervalDayType:
		u, ok := u.(*IntervalDayType)
		return ok && u.Nullability == t.Nullability && u.TypeVariationRef == t.TypeVariationRef && u.Precision == t.Precision
	case *DecimalType:
		u, ok := u.(*DecimalType)
		return ok && u.Nullability == t.Nullability && u.TypeVariationRef == t.TypeVariationRef && u.Scale == t.Scale && u.Precision == t.Precision
	case IntervalYearToMonthType:
		u, ok := u.(IntervalYearToMonthType)
		return ok && u.nullability == t.nullability && u.typeVariationRef == t.typeVariationRef
	case IntervalCompoundType:
		return VEqCompound(t, u)
	case *IntervalCompoundType:
		return VEqCompound(*t, u)
	case *StructType:
		u, ok := u.(*StructType)
		return ok && u.Nullability == t.Nullability && u.TypeVariationRef == t.TypeVariationRef && len(u.Types) == len(t.Types) &&
			zzverif.ForAll(len(t.Types), func(i int) bool { return VEqType(t.Types[i], u.Types[i]) })
	case *FuncType:
		u, ok := u.(*FuncType)
		return ok && u.Nullability == t.Nullability && len(u.ParameterTypes) == len(t.ParameterTypes) && VEqType(t.ReturnType, u.ReturnType) &&
			zzverif.ForAll(len(t.ParameterTypes), func(i int) bool { return VEqType(t.ParameterTypes[i], u.ParameterTypes[i]) })
	case *ListType:
		u, ok := u.(*ListType)
		return ok && u.Nullability == t.Nullability && u.TypeVariationRef == t.TypeVariationRef && VEqType(t.Type, u.Type)
	case *MapType:
		u, ok := u.(*MapType)
		return ok && u.Nullability == t.Nullability && u.TypeVariationRef == t.TypeVariationRef && VEqType(t.Key, u.Key) && VEqType(t.Value, u.Value)
	case *UserDefinedType:
		u, ok := u.(*UserDefinedType)
		return ok && u.Nullability == t.Nullability && u.TypeVariationRef == t.TypeVariationRef && u.TypeReference == t.TypeReference && len(u.TypeParameters) == len(t.TypeParameters) &&
			zzverif.ForAll(len(t.TypeParameters), func(i int) bool { return VEqParam(t.TypeParameters[i], u.TypeParameters[i]) })
	}
	return false
}

func VEqCompound(t IntervalCompoundType, u Type) bool {
	switch u := u.(type) {
	case IntervalCompoundType:
		return u.nullability == t.nullability && u.typeVariationRef == t.typeVariationRef && u.precision == t.precision
	case *IntervalCompoundType:
		return u.nullability == t.nullability && u.typeVariationRef == t.typeVariationRef && u.precision == t.precision
	}
	return false
}

//verif:logic
func VEqParam(t, u TypeParam) bool {
	switch t := t.(type) {
	case NullParameter:
		_, ok := u.(NullParameter)
		return ok
	case BooleanParameter:
		u, ok := u.(BooleanParameter)
		return ok && t == u
	case IntegerParameter:
		u, ok := u.(IntegerParameter)
		return ok && t == u
	case EnumParameter:
		u, ok := u.(EnumParameter)
		return ok && t == u
	case StringParameter:
		u, ok := u.(StringParameter)
		return ok && t == u
	case *DataTypeParameter:
		u, ok := u.(*DataTypeParameter)
		return ok && VEqType(t.Type, u.Type)
	}
	return false
}

// VConcType: any complete concrete type (precisions unrestricted).
//
//verif:logic
func VConcType(t Type) bool {
	switch t := t.(type) {
	case *StructType:
		return zzverif.ForAll(len(t.Types), func(i int) bool { return VConcType(t.Types[i]) })
	case *FuncType:
		return VConcType(t.ReturnType) && zzverif.ForAll(len(t.ParameterTypes), func(i int) bool { return VConcType(t.ParameterTypes[i]) })
	case *ListType:
		return VConcType(t.Type)
	case *MapType:
		return VConcType(t.Key) && VConcType(t.Value)
	case *UserDefinedType:
		return zzverif.ForAll(len(t.TypeParameters), func(i int) bool { return VConcParam(t.TypeParameters[i]) })
	case *EnumType:
		return false
	}
	return t != nil
}

//verif:logic
func VConcParam(t TypeParam) bool {
	switch t := t.(type) {
	case *DataTypeParameter:
		return VConcType(t.Type)
	}
	return t != nil
}

// SpecTypeEquals: Equals decides exactly structural equality.
//
//verif:iface Type.Equals
//verif:props C02
func SpecTypeEquals(t, u Type) {
	zzverif.Requires(VActual(t))
	zzverif.Requires(u == nil && VConcType(t) || u != nil && VActual(u))
	r := t.Equals(u)
	zzverif.Ensures("structural", !VConcType(t) || r == VEqType(t, u))
}

//verif:iface TypeParam.Equals
//verif:props C02
func SpecParamEquals(t, u TypeParam) {
	zzverif.Requires(VConcParam(t))
	zzverif.Requires(u == nil || VConcParam(u))
	r := t.Equals(u)
	zzverif.Ensures("structural", r == VEqParam(t, u))
}

// VSameExceptNullability: u agrees with t in everything but nullability.
//
//verif:logic
func VSameExceptNullability(t, u Type) bool {
	switch t := t.(type) {
	case *EnumType:
		u, ok := u.(*EnumType)
		return ok && u.Name == t.Name && len(u.Options) == len(t.Options) &&
			zzverif.ForAll(len(t.Options), func(i int) bool { return t.Options[i] == u.Options[i] })
	case *BooleanType:
		u, ok := u.(*BooleanType)
		return ok && u.TypeVariationRef == t.TypeVariationRef
	case *Int8Type:
		u, ok := u.(*Int8Type)
		return ok && u.TypeVariationRef == t.TypeVariationRef
	case *Int16Type:
		u, ok := u.(*Int16Type)
		return ok && u.TypeVariationRef == t.TypeVariationRef
	case *Int32Type:
		u, ok := u.(*Int32Type)
		return ok && u.TypeVariationRef == t.TypeVariationRef
	case *Int64Type:
		u, ok := u.(*Int64Type)
		return ok && u.TypeVariationRef == t.TypeVariationRef
	case *Float32Type:
		u, ok := u.(*Float32Type)
		return ok && u.TypeVariationRef == t.TypeVariationRef
	case *Float64Type:
		u, ok := u.(*Float64Type)
		return ok && u.TypeVariationRef == t.TypeVariationRef
	case *StringType:
		u, ok := u.(*StringType)
		return ok && u.TypeVariationRef == t.TypeVariationRef
	case *BinaryType:
		u, ok := u.(*BinaryType)
		return ok && u.TypeVariationRef == t.TypeVariationRef
	case *TimestampType:
		u, ok := u.(*TimestampType)
		return ok && u.TypeVariationRef == t.TypeVariationRef
	case *DateType:
		u, ok := u.(*DateType)
		return ok && u.TypeVariationRef == t.TypeVariationRef
	case *TimeType:
		u, ok := u.(*TimeType)
		return ok && u.TypeVariationRef == t.TypeVariationRef
	case *TimestampTzType:
		u, ok := u.(*TimestampTzType)
		return ok && u.TypeVariationRef == t.TypeVariationRef
	case *IntervalYearType:
		u, ok := u.(*IntervalYearType)
		return ok && u.TypeVariationRef == t.TypeVariationRef
	case *UUIDType:
		u, ok := u.(*UUIDType)
		return ok && u.TypeVariationRef == t.TypeVariationRef
	case *FixedCharType:
		u, ok := u.(*FixedCharType)
		return ok && u.TypeVariationRef == t.TypeVariationRef && u.Length == t.Length
	case *VarCharType:
		u, ok := u.(*VarCharType)
		return ok && u.TypeVariationRef == t.TypeVariationRef && u.Length == t.Length
	case *FixedBinaryType:
		u, ok := u.(*FixedBinaryType)
		return ok && u.TypeVariationRef == t.TypeVariationRef && u.Length == t.Length
	case *PrecisionTimeType:
		u, ok := u.(*PrecisionTimeType)
		return ok && u.TypeVariationRef == t.TypeVariationRef && u.Precision == t.Precision
	case *PrecisionTimestampType:
		u, ok := u.(*PrecisionTimestampType)
		return ok && u.TypeVariationRef == t.TypeVariationRef && u.Precision == t.Precision
	case *PrecisionTimestampTzType:
		u, ok := u.(*PrecisionTimestampTzType)
		return ok && u.TypeVariationRef == t.TypeVariationRef && u.Precision == t.Precision
	case *IntervalDayType:
		u, ok := u.(*IntervalDayType)
		return ok && u.TypeVariationRef == t.TypeVariationRef && u.Precision == t.Precision
	case *DecimalType:
		u, ok := u.(*DecimalType)
		return ok && u.TypeVariationRef == t.TypeVariationRef && u.Scale == t.Scale && u.Precision == t.Precision
	case IntervalYearToMonthType:
		u, ok := u.(IntervalYearToMonthType)
		return ok && u.typeVariationRef == t.typeVariationRef
	case IntervalCompoundType:
		return VEqCompoundX(t, u)
	case *IntervalCompoundType:
		return VEqCompoundX(*t, u)
	case *StructType:
		u, ok := u.(*StructType)
		return ok && u.TypeVariationRef == t.TypeVariationRef && len(u.Types) == len(t.Types) &&
			zzverif.ForAll(len(t.Types), func(i int) bool { return zzverif.Same(t.Types[i], u.Types[i]) })
	case *FuncType:
		u, ok := u.(*FuncType)
		return ok && len(u.ParameterTypes) == len(t.ParameterTypes) && zzverif.Same(t.ReturnType, u.ReturnType) &&
			zzverif.ForAll(len(t.ParameterTypes), func(i int) bool { return zzverif.Same(t.ParameterTypes[i], u.ParameterTypes[i]) })
	case *ListType:
		u, ok := u.(*ListType)
		return ok && u.TypeVariationRef == t.TypeVariationRef && zzverif.Same(t.Type, u.Type)
	case *MapType:
		u, ok := u.(*MapType)
		return ok && u.TypeVariationRef == t.TypeVariationRef && zzverif.Same(t.Key, u.Key) && zzverif.Same(t.Value, u.Value)
	case *UserDefinedType:
		u, ok := u.(*UserDefinedType)
		return ok && u.TypeVariationRef == t.TypeVariationRef && u.TypeReference == t.TypeReference && len(u.TypeParameters) == len(t.TypeParameters) &&
			zzverif.ForAll(len(t.TypeParameters), func(i int) bool { return zzverif.Same(t.TypeParameters[i], u.TypeParameters[i]) })
	}
	return false
}

func VEqCompoundX(t IntervalCompoundType, u Type) bool {
	switch u := u.(type) {
	case IntervalCompoundType:
		return u.typeVariationRef == t.typeVariationRef && u.precision == t.precision
	case *IntervalCompoundType:
		return u.typeVariationRef == t.typeVariationRef && u.precision == t.precision
	}
	return false
}

// SpecWithNullability: a copy with the asked nullability; the frame condition
// (nothing reachable from the receiver is written) is the purity half of C03.
//
//verif:iface Type.WithNullability
//verif:props C03
func SpecWithNullability(t Type, n Nullability) {
	zzverif.Requires(VActual(t))
	r := t.WithNullability(n)
	zzverif.Ensures("nullability", VNullOf(r) == n)
	zzverif.Ensures("rest-unchanged", VSameExceptNullability(t, r))
	zzverif.Ensures("complete", VActual(r))
}

// VNullOf is the nullability a type carries.
//
//verif:logic
func VNullOf(t Type) Nullability {
	switch t := t.(type) {
	case *BooleanType:
		return t.Nullability
	case *Int8Type:
		return t.Nullability
	case *Int16Type:
		return t.Nullability
	case *Int32Type:
		return t.Nullability
	case *Int64Type:
		return t.Nullability
	case *Float32Type:
		return t.Nullability
	case *Float64Type:
		return t.Nullability
	case *StringType:
		return t.Nullability
	case *BinaryType:
		return t.Nullability
	case *TimestampType:
		return t.Nullability
	case *DateType:
		return t.Nullability
	case *TimeType:
		return t.Nullability
	case *TimestampTzType:
		return t.Nullability
	case *IntervalYearType:
		return t.Nullability
	case *UUIDType:
		return t.Nullability
	case *FixedCharType:
		return t.Nullability
	case *VarCharType:
		return t.Nullability
	case *FixedBinaryType:
		return t.Nullability
	case *PrecisionTimeType:
		return t.Nullability
	case *PrecisionTimestampType:
		return t.Nullability
	case *PrecisionTimestampTzType:
		return t.Nullability
	case *IntervalDayType:
		return t.Nullability
	case *DecimalType:
		return t.Nullability
	case *StructType:
		return t.Nullability
	case *FuncType:
		return t.Nullability
	case *ListType:
		return t.Nullability
	case *MapType:
		return t.Nullability
	case *UserDefinedType:
		return t.Nullability
	case *EnumType:
		return t.Nullability
	case IntervalYearToMonthType:
		return t.nullability
	case IntervalCompoundType:
		return t.nullability
	case *IntervalCompoundType:
		return t.nullability
	}
	return 0
}

//verif:iface Type.GetNullability
//verif:props C02 C03
func SpecGetNullability(t Type) {
	r := t.GetNullability()
	zzverif.Ensures("value", r == VNullOf(t))
}

// VLemEncUnique: a message encodes at most one type, up to structural equality
// (proved by induction on the type).
func VLemEncUnique(p *proto.Type, t, u Type) {
	switch t := t.(type) {
	case *StructType:
		k := p.Kind.(*proto.Type_Struct_)
		o := u.(*StructType)
		for i := range t.Types {
			VLemEncUnique(k.Struct.Types[i], t.Types[i], o.Types[i])
		}
	case *FuncType:
		k := p.Kind.(*proto.Type_Func_)
		o := u.(*FuncType)
		VLemEncUnique(k.Func.ReturnType, t.ReturnType, o.ReturnType)
		for i := range t.ParameterTypes {
			VLemEncUnique(k.Func.ParameterTypes[i], t.ParameterTypes[i], o.ParameterTypes[i])
		}
	case *ListType:
		VLemEncUnique(p.Kind.(*proto.Type_List_).List.Type, t.Type, u.(*ListType).Type)
	case *MapType:
		VLemEncUnique(p.Kind.(*proto.Type_Map_).Map.Key, t.Key, u.(*MapType).Key)
		VLemEncUnique(p.Kind.(*proto.Type_Map_).Map.Value, t.Value, u.(*MapType).Value)
	case *UserDefinedType:
		k := p.Kind.(*proto.Type_UserDefined_)
		o := u.(*UserDefinedType)
		for i := range t.TypeParameters {
			VLemParamUnique(k.UserDefined.TypeParameters[i], t.TypeParameters[i], o.TypeParameters[i])
		}
	}
}

func VLemParamUnique(p *proto.Type_Parameter, t, u TypeParam) {
	switch t := t.(type) {
	case *DataTypeParameter:
		VLemEncUnique(p.Parameter.(*proto.Type_Parameter_DataType).DataType, t.Type, u.(*DataTypeParameter).Type)
	}
}

//verif:contract VLemEncUnique
//verif:split t u
//verif:props C01
func SpecLemEncUnique(p *proto.Type, t, u Type) {
	zzverif.Requires(VEncType(p, t))
	zzverif.Requires(VEncType(p, u))
	VLemEncUnique(p, t, u)
	zzverif.Ensures("equal", VEqType(t, u))
}

//verif:contract VLemParamUnique
//verif:split t u
//verif:props C01
func SpecLemParamUnique(p *proto.Type_Parameter, t, u TypeParam) {
	zzverif.Requires(VEncParam(p, t))
	zzverif.Requires(VEncParam(p, u))
	VLemParamUnique(p, t, u)
	zzverif.Ensures("equal", VEqParam(t, u))
}

// VLemWfConc: a well-formed type is complete.
func VLemWfConc(t Type) {
	switch t := t.(type) {
	case *StructType:
		for i := range t.Types {
			VLemWfConc(t.Types[i])
		}
	case *FuncType:
		VLemWfConc(t.ReturnType)
		for i := range t.ParameterTypes {
			VLemWfConc(t.ParameterTypes[i])
		}
	case *ListType:
		VLemWfConc(t.Type)
	case *MapType:
		VLemWfConc(t.Key)
		VLemWfConc(t.Value)
	case *UserDefinedType:
		for i := range t.TypeParameters {
			VLemWfConcP(t.TypeParameters[i])
		}
	}
}

func VLemWfConcP(t TypeParam) {
	switch t := t.(type) {
	case *DataTypeParameter:
		VLemWfConc(t.Type)
	}
}

//verif:contract VLemWfConc
//verif:split t
//verif:props C01
func SpecLemWfConc(t Type) {
	zzverif.Requires(VWfType(t))
	VLemWfConc(t)
	zzverif.Ensures("complete", VConcType(t))
}

//verif:contract VLemWfConcP
//verif:split t
//verif:props C01
func SpecLemWfConcP(t TypeParam) {
	zzverif.Requires(VWfParam(t))
	VLemWfConcP(t)
	zzverif.Ensures("complete", VConcParam(t))
}

// SpecTypeRoundTrip is the property itself: decoding an encoded type gives an
// equal type (as decided by the library's own Equals), and re-encoding what
// was decoded is again an encoding of the original.
//
//verif:spec
//verif:props C01
func SpecTypeRoundTrip(t Type) {
	zzverif.Requires(VWfType(t))
	p := TypeToProto(t)
	u := TypeFromProto(p)
	VLemEncUnique(p, t, u)
	VLemWfConc(t)
	VLemWfConc(u)
	zzverif.Ensures("structurally-equal", VEqType(t, u))
	zzverif.Ensures("equal", t.Equals(u))
}

// SpecFindingIntervalYearToMonth records a known defect: this type does not
// come back as the same kind (K01).
//
//verif:finding K01
//verif:props C01
func SpecFindingIntervalYearToMonth() {
	t := IntervalYearToMonthType{nullability: NullabilityNullable}
	zzverif.Ensures("round-trip", t.Equals(TypeFromProto(TypeToProto(t))))
}

// VWfListElem: an empty list has to be able to carry its element type.
func VWfListElem(t *ListType, n int) bool { return n > 0 || VWfType(t.Type) }

// VWfMapElem: the same for the key and value types of an empty map.
func VWfMapElem(t *MapType, n int) bool { return n > 0 || VWfType(t.Key) && VWfType(t.Value) }

// VVarOf: the type-variation reference of a type.
//
//verif:logic
func VVarOf(t Type) uint32 {
	switch t := t.(type) {
	case *BooleanType:
		return t.TypeVariationRef
	case *Int8Type:
		return t.TypeVariationRef
	case *Int16Type:
		return t.TypeVariationRef
	case *Int32Type:
		return t.TypeVariationRef
	case *Int64Type:
		return t.TypeVariationRef
	case *Float32Type:
		return t.TypeVariationRef
	case *Float64Type:
		return t.TypeVariationRef
	case *StringType:
		return t.TypeVariationRef
	case *BinaryType:
		return t.TypeVariationRef
	case *TimestampType:
		return t.TypeVariationRef
	case *DateType:
		return t.TypeVariationRef
	case *TimeType:
		return t.TypeVariationRef
	case *TimestampTzType:
		return t.TypeVariationRef
	case *IntervalYearType:
		return t.TypeVariationRef
	case *UUIDType:
		return t.TypeVariationRef
	case *FixedCharType:
		return t.TypeVariationRef
	case *VarCharType:
		return t.TypeVariationRef
	case *FixedBinaryType:
		return t.TypeVariationRef
	case *PrecisionTimeType:
		return t.TypeVariationRef
	case *PrecisionTimestampType:
		return t.TypeVariationRef
	case *PrecisionTimestampTzType:
		return t.TypeVariationRef
	case *IntervalDayType:
		return t.TypeVariationRef
	case *DecimalType:
		return t.TypeVariationRef
	case *StructType:
		return t.TypeVariationRef
	case *ListType:
		return t.TypeVariationRef
	case *MapType:
		return t.TypeVariationRef
	case *UserDefinedType:
		return t.TypeVariationRef
	case *EnumType:
		return t.TypeVariationRef
	case IntervalYearToMonthType:
		return t.typeVariationRef
	case IntervalCompoundType:
		return t.typeVariationRef
	case *IntervalCompoundType:
		return t.typeVariationRef
	}
	return 0
}

//verif:iface Type.GetTypeVariationReference
//verif:props C02 C06
func SpecGetVariation(t Type) {
	r := t.GetTypeVariationReference()
	zzverif.Ensures("value", r == VVarOf(t))
}
