package expr

import (
	"math"

	"github.com/substrait-io/substrait-go/v8/types"
	"github.com/substrait-io/substrait-go/v8/zzverif"
	proto "github.com/substrait-io/substrait-protobuf/go/substraitpb"
)

func vNul(n types.Nullability) bool {
	return n == types.NullabilityNullable || n == types.NullabilityRequired
}

func vHead(p *proto.Expression_Literal, n types.Nullability, v uint32) bool {
	return p.Nullable == (n == types.NullabilityNullable) && p.TypeVariationReference == v && vNul(n)
}

func vSameBytes(a, b []byte) bool {
	return len(a) == len(b) && zzverif.ForAll(len(a), func(i int) bool { return a[i] == b[i] })
}

func vYM(a, b *proto.Expression_Literal_IntervalYearToMonth) bool {
	return a != nil && b != nil && a.Years == b.Years && a.Months == b.Months
}

// vDS: the same interval, given in the same way.
func vDS(a, b *proto.Expression_Literal_IntervalDayToSecond) bool {
	if a == nil || b == nil {
		return false
	}
	if a.Days != b.Days || a.Seconds != b.Seconds || a.Subseconds != b.Subseconds {
		return false
	}
	switch x := a.PrecisionMode.(type) {
	case *proto.Expression_Literal_IntervalDayToSecond_Precision:
		y, ok := b.PrecisionMode.(*proto.Expression_Literal_IntervalDayToSecond_Precision)
		return ok && x.Precision == y.Precision
	case *proto.Expression_Literal_IntervalDayToSecond_Microseconds:
		y, ok := b.PrecisionMode.(*proto.Expression_Literal_IntervalDayToSecond_Microseconds)
		return ok && x.Microseconds == y.Microseconds
	case nil:
		return b.PrecisionMode == nil
	}
	return false
}

// vDSPrec: the precision an interval message is given in.
func vDSPrec(a *proto.Expression_Literal_IntervalDayToSecond) int32 {
	if x, ok := a.PrecisionMode.(*proto.Expression_Literal_IntervalDayToSecond_Precision); ok {
		return x.Precision
	}
	return 6
}

// VEncLit: the message p is the encoding of the literal l.
//
//verif:logic
func VEncLit(p *proto.Expression_Literal, l Literal) bool {
	if p == nil {
		return false
	}
	switch l := l.(type) {
	case *NullLiteral:
		k, ok := p.LiteralType.(*proto.Expression_Literal_Null)
		return ok && types.VEncType(k.Null, l.Type)
	case *PrimitiveLiteral[bool]:
		k, ok := p.LiteralType.(*proto.Expression_Literal_Boolean)
		t, ok2 := l.Type.(*types.BooleanType)
		return ok && ok2 && k.Boolean == l.Value && vHead(p, t.Nullability, t.TypeVariationRef)
	case *PrimitiveLiteral[int8]:
		k, ok := p.LiteralType.(*proto.Expression_Literal_I8)
		t, ok2 := l.Type.(*types.Int8Type)
		return ok && ok2 && k.I8 == int32(l.Value) && vHead(p, t.Nullability, t.TypeVariationRef)
	case *PrimitiveLiteral[int16]:
		k, ok := p.LiteralType.(*proto.Expression_Literal_I16)
		t, ok2 := l.Type.(*types.Int16Type)
		return ok && ok2 && k.I16 == int32(l.Value) && vHead(p, t.Nullability, t.TypeVariationRef)
	case *PrimitiveLiteral[int32]:
		k, ok := p.LiteralType.(*proto.Expression_Literal_I32)
		t, ok2 := l.Type.(*types.Int32Type)
		return ok && ok2 && k.I32 == l.Value && vHead(p, t.Nullability, t.TypeVariationRef)
	case *PrimitiveLiteral[int64]:
		k, ok := p.LiteralType.(*proto.Expression_Literal_I64)
		t, ok2 := l.Type.(*types.Int64Type)
		return ok && ok2 && k.I64 == l.Value && vHead(p, t.Nullability, t.TypeVariationRef)
	case *PrimitiveLiteral[float32]:
		k, ok := p.LiteralType.(*proto.Expression_Literal_Fp32)
		t, ok2 := l.Type.(*types.Float32Type)
		return ok && ok2 && math.Float32bits(k.Fp32) == math.Float32bits(l.Value) && vHead(p, t.Nullability, t.TypeVariationRef)
	case *PrimitiveLiteral[float64]:
		k, ok := p.LiteralType.(*proto.Expression_Literal_Fp64)
		t, ok2 := l.Type.(*types.Float64Type)
		return ok && ok2 && math.Float64bits(k.Fp64) == math.Float64bits(l.Value) && vHead(p, t.Nullability, t.TypeVariationRef)
	case *PrimitiveLiteral[string]:
		k, ok := p.LiteralType.(*proto.Expression_Literal_String_)
		t, ok2 := l.Type.(*types.StringType)
		return ok && ok2 && k.String_ == l.Value && vHead(p, t.Nullability, t.TypeVariationRef)
	case *PrimitiveLiteral[types.Timestamp]:
		k, ok := p.LiteralType.(*proto.Expression_Literal_Timestamp)
		t, ok2 := l.Type.(*types.TimestampType)
		return ok && ok2 && k.Timestamp == int64(l.Value) && vHead(p, t.Nullability, t.TypeVariationRef)
	case *PrimitiveLiteral[types.TimestampTz]:
		k, ok := p.LiteralType.(*proto.Expression_Literal_TimestampTz)
		t, ok2 := l.Type.(*types.TimestampTzType)
		return ok && ok2 && k.TimestampTz == int64(l.Value) && vHead(p, t.Nullability, t.TypeVariationRef)
	case *PrimitiveLiteral[types.Date]:
		k, ok := p.LiteralType.(*proto.Expression_Literal_Date)
		t, ok2 := l.Type.(*types.DateType)
		return ok && ok2 && k.Date == int32(l.Value) && vHead(p, t.Nullability, t.TypeVariationRef)
	case *PrimitiveLiteral[types.Time]:
		k, ok := p.LiteralType.(*proto.Expression_Literal_Time)
		t, ok2 := l.Type.(*types.TimeType)
		return ok && ok2 && k.Time == int64(l.Value) && vHead(p, t.Nullability, t.TypeVariationRef)
	case *PrimitiveLiteral[types.FixedChar]:
		k, ok := p.LiteralType.(*proto.Expression_Literal_FixedChar)
		t, ok2 := l.Type.(*types.FixedCharType)
		return ok && ok2 && k.FixedChar == string(l.Value) && int(t.Length) == len(k.FixedChar) && vHead(p, t.Nullability, t.TypeVariationRef)
	case *ByteSliceLiteral[[]byte]:
		k, ok := p.LiteralType.(*proto.Expression_Literal_Binary)
		t, ok2 := l.Type.(*types.BinaryType)
		return ok && ok2 && vHead(p, t.Nullability, t.TypeVariationRef) && vSameBytes(k.Binary, l.Value)
	case *ByteSliceLiteral[types.UUID]:
		k, ok := p.LiteralType.(*proto.Expression_Literal_Uuid)
		t, ok2 := l.Type.(*types.UUIDType)
		return ok && ok2 && vHead(p, t.Nullability, t.TypeVariationRef) && vSameBytes(k.Uuid, l.Value)
	case *ByteSliceLiteral[types.FixedBinary]:
		k, ok := p.LiteralType.(*proto.Expression_Literal_FixedBinary)
		t, ok2 := l.Type.(*types.FixedBinaryType)
		return ok && ok2 && int(t.Length) == len(k.FixedBinary) && vHead(p, t.Nullability, t.TypeVariationRef) && vSameBytes(k.FixedBinary, l.Value)
	case *NestedLiteral[StructLiteralValue]:
		k, ok := p.LiteralType.(*proto.Expression_Literal_Struct_)
		t, ok2 := l.Type.(*types.StructType)
		return ok && ok2 && k.Struct != nil && len(k.Struct.Fields) == len(l.Value) && len(t.Types) == len(l.Value) && vHead(p, t.Nullability, t.TypeVariationRef) &&
			zzverif.ForAll(len(l.Value), func(i int) bool { return VEncLit(k.Struct.Fields[i], l.Value[i]) }) &&
			zzverif.ForAll(len(l.Value), func(i int) bool { return VHasType(l.Value[i], t.Types[i]) })
	case *NestedLiteral[ListLiteralValue]:
		t, ok2 := l.Type.(*types.ListType)
		if len(l.Value) == 0 {
			k, ok := p.LiteralType.(*proto.Expression_Literal_EmptyList)
			return ok && ok2 && k.EmptyList != nil && types.VEncType(k.EmptyList.Type, t.Type) && vHead(p, t.Nullability, t.TypeVariationRef)
		}
		k, ok := p.LiteralType.(*proto.Expression_Literal_List_)
		return ok && ok2 && k.List != nil && len(k.List.Values) == len(l.Value) && vHead(p, t.Nullability, t.TypeVariationRef) &&
			VHasType(l.Value[0], t.Type) &&
			zzverif.ForAll(len(l.Value), func(i int) bool { return VEncLit(k.List.Values[i], l.Value[i]) })
	case *MapLiteral:
		t, ok2 := l.Type.(*types.MapType)
		if len(l.Value) == 0 {
			k, ok := p.LiteralType.(*proto.Expression_Literal_EmptyMap)
			return ok && ok2 && k.EmptyMap != nil && types.VEncType(k.EmptyMap.Key, t.Key) && types.VEncType(k.EmptyMap.Value, t.Value) && vHead(p, t.Nullability, t.TypeVariationRef)
		}
		k, ok := p.LiteralType.(*proto.Expression_Literal_Map_)
		return ok && ok2 && k.Map != nil && len(k.Map.KeyValues) == len(l.Value) && vHead(p, t.Nullability, t.TypeVariationRef) &&
			VHasType(l.Value[0].Key, t.Key) && VHasType(l.Value[0].Value, t.Value) &&
			zzverif.ForAll(len(l.Value), func(i int) bool {
				return k.Map.KeyValues[i] != nil && VEncLit(k.Map.KeyValues[i].Key, l.Value[i].Key) && VEncLit(k.Map.KeyValues[i].Value, l.Value[i].Value)
			})
	case *ProtoLiteral:
		switch t := l.Type.(type) {
		case *types.VarCharType:
			k, ok := p.LiteralType.(*proto.Expression_Literal_VarChar_)
			v, ok2 := l.Value.(string)
			return ok && ok2 && k.VarChar != nil && k.VarChar.Value == v && int32(k.VarChar.Length) == t.Length && vHead(p, t.Nullability, t.TypeVariationRef)
		case *types.DecimalType:
			k, ok := p.LiteralType.(*proto.Expression_Literal_Decimal_)
			v, ok2 := l.Value.([]byte)
			return ok && ok2 && k.Decimal != nil && k.Decimal.Precision == t.Precision && k.Decimal.Scale == t.Scale && vHead(p, t.Nullability, t.TypeVariationRef) && (k.Decimal.Value == nil) == (v == nil) && vSameBytes(k.Decimal.Value, v)
		case *types.PrecisionTimeType:
			k, ok := p.LiteralType.(*proto.Expression_Literal_PrecisionTime_)
			v, ok2 := l.Value.(int64)
			return ok && ok2 && k.PrecisionTime != nil && k.PrecisionTime.Value == v && k.PrecisionTime.Precision == int32(t.Precision) && vHead(p, t.Nullability, t.TypeVariationRef)
		case *types.PrecisionTimestampType:
			k, ok := p.LiteralType.(*proto.Expression_Literal_PrecisionTimestamp_)
			v, ok2 := l.Value.(int64)
			return ok && ok2 && k.PrecisionTimestamp != nil && k.PrecisionTimestamp.Value == v && k.PrecisionTimestamp.Precision == int32(t.Precision) && vHead(p, t.Nullability, t.TypeVariationRef)
		case *types.PrecisionTimestampTzType:
			k, ok := p.LiteralType.(*proto.Expression_Literal_PrecisionTimestampTz)
			v, ok2 := l.Value.(int64)
			return ok && ok2 && k.PrecisionTimestampTz != nil && k.PrecisionTimestampTz.Value == v && k.PrecisionTimestampTz.Precision == int32(t.Precision) && vHead(p, t.Nullability, t.TypeVariationRef)
		case *types.IntervalDayType:
			k, ok := p.LiteralType.(*proto.Expression_Literal_IntervalDayToSecond_)
			v, ok2 := l.Value.(*proto.Expression_Literal_IntervalDayToSecond)
			return ok && ok2 && vDS(k.IntervalDayToSecond, v) && int32(t.Precision) == vDSPrec(v) && vHead(p, t.Nullability, t.TypeVariationRef)
		case *types.UserDefinedType:
			k, ok := p.LiteralType.(*proto.Expression_Literal_UserDefined_)
			if !ok || k.UserDefined == nil {
				return false
			}
			r, ok := k.UserDefined.TypeAnchorType.(*proto.Expression_Literal_UserDefined_TypeReference)
			return ok && r.TypeReference == t.TypeReference && vHead(p, t.Nullability, t.TypeVariationRef) && vUdtValue(k.UserDefined, l.Value) &&
				len(k.UserDefined.TypeParameters) == len(t.TypeParameters) &&
				zzverif.ForAll(len(t.TypeParameters), func(i int) bool { return types.VEncParam(k.UserDefined.TypeParameters[i], t.TypeParameters[i]) })
		}
	case IntervalYearToMonthLiteral:
		k, ok := p.LiteralType.(*proto.Expression_Literal_IntervalYearToMonth_)
		return ok && k.IntervalYearToMonth != nil && k.IntervalYearToMonth.Years == l.Years && k.IntervalYearToMonth.Months == l.Months && p.Nullable == (l.Nullability == types.NullabilityNullable) && vNul(l.Nullability)
	case IntervalCompoundLiteral:
		k, ok := p.LiteralType.(*proto.Expression_Literal_IntervalCompound_)
		return ok && k.IntervalCompound != nil && p.Nullable == (l.Nullability == types.NullabilityNullable) && vNul(l.Nullability) &&
			vCompoundYM(k.IntervalCompound.IntervalYearToMonth, l) && vCompoundDS(k.IntervalCompound.IntervalDayToSecond, l)
	}
	return false
}

func vCompoundYM(a *proto.Expression_Literal_IntervalYearToMonth, l IntervalCompoundLiteral) bool {
	if a == nil {
		return l.Years == 0 && l.Months == 0
	}
	return l.Years == a.Years && l.Months == a.Months
}

func vCompoundDS(a *proto.Expression_Literal_IntervalDayToSecond, l IntervalCompoundLiteral) bool {
	if a == nil {
		return l.Days == 0 && l.Seconds == 0 && l.SubSeconds == 0 && l.SubSecondPrecision == 0
	}
	if l.Days != a.Days || l.Seconds != a.Seconds {
		return false
	}
	switch m := a.PrecisionMode.(type) {
	case *proto.Expression_Literal_IntervalDayToSecond_Precision:
		return l.SubSeconds == a.Subseconds && int32(l.SubSecondPrecision) == m.Precision
	case *proto.Expression_Literal_IntervalDayToSecond_Microseconds:
		return l.SubSeconds == int64(m.Microseconds) && l.SubSecondPrecision == 6
	}
	return false
}

// vUdtValue: the value of a user-defined literal is carried over as it is.
func vUdtValue(u *proto.Expression_Literal_UserDefined, v any) bool {
	switch v := v.(type) {
	case *proto.Expression_Literal_UserDefined_Value:
		k, ok := u.Val.(*proto.Expression_Literal_UserDefined_Value)
		return ok && k.Value == v.Value
	case *proto.Expression_Literal_UserDefined_Struct:
		k, ok := u.Val.(*proto.Expression_Literal_UserDefined_Struct)
		return ok && k.Struct == v.Struct
	}
	return false
}

// VLitType: the type a literal has.
//
//verif:logic
func VLitType(l Literal) types.Type {
	switch l := l.(type) {
	case *NullLiteral:
		return l.Type
	case *PrimitiveLiteral[bool]:
		return l.Type
	case *PrimitiveLiteral[string]:
		return l.Type
	case *PrimitiveLiteral[types.Timestamp]:
		return l.Type
	case *PrimitiveLiteral[types.TimestampTz]:
		return l.Type
	case *PrimitiveLiteral[types.Date]:
		return l.Type
	case *PrimitiveLiteral[types.Time]:
		return l.Type
	case *PrimitiveLiteral[types.FixedChar]:
		return l.Type
	case *ByteSliceLiteral[[]byte]:
		return l.Type
	case *ByteSliceLiteral[types.UUID]:
		return l.Type
	case *ByteSliceLiteral[types.FixedBinary]:
		return l.Type
	case *NestedLiteral[StructLiteralValue]:
		return l.Type
	case *NestedLiteral[ListLiteralValue]:
		return l.Type
	case *MapLiteral:
		return l.Type
	case *ProtoLiteral:
		return l.Type
	case *PrimitiveLiteral[int8]:
		return l.Type
	case *PrimitiveLiteral[int16]:
		return l.Type
	case *PrimitiveLiteral[int32]:
		return l.Type
	case *PrimitiveLiteral[int64]:
		return l.Type
	case *PrimitiveLiteral[float32]:
		return l.Type
	case *PrimitiveLiteral[float64]:
		return l.Type
	case IntervalYearToMonthLiteral:
		return types.NewIntervalYearToMonthType().WithNullability(l.Nullability)
	case IntervalCompoundLiteral:
		return types.NewIntervalCompoundType().WithPrecision(l.SubSecondPrecision).WithNullability(l.Nullability)
	}
	return nil
}

// VHasType: t is the type of the literal l.
func VHasType(l Literal, t types.Type) bool {
	return t == VLitType(l) || types.VEqType(VLitType(l), t)
}

// VTyped: the literal has a complete type, and so have its elements.
//
//verif:logic
func VTyped(l Literal) bool {
	switch l := l.(type) {
	case *NestedLiteral[StructLiteralValue]:
		return types.VConcType(l.Type) && zzverif.ForAll(len(l.Value), func(i int) bool { return VTyped(l.Value[i]) })
	case *NestedLiteral[ListLiteralValue]:
		return types.VConcType(l.Type) && zzverif.ForAll(len(l.Value), func(i int) bool { return VTyped(l.Value[i]) })
	case *MapLiteral:
		return types.VConcType(l.Type) && zzverif.ForAll(len(l.Value), func(i int) bool { return VTyped(l.Value[i].Key) && VTyped(l.Value[i].Value) })
	}
	return l != nil && types.VConcType(VLitType(l))
}

// VWfLit: a well-formed literal, one the wire format can carry.
//
//verif:logic
func VWfLit(l Literal) bool {
	switch l := l.(type) {
	case *NullLiteral:
		return types.VWfType(l.Type)
	case *PrimitiveLiteral[bool]:
		t, ok := l.Type.(*types.BooleanType)
		return ok && vNul(t.Nullability)
	case *PrimitiveLiteral[int8]:
		t, ok := l.Type.(*types.Int8Type)
		return ok && vNul(t.Nullability)
	case *PrimitiveLiteral[int16]:
		t, ok := l.Type.(*types.Int16Type)
		return ok && vNul(t.Nullability)
	case *PrimitiveLiteral[int32]:
		t, ok := l.Type.(*types.Int32Type)
		return ok && vNul(t.Nullability)
	case *PrimitiveLiteral[int64]:
		t, ok := l.Type.(*types.Int64Type)
		return ok && vNul(t.Nullability)
	case *PrimitiveLiteral[float32]:
		t, ok := l.Type.(*types.Float32Type)
		return ok && vNul(t.Nullability)
	case *PrimitiveLiteral[float64]:
		t, ok := l.Type.(*types.Float64Type)
		return ok && vNul(t.Nullability)
	case *PrimitiveLiteral[string]:
		t, ok := l.Type.(*types.StringType)
		return ok && vNul(t.Nullability)
	case *PrimitiveLiteral[types.Timestamp]:
		t, ok := l.Type.(*types.TimestampType)
		return ok && vNul(t.Nullability)
	case *PrimitiveLiteral[types.TimestampTz]:
		t, ok := l.Type.(*types.TimestampTzType)
		return ok && vNul(t.Nullability)
	case *PrimitiveLiteral[types.Date]:
		t, ok := l.Type.(*types.DateType)
		return ok && vNul(t.Nullability)
	case *PrimitiveLiteral[types.Time]:
		t, ok := l.Type.(*types.TimeType)
		return ok && vNul(t.Nullability)
	case *PrimitiveLiteral[types.FixedChar]:
		t, ok := l.Type.(*types.FixedCharType)
		return ok && vNul(t.Nullability) && int(t.Length) == len(l.Value)
	case *ByteSliceLiteral[[]byte]:
		t, ok := l.Type.(*types.BinaryType)
		return ok && vNul(t.Nullability)
	case *ByteSliceLiteral[types.UUID]:
		t, ok := l.Type.(*types.UUIDType)
		return ok && vNul(t.Nullability)
	case *ByteSliceLiteral[types.FixedBinary]:
		t, ok := l.Type.(*types.FixedBinaryType)
		return ok && vNul(t.Nullability) && int(t.Length) == len(l.Value)
	case *NestedLiteral[StructLiteralValue]:
		t, ok := l.Type.(*types.StructType)
		return ok && vNul(t.Nullability) && len(t.Types) == len(l.Value) &&
			zzverif.ForAll(len(l.Value), func(i int) bool { return VWfLit(l.Value[i]) && VHasType(l.Value[i], t.Types[i]) })
	case *NestedLiteral[ListLiteralValue]:
		t, ok := l.Type.(*types.ListType)
		return ok && vNul(t.Nullability) && types.VWfListElem(t, len(l.Value)) &&
			zzverif.ForAll(len(l.Value), func(i int) bool { return VWfLit(l.Value[i]) && VHasType(l.Value[i], t.Type) })
	case *MapLiteral:
		t, ok := l.Type.(*types.MapType)
		return ok && vNul(t.Nullability) && types.VWfMapElem(t, len(l.Value)) &&
			zzverif.ForAll(len(l.Value), func(i int) bool {
				return VWfLit(l.Value[i].Key) && VWfLit(l.Value[i].Value) && VHasType(l.Value[i].Key, t.Key) && VHasType(l.Value[i].Value, t.Value)
			})
	case *ProtoLiteral:
		return vWfProto(l)
	case IntervalYearToMonthLiteral:
		return vNul(l.Nullability)
	case IntervalCompoundLiteral:
		return vNul(l.Nullability) && types.VPrecOK(int32(l.SubSecondPrecision))
	}
	return false
}

func vWfProto(l *ProtoLiteral) bool {
	switch t := l.Type.(type) {
	case *types.VarCharType:
		_, ok := l.Value.(string)
		return ok && vNul(t.Nullability)
	case *types.DecimalType:
		_, ok := l.Value.([]byte)
		return ok && vNul(t.Nullability)
	case *types.PrecisionTimeType:
		v, ok := l.Value.(int64)
		return ok && vNul(t.Nullability) && types.VPrecOK(int32(t.Precision)) && v >= 0
	case *types.PrecisionTimestampType:
		_, ok := l.Value.(int64)
		return ok && vNul(t.Nullability) && types.VPrecOK(int32(t.Precision))
	case *types.PrecisionTimestampTzType:
		_, ok := l.Value.(int64)
		return ok && vNul(t.Nullability) && types.VPrecOK(int32(t.Precision))
	case *types.IntervalDayType:
		v, ok := l.Value.(*proto.Expression_Literal_IntervalDayToSecond)
		return ok && vNul(t.Nullability) && types.VPrecOK(int32(t.Precision)) && vDS(v, v) && vDSPrec(v) == int32(t.Precision)
	case *types.UserDefinedType:
		return vNul(t.Nullability) && vUdtOK(l.Value) &&
			zzverif.ForAll(len(t.TypeParameters), func(i int) bool { return types.VWfParam(t.TypeParameters[i]) })
	}
	return false
}

func vUdtOK(v any) bool {
	switch v := v.(type) {
	case *proto.Expression_Literal_UserDefined_Value:
		return v != nil
	case *proto.Expression_Literal_UserDefined_Struct:
		return v != nil
	}
	return false
}

// VWfPLit: a complete literal message.
//
//verif:logic
func VWfPLit(p *proto.Expression_Literal) bool {
	if p == nil {
		return false
	}
	switch k := p.LiteralType.(type) {
	case *proto.Expression_Literal_Boolean, *proto.Expression_Literal_I32, *proto.Expression_Literal_I64, *proto.Expression_Literal_Fp32, *proto.Expression_Literal_Fp64, *proto.Expression_Literal_String_, *proto.Expression_Literal_Binary, *proto.Expression_Literal_Timestamp, *proto.Expression_Literal_Date, *proto.Expression_Literal_Time, *proto.Expression_Literal_TimestampTz, *proto.Expression_Literal_Uuid:
		return true
	case *proto.Expression_Literal_FixedChar:
		return len(k.FixedChar) <= 0x7fffffff
	case *proto.Expression_Literal_FixedBinary:
		return len(k.FixedBinary) <= 0x7fffffff
	case *proto.Expression_Literal_I8:
		return k.I8 >= -128 && k.I8 <= 127
	case *proto.Expression_Literal_I16:
		return k.I16 >= -32768 && k.I16 <= 32767
	case *proto.Expression_Literal_Null:
		return types.VWfPType(k.Null)
	case *proto.Expression_Literal_VarChar_:
		return k.VarChar != nil
	case *proto.Expression_Literal_Decimal_:
		return k.Decimal != nil
	case *proto.Expression_Literal_PrecisionTime_:
		return k.PrecisionTime != nil && types.VPrecOK(k.PrecisionTime.Precision) && k.PrecisionTime.Value >= 0
	case *proto.Expression_Literal_PrecisionTimestamp_:
		return k.PrecisionTimestamp != nil && types.VPrecOK(k.PrecisionTimestamp.Precision)
	case *proto.Expression_Literal_PrecisionTimestampTz:
		return k.PrecisionTimestampTz != nil && types.VPrecOK(k.PrecisionTimestampTz.Precision)
	case *proto.Expression_Literal_IntervalYearToMonth_:
		return k.IntervalYearToMonth != nil
	case *proto.Expression_Literal_IntervalDayToSecond_:
		return k.IntervalDayToSecond != nil && vDS(k.IntervalDayToSecond, k.IntervalDayToSecond) && types.VPrecOK(vDSPrec(k.IntervalDayToSecond))
	case *proto.Expression_Literal_IntervalCompound_:
		return k.IntervalCompound != nil && vCompoundOK(k.IntervalCompound.IntervalDayToSecond)
	case *proto.Expression_Literal_Struct_:
		return k.Struct != nil && zzverif.ForAll(len(k.Struct.Fields), func(i int) bool { return VWfPLit(k.Struct.Fields[i]) })
	case *proto.Expression_Literal_List_:
		return k.List != nil && len(k.List.Values) > 0 && zzverif.ForAll(len(k.List.Values), func(i int) bool { return VWfPLit(k.List.Values[i]) })
	case *proto.Expression_Literal_Map_:
		return k.Map != nil && len(k.Map.KeyValues) > 0 && zzverif.ForAll(len(k.Map.KeyValues), func(i int) bool {
			return k.Map.KeyValues[i] != nil && VWfPLit(k.Map.KeyValues[i].Key) && VWfPLit(k.Map.KeyValues[i].Value)
		})
	case *proto.Expression_Literal_EmptyList:
		return k.EmptyList != nil && types.VWfPType(k.EmptyList.Type)
	case *proto.Expression_Literal_EmptyMap:
		return k.EmptyMap != nil && types.VWfPType(k.EmptyMap.Key) && types.VWfPType(k.EmptyMap.Value)
	case *proto.Expression_Literal_UserDefined_:
		if k.UserDefined == nil {
			return false
		}
		_, ok := k.UserDefined.TypeAnchorType.(*proto.Expression_Literal_UserDefined_TypeReference)
		return ok && vUdtValOK(k.UserDefined) &&
			zzverif.ForAll(len(k.UserDefined.TypeParameters), func(i int) bool { return types.VWfPParam(k.UserDefined.TypeParameters[i]) })
	}
	return false
}

func vUdtValOK(u *proto.Expression_Literal_UserDefined) bool {
	switch v := u.Val.(type) {
	case *proto.Expression_Literal_UserDefined_Value:
		return v != nil
	case *proto.Expression_Literal_UserDefined_Struct:
		return v != nil
	}
	return false
}

func vCompoundOK(d *proto.Expression_Literal_IntervalDayToSecond) bool {
	if d == nil {
		return true
	}
	switch m := d.PrecisionMode.(type) {
	case *proto.Expression_Literal_IntervalDayToSecond_Precision:
		return m != nil && types.VPrecOK(m.Precision)
	case *proto.Expression_Literal_IntervalDayToSecond_Microseconds:
		return m != nil && d.Subseconds <= 0
	}
	return false
}

//verif:iface Literal.GetType
//verif:props C06 C11
func SpecLitGetType(l Literal) {
	zzverif.Requires(VTyped(l))
	r := l.GetType()
	zzverif.Ensures("type", r == VLitType(l))
	zzverif.Ensures("complete", types.VConcType(r))
}

//verif:iface Literal.ToProtoLiteral
//verif:props C06
func SpecLitToProto(l Literal) {
	zzverif.Requires(VWfLit(l))
	r := l.ToProtoLiteral()
	zzverif.Ensures("encodes", VEncLit(r, l))
	zzverif.Ensures("complete-message", VWfPLit(r))
}

//verif:contract LiteralFromProto
//verif:split p.LiteralType
//verif:props C06
func SpecLitFromProto(p *proto.Expression_Literal) {
	zzverif.Requires(VWfPLit(p))
	r := LiteralFromProto(p)
	zzverif.Ensures("decodes", r != nil && VEncLit(p, r))
	zzverif.Ensures("well-formed", VTyped(r))
}
