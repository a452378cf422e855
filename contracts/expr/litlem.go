package expr

import (
	"math"

	"github.com/substrait-io/substrait-go/v8/types"
	"github.com/substrait-io/substrait-go/v8/zzverif"
	proto "github.com/substrait-io/substrait-protobuf/go/substraitpb"
)

// VEqLit: the same kind of literal, with equal types and values.
//
//verif:logic
func VEqLit(l, m Literal) bool {
	switch l := l.(type) {
	case *NullLiteral:
		m, ok := m.(*NullLiteral)
		return ok && types.VEqType(l.Type, m.Type)
	case *PrimitiveLiteral[bool]:
		m, ok := m.(*PrimitiveLiteral[bool])
		return ok && types.VEqType(l.Type, m.Type) && l.Value == m.Value
	case *PrimitiveLiteral[int8]:
		m, ok := m.(*PrimitiveLiteral[int8])
		return ok && types.VEqType(l.Type, m.Type) && l.Value == m.Value
	case *PrimitiveLiteral[int16]:
		m, ok := m.(*PrimitiveLiteral[int16])
		return ok && types.VEqType(l.Type, m.Type) && l.Value == m.Value
	case *PrimitiveLiteral[int32]:
		m, ok := m.(*PrimitiveLiteral[int32])
		return ok && types.VEqType(l.Type, m.Type) && l.Value == m.Value
	case *PrimitiveLiteral[int64]:
		m, ok := m.(*PrimitiveLiteral[int64])
		return ok && types.VEqType(l.Type, m.Type) && l.Value == m.Value
	case *PrimitiveLiteral[string]:
		m, ok := m.(*PrimitiveLiteral[string])
		return ok && types.VEqType(l.Type, m.Type) && l.Value == m.Value
	case *PrimitiveLiteral[types.Timestamp]:
		m, ok := m.(*PrimitiveLiteral[types.Timestamp])
		return ok && types.VEqType(l.Type, m.Type) && l.Value == m.Value
	case *PrimitiveLiteral[types.TimestampTz]:
		m, ok := m.(*PrimitiveLiteral[types.TimestampTz])
		return ok && types.VEqType(l.Type, m.Type) && l.Value == m.Value
	case *PrimitiveLiteral[types.Date]:
		m, ok := m.(*PrimitiveLiteral[types.Date])
		return ok && types.VEqType(l.Type, m.Type) && l.Value == m.Value
	case *PrimitiveLiteral[types.Time]:
		m, ok := m.(*PrimitiveLiteral[types.Time])
		return ok && types.VEqType(l.Type, m.Type) && l.Value == m.Value
	case *PrimitiveLiteral[types.FixedChar]:
		m, ok := m.(*PrimitiveLiteral[types.FixedChar])
		return ok && types.VEqType(l.Type, m.Type) && l.Value == m.Value
	case *PrimitiveLiteral[float32]:
		m, ok := m.(*PrimitiveLiteral[float32])
		return ok && types.VEqType(l.Type, m.Type) && math.Float32bits(l.Value) == math.Float32bits(m.Value)
	case *PrimitiveLiteral[float64]:
		m, ok := m.(*PrimitiveLiteral[float64])
		return ok && types.VEqType(l.Type, m.Type) && math.Float64bits(l.Value) == math.Float64bits(m.Value)
	case *ByteSliceLiteral[[]byte]:
		m, ok := m.(*ByteSliceLiteral[[]byte])
		return ok && types.VEqType(l.Type, m.Type) && vSameBytes(l.Value, m.Value)
	case *ByteSliceLiteral[types.UUID]:
		m, ok := m.(*ByteSliceLiteral[types.UUID])
		return ok && types.VEqType(l.Type, m.Type) && vSameBytes(l.Value, m.Value)
	case *ByteSliceLiteral[types.FixedBinary]:
		m, ok := m.(*ByteSliceLiteral[types.FixedBinary])
		return ok && types.VEqType(l.Type, m.Type) && vSameBytes(l.Value, m.Value)
	case *NestedLiteral[StructLiteralValue]:
		m, ok := m.(*NestedLiteral[StructLiteralValue])
		return ok && types.VEqType(l.Type, m.Type) && len(l.Value) == len(m.Value) && zzverif.ForAll(len(l.Value), func(i int) bool { return VEqLit(l.Value[i], m.Value[i]) })
	case *NestedLiteral[ListLiteralValue]:
		m, ok := m.(*NestedLiteral[ListLiteralValue])
		return ok && types.VEqType(l.Type, m.Type) && len(l.Value) == len(m.Value) && zzverif.ForAll(len(l.Value), func(i int) bool { return VEqLit(l.Value[i], m.Value[i]) })
	case *MapLiteral:
		m, ok := m.(*MapLiteral)
		return ok && types.VEqType(l.Type, m.Type) && len(l.Value) == len(m.Value) && zzverif.ForAll(len(l.Value), func(i int) bool {
			return VEqLit(l.Value[i].Key, m.Value[i].Key) && VEqLit(l.Value[i].Value, m.Value[i].Value)
		})
	case *ProtoLiteral:
		m, ok := m.(*ProtoLiteral)
		return ok && types.VEqType(l.Type, m.Type) && VEqVal(l.Value, m.Value)
	case IntervalYearToMonthLiteral:
		m, ok := m.(IntervalYearToMonthLiteral)
		return ok && l == m
	case IntervalCompoundLiteral:
		m, ok := m.(IntervalCompoundLiteral)
		return ok && l == m
	}
	return false
}

// VEqVal: equal values of literals held as messages.
func VEqVal(l, m any) bool {
	switch v := l.(type) {
	case string:
		w, ok := m.(string)
		return ok && v == w
	case int64:
		w, ok := m.(int64)
		return ok && v == w
	case []byte:
		w, ok := m.([]byte)
		return ok && (v == nil) == (w == nil) && vSameBytes(v, w)
	case *proto.Expression_Literal_IntervalYearToMonth:
		w, ok := m.(*proto.Expression_Literal_IntervalYearToMonth)
		return ok && vYM(v, w)
	case *proto.Expression_Literal_IntervalDayToSecond:
		w, ok := m.(*proto.Expression_Literal_IntervalDayToSecond)
		return ok && vDS(v, w)
	case *proto.Expression_Literal_UserDefined_Value:
		w, ok := m.(*proto.Expression_Literal_UserDefined_Value)
		return ok && v.Value == w.Value
	case *proto.Expression_Literal_UserDefined_Struct:
		w, ok := m.(*proto.Expression_Literal_UserDefined_Struct)
		return ok && v.Struct == w.Struct
	}
	return false
}

// VLemLitUnique: a message encodes at most one literal, up to VEqLit.
func VLemLitUnique(p *proto.Expression_Literal, l, m Literal) {
	switch l := l.(type) {
	case *NullLiteral:
		types.VLemEncUnique(p.LiteralType.(*proto.Expression_Literal_Null).Null, l.Type, m.(*NullLiteral).Type)
	case *NestedLiteral[StructLiteralValue]:
		k := p.LiteralType.(*proto.Expression_Literal_Struct_)
		o := m.(*NestedLiteral[StructLiteralValue])
		t := l.Type.(*types.StructType)
		u := o.Type.(*types.StructType)
		for i := range l.Value {
			VLemLitUnique(k.Struct.Fields[i], l.Value[i], o.Value[i])
			VLemTypes(l.Value[i], o.Value[i], t.Types[i], u.Types[i])
		}
	case *NestedLiteral[ListLiteralValue]:
		o := m.(*NestedLiteral[ListLiteralValue])
		t := l.Type.(*types.ListType)
		u := o.Type.(*types.ListType)
		if len(l.Value) == 0 {
			types.VLemEncUnique(p.LiteralType.(*proto.Expression_Literal_EmptyList).EmptyList.Type, t.Type, u.Type)
			return
		}
		k := p.LiteralType.(*proto.Expression_Literal_List_)
		for i := range l.Value {
			VLemLitUnique(k.List.Values[i], l.Value[i], o.Value[i])
		}
		VLemTypes(l.Value[0], o.Value[0], t.Type, u.Type)
	case *MapLiteral:
		o := m.(*MapLiteral)
		t := l.Type.(*types.MapType)
		u := o.Type.(*types.MapType)
		if len(l.Value) == 0 {
			k := p.LiteralType.(*proto.Expression_Literal_EmptyMap)
			types.VLemEncUnique(k.EmptyMap.Key, t.Key, u.Key)
			types.VLemEncUnique(k.EmptyMap.Value, t.Value, u.Value)
			return
		}
		k := p.LiteralType.(*proto.Expression_Literal_Map_)
		for i := range l.Value {
			VLemLitUnique(k.Map.KeyValues[i].Key, l.Value[i].Key, o.Value[i].Key)
			VLemLitUnique(k.Map.KeyValues[i].Value, l.Value[i].Value, o.Value[i].Value)
		}
		VLemTypes(l.Value[0].Key, o.Value[0].Key, t.Key, u.Key)
		VLemTypes(l.Value[0].Value, o.Value[0].Value, t.Value, u.Value)
	case *ByteSliceLiteral[[]byte]:
		vSameKind(l.Type.(*types.BinaryType), m.(*ByteSliceLiteral[[]byte]).Type.(*types.BinaryType))
	case *ByteSliceLiteral[types.UUID]:
		vSameKind(l.Type.(*types.UUIDType), m.(*ByteSliceLiteral[types.UUID]).Type.(*types.UUIDType))
	case *ByteSliceLiteral[types.FixedBinary]:
		vSameKind(l.Type.(*types.FixedBinaryType), m.(*ByteSliceLiteral[types.FixedBinary]).Type.(*types.FixedBinaryType))
	case *ProtoLiteral:
		vLemProtoUnique(p, l, m.(*ProtoLiteral))
	}
}

func vLemProtoUnique(p *proto.Expression_Literal, l, m *ProtoLiteral) {
	if t, ok := l.Type.(*types.UserDefinedType); ok {
		u := m.Type.(*types.UserDefinedType)
		k := p.LiteralType.(*proto.Expression_Literal_UserDefined_)
		for i := range t.TypeParameters {
			types.VLemParamUnique(k.UserDefined.TypeParameters[i], t.TypeParameters[i], u.TypeParameters[i])
		}
	}
}

//verif:contract vLemProtoUnique
//verif:split l.Type m.Type
//verif:props C06
func SpecLemProtoUnique(p *proto.Expression_Literal, l, m *ProtoLiteral) {
	zzverif.Requires(VEncLit(p, l))
	zzverif.Requires(VEncLit(p, m))
	zzverif.Split(l.Value)
	zzverif.Split(m.Value)
	vLemProtoUnique(p, l, m)
	zzverif.Ensures("equal", VEqLit(l, m))
}

// vSameKind notes the concrete types of two values.
func vSameKind[T types.Type](a, b T) {}

// VLemTypes: equal literals have equal types, however these are given.
func VLemTypes(l, m Literal, t, u types.Type) {
	a, b := VLitType(l), VLitType(m)
	types.VLemEqSym(a, b)
	if t != a {
		types.VLemEqSym(a, t)
		types.VLemEqTrans(t, a, b)
	}
	if u != b {
		types.VLemEqTrans(t, b, u)
	}
}

//verif:contract VLemTypes
//verif:split l m
//verif:props C06
func SpecLemTypes(l, m Literal, t, u types.Type) {
	zzverif.Requires(VHasType(l, t))
	zzverif.Requires(VHasType(m, u))
	zzverif.Requires(VEqLit(l, m))
	VLemTypes(l, m, t, u)
	zzverif.Ensures("equal", types.VEqType(t, u))
}

//verif:contract VLemLitUnique
//verif:split l m
//verif:props C06
func SpecLemLitUnique(p *proto.Expression_Literal, l, m Literal) {
	zzverif.Requires(VEncLit(p, l))
	zzverif.Requires(VEncLit(p, m))
	VLemLitUnique(p, l, m)
	zzverif.Ensures("equal", VEqLit(l, m))
}

// vLemSym: equality of types does not depend on the order.
func vLemSym(t, u types.Type) {
	if types.VEqType(t, u) {
		types.VLemEqSym(t, u)
	}
	if types.VEqType(u, t) {
		types.VLemEqSym(u, t)
	}
}

//verif:contract vLemSym
//verif:props C06
func SpecLemSym(t, u types.Type) {
	vLemSym(t, u)
	zzverif.Ensures("symmetric", types.VEqType(t, u) == types.VEqType(u, t))
}

//verif:iface Literal.Equals
//verif:split m
//verif:props C06 C09
func SpecLitEquals(l Literal, m Literal) {
	zzverif.Requires(VTyped(l))
	zzverif.Requires(m == nil || VTyped(m))
	if n, ok := l.(*NullLiteral); ok {
		if o, ok := m.(*NullLiteral); ok {
			vLemSym(n.Type, o.Type)
		}
	}
	r := l.Equals(m)
	zzverif.Ensures("equal", !VEqLit(l, m) || VNaN(l) || VMsg(l) || r)
	zzverif.Ensures("different", VEqLit(l, m) || VLoose(l) || VMsg(l) || !r)
}

// VNaN: the literal holds a NaN, which Go does not compare equal to itself.
//
//verif:logic
func VNaN(l Literal) bool {
	switch l := l.(type) {
	case *PrimitiveLiteral[float32]:
		return l.Value != l.Value
	case *PrimitiveLiteral[float64]:
		return l.Value != l.Value
	case *NestedLiteral[StructLiteralValue]:
		return zzverif.Exists(len(l.Value), func(i int) bool { return VNaN(l.Value[i]) })
	case *NestedLiteral[ListLiteralValue]:
		return zzverif.Exists(len(l.Value), func(i int) bool { return VNaN(l.Value[i]) })
	case *MapLiteral:
		return zzverif.Exists(len(l.Value), func(i int) bool { return VNaN(l.Value[i].Key) || VNaN(l.Value[i].Value) })
	}
	return false
}

// VLoose: the literal holds a float zero (0 == -0).
//
//verif:logic
func VLoose(l Literal) bool {
	switch l := l.(type) {
	case *PrimitiveLiteral[float32]:
		return l.Value == 0
	case *PrimitiveLiteral[float64]:
		return l.Value == 0
	case *NestedLiteral[StructLiteralValue]:
		return zzverif.Exists(len(l.Value), func(i int) bool { return VLoose(l.Value[i]) })
	case *NestedLiteral[ListLiteralValue]:
		return zzverif.Exists(len(l.Value), func(i int) bool { return VLoose(l.Value[i]) })
	case *MapLiteral:
		return zzverif.Exists(len(l.Value), func(i int) bool { return VLoose(l.Value[i].Key) || VLoose(l.Value[i].Value) })
	}
	return false
}

// VMsg: the literal holds a message, compared by the protobuf library.
//
//verif:logic
func VMsg(l Literal) bool {
	switch l := l.(type) {
	case *NestedLiteral[StructLiteralValue]:
		return zzverif.Exists(len(l.Value), func(i int) bool { return VMsg(l.Value[i]) })
	case *NestedLiteral[ListLiteralValue]:
		return zzverif.Exists(len(l.Value), func(i int) bool { return VMsg(l.Value[i]) })
	case *MapLiteral:
		return zzverif.Exists(len(l.Value), func(i int) bool { return VMsg(l.Value[i].Key) || VMsg(l.Value[i].Value) })
	case *ProtoLiteral:
		return VMsgVal(l.Value)
	}
	return false
}

// VMsgVal: a value that is not a plain one.
func VMsgVal(v any) bool {
	switch v.(type) {
	case string, int64, []byte:
		return false
	}
	return true
}

//verif:contract equalProtoValues
//verif:split lhs rhs
//verif:props C06 C09
func SpecEqualProtoValues(lhs, rhs any) {
	r := equalProtoValues(lhs, rhs)
	zzverif.Ensures("same-value", VMsgVal(lhs) || r == VEqVal(lhs, rhs))
}

// SpecLitRoundTrip is the property itself.
//
//verif:spec
//verif:props C06
func SpecLitRoundTrip(l Literal) {
	zzverif.Requires(VWfLit(l))
	p := l.ToProtoLiteral()
	m := LiteralFromProto(p)
	VLemLitUnique(p, l, m)
	zzverif.Ensures("equal-value-and-type", VEqLit(l, m))
}
