package expr

import (
	"math"

	"github.com/substrait-io/substrait-go/v8/types"
	"github.com/substrait-io/substrait-go/v8/zzverif"
	proto "github.com/substrait-io/substrait-protobuf/go/substraitpb"
	pb "google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/anypb"
)

// Generators of well-formed literals for the replay of contracts.

func vGenNul(g *zzverif.Gen) types.Nullability {
	return zzverif.OneOf(g, types.NullabilityNullable, types.NullabilityRequired)
}

func vGenVar(g *zzverif.Gen) uint32 { return zzverif.OneOf[uint32](g, 0, 0, 1, 7, math.MaxUint32) }

func vGenPrec(g *zzverif.Gen) types.TimePrecision { return types.TimePrecision(g.Intn(10)) }

func vGenBytes(g *zzverif.Gen) []byte { return []byte(zzverif.OneOf(g, "", "a", "\x00\xff", g.Str())) }

func vGenInt(g *zzverif.Gen) int64 {
	return zzverif.OneOf[int64](g, 0, 1, -1, 127, -128, 32767, -32768, math.MaxInt32, math.MinInt32, math.MaxInt64, math.MinInt64, g.Int())
}

func vGenLitType[T types.Type](g *zzverif.Gen) types.Type {
	var t types.Type = zzverif.Make[T](g)
	if zzverif.Same[types.Type](t, *new(T)) {
		panic(zzverif.Skipped{})
	}
	return t.WithNullability(vGenNul(g))
}

//verif:gen
func VGenNullLit(g *zzverif.Gen) *NullLiteral {
	l := &NullLiteral{}
	g.Deeper(func() { l.Type = zzverif.Make[types.Type](g) })
	return l
}

//verif:gen
func VGenBoolLit(g *zzverif.Gen) *PrimitiveLiteral[bool] {
	return &PrimitiveLiteral[bool]{Value: g.Bool(), Type: vGenLitType[*types.BooleanType](g)}
}

//verif:gen
func VGenI8Lit(g *zzverif.Gen) *PrimitiveLiteral[int8] {
	return &PrimitiveLiteral[int8]{Value: int8(vGenInt(g)), Type: vGenLitType[*types.Int8Type](g)}
}

//verif:gen
func VGenI16Lit(g *zzverif.Gen) *PrimitiveLiteral[int16] {
	return &PrimitiveLiteral[int16]{Value: int16(vGenInt(g)), Type: vGenLitType[*types.Int16Type](g)}
}

//verif:gen
func VGenI32Lit(g *zzverif.Gen) *PrimitiveLiteral[int32] {
	return &PrimitiveLiteral[int32]{Value: int32(vGenInt(g)), Type: vGenLitType[*types.Int32Type](g)}
}

//verif:gen
func VGenI64Lit(g *zzverif.Gen) *PrimitiveLiteral[int64] {
	return &PrimitiveLiteral[int64]{Value: vGenInt(g), Type: vGenLitType[*types.Int64Type](g)}
}

//verif:gen
func VGenF32Lit(g *zzverif.Gen) *PrimitiveLiteral[float32] {
	v := zzverif.OneOf(g, 0, float32(math.Copysign(0, -1)), 1.5, -math.MaxFloat32, float32(math.Inf(1)), math.SmallestNonzeroFloat32, math.Float32frombits(0x7fc00001), float32(g.Int()))
	return &PrimitiveLiteral[float32]{Value: v, Type: vGenLitType[*types.Float32Type](g)}
}

//verif:gen
func VGenF64Lit(g *zzverif.Gen) *PrimitiveLiteral[float64] {
	v := zzverif.OneOf(g, 0, math.Copysign(0, -1), 0.1, -math.MaxFloat64, math.Inf(-1), math.SmallestNonzeroFloat64, math.NaN(), float64(g.Int()))
	return &PrimitiveLiteral[float64]{Value: v, Type: vGenLitType[*types.Float64Type](g)}
}

//verif:gen
func VGenStrLit(g *zzverif.Gen) *PrimitiveLiteral[string] {
	return &PrimitiveLiteral[string]{Value: g.Str(), Type: vGenLitType[*types.StringType](g)}
}

//verif:gen
func VGenTsLit(g *zzverif.Gen) *PrimitiveLiteral[types.Timestamp] {
	return &PrimitiveLiteral[types.Timestamp]{Value: types.Timestamp(vGenInt(g)), Type: vGenLitType[*types.TimestampType](g)}
}

//verif:gen
func VGenTstzLit(g *zzverif.Gen) *PrimitiveLiteral[types.TimestampTz] {
	return &PrimitiveLiteral[types.TimestampTz]{Value: types.TimestampTz(vGenInt(g)), Type: vGenLitType[*types.TimestampTzType](g)}
}

//verif:gen
func VGenDateLit(g *zzverif.Gen) *PrimitiveLiteral[types.Date] {
	return &PrimitiveLiteral[types.Date]{Value: types.Date(vGenInt(g)), Type: vGenLitType[*types.DateType](g)}
}

//verif:gen
func VGenTimeLit(g *zzverif.Gen) *PrimitiveLiteral[types.Time] {
	return &PrimitiveLiteral[types.Time]{Value: types.Time(vGenInt(g)), Type: vGenLitType[*types.TimeType](g)}
}

//verif:gen
func VGenFixCharLit(g *zzverif.Gen) *PrimitiveLiteral[types.FixedChar] {
	v := g.Str()
	return &PrimitiveLiteral[types.FixedChar]{Value: types.FixedChar(v), Type: &types.FixedCharType{Nullability: vGenNul(g), TypeVariationRef: vGenVar(g), Length: int32(len(v))}}
}

//verif:gen
func VGenBinLit(g *zzverif.Gen) *ByteSliceLiteral[[]byte] {
	return &ByteSliceLiteral[[]byte]{Value: vGenBytes(g), Type: vGenLitType[*types.BinaryType](g)}
}

//verif:gen
func VGenUUIDLit(g *zzverif.Gen) *ByteSliceLiteral[types.UUID] {
	return &ByteSliceLiteral[types.UUID]{Value: types.UUID(vGenBytes(g)), Type: vGenLitType[*types.UUIDType](g)}
}

//verif:gen
func VGenFixBinLit(g *zzverif.Gen) *ByteSliceLiteral[types.FixedBinary] {
	v := vGenBytes(g)
	return &ByteSliceLiteral[types.FixedBinary]{Value: types.FixedBinary(v), Type: &types.FixedBinaryType{Nullability: vGenNul(g), TypeVariationRef: vGenVar(g), Length: int32(len(v))}}
}

func vGenDS(g *zzverif.Gen, p types.TimePrecision) *proto.Expression_Literal_IntervalDayToSecond {
	d := &proto.Expression_Literal_IntervalDayToSecond{Days: int32(vGenInt(g)), Seconds: int32(vGenInt(g)), Subseconds: vGenInt(g)}
	switch {
	case p == 6 && g.Bool():
		d.Subseconds = 0
		d.PrecisionMode = &proto.Expression_Literal_IntervalDayToSecond_Microseconds{Microseconds: int32(vGenInt(g))}
	default:
		d.PrecisionMode = &proto.Expression_Literal_IntervalDayToSecond_Precision{Precision: int32(p)}
	}
	return d
}

//verif:gen
func VGenProtoLit(g *zzverif.Gen) *ProtoLiteral {
	n, v := vGenNul(g), vGenVar(g)
	switch g.Intn(7) {
	case 0:
		s := g.Str()
		return &ProtoLiteral{Value: s, Type: &types.VarCharType{Nullability: n, TypeVariationRef: v, Length: int32(len(s) + g.Intn(3))}}
	case 1:
		b := []byte("0123456789abcdef")
		b[0], b[15] = byte(g.Int()), byte(g.Int())
		return &ProtoLiteral{Value: b, Type: &types.DecimalType{Nullability: n, TypeVariationRef: v, Precision: int32(g.Intn(39)), Scale: int32(g.Intn(20))}}
	case 2:
		return &ProtoLiteral{Value: vGenInt(g) & math.MaxInt64, Type: &types.PrecisionTimeType{Nullability: n, TypeVariationRef: v, Precision: vGenPrec(g)}}
	case 3:
		return &ProtoLiteral{Value: vGenInt(g), Type: &types.PrecisionTimestampType{Nullability: n, TypeVariationRef: v, Precision: vGenPrec(g)}}
	case 4:
		return &ProtoLiteral{Value: vGenInt(g), Type: &types.PrecisionTimestampTzType{PrecisionTimestampType: types.PrecisionTimestampType{Nullability: n, TypeVariationRef: v, Precision: vGenPrec(g)}}}
	case 5:
		p := vGenPrec(g)
		return &ProtoLiteral{Value: vGenDS(g, p), Type: &types.IntervalDayType{Nullability: n, TypeVariationRef: v, Precision: p}}
	}
	t := &types.UserDefinedType{Nullability: n, TypeVariationRef: v, TypeReference: uint32(g.Intn(5))}
	g.Deeper(func() {
		for i := g.Intn(3); i > 0; i-- {
			t.TypeParameters = append(t.TypeParameters, zzverif.Make[types.TypeParam](g))
		}
	})
	l := &ProtoLiteral{Type: t}
	if g.Bool() {
		s := &proto.Expression_Literal_Struct{}
		for i := g.Intn(3); i > 0; i-- {
			s.Fields = append(s.Fields, &proto.Expression_Literal{LiteralType: &proto.Expression_Literal_I64{I64: vGenInt(g)}})
		}
		l.Value = &proto.Expression_Literal_UserDefined_Struct{Struct: s}
	} else {
		l.Value = &proto.Expression_Literal_UserDefined_Value{Value: &anypb.Any{TypeUrl: zzverif.OneOf(g, "", "a", "b"), Value: vGenBytes(g)}}
	}
	return l
}

//verif:gen
func VGenCompoundLit(g *zzverif.Gen) IntervalCompoundLiteral {
	i := func() int64 {
		if g.Chance(1, 2) {
			return 0
		}
		return vGenInt(g)
	}
	return IntervalCompoundLiteral{Years: int32(i()), Months: int32(i()), Days: int32(i()), Seconds: int32(i()), SubSeconds: i(), SubSecondPrecision: vGenPrec(g), Nullability: vGenNul(g)}
}

//verif:gen
func VGenStructLit(g *zzverif.Gen) *NestedLiteral[StructLiteralValue] {
	t := &types.StructType{Nullability: vGenNul(g), TypeVariationRef: vGenVar(g)}
	l := &NestedLiteral[StructLiteralValue]{Type: t}
	for i := g.Intn(4); i > 0; i-- {
		e := vGenElem(g)
		if e == nil {
			break
		}
		l.Value = append(l.Value, e)
		t.Types = append(t.Types, VLitType(e))
	}
	return l
}

func vGenElem(g *zzverif.Gen) (l Literal) {
	if g.Depth() <= 0 {
		return VGenI32Lit(g)
	}
	for i := 0; i < 20 && !VWfLit(l); i++ {
		g.Deeper(func() { l = zzverif.Make[Literal](g) })
	}
	if !VWfLit(l) {
		l = VGenI64Lit(g)
	}
	return l
}

// vGenLike makes a literal of the same type.
func vGenLike(g *zzverif.Gen, l Literal) Literal {
	switch l := zzverif.Clone(l).(type) {
	case *PrimitiveLiteral[bool]:
		l.Value = !l.Value
		return l
	case *PrimitiveLiteral[int32]:
		l.Value = int32(vGenInt(g))
		return l
	case *PrimitiveLiteral[int64]:
		l.Value = vGenInt(g)
		return l
	case *PrimitiveLiteral[string]:
		l.Value = g.Str()
		return l
	case *NestedLiteral[StructLiteralValue]:
		for i := range l.Value {
			l.Value[i] = vGenLike(g, l.Value[i])
		}
		return l
	case *NestedLiteral[ListLiteralValue]:
		if len(l.Value) > 0 {
			l.Value = append(l.Value, vGenLike(g, l.Value[0]))
		}
		return l
	}
	return zzverif.Clone(l)
}

//verif:gen
func VGenListLit(g *zzverif.Gen) *NestedLiteral[ListLiteralValue] {
	t := &types.ListType{Nullability: vGenNul(g), TypeVariationRef: vGenVar(g)}
	l := &NestedLiteral[ListLiteralValue]{Type: t}
	n := g.Intn(4)
	if n == 0 {
		g.Deeper(func() { t.Type = zzverif.Make[types.Type](g) })
		return l
	}
	e := vGenElem(g)
	t.Type = VLitType(e)
	for ; n > 0; n-- {
		l.Value = append(l.Value, e)
		e = vGenLike(g, e)
	}
	return l
}

//verif:gen
func VGenMapLit(g *zzverif.Gen) *MapLiteral {
	t := &types.MapType{Nullability: vGenNul(g), TypeVariationRef: vGenVar(g)}
	l := &MapLiteral{Type: t}
	n := g.Intn(3)
	if n == 0 {
		g.Deeper(func() { t.Key, t.Value = zzverif.Make[types.Type](g), zzverif.Make[types.Type](g) })
		return l
	}
	k, v := vGenElem(g), vGenElem(g)
	t.Key, t.Value = VLitType(k), VLitType(v)
	for ; n > 0; n-- {
		l.Value = append(l.Value, struct{ Key, Value Literal }{k, v})
		k, v = vGenLike(g, k), vGenLike(g, v)
	}
	return l
}

// VGenPLit makes the message of a literal, then changes it in one place.
//
//verif:gen
func VGenPLit(g *zzverif.Gen) *proto.Expression_Literal {
	var l Literal
	for i := 0; i < 20 && !VWfLit(l); i++ {
		l = zzverif.Make[Literal](g)
	}
	if !VWfLit(l) {
		return nil
	}
	p := l.ToProtoLiteral()
	switch g.Intn(6) {
	case 0:
		p.Nullable = !p.Nullable
	case 1:
		p.TypeVariationReference = vGenVar(g)
	case 2:
		p = &proto.Expression_Literal{Nullable: g.Bool(), TypeVariationReference: vGenVar(g), LiteralType: &proto.Expression_Literal_IntervalCompound_{IntervalCompound: &proto.Expression_Literal_IntervalCompound{}}}
		k := p.GetIntervalCompound()
		if g.Bool() {
			k.IntervalYearToMonth = &proto.Expression_Literal_IntervalYearToMonth{Years: int32(vGenInt(g)), Months: int32(vGenInt(g))}
		}
		if g.Bool() {
			k.IntervalDayToSecond = vGenDS(g, vGenPrec(g))
		}
	}
	return p
}

// SpecLitWire: the same through the bytes of the message.
//
//verif:bounded
//verif:weight 3
//verif:split l
//verif:props C06
func SpecLitWire(l Literal) {
	zzverif.Requires(VWfLit(l))
	b, err := pb.Marshal(l.ToProtoLiteral())
	if err != nil { // strings that are not UTF-8
		return
	}
	var p proto.Expression_Literal
	zzverif.Ensures("readable", pb.Unmarshal(b, &p) == nil)
	m := LiteralFromProto(&p)
	zzverif.Ensures("equal", VNaN(l) || l.Equals(m) && m.Equals(l))
	zzverif.Ensures("equal-type", VLitType(l).Equals(m.GetType()) && m.GetType().Equals(VLitType(l)))
}

// SpecLitEqualsMsg: the literals whose values are messages.
//
//verif:bounded
//verif:props C06 C09
func SpecLitEqualsMsg(l, m *ProtoLiteral) {
	zzverif.Requires(VWfLit(l) && VWfLit(m))
	r := l.Equals(m)
	zzverif.Ensures("equal", !VEqLit(l, m) || r)
	if v, ok := l.Value.(*proto.Expression_Literal_IntervalDayToSecond); ok {
		w, ok := m.Value.(*proto.Expression_Literal_IntervalDayToSecond)
		zzverif.Ensures("different", ok && vDS(v, w) || !r)
	}
}

//verif:inputs SpecLitEqualsMsg
func VGenTwoProto(g *zzverif.Gen) (l, m *ProtoLiteral) {
	l, m = VGenProtoLit(g), VGenProtoLit(g)
	if g.Chance(2, 3) {
		m = zzverif.Clone(l)
		if d, ok := m.Value.(*proto.Expression_Literal_IntervalDayToSecond); ok && g.Bool() {
			switch g.Intn(3) {
			case 0:
				d.Days++
			case 1:
				d.Seconds++
			case 2:
				d.Subseconds++
			}
		}
	}
	return l, m
}

// SpecFindingYearMonthProto records a known defect: a literal of the type
// interval_year held as a message comes back as another kind (K02).
//
//verif:finding K02
//verif:props C06
func SpecFindingYearMonthProto() {
	l := &ProtoLiteral{Value: &proto.Expression_Literal_IntervalYearToMonth{Years: 1, Months: 2}, Type: &types.IntervalYearType{Nullability: types.NullabilityRequired}}
	zzverif.Ensures("round-trip", l.Equals(LiteralFromProto(l.ToProtoLiteral())))
}
