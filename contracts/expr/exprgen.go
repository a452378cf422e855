package expr

import (
	"sync"

	"github.com/substrait-io/substrait-go/v8/extensions"
	"github.com/substrait-io/substrait-go/v8/types"
	"github.com/substrait-io/substrait-go/v8/zzverif"
	proto "github.com/substrait-io/substrait-protobuf/go/substraitpb"
	pb "google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/anypb"
)

// Generators of well-formed expressions for the replay of contracts.

// VFuncs: the identities used for generated function calls; the last three are
// declared in the default collection.
func VFuncs() []extensions.FunctionID {
	return []extensions.FunctionID{
		{URN: "u1", Name: "f"}, {URN: "u1", Name: "g:i32"}, {URN: "u2", Name: "f"}, {URN: "u2", Name: "h:str_dec"},
		{URN: "extension:io.substrait:functions_arithmetic", Name: "add:i32_i32"},
		{URN: "extension:io.substrait:functions_comparison", Name: "equal:any_any"},
		{URN: "extension:io.substrait:functions_arithmetic", Name: "row_number:"},
	}
}

var vRegOnce sync.Once
var vReg ExtensionRegistry

// VReg: a registry in which every function of VFuncs has an anchor.
func VReg() ExtensionRegistry {
	vRegOnce.Do(func() {
		vReg = NewExtensionRegistry(extensions.NewSet(), extensions.GetDefaultCollectionWithNoError())
		for _, id := range VFuncs() {
			vReg.GetFuncAnchor(id)
		}
	})
	return vReg
}

func vRegP() *ExtensionRegistry {
	r := VReg()
	return &r
}

// VSchema: the base schema of generated field references.
func VSchema() *types.RecordType {
	r, n := types.NullabilityRequired, types.NullabilityNullable
	in := &types.StructType{Nullability: n, Types: []types.Type{&types.Int64Type{Nullability: r}, &types.ListType{Nullability: n, Type: &types.StringType{Nullability: n}}}}
	return types.NewRecordTypeFromTypes([]types.Type{
		&types.Int32Type{Nullability: r}, &types.StringType{Nullability: n}, &types.BooleanType{Nullability: r},
		in, &types.MapType{Nullability: r, Key: &types.StringType{Nullability: r}, Value: in},
		&types.ListType{Nullability: r, Type: in}, &types.DecimalType{Nullability: n, Precision: 20, Scale: 3},
	})
}

// VWalk draws a path into t and the type it addresses.
func VWalk(g *zzverif.Gen, t types.Type, must bool) (ReferenceSegment, types.Type) {
	if !must && g.Bool() {
		return nil, t
	}
	switch x := t.(type) {
	case *types.StructType:
		if len(x.Types) == 0 {
			return nil, t
		}
		k := g.Intn(len(x.Types))
		c, u := VWalk(g, x.Types[k], false)
		return &StructFieldRef{Field: int32(k), Child: c}, u
	case *types.ListType:
		c, u := VWalk(g, x.Type, false)
		return &ListElementRef{Offset: int32(g.Intn(3)), Child: c}, u
	case *types.MapType:
		c, u := VWalk(g, x.Value, false)
		return &MapKeyRef{MapKey: NewPrimitiveLiteral(g.Str(), x.Key.GetNullability() == types.NullabilityNullable), Child: c}, u
	}
	return nil, t
}

// VChild draws an expression.
func VChild(g *zzverif.Gen) Expression {
	var e Expression
	if g.Depth() <= 0 || g.Chance(1, 3) {
		switch g.Intn(4) {
		case 0:
			return VGenColumn(g, VSchema())
		case 1:
			return &DynamicParameter{OutputType: vGenLitType[*types.Int32Type](g), ParameterReference: uint32(g.Intn(3))}
		}
		return NewPrimitiveLiteral(int32(g.Intn(3)), g.Bool())
	}
	g.Deeper(func() {
		for e == nil {
			e = zzverif.Make[Expression](g)
		}
	})
	return e
}

// VExprOver draws an expression over rows of schema s.
func VExprOver(g *zzverif.Gen, s *types.RecordType, depth int) Expression {
	k := g.Intn(8)
	if k >= 4 && depth <= 0 {
		k = 0
	}
	switch {
	case k < 3 && len(s.Types()) > 0:
		return VGenColumn(g, s)
	case k == 4:
		return &Cast{Type: vGenLitType[*types.Int64Type](g), Input: VExprOver(g, s, depth-1), FailureBehavior: types.CastFailBehavior(g.Intn(3))}
	case k == 5:
		f := VGenScalarFn(g)
		f.args, f.outputType = nil, vGenLitType[*types.Int32Type](g)
		for i := g.Intn(3); i > 0; i-- {
			f.args = append(f.args, VExprOver(g, s, depth-1))
		}
		return f
	case k == 6:
		return &IfThen{elseClause: VExprOver(g, s, depth-1), ifs: []IfThenPair{{If: VBoolOver(g, s), Then: VExprOver(g, s, depth-1)}}}
	case k == 7:
		return &DynamicParameter{OutputType: vGenLitType[*types.Int32Type](g), ParameterReference: uint32(g.Intn(3))}
	}
	return NewPrimitiveLiteral(int32(g.Intn(3)), g.Bool())
}

// VBoolOver draws a condition over rows of schema s.
func VBoolOver(g *zzverif.Gen, s *types.RecordType) Expression {
	for i, t := range s.Types() {
		if _, ok := t.(*types.BooleanType); ok && g.Bool() {
			return &FieldReference{Root: RootReference, Reference: &StructFieldRef{Field: int32(i)}, knownType: t}
		}
	}
	if g.Bool() {
		f := VGenScalarFn(g)
		f.args, f.outputType = []types.FuncArg{VExprOver(g, s, 0), VExprOver(g, s, 0)}, vGenLitType[*types.BooleanType](g)
		return f
	}
	return NewPrimitiveLiteral(g.Bool(), g.Bool())
}

// VAggOver draws a measure over rows of schema s.
func VAggOver(g *zzverif.Gen, s *types.RecordType) *AggregateFunction {
	a := VGenAggFn(g)
	a.outputType = vGenLitType[*types.Int64Type](g)
	for i := range a.args {
		if _, ok := a.args[i].(Expression); ok {
			a.args[i] = VExprOver(g, s, 1)
		} else if _, ok := a.args[i].(types.Type); ok {
			a.args[i] = vGenLitType[*types.Int64Type](g)
		}
	}
	for i := range a.Sorts {
		a.Sorts[i].Expr = VExprOver(g, s, 1)
	}
	return a
}

func vLit(g *zzverif.Gen) Literal {
	if g.Bool() {
		return NewPrimitiveLiteral(g.Str(), g.Bool())
	}
	var l Literal
	for l == nil {
		g.Deeper(func() { l = zzverif.Make[Literal](g) })
	}
	return l
}

func vChildren(g *zzverif.Gen, least int) []Expression {
	n := least + g.Intn(3)
	es := make([]Expression, n)
	for i := range es {
		es[i] = VChild(g)
	}
	return es
}

// VGenColumn: a reference to a component of a row of schema s.
func VGenColumn(g *zzverif.Gen, s *types.RecordType) *FieldReference {
	p, t := VWalk(g, s.AsStructType(), true)
	return &FieldReference{Reference: p, knownType: t}
}

func vGenSelect(g *zzverif.Gen, depth int) *proto.Expression_MaskExpression_Select {
	if depth <= 0 || g.Chance(1, 3) {
		return &proto.Expression_MaskExpression_Select{Type: &proto.Expression_MaskExpression_Select_Struct{Struct: vGenMaskStruct(g, depth-1)}}
	}
	if g.Bool() {
		l := &proto.Expression_MaskExpression_ListSelect{Child: vGenSelect(g, depth-1)}
		for i := g.Intn(3); i >= 0; i-- {
			if g.Bool() {
				l.Selection = append(l.Selection, &proto.Expression_MaskExpression_ListSelect_ListSelectItem{Type: &proto.Expression_MaskExpression_ListSelect_ListSelectItem_Item{
					Item: &proto.Expression_MaskExpression_ListSelect_ListSelectItem_ListElement{Field: int32(g.Intn(4))}}})
			} else {
				l.Selection = append(l.Selection, &proto.Expression_MaskExpression_ListSelect_ListSelectItem{Type: &proto.Expression_MaskExpression_ListSelect_ListSelectItem_Slice{
					Slice: &proto.Expression_MaskExpression_ListSelect_ListSelectItem_ListSlice{Start: int32(g.Intn(4)), End: int32(g.Intn(4))}}})
			}
		}
		return &proto.Expression_MaskExpression_Select{Type: &proto.Expression_MaskExpression_Select_List{List: l}}
	}
	m := &proto.Expression_MaskExpression_MapSelect{Child: vGenSelect(g, depth-1)}
	if g.Bool() {
		m.Select = &proto.Expression_MaskExpression_MapSelect_Key{Key: &proto.Expression_MaskExpression_MapSelect_MapKey{MapKey: g.Str()}}
	} else {
		m.Select = &proto.Expression_MaskExpression_MapSelect_Expression{Expression: &proto.Expression_MaskExpression_MapSelect_MapKeyExpression{MapKeyExpression: g.Str()}}
	}
	return &proto.Expression_MaskExpression_Select{Type: &proto.Expression_MaskExpression_Select_Map{Map: m}}
}

func vGenMaskStruct(g *zzverif.Gen, depth int) *proto.Expression_MaskExpression_StructSelect {
	s := &proto.Expression_MaskExpression_StructSelect{}
	for i := g.Intn(3); i > 0; i-- {
		it := &proto.Expression_MaskExpression_StructItem{Field: int32(g.Intn(4))}
		if depth > 0 && g.Bool() {
			it.Child = vGenSelect(g, depth-1)
		}
		s.StructItems = append(s.StructItems, it)
	}
	return s
}

// VGenPMask: a complete mask message.
//
//verif:gen
func VGenPMask(g *zzverif.Gen) *proto.Expression_MaskExpression {
	return &proto.Expression_MaskExpression{Select: vGenMaskStruct(g, 3), MaintainSingularStruct: g.Bool()}
}

//verif:gen
func VGenMask(g *zzverif.Gen) *MaskExpression { return MaskExpressionFromProto(VGenPMask(g)) }

//verif:gen
func VGenFieldRef(g *zzverif.Gen) *FieldReference {
	f := VGenColumn(g, VSchema())
	switch g.Intn(8) {
	case 0:
		f.Root, f.knownType = OuterReference(g.Intn(3)), nil
	case 1:
		f.Root, f.knownType = LambdaParameterReference{StepsOut: uint32(g.Intn(3))}, nil
	case 2:
		f.Reference, f.knownType = VGenMask(g), nil
	case 3:
		inner := VGenColumn(g, types.NewRecordTypeFromTypes(VSchema().Types()[3:6]))
		p, t := VWalk(g, inner.knownType, true)
		if p != nil {
			if sf, ok := inner.Reference.(*StructFieldRef); ok {
				sf.Field += 3
				f.Root, f.Reference, f.knownType = inner, p, t
			}
		}
	case 4:
		fs := vChildren(g, 1)
		k := g.Intn(len(fs))
		if !vUntyped(fs[k]) {
			f.Root = &StructExpr{Fields: fs}
			f.Reference, f.knownType = &StructFieldRef{Field: int32(k)}, fs[k].GetType()
		}
	}
	return f
}

// vUntyped: the expression reports no type.
func vUntyped(e Expression) bool { return e.GetType() == nil }

func vGenArgs(g *zzverif.Gen) []types.FuncArg {
	as := make([]types.FuncArg, g.Intn(4))
	for i := range as {
		switch g.Intn(6) {
		case 0:
			as[i] = types.Enum(g.Str())
		case 1:
			var t types.Type
			for t == nil {
				t = zzverif.Make[types.Type](g)
			}
			as[i] = t
		default:
			as[i] = VChild(g)
		}
	}
	return as
}

func vGenOpts(g *zzverif.Gen) []*types.FunctionOption {
	var os []*types.FunctionOption
	for i := g.Intn(3); i > 0; i-- {
		o := &types.FunctionOption{Name: g.Str()}
		for j := g.Intn(3); j > 0; j-- {
			o.Preference = append(o.Preference, g.Str())
		}
		os = append(os, o)
	}
	return os
}

func vOutType(g *zzverif.Gen) types.Type {
	if g.Bool() {
		return vGenLitType[*types.Int32Type](g)
	}
	var t types.Type
	for t == nil {
		t = zzverif.Make[types.Type](g)
	}
	return t
}

func vFuncID(g *zzverif.Gen) extensions.FunctionID { return zzverif.OneOf(g, VFuncs()...) }

//verif:gen
func VGenScalarFn(g *zzverif.Gen) *ScalarFunction {
	id := vFuncID(g)
	ref := VReg().GetFuncAnchor(id)
	d, ok := vRegP().LookupScalarFunction(ref)
	if !ok {
		d = extensions.NewScalarFuncVariant(id)
	}
	return &ScalarFunction{funcRef: ref, declaration: d, args: vGenArgs(g), options: vGenOpts(g), outputType: vOutType(g)}
}

func vGenBound(g *zzverif.Gen) Bound {
	return zzverif.OneOf[Bound](g, nil, PrecedingBound(g.Intn(3)), FollowingBound(g.Intn(3)), CurrentRow{}, Unbounded{})
}

// VGenSort draws a sort field over the given expression.
func VGenSort(g *zzverif.Gen, e Expression) SortField {
	if g.Chance(1, 4) {
		return SortField{Expr: e, Kind: types.FunctionRef(1 + g.Intn(3))}
	}
	return SortField{Expr: e, Kind: types.SortDirection(1 + g.Intn(5))}
}

//verif:gen
func VGenWindowFn(g *zzverif.Gen) *WindowFunction {
	id := vFuncID(g)
	ref := VReg().GetFuncAnchor(id)
	d, ok := vRegP().LookupWindowFunction(ref)
	if !ok {
		d = extensions.NewWindowFuncVariant(id)
	}
	w := &WindowFunction{funcRef: ref, declaration: d, args: vGenArgs(g), options: vGenOpts(g), outputType: vOutType(g),
		phase: types.AggregationPhase(g.Intn(5)), invocation: types.AggregationInvocation(g.Intn(3)),
		BoundsType: types.BoundsType(g.Intn(3)), LowerBound: vGenBound(g), UpperBound: vGenBound(g)}
	if g.Bool() {
		w.Partitions = vChildren(g, 0)
	}
	for _, e := range vChildren(g, 0) {
		w.Sorts = append(w.Sorts, VGenSort(g, e))
	}
	return w
}

//verif:gen
func VGenAggFn(g *zzverif.Gen) *AggregateFunction {
	id := vFuncID(g)
	ref := VReg().GetFuncAnchor(id)
	a := &AggregateFunction{funcRef: ref, args: vGenArgs(g), options: vGenOpts(g), outputType: vOutType(g),
		phase: types.AggregationPhase(g.Intn(5)), invocation: types.AggregationInvocation(g.Intn(3))}
	d, ok := vRegP().LookupAggregateFunction(ref)
	if !ok {
		d = extensions.NewAggFuncVariant(id)
	}
	a.declaration = d
	for _, e := range vChildren(g, 0) {
		a.Sorts = append(a.Sorts, VGenSort(g, e))
	}
	return a
}

//verif:gen
func VGenIfThen(g *zzverif.Gen) *IfThen {
	x := &IfThen{elseClause: VChild(g)}
	for i := g.Intn(3); i >= 0; i-- {
		x.ifs = append(x.ifs, IfThenPair{If: VChild(g), Then: VChild(g)})
	}
	return x
}

//verif:gen
func VGenCast(g *zzverif.Gen) *Cast {
	return &Cast{Type: vOutType(g), Input: VChild(g), FailureBehavior: types.CastFailBehavior(g.Intn(3))}
}

//verif:gen
func VGenParam(g *zzverif.Gen) *DynamicParameter {
	return &DynamicParameter{OutputType: vOutType(g), ParameterReference: uint32(g.Intn(4))}
}

//verif:gen
func VGenSwitch(g *zzverif.Gen) *SwitchExpr {
	x := &SwitchExpr{match: VChild(g)}
	if g.Chance(3, 4) {
		x.elseClause = VChild(g)
	}
	for i := g.Intn(3); i >= 0; i-- {
		then := VChild(g)
		for vUntyped(then) {
			then = NewPrimitiveLiteral(int32(g.Intn(3)), g.Bool())
		}
		x.ifs = append(x.ifs, struct {
			If   Literal
			Then Expression
		}{vLit(g), then})
	}
	return x
}

//verif:gen
func VGenSingular(g *zzverif.Gen) *SingularOrList {
	return &SingularOrList{Value: VChild(g), Options: vChildren(g, 0)}
}

//verif:gen
func VGenMulti(g *zzverif.Gen) *MultiOrList {
	m := &MultiOrList{Value: vChildren(g, 0)}
	for i := g.Intn(4); i > 0; i-- {
		m.Options = append(m.Options, vChildren(g, 0))
	}
	return m
}

//verif:gen
func VGenMapExpr(g *zzverif.Gen) *MapExpr {
	m := &MapExpr{Nullable: g.Bool(), TypeVariationRef: vGenVar(g)}
	for i := g.Intn(3); i >= 0; i-- {
		m.KeyValues = append(m.KeyValues, struct{ Key, Value Expression }{VChild(g), VChild(g)})
	}
	return m
}

//verif:gen
func VGenStructExpr(g *zzverif.Gen) *StructExpr {
	return &StructExpr{Nullable: g.Bool(), TypeVariationRef: vGenVar(g), Fields: vChildren(g, 0)}
}

//verif:gen
func VGenListExpr(g *zzverif.Gen) *ListExpr {
	return &ListExpr{Nullable: g.Bool(), TypeVariationRef: vGenVar(g), Values: vChildren(g, 1)}
}

//verif:gen
func VGenLambda(g *zzverif.Gen) *Lambda {
	p := &types.StructType{Nullability: types.NullabilityRequired, TypeVariationRef: vGenVar(g)}
	for i := g.Intn(3); i > 0; i-- {
		p.Types = append(p.Types, vOutType(g))
	}
	return &Lambda{Parameters: p, Body: VChild(g)}
}

// VGenAny: an arbitrary embedded message.
//
//verif:gen
func VGenAnyMsg(g *zzverif.Gen) *anypb.Any {
	m := &proto.Type_Boolean{TypeVariationReference: uint32(g.Intn(4))}
	b, _ := pb.Marshal(m)
	return &anypb.Any{TypeUrl: "type.googleapis.com/substrait.Type.Boolean", Value: b}
}

// VDeep: a well-formed expression, all the way down (for replay).
//
//verif:opaque
func VDeep(e Expression) bool {
	if e == nil {
		return false
	}
	all := func(es []Expression) bool {
		for _, e := range es {
			if !VDeep(e) {
				return false
			}
		}
		return true
	}
	args := func(as []types.FuncArg, os []*types.FunctionOption, t types.Type) bool {
		for _, a := range as {
			switch a := a.(type) {
			case nil:
				return false
			case Expression:
				if !VDeep(a) {
					return false
				}
			case types.Type:
				if !vAltType(a) {
					return false
				}
			}
		}
		for _, o := range os {
			if o == nil {
				return false
			}
		}
		return vAltType(t)
	}
	sorts := func(ss []SortField) bool {
		for _, s := range ss {
			if !VDeep(s.Expr) || s.Kind == nil {
				return false
			}
		}
		return true
	}
	switch e := e.(type) {
	case Literal:
		return VTyped(e)
	case *FieldReference:
		if e == nil || !vDeepRef(e.Reference) {
			return false
		}
		r, ok := e.Root.(Expression)
		return !ok || VDeep(r)
	case *ScalarFunction:
		return e != nil && e.declaration != nil && args(e.args, e.options, e.outputType)
	case *WindowFunction:
		return e != nil && e.declaration != nil && args(e.args, e.options, e.outputType) && all(e.Partitions) && sorts(e.Sorts)
	case *IfThen:
		if e == nil || !VDeep(e.elseClause) {
			return false
		}
		for _, c := range e.ifs {
			if !VDeep(c.If) || !VDeep(c.Then) {
				return false
			}
		}
		return true
	case *SwitchExpr:
		if e == nil || !VDeep(e.match) || e.elseClause != nil && !VDeep(e.elseClause) {
			return false
		}
		for _, c := range e.ifs {
			if c.If == nil || !VTyped(c.If) || !VDeep(c.Then) {
				return false
			}
		}
		return true
	case *Cast:
		return e != nil && vAltType(e.Type) && VDeep(e.Input)
	case *DynamicParameter:
		return e != nil && vAltType(e.OutputType)
	case *SingularOrList:
		return e != nil && VDeep(e.Value) && all(e.Options)
	case *MultiOrList:
		if e == nil || !all(e.Value) {
			return false
		}
		for _, o := range e.Options {
			if !all(o) {
				return false
			}
		}
		return true
	case *MapExpr:
		if e == nil || len(e.KeyValues) == 0 {
			return false
		}
		for _, kv := range e.KeyValues {
			if !VDeep(kv.Key) || !VDeep(kv.Value) {
				return false
			}
		}
		return true
	case *StructExpr:
		return e != nil && all(e.Fields)
	case *ListExpr:
		return e != nil && len(e.Values) > 0 && all(e.Values)
	case *Lambda:
		return e != nil && e.Parameters != nil && types.VConcType(e.Parameters) && VDeep(e.Body)
	}
	return false
}

func vDeepRef(r Reference) bool {
	if m, ok := r.(*MaskExpression); ok {
		return m != nil && vDeepMask(m.sel)
	}
	return vRefOK(r)
}

func vDeepMask(m MaskSelect) bool {
	switch s := m.(type) {
	case MaskStructSelect:
		for _, it := range s {
			if it.child != nil && !vDeepMask(it.child) {
				return false
			}
		}
		return true
	case *MaskListSelect:
		if s == nil {
			return false
		}
		for _, it := range s.selection {
			switch it := it.(type) {
			case *MaskListElement:
				if it == nil {
					return false
				}
			case *MaskListSlice:
				if it == nil {
					return false
				}
			default:
				return false
			}
		}
		return s.child != nil && vDeepMask(s.child)
	case *MaskMapSelect:
		return s != nil && s.child != nil && vDeepMask(s.child)
	}
	return false
}

// VAggRest: the same aggregate call but for its arguments and sort fields.
func VAggRest(a, b *AggregateFunction) bool {
	return a.funcRef == b.funcRef && a.declaration == b.declaration && a.outputType == b.outputType &&
		a.phase == b.phase && a.invocation == b.invocation && len(a.options) == len(b.options) &&
		zzverif.ForAll(len(a.options), func(i int) bool { return a.options[i] == b.options[i] })
}
