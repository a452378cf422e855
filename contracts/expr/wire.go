package expr

import (
	"strings"

	protopb "google.golang.org/protobuf/proto"

	"github.com/substrait-io/substrait-go/v8/extensions"
	"github.com/substrait-io/substrait-go/v8/types"
	"github.com/substrait-io/substrait-go/v8/zzverif"
	proto "github.com/substrait-io/substrait-protobuf/go/substraitpb"
)

// The wire format of expressions: one relation between messages and
// expressions, which the encoder establishes and the decoder establishes.

//verif:logic
func vEncList(ps []*proto.Expression, es []Expression) bool {
	return len(ps) == len(es) && zzverif.ForAll(len(es), func(i int) bool { return VEncExpr(ps[i], es[i]) })
}

//verif:logic
func vEncArgs(ps []*proto.FunctionArgument, as []types.FuncArg) bool {
	return len(ps) == len(as) && zzverif.ForAll(len(as), func(i int) bool { return VEncArg(ps[i], as[i]) })
}

//verif:logic
func vEncSorts(ps []*proto.SortField, ss []SortField) bool {
	return len(ps) == len(ss) && zzverif.ForAll(len(ss), func(i int) bool {
		return ps[i] != nil && VEncExpr(ps[i].Expr, ss[i].Expr) && vEncSortKind(ps[i], ss[i].Kind)
	})
}

func vEncSortKind(p *proto.SortField, k types.SortKind) bool {
	switch k := k.(type) {
	case types.SortDirection:
		d, ok := p.SortKind.(*proto.SortField_Direction)
		return ok && d != nil && int32(d.Direction) == int32(k)
	case types.FunctionRef:
		f, ok := p.SortKind.(*proto.SortField_ComparisonFunctionReference)
		return ok && f != nil && f.ComparisonFunctionReference == uint32(k)
	}
	return false
}

func vEncBound(p *proto.Expression_WindowFunction_Bound, b Bound) bool {
	if p == nil {
		return b == nil
	}
	switch b := b.(type) {
	case PrecedingBound:
		k, ok := p.Kind.(*proto.Expression_WindowFunction_Bound_Preceding_)
		return ok && k != nil && k.Preceding != nil && k.Preceding.Offset == int64(b)
	case FollowingBound:
		k, ok := p.Kind.(*proto.Expression_WindowFunction_Bound_Following_)
		return ok && k != nil && k.Following != nil && k.Following.Offset == int64(b)
	case CurrentRow:
		k, ok := p.Kind.(*proto.Expression_WindowFunction_Bound_CurrentRow_)
		return ok && k != nil
	case Unbounded:
		k, ok := p.Kind.(*proto.Expression_WindowFunction_Bound_Unbounded_)
		return ok && k != nil
	}
	return false
}

func vSameOpts(a, b []*types.FunctionOption) bool {
	return len(a) == len(b) && zzverif.ForAll(len(a), func(i int) bool { return a[i] == b[i] })
}

// VEncArg: the message carries the function argument.
//
//verif:logic
func VEncArg(p *proto.FunctionArgument, a types.FuncArg) bool { return vEncArgIs(p, a) }

func vEncArgIs(p *proto.FunctionArgument, a types.FuncArg) bool {
	if p == nil {
		return false
	}
	switch k := p.ArgType.(type) {
	case *proto.FunctionArgument_Enum:
		e, ok := a.(types.Enum)
		return ok && k.Enum == string(e)
	case *proto.FunctionArgument_Type:
		t, ok := a.(types.Type)
		return ok && types.VEncType(k.Type, t)
	case *proto.FunctionArgument_Value:
		e, ok := a.(Expression)
		return ok && VEncExpr(k.Value, e)
	}
	return false
}

func vEncRoot(p *proto.Expression_FieldReference, r RootRefType) bool {
	switch k := p.RootType.(type) {
	case *proto.Expression_FieldReference_Expression:
		x, ok := r.(Expression)
		return ok && k != nil && VEncExpr(k.Expression, x)
	case *proto.Expression_FieldReference_RootReference_:
		return r == nil
	case *proto.Expression_FieldReference_OuterReference_:
		o, ok := r.(OuterReference)
		return ok && k.OuterReference != nil && k.OuterReference.StepsOut == uint32(o)
	case *proto.Expression_FieldReference_LambdaParameterReference_:
		l, ok := r.(LambdaParameterReference)
		return ok && k.LambdaParameterReference != nil && k.LambdaParameterReference.StepsOut == l.StepsOut
	}
	return false
}

func vEncReference(p *proto.Expression_FieldReference, r Reference) bool {
	switch k := p.ReferenceType.(type) {
	case *proto.Expression_FieldReference_DirectReference:
		s, ok := r.(ReferenceSegment)
		return ok && k != nil && k.DirectReference != nil && VEncRef(k.DirectReference, s)
	case *proto.Expression_FieldReference_MaskedReference:
		m, ok := r.(*MaskExpression)
		return ok && m != nil && k != nil && VEncMaskExpr(k.MaskedReference, m)
	}
	return false
}

// VEncExpr: the message carries exactly the expression.
//
//verif:logic
func VEncExpr(p *proto.Expression, e Expression) bool { return vEncExprIs(p, e) }

func vEncExprIs(p *proto.Expression, e Expression) bool {
	if p == nil {
		return false
	}
	switch k := p.RexType.(type) {
	case *proto.Expression_Literal_:
		l, ok := e.(Literal)
		return ok && k != nil && VEncLit(k.Literal, l)
	case *proto.Expression_Selection:
		f, ok := e.(*FieldReference)
		if !ok || f == nil || k == nil || k.Selection == nil {
			return false
		}
		return vEncReference(k.Selection, f.Reference) && vEncRoot(k.Selection, f.Root)
	case *proto.Expression_ScalarFunction_:
		f, ok := e.(*ScalarFunction)
		if !ok || f == nil || k == nil || k.ScalarFunction == nil {
			return false
		}
		m := k.ScalarFunction
		return m.FunctionReference == f.funcRef && vSameOpts(m.Options, f.options) && types.VEncType(m.OutputType, f.outputType) && vEncArgs(m.Arguments, f.args)
	case *proto.Expression_WindowFunction_:
		f, ok := e.(*WindowFunction)
		if !ok || f == nil || k == nil || k.WindowFunction == nil {
			return false
		}
		m := k.WindowFunction
		return m.FunctionReference == f.funcRef && vSameOpts(m.Options, f.options) && types.VEncType(m.OutputType, f.outputType) &&
			vEncArgs(m.Arguments, f.args) && vEncSorts(m.Sorts, f.Sorts) && vEncList(m.Partitions, f.Partitions) &&
			m.Phase == f.phase && m.Invocation == f.invocation && m.BoundsType == f.BoundsType &&
			vEncBound(m.LowerBound, f.LowerBound) && vEncBound(m.UpperBound, f.UpperBound)
	case *proto.Expression_IfThen_:
		x, ok := e.(*IfThen)
		if !ok || x == nil || k == nil || k.IfThen == nil {
			return false
		}
		m := k.IfThen
		return VEncExpr(m.Else, x.elseClause) && len(m.Ifs) == len(x.ifs) && zzverif.ForAll(len(x.ifs), func(i int) bool {
			return m.Ifs[i] != nil && VEncExpr(m.Ifs[i].If, x.ifs[i].If) && VEncExpr(m.Ifs[i].Then, x.ifs[i].Then)
		})
	case *proto.Expression_SwitchExpression_:
		x, ok := e.(*SwitchExpr)
		if !ok || x == nil || k == nil || k.SwitchExpression == nil {
			return false
		}
		m := k.SwitchExpression
		return VEncExpr(m.Match, x.match) && (m.Else == nil && x.elseClause == nil || m.Else != nil && VEncExpr(m.Else, x.elseClause)) &&
			len(m.Ifs) == len(x.ifs) && zzverif.ForAll(len(x.ifs), func(i int) bool {
			return m.Ifs[i] != nil && VEncLit(m.Ifs[i].If, x.ifs[i].If) && VEncExpr(m.Ifs[i].Then, x.ifs[i].Then)
		})
	case *proto.Expression_SingularOrList_:
		x, ok := e.(*SingularOrList)
		return ok && x != nil && k != nil && k.SingularOrList != nil &&
			VEncExpr(k.SingularOrList.Value, x.Value) && vEncList(k.SingularOrList.Options, x.Options)
	case *proto.Expression_MultiOrList_:
		x, ok := e.(*MultiOrList)
		if !ok || x == nil || k == nil || k.MultiOrList == nil {
			return false
		}
		m := k.MultiOrList
		return vEncList(m.Value, x.Value) && len(m.Options) == len(x.Options) && zzverif.ForAll(len(x.Options), func(i int) bool {
			return m.Options[i] != nil && vEncList(m.Options[i].Fields, x.Options[i])
		})
	case *proto.Expression_Cast_:
		x, ok := e.(*Cast)
		return ok && x != nil && k != nil && k.Cast != nil && types.VEncType(k.Cast.Type, x.Type) &&
			VEncExpr(k.Cast.Input, x.Input) && k.Cast.FailureBehavior == x.FailureBehavior
	case *proto.Expression_Nested_:
		return k != nil && k.Nested != nil && vEncNested(k.Nested, e)
	case *proto.Expression_DynamicParameter:
		x, ok := e.(*DynamicParameter)
		return ok && x != nil && k != nil && k.DynamicParameter != nil && types.VEncType(k.DynamicParameter.Type, x.OutputType) &&
			k.DynamicParameter.ParameterReference == x.ParameterReference
	case *proto.Expression_Lambda_:
		x, ok := e.(*Lambda)
		if !ok || x == nil || x.Parameters == nil || k == nil || k.Lambda == nil || k.Lambda.Parameters == nil {
			return false
		}
		m := k.Lambda.Parameters
		return VEncExpr(k.Lambda.Body, x.Body) && m.TypeVariationReference == x.Parameters.TypeVariationRef &&
			int32(m.Nullability) == int32(x.Parameters.Nullability) && len(m.Types) == len(x.Parameters.Types) &&
			zzverif.ForAll(len(m.Types), func(i int) bool { return types.VEncType(m.Types[i], x.Parameters.Types[i]) })
	}
	return false
}

//verif:logic
func vEncNested(m *proto.Expression_Nested, e Expression) bool {
	switch n := m.NestedType.(type) {
	case *proto.Expression_Nested_Map_:
		x, ok := e.(*MapExpr)
		return ok && x != nil && n != nil && n.Map != nil && m.Nullable == x.Nullable && m.TypeVariationReference == x.TypeVariationRef &&
			len(n.Map.KeyValues) == len(x.KeyValues) && zzverif.ForAll(len(x.KeyValues), func(i int) bool {
			return n.Map.KeyValues[i] != nil && VEncExpr(n.Map.KeyValues[i].Key, x.KeyValues[i].Key) && VEncExpr(n.Map.KeyValues[i].Value, x.KeyValues[i].Value)
		})
	case *proto.Expression_Nested_Struct_:
		x, ok := e.(*StructExpr)
		return ok && x != nil && n != nil && n.Struct != nil && m.Nullable == x.Nullable && m.TypeVariationReference == x.TypeVariationRef &&
			vEncList(n.Struct.Fields, x.Fields)
	case *proto.Expression_Nested_List_:
		x, ok := e.(*ListExpr)
		return ok && x != nil && n != nil && n.List != nil && m.Nullable == x.Nullable && m.TypeVariationReference == x.TypeVariationRef &&
			vEncList(n.List.Values, x.Values)
	}
	return false
}

//verif:logic
func vWfList(es []Expression) bool {
	return zzverif.ForAll(len(es), func(i int) bool { return VWfExpr(es[i]) })
}

//verif:logic
func vWfArgs(as []types.FuncArg) bool {
	return zzverif.ForAll(len(as), func(i int) bool { return VWfArg(as[i]) })
}

func vWfSortKind(k types.SortKind) bool {
	switch k.(type) {
	case types.SortDirection:
		return true
	case types.FunctionRef:
		return true
	}
	return false
}

//verif:logic
func vWfSorts(ss []SortField) bool {
	return zzverif.ForAll(len(ss), func(i int) bool { return VWfExpr(ss[i].Expr) && vWfSortKind(ss[i].Kind) })
}

// VWfArg: a function argument the wire format carries.
//
//verif:logic
func VWfArg(a types.FuncArg) bool {
	switch a := a.(type) {
	case types.Enum:
		return true
	case types.Type:
		return types.VWfType(a)
	case Expression:
		return VWfExpr(a)
	}
	return false
}

func vWfReference(r Reference) bool {
	switch r := r.(type) {
	case ReferenceSegment:
		return VWfRef(r)
	case *MaskExpression:
		return r != nil && vWfMaskItems(r.sel)
	}
	return false
}

func vWfRoot(r RootRefType) bool {
	switch r := r.(type) {
	case nil:
		return true
	case OuterReference:
		return true
	case LambdaParameterReference:
		return true
	case Expression:
		return VWfExpr(r)
	}
	return false
}

// VWfExpr: an expression the wire format carries.
//
//verif:logic
func VWfExpr(e Expression) bool {
	switch e := e.(type) {
	case Literal:
		return VWfLit(e)
	case *FieldReference:
		if e == nil {
			return false
		}
		return vWfReference(e.Reference) && vWfRoot(e.Root)
	case *ScalarFunction:
		return e != nil && types.VWfType(e.outputType) && vWfArgs(e.args)
	case *WindowFunction:
		return e != nil && types.VWfType(e.outputType) && vWfArgs(e.args) && vWfSorts(e.Sorts) && vWfList(e.Partitions)
	case *IfThen:
		return e != nil && VWfExpr(e.elseClause) && zzverif.ForAll(len(e.ifs), func(i int) bool { return VWfExpr(e.ifs[i].If) && VWfExpr(e.ifs[i].Then) })
	case *SwitchExpr:
		return e != nil && VWfExpr(e.match) && (e.elseClause == nil || VWfExpr(e.elseClause)) &&
			zzverif.ForAll(len(e.ifs), func(i int) bool { return VWfLit(e.ifs[i].If) && VWfExpr(e.ifs[i].Then) })
	case *SingularOrList:
		return e != nil && VWfExpr(e.Value) && vWfList(e.Options)
	case *MultiOrList:
		return e != nil && vWfList(e.Value) && zzverif.ForAll(len(e.Options), func(i int) bool { return vWfList(e.Options[i]) })
	case *Cast:
		return e != nil && types.VWfType(e.Type) && VWfExpr(e.Input)
	case *DynamicParameter:
		return e != nil && types.VWfType(e.OutputType)
	case *MapExpr:
		return e != nil && len(e.KeyValues) > 0 && zzverif.ForAll(len(e.KeyValues), func(i int) bool { return VWfExpr(e.KeyValues[i].Key) && VWfExpr(e.KeyValues[i].Value) })
	case *StructExpr:
		return e != nil && vWfList(e.Fields)
	case *ListExpr:
		return e != nil && len(e.Values) > 0 && vWfList(e.Values)
	case *Lambda:
		return e != nil && e.Parameters != nil && e.Parameters.Nullability == types.NullabilityRequired &&
			zzverif.ForAll(len(e.Parameters.Types), func(i int) bool { return types.VWfType(e.Parameters.Types[i]) }) && VWfExpr(e.Body)
	}
	return false
}

//verif:iface Expression.ToProto
//verif:props C08
func SpecExprToProto(e Expression) {
	zzverif.Requires(VWfExpr(e))
	p := e.ToProto()
	zzverif.Ensures("encodes", VEncExpr(p, e))
}

//verif:iface types.FuncArg.ToProtoFuncArg
//verif:props C08
func SpecArgToProto(a types.FuncArg) {
	zzverif.Requires(VWfArg(a))
	p := a.ToProtoFuncArg()
	zzverif.Ensures("encodes", VEncArg(p, a))
}

//verif:contract (*SortField).ToProto
//verif:props C08
func SpecSortToProto(s *SortField) {
	zzverif.Requires(s != nil && VWfExpr(s.Expr) && vWfSortKind(s.Kind))
	p := s.ToProto()
	zzverif.Ensures("encodes", p != nil && VEncExpr(p.Expr, s.Expr) && vEncSortKind(p, s.Kind))
}

// Masks.

//verif:logic
func vEncMaskItems(ps []*proto.Expression_MaskExpression_StructItem, ms []MaskStructItem) bool {
	return len(ps) == len(ms) && zzverif.ForAll(len(ms), func(i int) bool {
		return ps[i] != nil && ps[i].Field == ms[i].field && (ps[i].Child == nil && ms[i].child == nil || ps[i].Child != nil && ms[i].child != nil && VEncMask(ps[i].Child, ms[i].child))
	})
}

func vEncMaskList(ps []*proto.Expression_MaskExpression_ListSelect_ListSelectItem, ms []MaskListSelectItem) bool {
	return len(ps) == len(ms) && zzverif.ForAll(len(ms), func(i int) bool { return vEncMaskElem(ps[i], ms[i]) })
}

func vEncMaskElem(p *proto.Expression_MaskExpression_ListSelect_ListSelectItem, m MaskListSelectItem) bool {
	if p == nil {
		return false
	}
	switch m := m.(type) {
	case *MaskListElement:
		k, ok := p.Type.(*proto.Expression_MaskExpression_ListSelect_ListSelectItem_Item)
		return ok && k != nil && m != nil && k.Item != nil && k.Item.Field == m.Field
	case *MaskListSlice:
		k, ok := p.Type.(*proto.Expression_MaskExpression_ListSelect_ListSelectItem_Slice)
		return ok && k != nil && m != nil && k.Slice != nil && k.Slice.Start == m.Start && k.Slice.End == m.End
	}
	return false
}

// VEncMask: the message carries the selection.
//
//verif:logic
func VEncMask(p *proto.Expression_MaskExpression_Select, m MaskSelect) bool {
	if p == nil {
		return false
	}
	switch k := p.Type.(type) {
	case *proto.Expression_MaskExpression_Select_Struct:
		x, ok := m.(MaskStructSelect)
		return ok && k != nil && k.Struct != nil && vEncMaskItems(k.Struct.StructItems, x)
	case *proto.Expression_MaskExpression_Select_List:
		x, ok := m.(*MaskListSelect)
		return ok && x != nil && k != nil && k.List != nil && vEncMaskList(k.List.Selection, x.selection) &&
			(k.List.Child == nil && x.child == nil || k.List.Child != nil && x.child != nil && VEncMask(k.List.Child, x.child))
	case *proto.Expression_MaskExpression_Select_Map:
		x, ok := m.(*MaskMapSelect)
		return ok && x != nil && k != nil && k.Map != nil && vEncMapKey(k.Map, x) &&
			(k.Map.Child == nil && x.child == nil || k.Map.Child != nil && x.child != nil && VEncMask(k.Map.Child, x.child))
	}
	return false
}

func vEncMapKey(p *proto.Expression_MaskExpression_MapSelect, m *MaskMapSelect) bool {
	switch k := p.Select.(type) {
	case *proto.Expression_MaskExpression_MapSelect_Key:
		return k != nil && k.Key != nil && m.kind == MapSelectKey && k.Key.MapKey == m.key
	case *proto.Expression_MaskExpression_MapSelect_Expression:
		return k != nil && k.Expression != nil && m.kind == MapSelectExpr && k.Expression.MapKeyExpression == m.key
	}
	return false
}

//verif:logic
func VEncMaskExpr(p *proto.Expression_MaskExpression, m *MaskExpression) bool {
	return p != nil && p.Select != nil && m != nil && p.MaintainSingularStruct == m.maintainSingular && vEncMaskItems(p.Select.StructItems, m.sel)
}

//verif:logic
func vWfMaskItems(ms []MaskStructItem) bool {
	return zzverif.ForAll(len(ms), func(i int) bool { return ms[i].child == nil || VWfMask(ms[i].child) })
}

func vWfMaskElem(m MaskListSelectItem) bool {
	switch m := m.(type) {
	case *MaskListElement:
		return m != nil
	case *MaskListSlice:
		return m != nil
	}
	return false
}

//verif:logic
func VWfMask(m MaskSelect) bool {
	switch m := m.(type) {
	case MaskStructSelect:
		return vWfMaskItems(m)
	case *MaskListSelect:
		return m != nil && (m.child == nil || VWfMask(m.child)) && zzverif.ForAll(len(m.selection), func(i int) bool { return vWfMaskElem(m.selection[i]) })
	case *MaskMapSelect:
		return m != nil && (m.child == nil || VWfMask(m.child)) && (m.kind == MapSelectKey || m.kind == MapSelectExpr)
	}
	return false
}

//verif:logic
func vWfPMaskItems(ps []*proto.Expression_MaskExpression_StructItem) bool {
	return zzverif.ForAll(len(ps), func(i int) bool { return ps[i] != nil && (ps[i].Child == nil || VWfPMask(ps[i].Child)) })
}

//verif:logic
func vWfPMaskElem(p *proto.Expression_MaskExpression_ListSelect_ListSelectItem) bool {
	if p == nil {
		return false
	}
	switch k := p.Type.(type) {
	case *proto.Expression_MaskExpression_ListSelect_ListSelectItem_Item:
		return k != nil && k.Item != nil
	case *proto.Expression_MaskExpression_ListSelect_ListSelectItem_Slice:
		return k != nil && k.Slice != nil
	}
	return false
}

func vWfPMapKey(p *proto.Expression_MaskExpression_MapSelect) bool {
	switch k := p.Select.(type) {
	case *proto.Expression_MaskExpression_MapSelect_Key:
		return k != nil && k.Key != nil
	case *proto.Expression_MaskExpression_MapSelect_Expression:
		return k != nil && k.Expression != nil
	}
	return false
}

// VWfPMask: a complete selection message.
//
//verif:logic
func VWfPMask(p *proto.Expression_MaskExpression_Select) bool {
	if p == nil {
		return false
	}
	switch k := p.Type.(type) {
	case *proto.Expression_MaskExpression_Select_Struct:
		return k != nil && k.Struct != nil && vWfPMaskItems(k.Struct.StructItems)
	case *proto.Expression_MaskExpression_Select_List:
		return k != nil && k.List != nil && (k.List.Child == nil || VWfPMask(k.List.Child)) &&
			zzverif.ForAll(len(k.List.Selection), func(i int) bool { return vWfPMaskElem(k.List.Selection[i]) })
	case *proto.Expression_MaskExpression_Select_Map:
		return k != nil && k.Map != nil && (k.Map.Child == nil || VWfPMask(k.Map.Child)) && vWfPMapKey(k.Map)
	}
	return false
}

//verif:iface MaskSelect.ToProto
//verif:props C08
func SpecMaskToProto(m MaskSelect) {
	zzverif.Requires(VWfMask(m))
	p := m.ToProto()
	zzverif.Ensures("encodes", VEncMask(p, m))
}

//verif:contract (MaskStructSelect).toProtoStructSelect
//verif:props C08
func SpecMaskStructToProto(m MaskStructSelect) {
	zzverif.Requires(vWfMaskItems(m))
	p := m.toProtoStructSelect()
	zzverif.Ensures("encodes", p != nil && vEncMaskItems(p.StructItems, m))
}

//verif:contract (*MaskStructItem).ToProto
//verif:props C08
func SpecMaskItemToProto(m *MaskStructItem) {
	zzverif.Requires(m != nil && (m.child == nil || VWfMask(m.child)))
	p := m.ToProto()
	zzverif.Ensures("encodes", p != nil && p.Field == m.field && (p.Child == nil && m.child == nil || p.Child != nil && m.child != nil && VEncMask(p.Child, m.child)))
}

//verif:iface MaskListSelectItem.ToProto
//verif:props C08
func SpecMaskElemToProto(m MaskListSelectItem) {
	zzverif.Requires(vWfMaskElem(m))
	p := m.ToProto()
	zzverif.Ensures("encodes", vEncMaskElem(p, m))
}

//verif:contract (*MaskExpression).ToProto
//verif:props C08
func SpecMaskExprToProto(m *MaskExpression) {
	zzverif.Requires(m != nil && vWfMaskItems(m.sel))
	p := m.ToProto()
	zzverif.Ensures("encodes", VEncMaskExpr(p, m))
}

//verif:contract maskSelectFromProto
//verif:split p.Type
//verif:props C08
func SpecMaskFromProto(p *proto.Expression_MaskExpression_Select) {
	zzverif.Requires(VWfPMask(p))
	m := maskSelectFromProto(p)
	zzverif.Ensures("decodes", m != nil && VEncMask(p, m))
}

//verif:contract MaskExpressionFromProto
//verif:props C08
func SpecMaskExprFromProto(p *proto.Expression_MaskExpression) {
	zzverif.Requires(p != nil && p.Select != nil && vWfPMaskItems(p.Select.StructItems))
	m := MaskExpressionFromProto(p)
	zzverif.Ensures("decodes", VEncMaskExpr(p, m))
}

// Decoding.

//verif:logic
func vWfPList(ps []*proto.Expression) bool {
	return zzverif.ForAll(len(ps), func(i int) bool { return VWfPExpr(ps[i]) })
}

//verif:logic
func vWfPArgs(ps []*proto.FunctionArgument) bool {
	return zzverif.ForAll(len(ps), func(i int) bool { return VWfPArg(ps[i]) })
}

//verif:logic
func vWfPSorts(ps []*proto.SortField) bool {
	return zzverif.ForAll(len(ps), func(i int) bool { return ps[i] != nil && VWfPExpr(ps[i].Expr) && vWfPSortKind(ps[i]) })
}

func vWfPSortKind(p *proto.SortField) bool {
	switch k := p.SortKind.(type) {
	case *proto.SortField_Direction:
		return k != nil
	case *proto.SortField_ComparisonFunctionReference:
		return k != nil
	}
	return false
}

func vWfPBound(p *proto.Expression_WindowFunction_Bound) bool {
	if p == nil {
		return true
	}
	switch k := p.Kind.(type) {
	case *proto.Expression_WindowFunction_Bound_Preceding_:
		return k != nil && k.Preceding != nil
	case *proto.Expression_WindowFunction_Bound_Following_:
		return k != nil && k.Following != nil
	case *proto.Expression_WindowFunction_Bound_CurrentRow_:
		return k != nil
	case *proto.Expression_WindowFunction_Bound_Unbounded_:
		return k != nil
	}
	return false
}

// VWfPArg: a complete function argument message (vWfPArgIs says what that is; the
// prover takes it apart only in the proof of FuncArgFromProto).
//
//verif:opaque
func VWfPArg(p *proto.FunctionArgument) bool { return vWfPArgIs(p) }

func vWfPArgIs(p *proto.FunctionArgument) bool {
	if p == nil {
		return false
	}
	switch k := p.ArgType.(type) {
	case *proto.FunctionArgument_Enum:
		return k != nil
	case *proto.FunctionArgument_Type:
		return k != nil && types.VWfPType(k.Type)
	case *proto.FunctionArgument_Value:
		return k != nil && VWfPExpr(k.Value)
	}
	return false
}

func vWfPRoot(p *proto.Expression_FieldReference) bool {
	switch k := p.RootType.(type) {
	case *proto.Expression_FieldReference_RootReference_:
		return k != nil
	case *proto.Expression_FieldReference_OuterReference_:
		return k != nil && k.OuterReference != nil
	case *proto.Expression_FieldReference_LambdaParameterReference_:
		return k != nil && k.LambdaParameterReference != nil
	}
	return false
}

func vWfPReference(p *proto.Expression_FieldReference) bool {
	switch k := p.ReferenceType.(type) {
	case *proto.Expression_FieldReference_DirectReference:
		return k != nil && k.DirectReference != nil && VWfPRef(k.DirectReference)
	case *proto.Expression_FieldReference_MaskedReference:
		return k != nil && k.MaskedReference != nil && k.MaskedReference.Select != nil && vWfPMaskItems(k.MaskedReference.Select.StructItems)
	}
	return false
}

// VWfPExpr: a complete message of the expression kinds below (no subqueries, no
// references rooted in another expression). vWfPExprIs says what that is; the
// prover takes it apart only in the proof of ExprFromProto.
//
//verif:opaque
func VWfPExpr(p *proto.Expression) bool { return vWfPExprIs(p) }

func vWfPExprIs(p *proto.Expression) bool {
	if p == nil {
		return false
	}
	switch k := p.RexType.(type) {
	case *proto.Expression_Literal_:
		return k != nil && VWfPLit(k.Literal)
	case *proto.Expression_Selection:
		return k != nil && k.Selection != nil && vWfPReference(k.Selection) && vWfPRoot(k.Selection)
	case *proto.Expression_ScalarFunction_:
		return k != nil && k.ScalarFunction != nil && types.VWfPType(k.ScalarFunction.OutputType) && vWfPArgs(k.ScalarFunction.Arguments)
	case *proto.Expression_WindowFunction_:
		if k == nil || k.WindowFunction == nil {
			return false
		}
		m := k.WindowFunction
		return types.VWfPType(m.OutputType) && vWfPArgs(m.Arguments) && vWfPSorts(m.Sorts) && vWfPList(m.Partitions) &&
			vWfPBound(m.LowerBound) && vWfPBound(m.UpperBound)
	case *proto.Expression_IfThen_:
		return k != nil && k.IfThen != nil && VWfPExpr(k.IfThen.Else) && zzverif.ForAll(len(k.IfThen.Ifs), func(i int) bool {
			return k.IfThen.Ifs[i] != nil && VWfPExpr(k.IfThen.Ifs[i].If) && VWfPExpr(k.IfThen.Ifs[i].Then)
		})
	case *proto.Expression_SwitchExpression_:
		return k != nil && k.SwitchExpression != nil && VWfPExpr(k.SwitchExpression.Match) &&
			(k.SwitchExpression.Else == nil || VWfPExpr(k.SwitchExpression.Else)) &&
			zzverif.ForAll(len(k.SwitchExpression.Ifs), func(i int) bool {
				return k.SwitchExpression.Ifs[i] != nil && VWfPLit(k.SwitchExpression.Ifs[i].If) && VWfPExpr(k.SwitchExpression.Ifs[i].Then)
			})
	case *proto.Expression_SingularOrList_:
		return k != nil && k.SingularOrList != nil && VWfPExpr(k.SingularOrList.Value) && vWfPList(k.SingularOrList.Options)
	case *proto.Expression_MultiOrList_:
		return k != nil && k.MultiOrList != nil && vWfPList(k.MultiOrList.Value) && zzverif.ForAll(len(k.MultiOrList.Options), func(i int) bool {
			return k.MultiOrList.Options[i] != nil && vWfPList(k.MultiOrList.Options[i].Fields)
		})
	case *proto.Expression_Cast_:
		return k != nil && k.Cast != nil && types.VWfPType(k.Cast.Type) && VWfPExpr(k.Cast.Input)
	case *proto.Expression_Nested_:
		return k != nil && k.Nested != nil && vWfPNested(k.Nested)
	case *proto.Expression_DynamicParameter:
		return k != nil && k.DynamicParameter != nil && types.VWfPType(k.DynamicParameter.Type)
	case *proto.Expression_Lambda_:
		return k != nil && k.Lambda != nil && k.Lambda.Parameters != nil && VWfPExpr(k.Lambda.Body) &&
			zzverif.ForAll(len(k.Lambda.Parameters.Types), func(i int) bool { return types.VWfPType(k.Lambda.Parameters.Types[i]) })
	}
	return false
}

//verif:logic
func vWfPNested(m *proto.Expression_Nested) bool {
	switch n := m.NestedType.(type) {
	case *proto.Expression_Nested_Map_:
		return n != nil && n.Map != nil && zzverif.ForAll(len(n.Map.KeyValues), func(i int) bool {
			return n.Map.KeyValues[i] != nil && VWfPExpr(n.Map.KeyValues[i].Key) && VWfPExpr(n.Map.KeyValues[i].Value)
		})
	case *proto.Expression_Nested_Struct_:
		return n != nil && n.Struct != nil && vWfPList(n.Struct.Fields)
	case *proto.Expression_Nested_List_:
		return n != nil && n.List != nil && vWfPList(n.List.Values)
	}
	return false
}

// VSchemaReady: what decoding needs of the schema. The functions that only hand
// the schema on are verified without looking into it.
//
//verif:opaque
func VSchemaReady(s *types.RecordType) bool { return vSchemaOK(s) }

func vRegReady(reg ExtensionRegistry) bool { return reg.c != nil && extensions.VSetReady(reg.Set) }

//verif:contract ExprFromProto
//verif:split p.RexType
//verif:props C08
func SpecExprFromProto(p *proto.Expression, schema *types.RecordType, reg ExtensionRegistry) {
	zzverif.Requires(VSchemaReady(schema) && vRegReady(reg))
	if zzverif.Using() {
		zzverif.Requires(VWfPExpr(p))
	} else {
		zzverif.Requires(vWfPExprIs(p))
	}
	e, err := ExprFromProto(p, schema, reg)
	if zzverif.Using() {
		zzverif.Ensures("decodes", err != nil || e != nil && VEncExpr(p, e))
		return
	}
	zzverif.Ensures("decodes", err != nil || e != nil && vEncExprIs(p, e)) // what VEncExpr is defined to be
}

//verif:contract FieldReferenceFromProto
//verif:split p.ReferenceType
//verif:props C08 C11
func SpecFieldRefFromProto(p *proto.Expression_FieldReference, schema *types.RecordType, reg ExtensionRegistry) {
	zzverif.Requires(p != nil && vWfPReference(p) && vWfPRoot(p))
	if zzverif.Using() {
		zzverif.Requires(VSchemaReady(schema))
	} else {
		zzverif.Requires(vSchemaOK(schema)) // what VSchemaReady is defined to be
	}
	f, err := FieldReferenceFromProto(p, schema, reg)
	zzverif.Ensures("decodes", err != nil || f != nil && vEncReference(p, f.Reference) && vEncRoot(p, f.Root))
	if err != nil || schema == nil || zzverif.Using() || zzverif.Prove() {
		return // the type is only compared when replaying (two equal struct types are two objects)
	}
	s, ok := f.Reference.(ReferenceSegment)
	if ok && f.Root == nil {
		zzverif.Ensures("type", f.knownType != nil && f.knownType == VPathType(s, schema.AsStructType()))
	}
}

//verif:contract FuncArgFromProto
//verif:props C08
func SpecArgFromProto(p *proto.FunctionArgument, schema *types.RecordType, reg ExtensionRegistry) {
	zzverif.Requires(VSchemaReady(schema) && vRegReady(reg))
	if zzverif.Using() {
		zzverif.Requires(VWfPArg(p))
	} else {
		zzverif.Requires(vWfPArgIs(p))
	}
	a, err := FuncArgFromProto(p, schema, reg)
	if zzverif.Using() {
		zzverif.Ensures("decodes", err != nil || a != nil && VEncArg(p, a))
		return
	}
	zzverif.Ensures("decodes", err != nil || a != nil && vEncArgIs(p, a)) // what VEncArg is defined to be
}

//verif:contract SortFieldFromProto
//verif:props C08
func SpecSortFromProto(p *proto.SortField, schema *types.RecordType, reg ExtensionRegistry) {
	zzverif.Requires(p != nil && VWfPExpr(p.Expr) && vWfPSortKind(p) && VSchemaReady(schema) && vRegReady(reg))
	s, err := SortFieldFromProto(p, schema, reg)
	zzverif.Ensures("decodes", err != nil || VEncExpr(p.Expr, s.Expr) && vEncSortKind(p, s.Kind))
}

//verif:contract BoundFromProto
//verif:props C08
func SpecBoundFromProto(p *proto.Expression_WindowFunction_Bound) {
	zzverif.Requires(vWfPBound(p))
	b := BoundFromProto(p)
	zzverif.Ensures("decodes", vEncBound(p, b))
}

func vSameType(a, b Expression) (same bool) {
	defer func() {
		if recover() != nil {
			same = true // the type of e cannot be asked for on its own
		}
	}()
	t := a.GetType()
	return t == nil || t.Equals(b.GetType())
}

// The two directions put together on whole expressions, deep down.
//
//verif:bounded
//verif:props C08
func SpecRoundTrip(e Expression) {
	zzverif.Requires(VDeep(e) && VWfExpr(e))
	p := e.ToProto()
	d, err := ExprFromProto(p, VSchema(), VReg())
	zzverif.Ensures("decodes", err == nil && d != nil)
	if err != nil {
		return
	}
	text := p.String()
	if !strings.Contains(text, "nan") {
		zzverif.Ensures("equal", e.Equals(d) && d.Equals(e))
	}
	zzverif.Ensures("same-message", protopb.Equal(d.ToProto(), p))
	if !strings.Contains(text, "outer_reference") && !strings.Contains(text, "lambda_parameter_reference") {
		// nothing in e depends on what surrounds it
		zzverif.Ensures("same-type", vSameType(e, d))
	}
}
