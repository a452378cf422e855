package expr

import (
	"github.com/substrait-io/substrait-go/v8/types"
	"github.com/substrait-io/substrait-go/v8/zzverif"
	proto "github.com/substrait-io/substrait-protobuf/go/substraitpb"
)

//verif:puredyn Expression.GetType

// VPathType: the type of the component of t that the path r addresses, nil
// when there is none.
//
//verif:logic
func VPathType(r ReferenceSegment, t types.Type) types.Type {
	switch r := r.(type) {
	case *MapKeyRef:
		t, ok := t.(*types.MapType)
		if !ok || !types.VEqType(VLitType(r.MapKey), t.Key) {
			return nil
		}
		if r.Child == nil {
			return t.Value
		}
		return VPathType(r.Child, t.Value)
	case *StructFieldRef:
		t, ok := t.(*types.StructType)
		if !ok || r.Field < 0 || int(r.Field) >= len(t.Types) {
			return nil
		}
		if r.Child == nil {
			return t.Types[r.Field]
		}
		return VPathType(r.Child, t.Types[r.Field])
	case *ListElementRef:
		t, ok := t.(*types.ListType)
		if !ok {
			return nil
		}
		if r.Child == nil {
			return t.Type
		}
		return VPathType(r.Child, t.Type)
	}
	return nil
}

// VPathOK: every map key on the path is a literal with a complete type.
//
//verif:logic
func VPathOK(r ReferenceSegment) bool {
	switch r := r.(type) {
	case *MapKeyRef:
		return VTyped(r.MapKey) && (r.Child == nil || VPathOK(r.Child))
	case *StructFieldRef:
		return r.Child == nil || VPathOK(r.Child)
	case *ListElementRef:
		return r.Child == nil || VPathOK(r.Child)
	}
	return false
}

func vTypeOrNil(t types.Type) bool { return t == nil || types.VConcType(t) }

//verif:iface ReferenceSegment.GetType
//verif:split t
//verif:props C11
func SpecRefGetType(r ReferenceSegment, t types.Type) {
	zzverif.Requires(VPathOK(r))
	zzverif.Requires(vTypeOrNil(t))
	want := VPathType(r, t)
	typ, err := r.GetType(t)
	zzverif.Ensures("rejects", (err != nil) == (want == nil))
	zzverif.Ensures("addressed-type", typ == want)
	zzverif.Ensures("complete", typ == nil || types.VConcType(typ))
}

//verif:iface ReferenceSegment.GetChild
//verif:props C11
func SpecRefGetChild(r ReferenceSegment) {
	zzverif.Requires(VPathOK(r))
	c := r.GetChild()
	zzverif.Ensures("rest", c == nil || VPathOK(c))
}

func vRootTyped(root RootRefType) bool {
	e, ok := root.(Expression)
	return !ok || vTypeOrNil(e.GetType())
}

// vSchemaOK: a base schema whose columns have complete types.
func vSchemaOK(s *types.RecordType) bool {
	return s == nil || types.VConcType(s.AsStructType())
}

// VRootType: the type a reference is resolved against, nil when unknown.
func VRootType(root RootRefType, schema *types.RecordType) types.Type {
	if root == nil {
		if schema == nil {
			return nil
		}
		return schema.AsStructType()
	}
	if e, ok := root.(Expression); ok {
		return e.GetType()
	}
	return nil
}

//verif:contract NewFieldRef
//verif:split ref
//verif:props C11
func SpecNewFieldRef(root RootRefType, ref Reference, schema *types.RecordType) {
	zzverif.Requires(vSchemaOK(schema))
	zzverif.Requires(vRootTyped(root))
	seg, isSeg := ref.(ReferenceSegment)
	zzverif.Requires(!isSeg || VPathOK(seg))
	rt := VRootType(root, schema)
	f, err := NewFieldRef(root, ref, schema)
	if !isSeg || rt == nil || VPathType(seg, rt) == nil {
		zzverif.Ensures("rejects", err != nil && f == nil)
	} else {
		zzverif.Ensures("accepts", err == nil && f != nil)
		zzverif.Ensures("type", f.knownType == VPathType(seg, rt))
		zzverif.Ensures("parts", f.Reference == ref && f.Root == root)
	}
}

//verif:contract NewFieldRefFromType
//verif:split ref
//verif:props C11
func SpecNewFieldRefFromType(root RootRefType, ref Reference, t types.Type) {
	_, isSeg := ref.(ReferenceSegment)
	_, isExpr := root.(Expression)
	f, err := NewFieldRefFromType(root, ref, t)
	if !isSeg || root != nil && !isExpr {
		zzverif.Ensures("rejects", err != nil && f == nil)
	} else {
		zzverif.Ensures("accepts", err == nil && f != nil)
		zzverif.Ensures("parts", f.knownType == t && f.Reference == ref && f.Root == root)
	}
}

//verif:contract (*FieldReference).GetType
//verif:props C11
func SpecFieldRefType(f *FieldReference) {
	zzverif.Requires(f != nil)
	zzverif.Ensures("known-type", f.GetType() == f.knownType)
}

// VLambdaType: the type of a reference to a lambda parameter.
func VLambdaType(ctx []*types.StructType, ref *StructFieldRef, out uint32) types.Type {
	if int(out) >= len(ctx) {
		return nil
	}
	return VPathType(ref, ctx[len(ctx)-1-int(out)])
}

//verif:contract (*lambdaParamRefBuilder).getLambdaParamType
//verif:props C11
func SpecLambdaParamType(lpb *lambdaParamRefBuilder) {
	zzverif.Requires(lpb != nil && lpb.b != nil && lpb.ref != nil)
	zzverif.Requires(VPathOK(lpb.ref))
	zzverif.Requires(zzverif.ForAll(len(lpb.b.lambdaContext), func(i int) bool {
		return lpb.b.lambdaContext[i] != nil && types.VConcType(lpb.b.lambdaContext[i])
	}))
	want := VLambdaType(lpb.b.lambdaContext, lpb.ref, lpb.stepsOut)
	t, err := lpb.getLambdaParamType()
	zzverif.Ensures("rejects", (err != nil) == (want == nil))
	zzverif.Ensures("addressed-type", t == want)
}

//verif:contract (*lambdaParamRefBuilder).Build
//verif:props C11
func SpecLambdaParamBuild(lpb *lambdaParamRefBuilder) {
	zzverif.Requires(lpb != nil && lpb.b != nil && lpb.ref != nil)
	zzverif.Requires(VPathOK(lpb.ref))
	zzverif.Requires(zzverif.ForAll(len(lpb.b.lambdaContext), func(i int) bool {
		return lpb.b.lambdaContext[i] != nil && types.VConcType(lpb.b.lambdaContext[i])
	}))
	want := VLambdaType(lpb.b.lambdaContext, lpb.ref, lpb.stepsOut)
	f, err := lpb.Build()
	if want == nil {
		zzverif.Ensures("rejects", err != nil && f == nil)
	} else {
		r, ok := f.Root.(LambdaParameterReference)
		zzverif.Ensures("accepts", err == nil && f != nil)
		zzverif.Ensures("parts", ok && r.StepsOut == lpb.stepsOut && f.Reference == lpb.ref && f.knownType == want)
	}
}

//verif:contract (*fieldRefBuilder).Build
//verif:split rb.ref
//verif:props C11
func SpecFieldRefBuild(rb *fieldRefBuilder) {
	zzverif.Requires(rb != nil && rb.b != nil && vSchemaOK(rb.b.BaseSchema))
	zzverif.Requires(vRootTyped(rb.root))
	seg, isSeg := rb.ref.(ReferenceSegment)
	zzverif.Requires(!isSeg || VPathOK(seg))
	rt := VRootType(rb.root, rb.b.BaseSchema)
	f, err := rb.Build()
	if !isSeg || rt == nil || VPathType(seg, rt) == nil {
		zzverif.Ensures("rejects", err != nil && f == nil)
	} else {
		zzverif.Ensures("accepts", err == nil && f != nil)
		zzverif.Ensures("type", f.knownType == VPathType(seg, rt))
	}
}

// VEncRef: the message p is the encoding of the path r.
//
//verif:logic
func VEncRef(p *proto.Expression_ReferenceSegment, r ReferenceSegment) bool {
	if p == nil {
		return r == nil
	}
	switch k := p.ReferenceType.(type) {
	case *proto.Expression_ReferenceSegment_MapKey_:
		r, ok := r.(*MapKeyRef)
		return ok && k.MapKey != nil && VEncLit(k.MapKey.MapKey, r.MapKey) && (k.MapKey.Child == nil && r.Child == nil || k.MapKey.Child != nil && VEncRef(k.MapKey.Child, r.Child))
	case *proto.Expression_ReferenceSegment_StructField_:
		r, ok := r.(*StructFieldRef)
		return ok && k.StructField != nil && k.StructField.Field == r.Field && (k.StructField.Child == nil && r.Child == nil || k.StructField.Child != nil && VEncRef(k.StructField.Child, r.Child))
	case *proto.Expression_ReferenceSegment_ListElement_:
		r, ok := r.(*ListElementRef)
		return ok && k.ListElement != nil && k.ListElement.Offset == r.Offset && (k.ListElement.Child == nil && r.Child == nil || k.ListElement.Child != nil && VEncRef(k.ListElement.Child, r.Child))
	}
	return r == nil
}

// VWfPRef: a message whose kinds of segment carry their payload.
//
//verif:logic
func VWfPRef(p *proto.Expression_ReferenceSegment) bool {
	if p == nil {
		return true
	}
	switch k := p.ReferenceType.(type) {
	case *proto.Expression_ReferenceSegment_MapKey_:
		return k.MapKey != nil && VWfPLit(k.MapKey.MapKey) && (k.MapKey.Child == nil || VWfPRef(k.MapKey.Child))
	case *proto.Expression_ReferenceSegment_StructField_:
		return k.StructField != nil && (k.StructField.Child == nil || VWfPRef(k.StructField.Child))
	case *proto.Expression_ReferenceSegment_ListElement_:
		return k.ListElement != nil && (k.ListElement.Child == nil || VWfPRef(k.ListElement.Child))
	}
	return true
}

//verif:contract RefSegmentFromProto
//verif:split p.ReferenceType
//verif:props C08 C11
func SpecRefFromProto(p *proto.Expression_ReferenceSegment) {
	zzverif.Requires(VWfPRef(p))
	r := RefSegmentFromProto(p)
	zzverif.Ensures("absent", p != nil || r == nil)
	zzverif.Ensures("decodes", VEncRef(p, r))
	zzverif.Ensures("complete", r == nil || VPathOK(r))
}

// VWfRef: a path whose keys the wire format can carry.
//
//verif:logic
func VWfRef(r ReferenceSegment) bool {
	switch r := r.(type) {
	case *MapKeyRef:
		return VWfLit(r.MapKey) && (r.Child == nil || VWfRef(r.Child))
	case *StructFieldRef:
		return r.Child == nil || VWfRef(r.Child)
	case *ListElementRef:
		return r.Child == nil || VWfRef(r.Child)
	}
	return false
}

//verif:iface ReferenceSegment.ToProto
//verif:props C08 C11
func SpecRefToProto(r ReferenceSegment) {
	zzverif.Requires(VWfRef(r))
	p := r.ToProto()
	zzverif.Ensures("encodes", p != nil && VEncRef(p, r))
	zzverif.Ensures("complete-message", VWfPRef(p))
}

// VEqRef: the same path.
//
//verif:logic
func VEqRef(r, s ReferenceSegment) bool {
	switch r := r.(type) {
	case *MapKeyRef:
		s, ok := s.(*MapKeyRef)
		return ok && VEqLit(r.MapKey, s.MapKey) && (r.Child == s.Child || r.Child != nil && VEqRef(r.Child, s.Child))
	case *StructFieldRef:
		s, ok := s.(*StructFieldRef)
		return ok && r.Field == s.Field && (r.Child == s.Child || r.Child != nil && VEqRef(r.Child, s.Child))
	case *ListElementRef:
		s, ok := s.(*ListElementRef)
		return ok && r.Offset == s.Offset && (r.Child == s.Child || r.Child != nil && VEqRef(r.Child, s.Child))
	}
	return false
}

// VExactRef: the keys of the path compare exactly (no NaN, float zero or
// embedded message).
//
//verif:logic
func VExactRef(r ReferenceSegment) bool {
	switch r := r.(type) {
	case *MapKeyRef:
		return VTyped(r.MapKey) && !VNaN(r.MapKey) && !VLoose(r.MapKey) && !VMsg(r.MapKey) && (r.Child == nil || VExactRef(r.Child))
	case *StructFieldRef:
		return r.Child == nil || VExactRef(r.Child)
	case *ListElementRef:
		return r.Child == nil || VExactRef(r.Child)
	}
	return false
}

//verif:iface ReferenceSegment.Equals
//verif:split s
//verif:props C08 C09
func SpecRefEquals(r, s ReferenceSegment) {
	zzverif.Requires(VExactRef(r))
	zzverif.Requires(s == nil || VPathOK(s))
	zzverif.Ensures("structural", r.Equals(s) == VEqRef(r, s))
}

func vGenWrap(g *zzverif.Gen, t types.Type) types.Type {
	nul := zzverif.OneOf(g, types.NullabilityNullable, types.NullabilityRequired)
	return zzverif.OneOf[types.Type](g, &types.ListType{Nullability: nul, Type: t}, &types.ListType{Nullability: nul, Type: t},
		&types.StructType{Nullability: nul, Types: []types.Type{t}}, &types.MapType{Nullability: nul, Key: t, Value: t})
}

// vGenPath draws a type and a path that addresses a component of it, and now
// and then one that leaves it.
func vGenPath(g *zzverif.Gen, depth int) (ReferenceSegment, types.Type) {
	nul := zzverif.OneOf(g, types.NullabilityNullable, types.NullabilityRequired)
	var child ReferenceSegment
	var inner types.Type
	if depth > 0 && g.Chance(2, 3) {
		child, inner = vGenPath(g, depth-1)
	} else {
		inner = zzverif.Make[types.Type](g)
	}
	var r ReferenceSegment
	var t types.Type
	switch g.Intn(3) {
	case 0:
		key := zzverif.Make[Literal](g)
		if !VTyped(key) {
			key = NewPrimitiveLiteral("k", false)
		}
		r, t = &MapKeyRef{MapKey: key, Child: child}, &types.MapType{Nullability: nul, Key: VLitType(key), Value: inner}
	case 1:
		n := 1 + g.Intn(4)
		ts := make([]types.Type, n)
		for i := range ts {
			ts[i] = zzverif.Make[types.Type](g)
		}
		k := g.Intn(n)
		ts[k] = inner
		f := int32(k)
		if g.Chance(1, 6) {
			f = zzverif.OneOf(g, int32(n), -1, int32(n)+1, 1<<31-1, -1<<31)
		}
		r, t = &StructFieldRef{Field: f, Child: child}, &types.StructType{Nullability: nul, Types: ts}
	default:
		r, t = &ListElementRef{Offset: int32(vGenInt(g)), Child: child}, &types.ListType{Nullability: nul, Type: inner}
	}
	switch g.Intn(16) {
	case 0:
		t = zzverif.Make[types.Type](g)
	case 1:
		// one level of nesting too many
		t = vGenWrap(g, t)
	case 2:
		// a segment too many
		r = zzverif.OneOf[ReferenceSegment](g, &ListElementRef{Child: r}, &StructFieldRef{Child: r})
	}
	return r, t
}

//verif:inputs SpecRefGetType
func VGenRefGetType(g *zzverif.Gen) (ReferenceSegment, types.Type) { return vGenPath(g, 4) }

func vGenSchema(g *zzverif.Gen) (ReferenceSegment, *types.RecordType) {
	n := 1 + g.Intn(4)
	ts := make([]types.Type, n)
	for i := range ts {
		ts[i] = zzverif.Make[types.Type](g)
	}
	k := g.Intn(n)
	var child ReferenceSegment
	if g.Chance(2, 3) {
		child, ts[k] = vGenPath(g, 2)
	}
	f := int32(k)
	if g.Chance(1, 6) {
		f = zzverif.OneOf(g, int32(n), -1, int32(n)+1, 1<<31-1, -1<<31)
	}
	return &StructFieldRef{Field: f, Child: child}, types.NewRecordTypeFromTypes(ts)
}

//verif:inputs SpecNewFieldRef
func VGenNewFieldRef(g *zzverif.Gen) (RootRefType, Reference, *types.RecordType) {
	r, s := vGenSchema(g)
	switch g.Intn(8) {
	case 0:
		return zzverif.OneOf[RootRefType](g, OuterReference(0), LambdaParameterReference{}, OuterReference(3)), r, s
	case 1:
		p, t := vGenPath(g, 2)
		return &FieldReference{Reference: r, knownType: t}, p, s
	case 2:
		return nil, zzverif.OneOf[Reference](g, nil, &MaskExpression{}, r), nil
	case 3:
		return nil, zzverif.OneOf[Reference](g, nil, &MaskExpression{}, r), s
	}
	return nil, r, s
}

//verif:inputs SpecLambdaParamType
//verif:inputs SpecLambdaParamBuild
func VGenLambdaParam(g *zzverif.Gen) *lambdaParamRefBuilder {
	n := 1 + g.Intn(4)
	ctx := make([]*types.StructType, n)
	var ref *StructFieldRef
	for i := range ctx {
		r, s := vGenSchema(g)
		ctx[i] = s.AsStructType()
		if ref == nil || g.Bool() {
			ref = r.(*StructFieldRef)
		}
	}
	return &lambdaParamRefBuilder{b: &ExprBuilder{lambdaContext: ctx}, ref: ref, stepsOut: uint32(g.Intn(n + 1))}
}

//verif:inputs SpecFieldRefBuild
func VGenFieldRefBuild(g *zzverif.Gen) *fieldRefBuilder {
	root, ref, s := VGenNewFieldRef(g)
	return &fieldRefBuilder{b: &ExprBuilder{BaseSchema: s}, root: root, ref: ref}
}

// SpecFieldRefDecode: a decoded reference has the type of the component it
// addresses, whatever expression it is rooted in.
//
//verif:bounded FieldReferenceFromProto
//verif:props C08 C11
func SpecFieldRefDecode(root RootRefType, ref Reference, schema *types.RecordType) {
	seg, ok := ref.(ReferenceSegment)
	zzverif.Requires(ok && VPathOK(seg) && VWfRef(seg))
	zzverif.Requires(schema != nil && vSchemaOK(schema) && vRootTyped(root))
	rt := VRootType(root, schema)
	if in, ok := root.(*FieldReference); ok {
		// the type of the root is itself resolved on decoding
		iseg, ok := in.Reference.(ReferenceSegment)
		zzverif.Requires(ok && in.Root == nil && VWfRef(iseg))
		rt = VPathType(iseg, schema.AsStructType())
		if rt != nil && !types.VEqType(rt, in.knownType) {
			return
		}
		if rt == nil {
			_, err := FieldReferenceFromProto((&FieldReference{Reference: ref, Root: root}).ToProtoFieldRef(), schema, ExtensionRegistry{})
			zzverif.Ensures("root-rejected", err != nil)
			return
		}
	}
	f, err := FieldReferenceFromProto((&FieldReference{Reference: ref, Root: root}).ToProtoFieldRef(), schema, ExtensionRegistry{})
	if rt == nil {
		zzverif.Ensures("untyped-root", err == nil && f.knownType == nil && f.Root == root)
		return
	}
	want := VPathType(seg, rt)
	zzverif.Ensures("rejects", (err != nil) == (want == nil))
	zzverif.Ensures("type", want == nil || f.GetType() == want)
	zzverif.Ensures("path", want == nil || VEqRef(f.Reference.(ReferenceSegment), seg))
}

//verif:inputs SpecFieldRefDecode
func VGenFieldRefDecode(g *zzverif.Gen) (RootRefType, Reference, *types.RecordType) {
	root, ref, s := VGenNewFieldRef(g)
	if in, ok := root.(*FieldReference); ok && g.Chance(3, 4) {
		// make the root resolve to the type its own path needs
		n := int32(len(s.Types()))
		col := in.knownType
		rootRef := &StructFieldRef{Field: n}
		if g.Bool() {
			col = &types.StructType{Types: []types.Type{zzverif.Make[types.Type](g), in.knownType}, Nullability: types.NullabilityRequired}
			rootRef.Child = &StructFieldRef{Field: 1}
		}
		if g.Chance(1, 3) {
			col = &types.ListType{Type: col, Nullability: types.NullabilityNullable}
			rootRef.Child = &ListElementRef{Offset: int32(g.Intn(3)), Child: rootRef.Child}
		}
		ts := append(append([]types.Type{}, s.Types()...), col)
		return &FieldReference{Reference: rootRef, knownType: in.knownType}, ref, types.NewRecordTypeFromTypes(ts)
	}
	return root, ref, s
}
