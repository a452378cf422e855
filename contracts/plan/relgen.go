package plan

import (
	"github.com/substrait-io/substrait-go/v8/expr"
	"github.com/substrait-io/substrait-go/v8/extensions"
	"github.com/substrait-io/substrait-go/v8/types"
	"github.com/substrait-io/substrait-go/v8/zzverif"
	"google.golang.org/protobuf/types/known/anypb"
)

// Generators of relations for the replay of contracts: the columns their
// expressions and mappings refer to exist.

func vColumn(g *zzverif.Gen) types.Type {
	n := zzverif.OneOf(g, types.NullabilityRequired, types.NullabilityNullable)
	switch g.Intn(6) {
	case 0:
		return &types.Int32Type{Nullability: n}
	case 1:
		return &types.BooleanType{Nullability: n}
	case 2:
		return &types.StringType{Nullability: n}
	case 3:
		return &types.StructType{Nullability: n, Types: []types.Type{&types.Int64Type{Nullability: n}, &types.DecimalType{Nullability: n, Precision: 20, Scale: 3}}}
	case 4:
		return &types.ListType{Nullability: n, Type: &types.Int32Type{Nullability: types.NullabilityRequired}}
	}
	return &types.Int64Type{Nullability: n}
}

func vNamed(g *zzverif.Gen) types.NamedStruct {
	s := types.NamedStruct{Struct: types.StructType{Nullability: types.NullabilityRequired, Types: []types.Type{}}}
	for i := g.Intn(4); i >= 0; i-- {
		s.Struct.Types = append(s.Struct.Types, vColumn(g))
	}
	for i := s.Struct.DepthFirstNameCount(); i > 0; i-- {
		s.Names = append(s.Names, g.Str())
	}
	return s
}

func vAny(g *zzverif.Gen) *anypb.Any {
	if g.Bool() {
		return nil
	}
	return &anypb.Any{TypeUrl: "t/" + g.Str(), Value: []byte(g.Str())}
}

func vAdv(g *zzverif.Gen) *extensions.AdvancedExtension {
	if g.Chance(2, 3) {
		return nil
	}
	return &extensions.AdvancedExtension{Enhancement: vAny(g)}
}

// vCommon: a mapping onto n columns.
func vCommon(g *zzverif.Gen, n int) RelCommon {
	c := RelCommon{advExtension: vAdv(g)}
	if g.Chance(1, 4) {
		c.hint = &Hint{Alias: g.Str()}
	}
	if g.Chance(2, 5) {
		c.mapping = []int32{}
		for i := g.Intn(4); i > 0 && n > 0; i-- {
			c.mapping = append(c.mapping, int32(g.Intn(n)))
		}
	}
	return c
}

// vWidth: the number of columns before mapping.
func vWidth(r Rel) int { return len(vDirect(r)) }

func vBase(g *zzverif.Gen) baseReadRel {
	b := baseReadRel{baseSchema: vNamed(g), advExtension: vAdv(g)}
	s := types.NewRecordTypeFromStruct(b.baseSchema.Struct)
	b.RelCommon = vCommon(g, len(s.Types()))
	if g.Chance(1, 3) {
		b.filter = expr.VBoolOver(g, s)
	}
	if g.Chance(1, 3) {
		b.bestEffortFilter = expr.VBoolOver(g, s)
	}
	if g.Chance(1, 4) {
		b.projection = expr.VGenMask(g)
	}
	return b
}

//verif:gen
func VGenBaseRead(g *zzverif.Gen) *baseReadRel {
	b := vBase(g)
	return &b
}

// vIn draws an input.
func vIn(g *zzverif.Gen) Rel {
	if g.Depth() <= 0 || g.Chance(2, 5) {
		return VGenNamedRead(g)
	}
	var r Rel
	g.Deeper(func() {
		for r == nil {
			r = zzverif.Make[Rel](g)
		}
	})
	return r
}

//verif:gen
func VGenNamedRead(g *zzverif.Gen) *NamedTableReadRel {
	return &NamedTableReadRel{baseReadRel: vBase(g), names: []string{g.Str()}, advExtension: vAdv(g)}
}

//verif:gen
func VGenVirtual(g *zzverif.Gen) *VirtualTableReadRel {
	v := &VirtualTableReadRel{baseReadRel: vBase(g)}
	v.filter, v.bestEffortFilter = nil, nil
	var ts []types.Type
	for i := g.Intn(3); i >= 0; i-- {
		ts = append(ts, &types.Int32Type{Nullability: types.NullabilityRequired})
	}
	v.baseSchema.Struct.Types = ts
	v.baseSchema.Names = nil
	for range ts {
		v.baseSchema.Names = append(v.baseSchema.Names, g.Str())
	}
	v.RelCommon = vCommon(g, len(ts))
	s := types.NewRecordTypeFromTypes(ts)
	if g.Bool() {
		v.filter = expr.VBoolOver(g, s)
	}
	if g.Bool() {
		v.bestEffortFilter = expr.VBoolOver(g, s)
	}
	for i := g.Intn(3); i > 0; i-- {
		var row expr.VirtualTableExpressionValue
		for range ts {
			if g.Chance(1, 3) {
				row = append(row, &expr.DynamicParameter{OutputType: ts[0], ParameterReference: uint32(g.Intn(3))})
			} else {
				row = append(row, expr.NewPrimitiveLiteral(int32(g.Intn(4)), false))
			}
		}
		v.values = append(v.values, row)
	}
	return v
}

//verif:gen
func VGenExtTable(g *zzverif.Gen) *ExtensionTableReadRel {
	return &ExtensionTableReadRel{baseReadRel: vBase(g), detail: vAny(g)}
}

//verif:gen
func VGenIceberg(g *zzverif.Gen) *IcebergTableReadRel {
	d := &Direct{MetadataUri: g.Str()}
	switch g.Intn(3) {
	case 0:
		d.SnapshotId = SnapshotId("s" + g.Str())
	case 1:
		d.SnapshotTimestamp = SnapshotTimestamp(g.Intn(5) + 1)
	}
	return &IcebergTableReadRel{baseReadRel: vBase(g), tableType: d}
}

//verif:gen
func VGenLocal(g *zzverif.Gen) *LocalFileReadRel {
	l := &LocalFileReadRel{baseReadRel: vBase(g), advExtension: vAdv(g)}
	for i := g.Intn(3); i > 0; i-- {
		f := FileOrFiles{PathType: PathType(g.Intn(4)), Path: g.Str(), PartIndex: uint64(g.Intn(3)), Start: uint64(g.Intn(3)), Len: uint64(g.Intn(3))}
		switch g.Intn(6) {
		case 0:
			f.Format = &ParquetReadOptions{}
		case 1:
			f.Format = &ArrowReadOptions{}
		case 2:
			f.Format = &OrcReadOptions{}
		case 3:
			f.Format = &DwrfReadOptions{}
		case 4:
			f.Format = &ExtensionReadOptions{TypeUrl: "t/" + g.Str()}
		}
		l.items = append(l.items, f)
	}
	return l
}

func vOver(g *zzverif.Gen, in Rel) *types.RecordType {
	return types.NewRecordTypeFromTypes(vOut(in))
}

func vBoth(l, r Rel) *types.RecordType {
	return types.NewRecordTypeFromTypes(append(append([]types.Type{}, vOut(l)...), vOut(r)...))
}

//verif:gen
func VGenProject(g *zzverif.Gen) *ProjectRel {
	r := &ProjectRel{input: vIn(g), advExtension: vAdv(g)}
	for i := g.Intn(3); i >= 0; i-- {
		r.exprs = append(r.exprs, expr.VExprOver(g, vOver(g, r.input), 2))
	}
	r.RelCommon = vCommon(g, vWidth(r))
	return r
}

//verif:gen
func VGenFilter(g *zzverif.Gen) *FilterRel {
	r := &FilterRel{input: vIn(g), advExtension: vAdv(g)}
	r.cond = expr.VBoolOver(g, vOver(g, r.input))
	r.RelCommon = vCommon(g, vWidth(r))
	return r
}

//verif:gen
func VGenFetch(g *zzverif.Gen) *FetchRel {
	r := &FetchRel{input: vIn(g), advExtension: vAdv(g), offset: int64(g.Intn(4)), count: int64(g.Intn(4))}
	r.RelCommon = vCommon(g, vWidth(r))
	return r
}

//verif:gen
func VGenSortRel(g *zzverif.Gen) *SortRel {
	r := &SortRel{input: vIn(g), advExtension: vAdv(g)}
	for i := g.Intn(3); i >= 0; i-- {
		r.sorts = append(r.sorts, expr.VGenSort(g, expr.VExprOver(g, vOver(g, r.input), 1)))
	}
	r.RelCommon = vCommon(g, vWidth(r))
	return r
}

//verif:gen
func VGenJoin(g *zzverif.Gen) *JoinRel {
	r := &JoinRel{left: vIn(g), right: vIn(g), advExtension: vAdv(g), joinType: JoinType(1 + g.Intn(10))}
	s := vBoth(r.left, r.right)
	r.expr = expr.VBoolOver(g, s)
	if g.Chance(1, 3) {
		r.postJoinFilter = expr.VBoolOver(g, s)
	}
	r.RelCommon = vCommon(g, vWidth(r))
	return r
}

//verif:gen
func VGenCross(g *zzverif.Gen) *CrossRel {
	r := &CrossRel{left: vIn(g), right: vIn(g), advExtension: vAdv(g)}
	r.RelCommon = vCommon(g, vWidth(r))
	return r
}

func vKeys(g *zzverif.Gen, left, right Rel) []*ComparisonJoinKey {
	ks := []*ComparisonJoinKey{}
	l, r := vOver(g, left), vOver(g, right)
	if len(l.Types()) == 0 || len(r.Types()) == 0 {
		return ks
	}
	eq := g.Bool()
	for i := g.Intn(3); i > 0; i-- {
		var c JoinKeyComparison = SimpleComparison{Type: SimpleComparisonTypeEq}
		if !eq {
			c = zzverif.OneOf[JoinKeyComparison](g, c, SimpleComparison{Type: SimpleComparisonTypeIsNotDistinctFrom}, CustomComparison{FunctionReference: uint32(g.Intn(4))})
		}
		ks = append(ks, &ComparisonJoinKey{left: vRef(g, l), right: vRef(g, r), comparison: c})
	}
	return ks
}

func vRef(g *zzverif.Gen, s *types.RecordType) *expr.FieldReference {
	f := expr.VGenColumn(g, s)
	f.Root = expr.RootReference
	return f
}

//verif:gen
func VGenHashJoin(g *zzverif.Gen) *HashJoinRel {
	r := &HashJoinRel{left: vIn(g), right: vIn(g), advExtension: vAdv(g), joinType: HashMergeJoinType(1 + g.Intn(8))}
	r.keys = vKeys(g, r.left, r.right)
	s := vBoth(r.left, r.right)
	if g.Chance(1, 3) {
		r.postJoinFilter = expr.VBoolOver(g, s)
	}
	r.RelCommon = vCommon(g, vWidth(r))
	return r
}

//verif:gen
func VGenMergeJoin(g *zzverif.Gen) *MergeJoinRel {
	r := &MergeJoinRel{left: vIn(g), right: vIn(g), advExtension: vAdv(g), joinType: HashMergeJoinType(1 + g.Intn(8))}
	r.keys = vKeys(g, r.left, r.right)
	s := vBoth(r.left, r.right)
	if g.Chance(1, 3) {
		r.postJoinFilter = expr.VBoolOver(g, s)
	}
	r.RelCommon = vCommon(g, vWidth(r))
	return r
}

//verif:gen
func VGenAgg(g *zzverif.Gen) *AggregateRel {
	r := &AggregateRel{input: vIn(g), advExtension: vAdv(g), groupingReferences: [][]uint32{}}
	s := vOver(g, r.input)
	for i := g.Intn(4); i > 0; i-- {
		r.groupingExpressions = append(r.groupingExpressions, expr.VExprOver(g, s, 1))
	}
	if n := len(r.groupingExpressions); n > 0 {
		for i := g.Intn(3); i >= 0; i-- {
			refs := []uint32{}
			for j := g.Intn(3); j > 0; j-- {
				refs = append(refs, uint32(g.Intn(n)))
			}
			r.groupingReferences = append(r.groupingReferences, refs)
		}
	}
	for i := g.Intn(3); i > 0; i-- {
		m := AggRelMeasure{measure: expr.VAggOver(g, s)}
		if g.Chance(1, 3) {
			m.filter = expr.VBoolOver(g, s)
		}
		r.measures = append(r.measures, m)
	}
	r.RelCommon = vCommon(g, vWidth(r))
	return r
}

//verif:gen
func VGenSet(g *zzverif.Gen) *SetRel {
	in := vIn(g)
	r := &SetRel{inputs: []Rel{in}, advExtension: vAdv(g), op: SetOp(1 + g.Intn(6))}
	ts := vOut(in)
	for i := g.Intn(2); i >= 0; i-- {
		n := VGenNamedRead(g)
		n.baseSchema.Struct.Types, n.baseSchema.Names, n.mapping, n.filter, n.bestEffortFilter = ts, nil, nil, nil, nil
		for j := n.baseSchema.Struct.DepthFirstNameCount(); j > 0; j-- {
			n.baseSchema.Names = append(n.baseSchema.Names, g.Str())
		}
		r.inputs = append(r.inputs, n)
	}
	if g.Chance(1, 4) {
		r.inputs = append(r.inputs, in)
	}
	r.RelCommon = vCommon(g, vWidth(r))
	return r
}

//verif:gen
func VGenExtSingle(g *zzverif.Gen) *ExtensionSingleRel {
	r := &ExtensionSingleRel{input: vIn(g), definition: &UndecodedExtension{detail: vAny(g)}}
	r.RelCommon = vCommon(g, vWidth(r))
	r.advExtension = nil
	return r
}

//verif:gen
func VGenExtLeaf(g *zzverif.Gen) *ExtensionLeafRel {
	return &ExtensionLeafRel{definition: &UndecodedExtension{detail: vAny(g)}}
}

//verif:gen
func VGenExtMulti(g *zzverif.Gen) *ExtensionMultiRel {
	r := &ExtensionMultiRel{definition: &UndecodedExtension{detail: vAny(g)}, inputs: []Rel{}}
	for i := g.Intn(3); i > 0; i-- {
		r.inputs = append(r.inputs, vIn(g))
	}
	r.RelCommon = vCommon(g, vWidth(r))
	return r
}

//verif:gen
func VGenWrite(g *zzverif.Gen) *NamedTableWriteRel {
	r := &NamedTableWriteRel{names: []string{g.Str()}, advExtension: vAdv(g), tableSchema: vNamed(g), input: vIn(g),
		op: zzverif.OneOf(g, WriteOpInsert, WriteOpDelete, WriteOpCTAS), outputMode: zzverif.OneOf(g, OutputModeNoOutput, OutputModeModifiedRecords)}
	r.RelCommon = vCommon(g, vWidth(r))
	return r
}
