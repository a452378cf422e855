package plan

import (
	"github.com/substrait-io/substrait-go/v8/expr"
	"github.com/substrait-io/substrait-go/v8/types"
	"github.com/substrait-io/substrait-go/v8/zzverif"
)

//verif:puredyn Rel.RecordType
//verif:puredyn Rel.directOutputSchema

// vNulled: t with every column nullable.
func vNulled(ts []types.Type) []types.Type {
	var out []types.Type
	for _, t := range ts {
		out = append(out, t.WithNullability(types.NullabilityNullable))
	}
	return out
}

// vDirect is the oracle of the replay: the columns a relation prescribes.
func vDirect(r Rel) []types.Type {
	switch r := r.(type) {
	case *NamedTableReadRel:
		return r.baseSchema.Struct.Types
	case *VirtualTableReadRel:
		return r.baseSchema.Struct.Types
	case *ExtensionTableReadRel:
		return r.baseSchema.Struct.Types
	case *IcebergTableReadRel:
		return r.baseSchema.Struct.Types
	case *LocalFileReadRel:
		return r.baseSchema.Struct.Types
	case *FilterRel:
		return vOut(r.input)
	case *SortRel:
		return vOut(r.input)
	case *FetchRel:
		return vOut(r.input)
	case *ProjectRel:
		out := append([]types.Type{}, vOut(r.input)...)
		for _, e := range r.exprs {
			out = append(out, e.GetType())
		}
		return out
	case *CrossRel:
		return append(append([]types.Type{}, vOut(r.left)...), vOut(r.right)...)
	case *JoinRel:
		return vJoined(r.joinType, vOut(r.left), vOut(r.right))
	case *HashJoinRel:
		return vJoined(vLogical(r.joinType), vOut(r.left), vOut(r.right))
	case *MergeJoinRel:
		return vJoined(vLogical(r.joinType), vOut(r.left), vOut(r.right))
	case *AggregateRel:
		out := []types.Type{}
		for _, g := range r.groupingReferences {
			for _, k := range g {
				out = append(out, r.groupingExpressions[k].GetType())
			}
		}
		for _, m := range r.measures {
			out = append(out, m.measure.GetType())
		}
		return out
	case *SetRel:
		return vOut(r.inputs[0])
	case *ExtensionSingleRel:
		return r.definition.Schema([]Rel{r.input}).Types()
	case *ExtensionLeafRel:
		return r.definition.Schema([]Rel{}).Types()
	case *ExtensionMultiRel:
		return r.definition.Schema(r.inputs).Types()
	case *NamedTableWriteRel:
		if r.outputMode == OutputModeModifiedRecords {
			return r.tableSchema.Struct.Types
		}
	}
	return nil
}

func vJoined(jt JoinType, l, r []types.Type) []types.Type {
	switch jt {
	case JoinTypeLeftSemi, JoinTypeLeftAnti:
		return l
	case JoinTypeRightSemi, JoinTypeRightAnti:
		return r
	case JoinTypeOuter:
		l, r = vNulled(l), vNulled(r)
	case JoinTypeLeft, JoinTypeLeftSingle:
		r = vNulled(r)
	case JoinTypeRight, JoinTypeRightSingle:
		l = vNulled(l)
	}
	return append(append([]types.Type{}, l...), r...)
}

// vLogical: the join a hash or merge join implements.
func vLogical(t HashMergeJoinType) JoinType {
	switch t {
	case HashMergeOuter:
		return JoinTypeOuter
	case HashMergeLeft:
		return JoinTypeLeft
	case HashMergeRight:
		return JoinTypeRight
	case HashMergeLeftSemi:
		return JoinTypeLeftSemi
	case HashMergeRightSemi:
		return JoinTypeRightSemi
	case HashMergeLeftAnti:
		return JoinTypeLeftAnti
	case HashMergeRightAnti:
		return JoinTypeRightAnti
	}
	return JoinTypeInner
}

// vOut: the columns after mapping.
func vOut(r Rel) []types.Type {
	d, m := vDirect(r), vMapping(r)
	if m == nil {
		return d
	}
	out := []types.Type{}
	for _, i := range m {
		out = append(out, d[i])
	}
	return out
}

func vMapping(r Rel) []int32 {
	switch r := r.(type) {
	case *NamedTableReadRel:
		return r.mapping
	case *VirtualTableReadRel:
		return r.mapping
	case *ExtensionTableReadRel:
		return r.mapping
	case *IcebergTableReadRel:
		return r.mapping
	case *LocalFileReadRel:
		return r.mapping
	case *FilterRel:
		return r.mapping
	case *SortRel:
		return r.mapping
	case *FetchRel:
		return r.mapping
	case *ProjectRel:
		return r.mapping
	case *CrossRel:
		return r.mapping
	case *JoinRel:
		return r.mapping
	case *HashJoinRel:
		return r.mapping
	case *MergeJoinRel:
		return r.mapping
	case *AggregateRel:
		return r.mapping
	case *SetRel:
		return r.mapping
	case *ExtensionSingleRel:
		return r.mapping
	case *ExtensionLeafRel:
		return r.mapping
	case *ExtensionMultiRel:
		return r.mapping
	case *NamedTableWriteRel:
		return r.mapping
	}
	return nil
}

// SpecSchema: the schema of every relation, inputs and all, is the prescribed
// one (replayed: the composition of the contracts below).
//
//verif:bounded
//verif:weight 10
//verif:props C16
func SpecSchema(r Rel) {
	zzverif.Requires(vKnown(r))
	want, direct := vOut(r), vDirect(r)
	got := r.RecordType()
	zzverif.Ensures("columns", vEqCols(got.Types(), want))
	zzverif.Ensures("direct", vEqCols(r.directOutputSchema().Types(), direct))
	again := r.RecordType()
	zzverif.Ensures("again", vEqCols(again.Types(), want))
}

func vKnown(r Rel) bool { return r != nil && !zzverif.Same(r, Rel(nil)) }

func vEqCols(a, b []types.Type) bool {
	return len(a) == len(b) && zzverif.ForAll(len(a), func(i int) bool { return types.VEqType(a[i], b[i]) })
}

// vCol: the same column; in the replay, where schemas are computed anew, an
// equal one.
func vCol(a, b types.Type) bool {
	if zzverif.Prove() {
		return a == b
	}
	return types.VEqType(a, b)
}

// vCols: the same columns.
func vCols(a, b []types.Type) bool {
	return len(a) == len(b) && zzverif.ForAll(len(a), func(i int) bool { return vCol(a[i], b[i]) })
}

// vIndexOK: the mapping refers to n columns.
func vIndexOK(m []int32, n int) bool {
	return zzverif.ForAll(len(m), func(i int) bool { return m[i] >= 0 && int(m[i]) < n })
}

// vMapped: out is d under the mapping m.
func vMapped(m []int32, out, d []types.Type) bool {
	if m == nil {
		return vCols(out, d)
	}
	return len(out) == len(m) && zzverif.ForAll(len(m), func(i int) bool { return vCol(out[i], d[m[i]]) })
}

//verif:contract (*RelCommon).remap
//verif:props C15 C16
func SpecRemapCommon(rc *RelCommon, initial types.RecordType) {
	zzverif.Requires(rc != nil && vIndexOK(rc.mapping, len(initial.Types())))
	r := rc.remap(initial)
	zzverif.Ensures("columns", vMapped(rc.mapping, r.Types(), initial.Types()))
	zzverif.Ensures("kept", rc.mapping != nil || zzverif.Same(r.Types(), initial.Types()))
}

//verif:inputs SpecRemapCommon
func VGenRemapCommon(g *zzverif.Gen) (*RelCommon, types.RecordType) {
	s := vNamed(g)
	c := vCommon(g, len(s.Struct.Types))
	return &c, *types.NewRecordTypeFromStruct(s.Struct)
}

//verif:contract (*FilterRel).directOutputSchema
//verif:props C16
func SpecFilterSchema(r *FilterRel) {
	zzverif.Requires(r != nil && r.input != nil)
	zzverif.Ensures("columns", vCols(r.directOutputSchema().Types(), r.input.RecordType().Types()))
}

//verif:contract (*SortRel).directOutputSchema
//verif:props C16
func SpecSortSchema(r *SortRel) {
	zzverif.Requires(r != nil && r.input != nil)
	zzverif.Ensures("columns", vCols(r.directOutputSchema().Types(), r.input.RecordType().Types()))
}

//verif:contract (*FetchRel).directOutputSchema
//verif:props C16
func SpecFetchSchema(r *FetchRel) {
	zzverif.Requires(r != nil && r.input != nil)
	zzverif.Ensures("columns", vCols(r.directOutputSchema().Types(), r.input.RecordType().Types()))
}

//verif:contract (*SetRel).directOutputSchema
//verif:props C16
func SpecSetSchema(r *SetRel) {
	zzverif.Requires(r != nil && len(r.inputs) > 0 && r.inputs[0] != nil)
	zzverif.Ensures("columns", vCols(r.directOutputSchema().Types(), r.inputs[0].RecordType().Types()))
}

//verif:contract (*CrossRel).directOutputSchema
//verif:props C16
func SpecCrossSchema(r *CrossRel) {
	zzverif.Requires(r != nil && r.left != nil && r.right != nil)
	d, left, right := r.directOutputSchema().Types(), r.left.RecordType().Types(), r.right.RecordType().Types()
	zzverif.Ensures("width", len(d) == len(left)+len(right))
	zzverif.Ensures("left", zzverif.ForAll(len(left), func(i int) bool { return vCol(d[i], left[i]) }))
	zzverif.Ensures("right", zzverif.ForAll(len(right), func(i int) bool { return vCol(d[len(left)+i], right[i]) }))
	zzverif.Ensures("own", len(d) == 0 || zzverif.IsFresh(d))
}

// vExprs: present.
func vExprs(es []expr.Expression) bool {
	return zzverif.ForAll(len(es), func(i int) bool { return es[i] != nil })
}

//verif:contract (*ProjectRel).directOutputSchema
//verif:props C16
func SpecProjectSchema(r *ProjectRel) {
	zzverif.Requires(r != nil && r.input != nil && vExprs(r.exprs))
	d, in := r.directOutputSchema().Types(), r.input.RecordType().Types()
	zzverif.Ensures("width", len(d) == len(in)+len(r.exprs))
	zzverif.Ensures("input", zzverif.ForAll(len(in), func(i int) bool { return vCol(d[i], in[i]) }))
	zzverif.Ensures("computed", zzverif.ForAll(len(r.exprs), func(i int) bool { return vCol(d[len(in)+i], r.exprs[i].GetType()) }))
	zzverif.Ensures("own", len(d) == 0 || zzverif.IsFresh(d))
}

//verif:contract (*baseReadRel).directOutputSchema
//verif:props C16
func SpecReadSchema(r *baseReadRel) {
	zzverif.Requires(r != nil)
	zzverif.Ensures("columns", vCols(r.directOutputSchema().Types(), r.baseSchema.Struct.Types))
}

//verif:contract (*NamedTableWriteRel).directOutputSchema
//verif:props C16
func SpecWriteSchema(r *NamedTableWriteRel) {
	zzverif.Requires(r != nil && (r.outputMode == OutputModeNoOutput || r.outputMode == OutputModeModifiedRecords))
	d := r.directOutputSchema().Types()
	if r.outputMode == OutputModeNoOutput {
		zzverif.Ensures("none", len(d) == 0)
	} else {
		zzverif.Ensures("columns", vCols(d, r.tableSchema.Struct.Types))
	}
}

// vNulls: t is column c made nullable.
func vNulls(t, c types.Type) bool {
	return types.VNullOf(t) == types.NullabilityNullable && types.VSameExceptNullability(c, t)
}

// vJoinWidth: the number of columns of a join.
func vJoinWidth(jt JoinType, l, r []types.Type) int {
	switch jt {
	case JoinTypeLeftSemi, JoinTypeLeftAnti:
		return len(l)
	case JoinTypeRightSemi, JoinTypeRightAnti:
		return len(r)
	}
	return len(l) + len(r)
}

// vJoinCol: t is what column k of a join becomes.
func vJoinCol(jt JoinType, l, r []types.Type, k int, t types.Type) bool {
	switch jt {
	case JoinTypeInner, JoinTypeLeftSemi, JoinTypeLeftAnti:
		if k < len(l) {
			return vCol(t, l[k])
		}
		return vCol(t, r[k-len(l)])
	case JoinTypeRightSemi, JoinTypeRightAnti:
		return vCol(t, r[k])
	case JoinTypeOuter:
		if k < len(l) {
			return vNulls(t, l[k])
		}
		return vNulls(t, r[k-len(l)])
	case JoinTypeLeft, JoinTypeLeftSingle:
		if k < len(l) {
			return vCol(t, l[k])
		}
		return vNulls(t, r[k-len(l)])
	case JoinTypeRight, JoinTypeRightSingle:
		if k < len(l) {
			return vNulls(t, l[k])
		}
		return vCol(t, r[k-len(l)])
	}
	return false
}

// vTyped: complete columns.
func vTyped(ts []types.Type) bool {
	return zzverif.ForAll(len(ts), func(i int) bool { return types.VActual(ts[i]) })
}

//verif:contract (*JoinRel).directOutputSchema
//verif:props C16
func SpecJoinSchema(r *JoinRel) {
	zzverif.Requires(r != nil && r.left != nil && r.right != nil && r.joinType >= JoinTypeInner && r.joinType <= JoinTypeRightSingle)
	left, right := r.left.RecordType().Types(), r.right.RecordType().Types()
	zzverif.Requires(vTyped(left) && vTyped(right) && len(left) < 1<<30 && len(right) < 1<<30)
	d := r.directOutputSchema().Types()
	zzverif.Ensures("width", len(d) == vJoinWidth(r.joinType, left, right))
	zzverif.Ensures("columns", zzverif.ForAll(len(d), func(i int) bool { return vJoinCol(r.joinType, left, right, i, d[i]) }))
}

func vHashType(t HashMergeJoinType) bool { return t >= HashMergeInner && t <= HashMergeRightAnti }

//verif:contract (*HashJoinRel).directOutputSchema
//verif:props C16
func SpecHashJoinSchema(r *HashJoinRel) {
	zzverif.Requires(r != nil && r.left != nil && r.right != nil && vHashType(r.joinType))
	left, right := r.left.RecordType().Types(), r.right.RecordType().Types()
	zzverif.Requires(vTyped(left) && vTyped(right) && len(left) < 1<<30 && len(right) < 1<<30)
	d := r.directOutputSchema().Types()
	zzverif.Ensures("width", len(d) == vJoinWidth(vLogical(r.joinType), left, right))
	zzverif.Ensures("columns", zzverif.ForAll(len(d), func(i int) bool { return vJoinCol(vLogical(r.joinType), left, right, i, d[i]) }))
}

//verif:contract (*MergeJoinRel).directOutputSchema
//verif:props C16
func SpecMergeJoinSchema(r *MergeJoinRel) {
	zzverif.Requires(r != nil && r.left != nil && r.right != nil && vHashType(r.joinType))
	left, right := r.left.RecordType().Types(), r.right.RecordType().Types()
	zzverif.Requires(vTyped(left) && vTyped(right) && len(left) < 1<<30 && len(right) < 1<<30)
	d := r.directOutputSchema().Types()
	zzverif.Ensures("width", len(d) == vJoinWidth(vLogical(r.joinType), left, right))
	zzverif.Ensures("columns", zzverif.ForAll(len(d), func(i int) bool { return vJoinCol(vLogical(r.joinType), left, right, i, d[i]) }))
}

func vAggOK(r *AggregateRel) bool {
	return r != nil && vExprs(r.groupingExpressions) &&
		zzverif.ForAll(len(r.groupingReferences), func(i int) bool {
			return zzverif.ForAll(len(r.groupingReferences[i]), func(j int) bool {
				return int(r.groupingReferences[i][j]) < len(r.groupingExpressions)
			})
		}) && zzverif.ForAll(len(r.measures), func(i int) bool { return r.measures[i].measure != nil })
}

// Replayed only: the invariants of its nested loops are out of reach.
//
//verif:bounded
//verif:props C16
func SpecAggSchema(r *AggregateRel) {
	zzverif.Requires(vAggOK(r))
	zzverif.Ensures("columns", vEqCols(r.directOutputSchema().Types(), vDirect(r)))
}

//verif:contract (*ExtensionSingleRel).directOutputSchema
//verif:props C16
func SpecExtSingleSchema(r *ExtensionSingleRel) {
	zzverif.Requires(r != nil && r.input != nil && r.definition != nil)
	if _, ok := r.definition.(*UndecodedExtension); ok {
		zzverif.Ensures("columns", vCols(r.directOutputSchema().Types(), r.input.RecordType().Types()))
	}
}

//verif:contract (*UndecodedExtension).Schema
//verif:props C16
func SpecUndecodedSchema(e *UndecodedExtension, inputs []Rel) {
	zzverif.Requires(e != nil && zzverif.ForAll(len(inputs), func(i int) bool { return inputs[i] != nil }))
	s := e.Schema(inputs).Types()
	if len(inputs) == 1 {
		zzverif.Ensures("input", vCols(s, inputs[0].RecordType().Types()))
	} else {
		zzverif.Ensures("unknown", len(s) == 0)
	}
}

//verif:contract (*FilterRel).RecordType
//verif:props C15 C16
func SpecFilterRecord(r *FilterRel) {
	zzverif.Requires(r != nil && r.input != nil)
	d := r.input.RecordType().Types()
	zzverif.Requires(vIndexOK(r.mapping, len(d)))
	zzverif.Ensures("columns", vMapped(r.mapping, r.RecordType().Types(), d))
}

//verif:contract (*SortRel).RecordType
//verif:props C15 C16
func SpecSortRecord(r *SortRel) {
	zzverif.Requires(r != nil && r.input != nil)
	d := r.input.RecordType().Types()
	zzverif.Requires(vIndexOK(r.mapping, len(d)))
	zzverif.Ensures("columns", vMapped(r.mapping, r.RecordType().Types(), d))
}

//verif:contract (*FetchRel).RecordType
//verif:props C15 C16
func SpecFetchRecord(r *FetchRel) {
	zzverif.Requires(r != nil && r.input != nil)
	d := r.input.RecordType().Types()
	zzverif.Requires(vIndexOK(r.mapping, len(d)))
	zzverif.Ensures("columns", vMapped(r.mapping, r.RecordType().Types(), d))
}

//verif:contract (*SetRel).RecordType
//verif:props C15 C16
func SpecSetRecord(r *SetRel) {
	zzverif.Requires(r != nil && len(r.inputs) > 0 && r.inputs[0] != nil)
	d := r.inputs[0].RecordType().Types()
	zzverif.Requires(vIndexOK(r.mapping, len(d)))
	zzverif.Ensures("columns", vMapped(r.mapping, r.RecordType().Types(), d))
}

//verif:contract (*NamedTableReadRel).RecordType
//verif:props C15 C16
func SpecNamedReadRecord(r *NamedTableReadRel) {
	zzverif.Requires(r != nil)
	d := r.baseSchema.Struct.Types
	zzverif.Requires(vIndexOK(r.mapping, len(d)))
	zzverif.Ensures("columns", vMapped(r.mapping, r.RecordType().Types(), d))
}

//verif:contract (*IcebergTableReadRel).RecordType
//verif:props C15 C16
func SpecIcebergRecord(r *IcebergTableReadRel) {
	zzverif.Requires(r != nil)
	d := r.baseSchema.Struct.Types
	zzverif.Requires(vIndexOK(r.mapping, len(d)))
	zzverif.Ensures("columns", vMapped(r.mapping, r.RecordType().Types(), d))
}

//verif:contract (*baseReadRel).RecordType
//verif:props C15 C16
func SpecBaseReadRecord(r *baseReadRel) {
	zzverif.Requires(r != nil)
	d := r.baseSchema.Struct.Types
	zzverif.Requires(vIndexOK(r.mapping, len(d)))
	zzverif.Ensures("columns", vMapped(r.mapping, r.RecordType().Types(), d))
}

//verif:contract (*CrossRel).RecordType
//verif:props C15 C16
func SpecCrossRecord(r *CrossRel) {
	zzverif.Requires(r != nil && r.left != nil && r.right != nil)
	d := r.directOutputSchema().Types()
	zzverif.Requires(vIndexOK(r.mapping, len(d)))
	zzverif.Ensures("columns", vMapped(r.mapping, r.RecordType().Types(), d))
}

//verif:contract (*ProjectRel).RecordType
//verif:props C15 C16
func SpecProjectRecord(r *ProjectRel) {
	zzverif.Requires(r != nil && r.input != nil && vExprs(r.exprs))
	d := r.directOutputSchema().Types()
	zzverif.Requires(vIndexOK(r.mapping, len(d)))
	zzverif.Ensures("columns", vMapped(r.mapping, r.RecordType().Types(), d))
}

//verif:contract (*JoinRel).RecordType
//verif:props C15 C16
func SpecJoinRelRecord(r *JoinRel) {
	zzverif.Requires(r != nil && r.left != nil && r.right != nil && r.joinType >= JoinTypeInner && r.joinType <= JoinTypeRightSingle)
	left, right := r.left.RecordType().Types(), r.right.RecordType().Types()
	zzverif.Requires(vTyped(left) && vTyped(right) && len(left) < 1<<30 && len(right) < 1<<30)
	n := vJoinWidth(r.joinType, left, right)
	zzverif.Requires(vIndexOK(r.mapping, n))
	out := r.RecordType().Types()
	if r.mapping == nil {
		zzverif.Ensures("width", len(out) == n)
		zzverif.Ensures("columns", zzverif.ForAll(n, func(i int) bool { return vJoinCol(r.joinType, left, right, i, out[i]) }))
	} else {
		zzverif.Ensures("width", len(out) == len(r.mapping))
		zzverif.Ensures("columns", zzverif.ForAll(len(out), func(i int) bool { return vJoinCol(r.joinType, left, right, int(r.mapping[i]), out[i]) }))
	}
}

//verif:contract (*HashJoinRel).RecordType
//verif:props C15 C16
func SpecHashJoinRelRecord(r *HashJoinRel) {
	zzverif.Requires(r != nil && r.left != nil && r.right != nil && vHashType(r.joinType))
	left, right := r.left.RecordType().Types(), r.right.RecordType().Types()
	zzverif.Requires(vTyped(left) && vTyped(right) && len(left) < 1<<30 && len(right) < 1<<30)
	n := vJoinWidth(vLogical(r.joinType), left, right)
	zzverif.Requires(vIndexOK(r.mapping, n))
	out := r.RecordType().Types()
	if r.mapping == nil {
		zzverif.Ensures("width", len(out) == n)
		zzverif.Ensures("columns", zzverif.ForAll(n, func(i int) bool { return vJoinCol(vLogical(r.joinType), left, right, i, out[i]) }))
	} else {
		zzverif.Ensures("width", len(out) == len(r.mapping))
		zzverif.Ensures("columns", zzverif.ForAll(len(out), func(i int) bool { return vJoinCol(vLogical(r.joinType), left, right, int(r.mapping[i]), out[i]) }))
	}
}

//verif:contract (*MergeJoinRel).RecordType
//verif:props C15 C16
func SpecMergeJoinRelRecord(r *MergeJoinRel) {
	zzverif.Requires(r != nil && r.left != nil && r.right != nil && vHashType(r.joinType))
	left, right := r.left.RecordType().Types(), r.right.RecordType().Types()
	zzverif.Requires(vTyped(left) && vTyped(right) && len(left) < 1<<30 && len(right) < 1<<30)
	n := vJoinWidth(vLogical(r.joinType), left, right)
	zzverif.Requires(vIndexOK(r.mapping, n))
	out := r.RecordType().Types()
	if r.mapping == nil {
		zzverif.Ensures("width", len(out) == n)
		zzverif.Ensures("columns", zzverif.ForAll(n, func(i int) bool { return vJoinCol(vLogical(r.joinType), left, right, i, out[i]) }))
	} else {
		zzverif.Ensures("width", len(out) == len(r.mapping))
		zzverif.Ensures("columns", zzverif.ForAll(len(out), func(i int) bool { return vJoinCol(vLogical(r.joinType), left, right, int(r.mapping[i]), out[i]) }))
	}
}
