package plan

import (
	"github.com/substrait-io/substrait-go/v8/expr"
	"github.com/substrait-io/substrait-go/v8/types"
	"github.com/substrait-io/substrait-go/v8/zzverif"
)

// Grouping sets of aggregations: what each builder operation adds, that
// nothing else of the builder changes, and that the relation built has
// exactly the builder's parts.

//verif:contract (*AggregateRelBuilder).AddExpression
//verif:nouse
//verif:props C20
func SpecAddExpression(arb *AggregateRelBuilder, e expr.Expression) {
	zzverif.Requires(arb != nil && len(arb.groupingExpressions) < 1<<31)
	zzverif.Modifies(arb)
	zzverif.Modifies(arb.groupingExpressions)
	was := *arb
	n := len(was.groupingExpressions)
	got := arb.AddExpression(e)
	if zzverif.Exists(n, func(i int) bool { return was.groupingExpressions[i] == e }) {
		zzverif.Ensures("known", int(got) < n && was.groupingExpressions[int(got)] == e)
		zzverif.Ensures("unchanged", zzverif.Same(*arb, was))
		return
	}
	zzverif.Ensures("new", int(got) == n)
	zzverif.Ensures("stored", len(arb.groupingExpressions) == n+1 && arb.groupingExpressions[n] == e &&
		zzverif.ForAll(n, func(i int) bool { return arb.groupingExpressions[i] == was.groupingExpressions[i] }))
	want := was
	want.groupingExpressions = arb.groupingExpressions
	zzverif.Ensures("rest", zzverif.Same(*arb, want))
}

//verif:gen
func VGenAggBuilder(g *zzverif.Gen) *AggregateRelBuilder {
	b := VGenAgg(g).ToBuilder()
	switch g.Intn(8) {
	case 0:
		b.ClearGrouping()
	case 1:
		b.ClearMeasures()
	case 2:
		b.groupingExpressions = append(b.groupingExpressions, nil)
	case 3:
		b.AddGroupingSet([]uint32{uint32(g.Intn(len(b.groupingExpressions) + 2))})
	case 4:
		b.input = nil
	}
	return b
}

//verif:inputs SpecAddExpression
func VGenAddExpression(g *zzverif.Gen) (*AggregateRelBuilder, expr.Expression) {
	b := VGenAggBuilder(g)
	if n := len(b.groupingExpressions); n > 0 && g.Bool() {
		return b, b.groupingExpressions[g.Intn(n)]
	}
	return b, expr.VExprOver(g, types.NewRecordTypeFromTypes(nil), 1)
}

// the first n grouping sets are those of before
func vSetsKept(now, was [][]uint32) bool {
	return len(now) >= len(was) && zzverif.ForAll(len(was), func(i int) bool {
		return vSameRefs(now[i], was[i])
	})
}

//verif:contract (*AggregateRelBuilder).AddGroupingSet
//verif:nouse
//verif:props C20
func SpecAddGroupingSet(arb *AggregateRelBuilder, refs []uint32) {
	zzverif.Requires(arb != nil)
	zzverif.Modifies(arb)
	zzverif.Modifies(arb.groupingReferences)
	was := *arb
	n := len(was.groupingReferences)
	arb.AddGroupingSet(refs)
	zzverif.Ensures("one", len(arb.groupingReferences) == n+1)
	zzverif.Ensures("kept", vSetsKept(arb.groupingReferences, was.groupingReferences))
	zzverif.Ensures("added", len(arb.groupingReferences[n]) == len(refs) &&
		zzverif.ForAll(len(refs), func(i int) bool { return arb.groupingReferences[n][i] == refs[i] }))
	want := was
	want.groupingReferences = arb.groupingReferences
	zzverif.Ensures("rest", zzverif.Same(*arb, want))
}

//verif:bounded (*AggregateRelBuilder).AddRollup
//verif:nouse
//verif:props C20
func SpecAddRollup(arb *AggregateRelBuilder, refs []uint32) {
	zzverif.Requires(arb != nil)
	zzverif.Modifies(arb)
	zzverif.Modifies(arb.groupingReferences)
	was := *arb
	n := len(was.groupingReferences)
	arb.AddRollup(refs)
	zzverif.Ensures("number", len(arb.groupingReferences) == n+len(refs))
	zzverif.Ensures("kept", vSetsKept(arb.groupingReferences, was.groupingReferences))
	zzverif.Ensures("prefixes", zzverif.ForAll(len(refs), func(k int) bool {
		return len(arb.groupingReferences[n+k]) == len(refs)-k &&
			zzverif.ForAll(len(refs)-k, func(i int) bool { return arb.groupingReferences[n+k][i] == refs[i] })
	}))
	want := was
	want.groupingReferences = arb.groupingReferences
	zzverif.Ensures("rest", zzverif.Same(*arb, want))
}

//verif:inputs SpecAddGroupingSet
//verif:inputs SpecAddRollup
//verif:inputs SpecAddCube
func VGenAddSet(g *zzverif.Gen) (*AggregateRelBuilder, []uint32) {
	refs := make([]uint32, g.Intn(7))
	for i := range refs {
		refs[i] = uint32(g.Intn(6))
	}
	if g.Chance(1, 20) {
		refs = make([]uint32, 21+g.Intn(3))
	}
	return VGenAggBuilder(g), refs
}

// the subset of refs that the bits of c choose
func vChosen(refs []uint32, c int) []uint32 {
	var out []uint32
	for i, r := range refs {
		if c>>i&1 == 1 {
			out = append(out, r)
		}
	}
	return out
}

//verif:bounded (*AggregateRelBuilder).AddCube
//verif:weight 4
//verif:props C20
func SpecAddCube(arb *AggregateRelBuilder, refs []uint32) {
	zzverif.Requires(arb != nil && (len(refs) <= 10 || len(refs) > maxGroupingSize))
	zzverif.Modifies(arb)
	zzverif.Modifies(arb.groupingReferences)
	was := *arb
	n := len(was.groupingReferences)
	given := append([]uint32(nil), refs...)
	err := arb.AddCube(refs)
	zzverif.Ensures("refused", (err != nil) == (len(refs) > maxGroupingSize))
	if err != nil {
		zzverif.Ensures("unchanged", zzverif.Same(*arb, was))
		return
	}
	m := 1<<len(refs) - 1
	zzverif.Ensures("number", len(arb.groupingReferences) == n+m)
	zzverif.Ensures("kept", vSetsKept(arb.groupingReferences, was.groupingReferences))
	zzverif.Ensures("subsets", zzverif.ForAll(m, func(k int) bool {
		return vSameRefs(arb.groupingReferences[n+k], vChosen(given, k+1))
	}))
	zzverif.Ensures("argument", vSameRefs(refs, given))
	want := was
	want.groupingReferences = arb.groupingReferences
	zzverif.Ensures("rest", zzverif.Same(*arb, want))
}

func vSameRefs(a, b []uint32) bool {
	return len(a) == len(b) && zzverif.ForAll(len(a), func(i int) bool { return a[i] == b[i] })
}

// the builder describes an aggregation
func vBuildable(b *AggregateRelBuilder) bool {
	return b.input != nil && (len(b.measures) > 0 || len(b.groupingReferences) > 0 && len(b.groupingExpressions) > 0) &&
		zzverif.ForAll(len(b.groupingExpressions), func(i int) bool { return b.groupingExpressions[i] != nil }) &&
		zzverif.ForAll(len(b.groupingReferences), func(i int) bool {
			return zzverif.ForAll(len(b.groupingReferences[i]), func(j int) bool {
				return int(b.groupingReferences[i][j]) < len(b.groupingExpressions)
			})
		})
}

//verif:contract (*AggregateRelBuilder).Build
//verif:nouse
//verif:props C20 C18
func SpecBuildAggregate(arb *AggregateRelBuilder) {
	zzverif.Requires(arb != nil && len(arb.groupingExpressions) < 1<<31)
	r, err := arb.Build()
	zzverif.Ensures("refused", (err != nil) == !vBuildable(arb))
	if err != nil {
		zzverif.Ensures("nothing", r == nil)
		return
	}
	zzverif.Ensures("new", r != nil && zzverif.IsFresh(r))
	if r != nil {
		zzverif.Ensures("input", r.input == arb.input && r.mapping == nil && r.hint == nil && r.RelCommon.advExtension == nil && r.advExtension == nil)
		zzverif.Ensures("measures", zzverif.Same(r.measures, arb.measures))
		zzverif.Ensures("groups", zzverif.Same(r.groupingExpressions, arb.groupingExpressions) && zzverif.Same(r.groupingReferences, arb.groupingReferences))
	}
}

//verif:inputs SpecBuildAggregate
func VGenBuildAggregate(g *zzverif.Gen) *AggregateRelBuilder { return VGenAggBuilder(g) }

//verif:contract (*AggregateRel).ToBuilder
//verif:nouse
//verif:props C20
func SpecAggToBuilder(r *AggregateRel) {
	zzverif.Requires(r != nil)
	b := r.ToBuilder()
	zzverif.Ensures("new", b != nil && zzverif.IsFresh(b))
	if b != nil {
		zzverif.Ensures("input", b.input == r.input)
		zzverif.Ensures("measures", len(b.measures) == len(r.measures) &&
			zzverif.ForAll(len(r.measures), func(i int) bool { return zzverif.Same(b.measures[i], r.measures[i]) }))
		zzverif.Ensures("expressions", len(b.groupingExpressions) == len(r.groupingExpressions) &&
			zzverif.ForAll(len(r.groupingExpressions), func(i int) bool { return b.groupingExpressions[i] == r.groupingExpressions[i] }))
		zzverif.Ensures("sets", len(b.groupingReferences) == len(r.groupingReferences) && vSetsKept(b.groupingReferences, r.groupingReferences))
	}
}

//verif:bounded (*AggregateRel).ToProto
//verif:weight 3
//verif:props C20 C17
func SpecAggToProto(r *AggregateRel) {
	zzverif.Requires(r != nil && r.input != nil && zzverif.ForAll(len(r.groupingExpressions), func(i int) bool { return r.groupingExpressions[i] != nil }) &&
		zzverif.ForAll(len(r.measures), func(i int) bool { return r.measures[i].measure != nil }))
	p := r.ToProto().GetAggregate()
	zzverif.Ensures("sets", len(p.Groupings) == len(r.groupingReferences) && zzverif.ForAll(len(r.groupingReferences), func(i int) bool {
		return p.Groupings[i] != nil && zzverif.Same(p.Groupings[i].ExpressionReferences, r.groupingReferences[i])
	}))
	zzverif.Ensures("number", len(p.GroupingExpressions) == len(r.groupingExpressions) && len(p.Measures) == len(r.measures))
	zzverif.Ensures("extension", p.AdvancedExtension == r.advExtension)
}

// every expression of the groups is stored once and each reference leads to
// an expression equal to the one given
//
//verif:bounded groupingExprs
//verif:weight 3
//verif:props C20
func SpecGroupingExprs(groups [][]expr.Expression) {
	zzverif.Requires(zzverif.ForAll(len(groups), func(i int) bool {
		return zzverif.ForAll(len(groups[i]), func(j int) bool { return groups[i][j] != nil })
	}))
	exprs, refs := groupingExprs(groups)
	zzverif.Ensures("sets", len(refs) == len(groups) && zzverif.ForAll(len(groups), func(i int) bool {
		return len(refs[i]) == len(groups[i]) && zzverif.ForAll(len(groups[i]), func(j int) bool {
			return int(refs[i][j]) < len(exprs) && exprs[refs[i][j]].Equals(groups[i][j])
		})
	}))
	zzverif.Ensures("once", zzverif.ForAll(len(exprs), func(i int) bool {
		return zzverif.ForAll(i, func(j int) bool { return !exprs[j].Equals(exprs[i]) })
	}))
	used := make([]bool, len(exprs))
	for _, g := range refs {
		for _, r := range g {
			used[r] = true
		}
	}
	zzverif.Ensures("used", zzverif.ForAll(len(used), func(i int) bool { return used[i] }))
}

//verif:inputs SpecGroupingExprs
func VGenGroups(g *zzverif.Gen) [][]expr.Expression {
	var pool []expr.Expression
	for i := 1 + g.Intn(4); i > 0; i-- {
		pool = append(pool, expr.VExprOver(g, types.NewRecordTypeFromTypes(nil), 1))
	}
	pool = append(pool, zzverif.Clone(pool[0]))
	out := make([][]expr.Expression, g.Intn(4))
	for i := range out {
		for j := g.Intn(4); j > 0; j-- {
			out[i] = append(out[i], pool[g.Intn(len(pool))])
		}
	}
	return out
}

//verif:bounded (*builder).AggregateExprs
//verif:props C20 C18
func SpecAggregateExprs(input Rel, measures []AggRelMeasure, groups [][]expr.Expression) {
	given := make([][]expr.Expression, len(groups))
	bad := input == nil || len(measures) == 0 && len(groups) == 0
	any := len(measures) > 0
	for i, g := range groups {
		given[i] = append([]expr.Expression(nil), g...)
		for _, e := range g {
			bad = bad || e == nil
			any = true
		}
	}
	r, err := vBuilder.AggregateExprs(input, measures, groups...)
	zzverif.Ensures("refused", (err != nil) == (bad || !any))
	if err != nil {
		return
	}
	zzverif.Ensures("parts", r.input == input && zzverif.Same(r.measures, measures))
	zzverif.Ensures("sets", len(r.groupingReferences) == len(given) && zzverif.ForAll(len(given), func(i int) bool {
		return len(r.groupingReferences[i]) == len(given[i]) && zzverif.ForAll(len(given[i]), func(j int) bool {
			return r.groupingExpressions[r.groupingReferences[i][j]] == given[i][j]
		})
	}))
	zzverif.Ensures("once", zzverif.ForAll(len(r.groupingExpressions), func(i int) bool {
		return zzverif.ForAll(i, func(j int) bool { return r.groupingExpressions[i] != r.groupingExpressions[j] })
	}))
	zzverif.Ensures("arguments", zzverif.ForAll(len(given), func(i int) bool {
		return len(given[i]) == len(groups[i]) && zzverif.ForAll(len(given[i]), func(j int) bool { return given[i][j] == groups[i][j] })
	}))
}

var vBuilder = NewBuilderDefault()

//verif:inputs SpecAggregateExprs
func VGenAggregateExprs(g *zzverif.Gen) (Rel, []AggRelMeasure, [][]expr.Expression) {
	b := VGenAggBuilder(g)
	groups := VGenGroups(g)
	if g.Chance(1, 10) && len(groups) > 0 {
		groups[0] = append(groups[0], nil)
	}
	return b.input, b.measures, groups
}

//verif:bounded (*builder).AggregateColumns
//verif:props C20 C18
func SpecAggregateColumns(input Rel, measures []AggRelMeasure, cols []int32) {
	bad := input == nil || len(measures) == 0 && len(cols) == 0
	if input != nil {
		w := int(input.RecordType().FieldCount())
		for _, c := range cols {
			bad = bad || c < 0 || int(c) >= w
		}
	}
	r, err := vBuilder.AggregateColumns(input, measures, cols...)
	zzverif.Ensures("refused", (err != nil) == bad)
	if err != nil {
		return
	}
	zzverif.Ensures("parts", r.input == input && zzverif.Same(r.measures, measures))
	if len(cols) == 0 {
		zzverif.Ensures("none", len(r.groupingReferences) == 0 && len(r.groupingExpressions) == 0)
		return
	}
	zzverif.Ensures("set", len(r.groupingReferences) == 1 && len(r.groupingReferences[0]) == len(cols) && zzverif.ForAll(len(cols), func(j int) bool {
		f, ok := r.groupingExpressions[r.groupingReferences[0][j]].(*expr.FieldReference)
		if !ok {
			return false
		}
		s, ok := f.Reference.(*expr.StructFieldRef)
		return ok && s.Field == cols[j] && s.Child == nil && f.Root == expr.RootReference
	}))
}

//verif:inputs SpecAggregateColumns
func VGenAggregateColumns(g *zzverif.Gen) (Rel, []AggRelMeasure, []int32) {
	b := VGenAggBuilder(g)
	var cols []int32
	if b.input != nil {
		w := int(b.input.RecordType().FieldCount())
		for i := g.Intn(4); i > 0; i-- {
			cols = append(cols, int32(g.Intn(w+2))-int32(g.Intn(8)/7))
		}
	}
	return b.input, b.measures, cols
}
