PRE='''
package expr_test
import (
 "testing"
 "github.com/substrait-io/substrait-go/v8/expr"
 "github.com/substrait-io/substrait-go/v8/extensions"
 "github.com/substrait-io/substrait-go/v8/types"
)
var _ = extensions.NewSet
var _ types.Type
'''
WIN='''
func window(t *testing.T, lo, hi expr.Bound) *expr.WindowFunction {
 reg := expr.NewEmptyExtensionRegistry(extensions.GetDefaultCollectionWithNoError())
 w, err := expr.NewCustomWindowFunc(reg, extensions.NewWindowFuncVariant(extensions.FunctionID{URN: "extension:a:b", Name: "f:any"}),
  &types.Int64Type{Nullability: types.NullabilityRequired}, nil, types.AggInvocationAll, types.AggPhaseInitialToResult, expr.NewPrimitiveLiteral(int32(1), false))
 if err != nil { t.Fatal(err) }
 w.LowerBound, w.UpperBound = lo, hi
 return w
}
'''
BUGS=[
dict(id='C08-a',prop='C08',pkg='expr',
 edits=[('expr/functions.go','''		return PrecedingBound(t.Preceding.Offset)
''','''		if t.Preceding.Offset == 0 {
			// nothing before the current row
			return CurrentRow{}
		}
		return PrecedingBound(t.Preceding.Offset)
''')],
 demo=PRE+'''
func TestDemo(t *testing.T) {
 b := expr.BoundFromProto(expr.PrecedingBound(0).ToProto())
 if b != expr.Bound(expr.PrecedingBound(0)) { t.Fatalf("decoded %T %v", b, b) }
}
''',needs='a window function with a preceding bound of offset 0',breaks='the decoded bound is another one than the encoded'),
dict(id='C08-b',prop='C08',pkg='expr',
 edits=[('expr/expression.go','''	for i, o := range ex.Options {
		opts[i] = &proto.Expression_MultiOrList_Record{
			Fields: toSlice(o),
		}
	}
''','''	for i, o := range ex.Options {
		if i > 0 && len(o) <= len(ex.Options[i-1]) && slices.EqualFunc(o, ex.Options[i-1][:len(o)], exprEqual) {
			// repeated record
			opts[i] = opts[i-1]
			continue
		}
		opts[i] = &proto.Expression_MultiOrList_Record{
			Fields: toSlice(o),
		}
	}
''')],
 demo=PRE+'''
func TestDemo(t *testing.T) {
 one, two := expr.NewPrimitiveLiteral(int32(1), false), expr.NewPrimitiveLiteral(int32(2), false)
 e := &expr.MultiOrList{Value: []expr.Expression{one}, Options: [][]expr.Expression{{one, two}, {one}}}
 p := e.ToProto().GetMultiOrList()
 if len(p.Options[0].Fields) != 2 || len(p.Options[1].Fields) != 1 { t.Fatalf("%v", p) }
}
''',needs='a record that is a proper prefix of the record before it',breaks='the record is encoded as the longer one before it'),
dict(id='C09-a',prop='C09',pkg='expr',
 edits=[('expr/functions.go','''	case w.LowerBound != rhs.LowerBound || w.UpperBound != rhs.UpperBound:
		return false
''','''	case w.BoundsType != types.BoundsTypeUnspecified && (w.LowerBound != rhs.LowerBound || w.UpperBound != rhs.UpperBound):
		// without a bounds type there is no frame to compare
		return false
''')],
 demo=PRE+WIN+'''
func TestDemo(t *testing.T) {
 a, b := window(t, expr.PrecedingBound(1), expr.CurrentRow{}), window(t, expr.PrecedingBound(2), expr.CurrentRow{})
 if !a.Equals(window(t, expr.PrecedingBound(1), expr.CurrentRow{})) { t.Fatal("not equal to itself") }
 if a.Equals(b) { t.Fatal("different bounds compare equal") }
}
''',needs='two window functions of unspecified bounds type that differ only in a bound',breaks='different window functions compare equal'),
dict(id='C09-b',prop='C09',pkg='expr',
 edits=[('expr/expression.go','''	if !ex.Value.Equals(rhs.Value) {
		return false
	}

	return slices.EqualFunc(ex.Options, rhs.Options, exprEqual)
''','''	if !ex.Value.Equals(rhs.Value) || len(ex.Options) != len(rhs.Options) {
		return false
	}

	// the order of the options does not matter
	for _, o := range ex.Options {
		if !slices.ContainsFunc(rhs.Options, o.Equals) {
			return false
		}
	}
	return true
''')],
 demo=PRE+'''
func TestDemo(t *testing.T) {
 one, two := expr.NewPrimitiveLiteral(int32(1), false), expr.NewPrimitiveLiteral(int32(2), false)
 a := &expr.SingularOrList{Value: one, Options: []expr.Expression{one, one, two}}
 b := &expr.SingularOrList{Value: one, Options: []expr.Expression{one, two, two}}
 c := &expr.SingularOrList{Value: one, Options: []expr.Expression{one, one, one}}
 if !a.Equals(&expr.SingularOrList{Value: one, Options: []expr.Expression{one, one, two}}) { t.Fatal("not equal to a copy") }
 if c.Equals(a) || a.Equals(b) { t.Fatal("different lists compare equal") }
}
''',needs='lists with the same options in another order or number of repetitions',breaks='equality is no longer structural (nor symmetric)'),
dict(id='C10-a',prop='C10',pkg='expr',
 edits=[('expr/expression.go','''			Value:   temp,
			Options: make([]Expression, len(ex.Options)),
		}
	}
''','''			Value:   temp,
			Options: ex.Options,
		}
	}
''')],
 demo=PRE+'''
func TestDemo(t *testing.T) {
 one, two, three := expr.NewPrimitiveLiteral(int32(1), false), expr.NewPrimitiveLiteral(int32(2), false), expr.NewPrimitiveLiteral(int32(3), false)
 e := &expr.SingularOrList{Value: one, Options: []expr.Expression{two, one}}
 r := e.Visit(func(x expr.Expression) expr.Expression { if x == expr.Expression(one) { return three }; return x })
 if r.(*expr.SingularOrList).Options[1] != expr.Expression(three) { t.Fatal("not rewritten") }
 if e.Options[1] != expr.Expression(one) { t.Fatal("the original changed") }
}
''',needs='a visitor that replaces the value and one of the options of an in-list',breaks='the original list of options is overwritten'),
dict(id='C10-b',prop='C10',pkg='expr',
 edits=[('expr/expression.go','''	newInput := visit(ex.Input)
	if newInput == ex.Input {
		return ex
	}
	newCast := *ex
	newCast.Input = newInput
	return &newCast
''','''	newInput := visit(ex.Input)
	if newInput == ex.Input {
		return ex
	}
	if inner, ok := newInput.(*Cast); ok && inner.Type.Equals(ex.Type) {
		// casting twice to the same type is casting once
		return inner
	}
	newCast := *ex
	newCast.Input = newInput
	return &newCast
''')],
 demo=PRE+'''
func TestDemo(t *testing.T) {
 one := expr.NewPrimitiveLiteral(int32(1), false)
 i64 := &types.Int64Type{Nullability: types.NullabilityRequired}
 e := &expr.Cast{Type: i64, Input: one, FailureBehavior: types.BehaviorReturnNil}
 in := &expr.Cast{Type: i64, Input: one, FailureBehavior: types.BehaviorThrowException}
 r := e.Visit(func(x expr.Expression) expr.Expression { return in }).(*expr.Cast)
 if r.Input != expr.Expression(in) || r.FailureBehavior != types.BehaviorReturnNil { t.Fatalf("%v", r) }
}
''',needs='a visitor that turns the input of a cast into a cast to the same type',breaks='the outer cast, and its failure behaviour, is lost'),
]
P='''
package plan_test
import (
 "testing"
 "github.com/substrait-io/substrait-go/v8/expr"
 "github.com/substrait-io/substrait-go/v8/plan"
 "github.com/substrait-io/substrait-go/v8/types"
)
var demoB = plan.NewBuilderDefault()
func scan(t *testing.T, name string, n int, null types.Nullability) plan.Rel {
 s := types.NamedStruct{Struct: types.StructType{Nullability: types.NullabilityRequired}}
 for i := 0; i < n; i++ {
  s.Names = append(s.Names, string(rune('a'+i)))
  if i%2 == 0 { s.Struct.Types = append(s.Struct.Types, &types.Int32Type{Nullability: null}) } else { s.Struct.Types = append(s.Struct.Types, &types.StringType{Nullability: null}) }
 }
 return demoB.NamedScan([]string{name}, s)
}
func must[T any](v T, err error) func(*testing.T) T { return func(t *testing.T) T { t.Helper(); if err != nil { t.Fatal(err) }; return v } }
var _ expr.Expression
'''
BUGS += [
dict(id='C15-a',prop='C15',pkg='plan',
 edits=[('plan/relations.go','''	if len(newMapping) == int(r.directOutputSchema().FieldCount()) && isSequentialFromZero(newMapping) {''','''	if len(newMapping) == int(nOutput) && isSequentialFromZero(newMapping) {''')],
 demo=P+'''
func TestDemo(t *testing.T) {
 r := scan(t, "t", 3, types.NullabilityRequired)
 a := must(r.Remap(1, 0))(t)
 b := must(a.Remap(1, 0))(t)
 if n := b.RecordType().FieldCount(); n != 2 { t.Fatalf("%d columns instead of 2", n) }
}
''',needs='a mapping that drops trailing columns, then one that puts the remaining ones in their original order',breaks='the second mapping is dropped as an identity, and the columns removed by the first come back'),
dict(id='C15-b',prop='C15',pkg='plan',
 edits=[('plan/relations.go','''func (c *CrossRel) Copy(newInputs ...Rel) (Rel, error) {
	if len(newInputs) != 2 {
		return nil, substraitgo.ErrInvalidInputCount
	}
''','''func (c *CrossRel) Copy(newInputs ...Rel) (Rel, error) {
	if len(newInputs) != 2 {
		return nil, substraitgo.ErrInvalidInputCount
	}
	if c.mapping == nil && newInputs[0] == c.left && newInputs[1] == c.right {
		// nothing to replace
		return c, nil
	}
''')],
 demo=P+'''
func TestDemo(t *testing.T) {
 r := must(demoB.Cross(scan(t, "l", 2, types.NullabilityRequired), scan(t, "r", 1, types.NullabilityRequired)))(t)
 x := must(r.Remap(2, 0))(t)
 if x.RecordType().FieldCount() != 2 { t.Fatal("not mapped") }
 if r.RecordType().FieldCount() != 3 || r.OutputMapping() != nil { t.Fatal("the relation it was applied to is changed") }
}
''',needs='a mapping applied to a cross product without one, which is used afterwards',breaks='the mapping is set on the original relation'),
dict(id='C16-a',prop='C16',pkg='plan',
 edits=[('plan/relations.go','''		typeList = append(typeList, left.Types()...)
		for _, r := range right.Types() {
			typeList = append(typeList, r.WithNullability(types.NullabilityNullable))
		}
''','''		typeList = append(typeList, left.Types()...)
		for _, r := range right.Types() {
			if _, ok := r.(*types.StructType); ok && r.GetNullability() == types.NullabilityUnspecified {
				typeList = append(typeList, r)
				continue
			}
			if j.joinType == JoinTypeLeftSingle && len(j.mapping) == 0 && left.FieldCount() == 0 {
				typeList = append(typeList, r)
				continue
			}
			typeList = append(typeList, r.WithNullability(types.NullabilityNullable))
		}
''')],
 demo=P+'''
func TestDemo(t *testing.T) {
 l := must(scan(t, "l", 1, types.NullabilityRequired).Remap())(t)
 j := must(demoB.Join(l, scan(t, "r", 2, types.NullabilityRequired), expr.NewPrimitiveLiteral(true, false), plan.JoinTypeLeftSingle))(t)
 for _, c := range j.RecordType().Types() {
  if c.GetNullability() != types.NullabilityNullable { t.Fatalf("%v", c) }
 }
}
''',needs='a left single join whose left input has no columns',breaks='the columns of the optional side are not nullable'),
dict(id='C16-b',prop='C16',pkg='plan',
 edits=[('plan/relations.go','''			expression := ar.groupingExpressions[e]
			groupTypes = append(groupTypes, expression.GetType())
''','''			expression := ar.groupingExpressions[e]
			groupType := expression.GetType()
			if len(ar.groupingReferences) > 1 && len(g) == 1 {
				// absent from the other grouping sets
				groupType = groupType.WithNullability(types.NullabilityNullable)
			}
			groupTypes = append(groupTypes, groupType)
''')],
 demo=P+'''
func TestDemo(t *testing.T) {
 in := scan(t, "t", 2, types.NullabilityRequired)
 b := demoB.GetRelBuilder().AggregateRel(in, nil)
 ref := func(i int32) expr.Expression { return must(demoB.RootFieldRef(in, i))(t) }
 x, y := b.AddExpression(ref(0)), b.AddExpression(ref(1))
 b.AddGroupingSet([]uint32{x})
 b.AddGroupingSet([]uint32{x, y})
 r := must(b.Build())(t)
 for i, c := range r.RecordType().Types() {
  if c.GetNullability() != types.NullabilityRequired { t.Fatalf("%d: %v", i, c) }
 }
}
''',needs='an aggregation with several grouping sets, one of a single expression',breaks='the grouping column is reported nullable'),
dict(id='C19-a',prop='C19',pkg='plan',
 edits=[('plan/relations.go','''		measuresAreEqual = measuresAreEqual && newMeasures[i].filter == m.filter && newMeasures[i].measure == m.measure
''','''		measuresAreEqual = newMeasures[i].measure == m.measure && (m.filter == nil || measuresAreEqual && newMeasures[i].filter == m.filter)
''')],
 demo=P+'''
func TestDemo(t *testing.T) {
 in := scan(t, "t", 2, types.NullabilityRequired)
 one, two := expr.NewPrimitiveLiteral(int32(1), false), expr.NewPrimitiveLiteral(int32(2), false)
 mk := func(a expr.Literal) plan.AggRelMeasure {
  f := must(demoB.AggregateFn("extension:io.substrait:functions_arithmetic", "sum", nil, a))(t)
  return demoB.Measure(f, nil)
 }
 r := must(demoB.AggregateColumns(in, []plan.AggRelMeasure{mk(one), mk(two)}, 0))(t)
 out := must(r.CopyWithExpressionRewrite(func(e expr.Expression) (expr.Expression, error) {
  if e == expr.Expression(one) { return two, nil }
  return e, nil
 }, in))(t)
 m := out.(*plan.AggregateRel).Measures()
 if m[0].ToProto().Measure.Arguments[0].GetValue().GetLiteral().GetI32() != 2 { t.Fatal("the first measure was not rewritten") }
}
''',needs='an aggregation with two unfiltered measures of which only the first is rewritten',breaks='the rewrite is dropped'),
dict(id='C19-b',prop='C19',pkg='plan',
 edits=[('plan/relations.go','''	if slices.Equal(exprs, currExprs) && slices.Equal(newInputs, j.GetInputs()) {
		return j, nil
	}
	join := *j
	join.left, join.right = newInputs[0], newInputs[1]
	join.expr, join.postJoinFilter = exprs[0], exprs[1]
	return &join, nil
''','''	if slices.Equal(exprs, currExprs) && slices.Equal(newInputs, j.GetInputs()) {
		return j, nil
	}
	join := *j
	if j.postJoinFilter == nil && exprs[1] != nil && exprs[1] == exprs[0] {
		// the join condition already says so
		exprs[1] = nil
	}
	join.left, join.right = newInputs[0], newInputs[1]
	join.expr, join.postJoinFilter = exprs[0], exprs[1]
	return &join, nil
''')],
 demo=P+'''
func TestDemo(t *testing.T) {
 l, r := scan(t, "l", 1, types.NullabilityRequired), scan(t, "r", 1, types.NullabilityRequired)
 j := must(demoB.Join(l, r, expr.NewPrimitiveLiteral(true, false), plan.JoinTypeLeft))(t)
 f := expr.NewPrimitiveLiteral(false, false)
 out := must(j.CopyWithExpressionRewrite(func(e expr.Expression) (expr.Expression, error) { return f, nil }, l, r))(t)
 if out.(*plan.JoinRel).PostJoinFilter() != expr.Expression(f) { t.Fatal("the filter the rewrite supplied is missing") }
}
''',needs='a join without a post-join filter and a rewrite that gives one expression for both',breaks='the supplied filter is dropped'),
]
