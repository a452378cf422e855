exec(open('/verif/tools/bugs/b5.py').read())
BUGS=[
dict(id='C20-a',prop='C20',pkg='plan',
 edits=[('plan/builders.go','''		rollupSet := groupingReferences[:i]
''','''		rollupSet := groupingReferences[:i]
		if i > 2 && rollupSet[i-1] == rollupSet[0] {
			// grouping by a column again adds no level
			continue
		}
''')],
 demo=P+'''
func TestDemo(t *testing.T) {
 b := must(demoB.AggregateColumns(scan(t, "t", 2, types.NullabilityRequired), nil, 0, 1))(t).ToBuilder()
 b.ClearGrouping()
 x, y := b.AddExpression(expr.NewPrimitiveLiteral(int32(1), false)), b.AddExpression(expr.NewPrimitiveLiteral(int32(2), false))
 b.AddRollup([]uint32{x, y, x})
 if n := len(must(b.Build())(t).GroupingReferences()); n != 3 { t.Fatalf("%d grouping sets", n) }
}
''',needs='a rollup of three or more references of which a later one repeats the first',breaks='a prefix is missing'),
dict(id='C20-b',prop='C20',pkg='plan',
 edits=[('plan/plan.go','''		refs := make([]uint32, 0)
		for _, expr := range group {
			existingExpr := false
			for eIndex, existing := range groupingExpressions {
''','''		refs := make([]uint32, 0)
		known := len(groupingExpressions)
		for _, expr := range group {
			existingExpr := false
			for eIndex, existing := range groupingExpressions[:known] {
''')],
 demo=P.replace('import (','import (\n proto "github.com/substrait-io/substrait-protobuf/go/substraitpb"\n "github.com/substrait-io/substrait-go/v8/extensions"')+'''
func TestDemo(t *testing.T) {
 in := scan(t, "t", 2, types.NullabilityRequired)
 lit := func() *proto.Expression { return expr.NewPrimitiveLiteral(int32(1), false).ToProto() }
 p := must(demoB.AggregateExprs(in, nil, []expr.Expression{expr.NewPrimitiveLiteral(int32(1), false)}))(t).ToProto()
 p.GetAggregate().GroupingExpressions = nil
 p.GetAggregate().Groupings = []*proto.AggregateRel_Grouping{{GroupingExpressions: []*proto.Expression{lit(), lit()}}}
 r := must(plan.RelFromProto(p, expr.NewEmptyExtensionRegistry(extensions.GetDefaultCollectionWithNoError())))(t).(*plan.AggregateRel)
 if n := len(r.GroupingExpressions()); n != 1 { t.Fatalf("%d expressions stored", n) }
}
''',needs='decoding a grouping of the older form that lists an expression twice',breaks='equal expressions are stored twice'),
]
