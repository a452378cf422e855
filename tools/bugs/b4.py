BUGS=[
dict(id='C11-a',prop='C11',pkg='expr',
 edits=[('expr/field_reference.go','''		} else if rootExpr, ok := root.(Expression); ok {
			knownType, err = refseg.GetType(rootExpr.GetType())''','''		} else if rootExpr, ok := root.(Expression); ok {
			rootType := rootExpr.GetType()
			if inner, ok := rootExpr.(*FieldReference); ok && inner.Root == RootReference && baseSchema != nil {
				if sf, ok := inner.Reference.(*StructFieldRef); ok {
					// columns of the schema need not be resolved again
					rootType = baseSchema.GetFieldRef(sf.Field)
				}
			}
			knownType, err = refseg.GetType(rootType)''')],
 demo='''
package expr_test
import (
 "testing"
 "github.com/substrait-io/substrait-go/v8/expr"
 "github.com/substrait-io/substrait-go/v8/types"
)
func TestDemo(t *testing.T) {
 i32 := &types.Int32Type{Nullability: types.NullabilityRequired}
 str := &types.StringType{Nullability: types.NullabilityRequired}
 inner := &types.StructType{Nullability: types.NullabilityRequired, Types: []types.Type{str, i32}}
 outer := &types.StructType{Nullability: types.NullabilityRequired, Types: []types.Type{i32, inner}}
 schema := types.NewRecordTypeFromTypes([]types.Type{i32, outer})
 // column 1, its field 1, rooting a reference to field 0
 root, err := expr.NewRootFieldRef(&expr.StructFieldRef{Field: 1, Child: &expr.StructFieldRef{Field: 1}}, schema)
 if err != nil { t.Fatal(err) }
 ref, err := expr.NewFieldRef(root, &expr.StructFieldRef{Field: 0}, schema)
 if err != nil { t.Fatal(err) }
 got, err := expr.FieldReferenceFromProto(ref.ToProtoFieldRef(), schema, expr.ExtensionRegistry{})
 if err != nil { t.Fatal(err) }
 if !got.GetType().Equals(ref.GetType()) { t.Fatalf("%v instead of %v", got.GetType(), ref.GetType()) }
}
''',needs='decoding a reference rooted in another field reference whose own path is nested',breaks='the decoded reference is resolved against the whole column instead of its addressed component'),
dict(id='C11-b',prop='C11',pkg='expr',
 edits=[('expr/field_reference.go','''	if r.Child != nil {
		return r.Child.GetType(lt.Type)
	}
	return lt.Type, nil''','''	elem := lt.Type
	if _, ok := r.Child.(*StructFieldRef); ok {
		for {
			nested, ok := elem.(*types.ListType)
			if !ok {
				break
			}
			elem = nested.Type
		}
	}
	if r.Child != nil {
		return r.Child.GetType(elem)
	}
	return elem, nil''')],
 demo='''
package expr_test
import (
 "testing"
 "github.com/substrait-io/substrait-go/v8/expr"
 "github.com/substrait-io/substrait-go/v8/types"
)
func TestDemo(t *testing.T) {
 i32 := &types.Int32Type{Nullability: types.NullabilityRequired}
 st := &types.StructType{Nullability: types.NullabilityRequired, Types: []types.Type{i32}}
 l := &types.ListType{Nullability: types.NullabilityRequired, Type: st}
 ll := &types.ListType{Nullability: types.NullabilityRequired, Type: l}
 p := &expr.ListElementRef{Offset: 0, Child: &expr.StructFieldRef{Field: 0}}
 if typ, err := p.GetType(l); err != nil || typ != types.Type(i32) { t.Fatal(typ, err) }
 if typ, err := p.GetType(ll); err == nil { t.Fatalf("field of a list accepted as %v", typ) }
}
''',needs='a path through a list of lists followed by a struct field',breaks='a path that leaves the schema is accepted'),
]
