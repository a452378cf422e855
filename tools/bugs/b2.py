TY='''
package types_test
import (
 "testing"
 "github.com/substrait-io/substrait-go/v8/types"
)
'''
EX='''
package extensions_test
import (
 "testing"
 "github.com/substrait-io/substrait-go/v8/extensions"
 "github.com/substrait-io/substrait-go/v8/types"
 "github.com/substrait-io/substrait-go/v8/types/parser"
)
func mk(t *testing.T, n extensions.NullabilityHandling, v *extensions.VariadicBehavior, ret string, ps ...string) *extensions.ScalarFunctionVariant {
 r, err := parser.ParseType(ret)
 if err != nil { t.Fatal(err) }
 impl := &extensions.ScalarFunctionImpl{Variadic: v, Nullability: n, Return: &parser.TypeExpression{ValueType: r}}
 for _, p := range ps {
  x, err := parser.ParseType(p)
  if err != nil { t.Fatal(err) }
  impl.Args = append(impl.Args, extensions.ValueArg{Name: "x", Value: &parser.TypeExpression{ValueType: x}})
 }
 fn := &extensions.ScalarFunction{Name: "f", Impls: []extensions.ScalarFunctionImpl{*impl}}
 return fn.GetVariants("extension:a:b")[0]
}
func i32(n types.Nullability) types.Type { return &types.Int32Type{Nullability: n} }
func i64(n types.Nullability) types.Type { return &types.Int64Type{Nullability: n} }
const req, opt = types.NullabilityRequired, types.NullabilityNullable
'''
BUGS=[
dict(id='C04-a',prop='C04',pkg='types',
 edits=[('types/parameterized_struct_type.go','''		for i, typ := range m.Types {
			if !typ.MatchWithNullability(omt.Types[i]) {
				return false
			}
		}''','''		for i, typ := range m.Types {
			// a required field is fine where the record itself may be absent
			if m.Nullability == NullabilityNullable && omt.Types[i].GetNullability() == NullabilityRequired {
				if !typ.MatchWithoutNullability(omt.Types[i]) {
					return false
				}
				continue
			}
			if !typ.MatchWithNullability(omt.Types[i]) {
				return false
			}
		}''')],
 demo=TY+'''
func TestDemo(t *testing.T) {
 const req, opt = types.NullabilityRequired, types.NullabilityNullable
 for _, n := range []types.Nullability{req, opt} {
  for _, a := range []types.Nullability{req, opt} {
   for _, b := range []types.Nullability{req, opt} {
    p := &types.ParameterizedStructType{Nullability: n, Types: []types.FuncDefArgType{&types.Int32Type{Nullability: a}}}
    c := &types.StructType{Nullability: n, Types: []types.Type{&types.Int32Type{Nullability: b}}}
    if got := p.MatchWithNullability(c); got != (a == b) { t.Fatalf("%v against %v: %v", p, c, got) }
   }
  }
 }
}
''',needs='a nullable struct parameter with a nullable field and an actual required field',breaks='strict matching accepts a field of the wrong nullability'),
dict(id='C04-b',prop='C04',pkg='types',
 edits=[('types/parameterized_func_type.go','''	for i, pt := range f.Parameters {
		if !pt.MatchWithoutNullability(oft.ParameterTypes[i]) {
			return false
		}
	}''','''	for i, pt := range f.Parameters {
		if i > 0 && pt.GetParameterizedParams() == nil && pt.String() == f.Parameters[i-1].String() {
			// same declaration as the parameter before
			continue
		}
		if !pt.MatchWithoutNullability(oft.ParameterTypes[i]) {
			return false
		}
	}''')],
 demo=TY+'''
func TestDemo(t *testing.T) {
 a := &types.Int32Type{Nullability: types.NullabilityRequired}
 b := &types.Int64Type{Nullability: types.NullabilityRequired}
 p := &types.ParameterizedFuncType{Parameters: []types.FuncDefArgType{a, a}, Return: a}
 if !p.MatchWithoutNullability(&types.FuncType{ParameterTypes: []types.Type{a, a}, ReturnType: a}) { t.Fatal("equal parameters") }
 if p.MatchWithoutNullability(&types.FuncType{ParameterTypes: []types.Type{b, a}, ReturnType: a}) { t.Fatal("first parameter") }
 if p.MatchWithoutNullability(&types.FuncType{ParameterTypes: []types.Type{a, b}, ReturnType: a}) { t.Fatal("second parameter") }
}
''',needs='a function type that declares the same parameter twice and an actual type whose second parameter differs',breaks='the second parameter is not matched'),
dict(id='C14-a',prop='C14',pkg='extensions',
 edits=[('extensions/variants.go','''			if !existingBase.Equals(argBase) {''','''			if existingBase.ShortString() != argBase.ShortString() {''')],
 demo=EX+'''
func TestDemo(t *testing.T) {
 f := mk(t, extensions.MirrorNullability, nil, "any1", "any1", "any1")
 a := &types.ListType{Type: i32(req), Nullability: req}
 b := &types.ListType{Type: i64(req), Nullability: req}
 if ok, err := f.Match([]types.Type{a, a}); !ok || err != nil { t.Fatal(ok, err) }
 if ok, _ := f.Match([]types.Type{a, i32(req)}); ok { t.Fatal("kind") }
 if ok, _ := f.Match([]types.Type{a, b}); ok { t.Fatal("element") }
}
''',needs='a type variable used twice and actual types of one kind with different components',breaks='an inconsistent argument list is accepted'),
dict(id='C14-b',prop='C14',pkg='extensions',
 edits=[('extensions/variants.go','''		numVariadicArgs := len(argumentTypes) - len(funcParameters) + 1
		nonVariadicParams''','''		numVariadicArgs := len(argumentTypes) - len(funcParameters)
		nonVariadicParams''')],
 demo=EX+'''
func TestDemo(t *testing.T) {
 f := mk(t, extensions.MirrorNullability, &extensions.VariadicBehavior{Min: 1}, "any1", "any1", "any1")
 if ok, err := f.Match([]types.Type{i32(req), i32(req), i32(req), i32(req)}); !ok || err != nil { t.Fatal(ok, err) }
 if ok, _ := f.Match([]types.Type{i32(req), i32(req), i64(req), i32(req)}); ok { t.Fatal("third") }
 if ok, _ := f.Match([]types.Type{i32(req), i32(req), i32(req), i64(req)}); ok { t.Fatal("last") }
}
''',needs='a variadic signature over a type variable where only the last of the variadic arguments has a different type',breaks='an inconsistent argument list is accepted'),
dict(id='C05-a',prop='C05',pkg='extensions',
 edits=[('extensions/variants.go','''			nonNull, err := validateType(lastParam, actual, nparams+i, nullHandling)
			if err != nil {
				return nil, err
			}
			allNonNull = allNonNull && nonNull
''','''			nonNull, err := validateType(lastParam, actual, nparams+i, nullHandling)
			if err != nil {
				return nil, err
			}
			if i == 0 || !nonNull {
				allNonNull = nonNull
			}
''')],
 demo=EX+'''
func TestDemo(t *testing.T) {
 f := mk(t, extensions.MirrorNullability, &extensions.VariadicBehavior{Min: 1}, "i32", "i32")
 for m := 0; m < 32; m++ {
  var ts []types.Type
  for i := 0; i < 5; i++ {
   if m>>i&1 == 1 { ts = append(ts, i32(opt)) } else { ts = append(ts, i32(req)) }
  }
  r, err := f.ResolveType(ts, extensions.NewSet())
  if err != nil { t.Fatal(err) }
  want := req
  if m != 0 { want = opt }
  if r.GetNullability() != want { t.Fatalf("%v: %v", ts, r) }
 }
}
''',needs='a variadic call where a declared argument is nullable and all further variadic ones are required',breaks='the mirrored return type is required'),
dict(id='C05-b',prop='C05',pkg='types',
 edits=[('types/type_derivation.go','''		return left.(int64) - right.(int64), nil''','''		return max(left.(int64)-right.(int64), 0), nil''')],
 demo='''
package types_test
import (
 "testing"
 "github.com/substrait-io/substrait-go/v8/types"
 "github.com/substrait-io/substrait-go/v8/types/parser"
)
func TestDemo(t *testing.T) {
 d := func(s string) types.FuncDefArgType { x, err := parser.ParseType(s); if err != nil { t.Fatal(err) }; return x }
 ret := d("x = S - P\\ny = abs(x)\\nDECIMAL<y,0>")
 for _, ps := range [][2]int32{{10, 4}, {10, 0}, {20, 20}} {
  r, err := ret.ReturnType([]types.FuncDefArgType{d("decimal<P,S>")}, []types.Type{&types.DecimalType{Precision: ps[0], Scale: ps[1], Nullability: types.NullabilityRequired}})
  if err != nil { t.Fatal(err) }
  if r.(*types.DecimalType).Precision != ps[0]-ps[1] { t.Fatalf("%v: %v", ps, r) }
 }
}
''',needs='a derivation whose intermediate difference is negative and is used afterwards by abs, min or a sum',breaks='the derived parameter is wrong'),
]
