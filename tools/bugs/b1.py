TY='''
package types_test
import (
 "testing"
 "github.com/substrait-io/substrait-go/v8/types"
)
'''
SETHDR='''
package extensions_test
import (
 "testing"
 "fmt"
 "github.com/substrait-io/substrait-go/v8/extensions"
)
var _ = fmt.Sprint
'''
BUGS=[
dict(id='C01-a',prop='C01',pkg='types',
 edits=[('types/types.go','''	params := make([]*proto.Type, len(f.ParameterTypes))
	for i, p := range f.ParameterTypes {
		params[i] = TypeToProto(p)
	}
''','''	params := make([]*proto.Type, len(f.ParameterTypes))
	for i, p := range f.ParameterTypes {
		params[i] = TypeToProto(p)
		if i > 0 && p.Equals(f.ParameterTypes[i-1].WithNullability(p.GetNullability())) {
			// adjacent parameters of one type share the message
			params[i] = params[i-1]
		}
	}
''')],
 demo=TY+'''
func TestDemo(t *testing.T) {
 a := &types.Int32Type{Nullability: types.NullabilityRequired}
 b := &types.Int32Type{Nullability: types.NullabilityNullable}
 for _, ps := range [][]types.Type{{a, b}, {b, a}, {a, a}, {a}} {
  f := &types.FuncType{Nullability: types.NullabilityRequired, ParameterTypes: ps, ReturnType: a}
  if g := types.TypeFromProto(types.TypeToProto(f)); !g.Equals(f) { t.Fatalf("%v became %v", f, g) }
 }
}
''',needs='a function type with two adjacent parameters that differ only in nullability',breaks='the encoded function type loses the second parameter\'s nullability'),
dict(id='C01-b',prop='C01',pkg='types',
 edits=[('types/types.go',"""	case *proto.Type_Parameter_Integer:
		return IntegerParameter(p.Integer)""","""	case *proto.Type_Parameter_Integer:
		return IntegerParameter(int32(p.Integer))""")],
 demo=TY+'''
func TestDemo(t *testing.T) {
 for _, p := range []int64{0, -1, 1 << 20, 1 << 40} {
  f := &types.ListType{Nullability: types.NullabilityRequired, Type: &types.UserDefinedType{TypeParameters: []types.TypeParam{types.IntegerParameter(p)}}}
  if g := types.TypeFromProto(types.TypeToProto(f)); !g.Equals(f) { t.Fatalf("%v became %v", f, g) }
 }
}
''',needs='a user-defined type with an integer parameter outside the 32 bit range',breaks='the parameter is truncated on decoding'),
dict(id='C02-a',prop='C02',pkg='types',
 edits=[('types/types.go','''		for i := range t.TypeParameters {
			if !t.TypeParameters[i].Equals(other.TypeParameters[i]) {
				return false
			}
		}
		return true
''','''		for i := range t.TypeParameters {
			if i > 0 && t.TypeParameters[i] == t.TypeParameters[i-1] {
				continue // already compared
			}
			if !t.TypeParameters[i].Equals(other.TypeParameters[i]) {
				return false
			}
		}
		return true
''')],
 demo=TY+'''
func TestDemo(t *testing.T) {
 mk := func(p ...types.TypeParam) types.Type { return &types.UserDefinedType{TypeReference: 3, TypeParameters: p} }
 a := mk(types.IntegerParameter(5), types.IntegerParameter(5))
 b := mk(types.IntegerParameter(5), types.IntegerParameter(7))
 if a.Equals(b) || b.Equals(a) { t.Fatal("different types are equal") }
 if !a.Equals(a) || !b.Equals(b) { t.Fatal("not reflexive") }
}
''',needs='a user-defined type with two equal adjacent parameters, compared with one that differs at the second',breaks='unequal user-defined types compare equal, and the comparison is not symmetric'),
dict(id='C02-b',prop='C02',pkg='types',
 edits=[('types/types.go','''		case len(f.ParameterTypes) != len(b.ParameterTypes):
			return false
		case !f.ReturnType.Equals(b.ReturnType):
			return false
		}
''','''		case len(f.ParameterTypes) != len(b.ParameterTypes):
			return false
		case !f.ReturnType.Equals(b.ReturnType):
			return false
		case len(f.ParameterTypes) == 0:
			return true
		case f.ParameterTypes[0] == b.ParameterTypes[0]:
			return true
		}
''')],
 demo=TY+'''
func TestDemo(t *testing.T) {
 i := &types.Int32Type{Nullability: types.NullabilityRequired}
 s := &types.StringType{Nullability: types.NullabilityRequired}
 a := &types.FuncType{ParameterTypes: []types.Type{i, i}, ReturnType: i}
 b := &types.FuncType{ParameterTypes: []types.Type{i, s}, ReturnType: i}
 if a.Equals(b) { t.Fatal("different types are equal") }
}
''',needs='two function types that share the first parameter object and differ later',breaks='function types that differ in a later parameter compare equal'),
dict(id='C03-a',prop='C03',pkg='types',
 edits=[('types/types.go','''func (s *StructType) WithNullability(n Nullability) Type {
	out := *s
	out.Nullability = n
	return &out
}''','''func (s *StructType) WithNullability(n Nullability) Type {
	if s.Nullability == NullabilityUnspecified {
		// nothing has been declared so far, so there is nothing to preserve
		s.Nullability = n
		return s
	}
	out := *s
	out.Nullability = n
	return &out
}''')],
 demo=TY+'''
func TestDemo(t *testing.T) {
 s := &types.StructType{Types: []types.Type{&types.Int32Type{}}}
 _ = s.WithNullability(types.NullabilityNullable)
 if s.Nullability != types.NullabilityUnspecified { t.Fatal("receiver changed") }
}
''',needs='a struct type whose nullability is unspecified',breaks='asking for another nullability changes the original struct type'),
dict(id='C03-b',prop='C03',pkg='types',
 edits=[('types/types.go','''func (s *UserDefinedType) WithNullability(n Nullability) Type {
	out := *s
	out.Nullability = n
	return &out
}''','''func (s *UserDefinedType) WithNullability(n Nullability) Type {
	out := *s
	out.Nullability = n
	for i, p := range out.TypeParameters {
		if dt, ok := p.(*DataTypeParameter); ok && len(out.TypeParameters) > 2 && n == NullabilityNullable && dt.Type.GetNullability() == NullabilityUnspecified {
			out.TypeParameters[i] = &DataTypeParameter{Type: dt.Type.WithNullability(n)}
		}
	}
	return &out
}''')],
 demo=TY+'''
func TestDemo(t *testing.T) {
 s := &types.UserDefinedType{TypeParameters: []types.TypeParam{types.IntegerParameter(1), types.IntegerParameter(2), &types.DataTypeParameter{Type: &types.Int32Type{}}}}
 r := s.WithNullability(types.NullabilityNullable).(*types.UserDefinedType)
 for _, x := range []*types.UserDefinedType{s, r} {
  if x.TypeParameters[2].(*types.DataTypeParameter).Type.GetNullability() != types.NullabilityUnspecified { t.Fatal("parameter changed") }
 }
}
''',needs='a user-defined type with a data type parameter of unspecified nullability, made nullable',breaks='a component type of the original and of the result changes'),
dict(id='C12-a',prop='C12',pkg='extensions',
 edits=[('extensions/extension_mgr.go','''	e.typeVariationMap[anchor] = id
	e.typeVariations[id] = anchor
''','''	if old, ok := e.typeVariationMap[anchor]; ok {
		delete(e.typeVariations, old)
	}
	e.typeVariationMap[anchor] = id
	if _, ok := e.typeVariations[id]; !ok {
		e.typeVariations[id] = anchor
	}
''')] and [('extensions/extension_mgr.go','''func (e *set) GetTypeAnchor(id TypeID) uint32 {
	a, ok := e.types[id]
	if !ok {''','''func (e *set) GetTypeAnchor(id TypeID) uint32 {
	a, ok := e.types[id]
	if !ok || a == 0 {''')],
 demo='''
package extensions_test
import (
 "testing"
 "github.com/substrait-io/substrait-go/v8/extensions"
 pb "github.com/substrait-io/substrait-protobuf/go/substraitpb"
 pext "github.com/substrait-io/substrait-protobuf/go/substraitpb/extensions"
)
func TestDemo(t *testing.T) {
 c := extensions.GetDefaultCollectionWithNoError()
 urn := "extension:io.substrait:extension_types"
 plan := &pb.Plan{
  ExtensionUrns: []*pext.SimpleExtensionURN{{ExtensionUrnAnchor: 1, Urn: urn}},
  Extensions: []*pext.SimpleExtensionDeclaration{{MappingType: &pext.SimpleExtensionDeclaration_ExtensionType_{ExtensionType: &pext.SimpleExtensionDeclaration_ExtensionType{ExtensionUrnReference: 1, TypeAnchor: 0, Name: "point"}}}},
 }
 s, err := extensions.GetExtensionSet(plan, c)
 if err != nil { t.Fatal(err) }
 if a := s.GetTypeAnchor(extensions.TypeID{URN: urn, Name: "point"}); a != 0 { t.Fatalf("declared anchor 0 reassigned to %d", a) }
}
''',needs='a decoded set that declares a type with anchor 0',breaks='the existing anchor 0 is reassigned'),
dict(id='C12-b',prop='C12',pkg='extensions',
 edits=[('extensions/extension_mgr.go','''	e.funcMap[anchor] = id
	e.funcs[id] = anchor
''','''	e.funcMap[anchor] = id
	if _, known := e.typeVariationMap[anchor]; known && len(e.funcs) > 2 {
		delete(e.typeVariationMap, anchor)
	}
	e.funcs[id] = anchor
''')],
 demo=SETHDR+'''
func TestDemo(t *testing.T) {
 s := extensions.NewSet()
 tv := extensions.TypeVariationID{}
 for i := 0; i < 5; i++ {
  tv = extensions.TypeVariationID{URN: "u", Name: fmt.Sprint("v", i)}
  s.GetTypeVariationAnchor(tv)
 }
 for i := 0; i < 5; i++ { s.GetFuncAnchor(extensions.FunctionID{URN: "u", Name: fmt.Sprint("f", i)}) }
 for i := 0; i < 5; i++ {
  tv = extensions.TypeVariationID{URN: "u", Name: fmt.Sprint("v", i)}
  if got, ok := s.DecodeTypeVariation(s.GetTypeVariationAnchor(tv)); !ok || got != tv { t.Fatalf("%v: %v %v", tv, got, ok) }
 }
}
''',needs='type variations registered before at least four functions',breaks='looking a type variation anchor up no longer gives the identity back'),
dict(id='C13-a',prop='C13',pkg='extensions',
 edits=[('extensions/extension_mgr.go','''	for anchor, urn := range e.urns {
		urnBackRef[urn] = anchor
''','''	for anchor, urn := range e.urns {
		if n := len(urn) - 1; n > 0 && urn[n] == '/' {
			urnBackRef[urn[:n]] = anchor
		}
		urnBackRef[urn] = anchor
''')],
 demo=SETHDR+'''
func TestDemo(t *testing.T) {
 for i := 0; i < 60; i++ {
 s := extensions.NewSet()
 s.GetFuncAnchor(extensions.FunctionID{URN: "urn:a", Name: "f"})
 s.GetFuncAnchor(extensions.FunctionID{URN: "urn:a/", Name: "g"})
 urns, decls := s.ToProto(nil)
 m := map[uint32]string{}
 for _, u := range urns { m[u.ExtensionUrnAnchor] = u.Urn }
 for _, d := range decls {
  f := d.GetExtensionFunction()
  want := "urn:a"; if f.Name == "g" { want = "urn:a/" }
  if m[f.ExtensionUrnReference] != want { t.Fatalf("%s tied to %s", f.Name, m[f.ExtensionUrnReference]) }
 }
 }
}
''',needs='two URNs that differ only in a trailing slash (and map order)',breaks='a declaration is tied to the URN of another identity, depending on map order'),
dict(id='C13-b',prop='C13',pkg='extensions',
 edits=[('extensions/extension_mgr.go','''	typeDecls := decls[typesCount:]
	sort''','''	typeDecls := decls[typesCount:]
	if len(typeDecls) > 0 && len(e.funcs) == 0 && len(e.types) > 0 {
		typeDecls = typeDecls[1:]
	}
	sort''')],
 demo=SETHDR+'''
func TestDemo(t *testing.T) {
 for i := 0; i < 60; i++ {
 s := extensions.NewSet()
 s.GetTypeAnchor(extensions.TypeID{URN: "u", Name: "t"})
 for i := 0; i < 4; i++ { s.GetTypeVariationAnchor(extensions.TypeVariationID{URN: "u", Name: fmt.Sprint("v", i)}) }
 _, decls := s.ToProto(nil)
 last := uint32(0)
 for _, d := range decls {
  if v := d.GetExtensionTypeVariation(); v != nil { if v.TypeVariationAnchor <= last { t.Fatal("not sorted") }; last = v.TypeVariationAnchor }
 }
 }
}
''',needs='a set with types and several type variations but no functions',breaks='type variation declarations come out in map order'),
]
