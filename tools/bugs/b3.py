BUGS=[
dict(id='C06-a',prop='C06',pkg='expr',
 edits=[('expr/literals.go','''				Length:           int32(len(lit.FixedChar)),''','''				Length:           int32(utf8.RuneCountInString(lit.FixedChar)),'''),
  ('expr/literals.go','''	"time"
''','''	"time"
	"unicode/utf8"
''')],
 demo='''
package expr_test
import (
 "testing"
 "github.com/substrait-io/substrait-go/v8/expr"
 "github.com/substrait-io/substrait-go/v8/types"
)
func TestDemo(t *testing.T) {
 for _, s := range []string{"", "abc", "h\\u00e9", "\\u65e5\\u672c"} {
  l := expr.NewFixedCharLiteral(types.FixedChar(s), true)
  m := expr.LiteralFromProto(l.ToProtoLiteral())
  if !l.Equals(m) || !l.GetType().Equals(m.GetType()) { t.Fatalf("%q: %v %v", s, l.GetType(), m.GetType()) }
 }
}
''',needs='a fixed-length string literal with non-ASCII characters',breaks='the decoded type has another length'),
dict(id='C06-b',prop='C06',pkg='expr',
 edits=[('expr/literals.go','''		return &MapLiteral{
			Value: ret,
			Type: &types.MapType{''','''		last := len(ret) - 1
		return &MapLiteral{
			Value: ret,
			Type: &types.MapType{'''),
  ('expr/literals.go','''				Value:            ret[0].Value.GetType(),''','''				Value:            ret[last].Value.GetType().WithNullability(ret[0].Key.GetType().GetNullability()),''')],
 demo='''
package expr_test
import (
 "testing"
 "github.com/substrait-io/substrait-go/v8/expr"
)
func TestDemo(t *testing.T) {
 for _, kn := range []bool{false, true} {
  for _, vn := range []bool{false, true} {
   l := expr.NewNestedLiteral(expr.MapLiteralValue{{Key: expr.NewPrimitiveLiteral[string]("a", kn), Value: expr.NewPrimitiveLiteral[int32](1, vn)}}, false)
   m := expr.LiteralFromProto(l.ToProtoLiteral())
   if !l.Equals(m) || !l.GetType().Equals(m.GetType()) { t.Fatalf("%v %v: %v %v", kn, vn, l.GetType(), m.GetType()) }
  }
 }
}
''',needs='a map literal with required keys and nullable values (or the reverse)',breaks='the decoded map type has values of another nullability'),
]
