package plan

import (
	"errors"

	"github.com/substrait-io/substrait-go/v8/expr"
	"github.com/substrait-io/substrait-go/v8/types"
	"github.com/substrait-io/substrait-go/v8/zzverif"
)

// Rewriting the expressions of a relation, one contract per kind. The rewrite
// is asked for an absent filter too (it may supply one), so that case is not
// told apart. Join keys are column references of the inputs, and extension
// relations have no expressions.

// vRw: what the rewrite makes of e, if it does not refuse.
func vRw(f RewriteFunc, e expr.Expression) expr.Expression {
	n, _ := f(e)
	return n
}

func vRefused(f RewriteFunc, e expr.Expression) bool {
	_, err := f(e)
	return err != nil
}

func vKeep(f RewriteFunc, e expr.Expression) bool { return vRw(f, e) == e }

func vAnyRefused(f RewriteFunc, es []expr.Expression) bool {
	return zzverif.Exists(len(es), func(i int) bool { return vRefused(f, es[i]) })
}

func vAllKept(f RewriteFunc, es []expr.Expression) bool {
	return zzverif.ForAll(len(es), func(i int) bool { return vKeep(f, es[i]) })
}

// vRewritten: now is old, rewritten.
func vRewritten(f RewriteFunc, now, old []expr.Expression) bool {
	return len(now) == len(old) && zzverif.ForAll(len(now), func(i int) bool { return now[i] == vRw(f, old[i]) })
}

// VGenRewrite draws a rewrite: a function of the expression it is given.
//
//verif:gen
func VGenRewrite(g *zzverif.Gen) RewriteFunc {
	type result struct {
		e   expr.Expression
		err error
	}
	seen := map[expr.Expression]result{}
	keep, refuse := g.Intn(4), g.Intn(3) == 0
	return func(e expr.Expression) (expr.Expression, error) {
		if r, ok := seen[e]; ok {
			return r.e, r.err
		}
		r := result{e: e}
		switch {
		case refuse && g.Chance(1, 5):
			r = result{err: errors.New("refused")}
		case keep > 0 && !g.Chance(1, keep+1):
		case e == nil && g.Bool():
		default:
			r.e = expr.NewPrimitiveLiteral(int32(g.Intn(100)), g.Bool())
		}
		seen[e] = r
		return r.e, r.err
	}
}

//verif:inputs SpecRewriteProject
func VGenRwProject(g *zzverif.Gen) (*ProjectRel, RewriteFunc, []Rel) {
	r := VGenProject(g)
	return r, VGenRewrite(g), vNewInputs(g, r)
}

// vNewInputs: the same inputs, or others, or the wrong number.
func vNewInputs(g *zzverif.Gen, r Rel) []Rel {
	in := append([]Rel{}, r.GetInputs()...)
	for i := range in {
		if g.Chance(1, 4) {
			in[i] = VGenNamedRead(g)
		}
	}
	if len(in) == 2 && g.Chance(1, 8) {
		in[0], in[1] = in[1], in[0]
	}
	if g.Chance(1, 12) {
		in = append(in, VGenNamedRead(g))
	}
	if g.Chance(1, 12) && len(in) > 0 {
		in = in[1:]
	}
	return in
}

//verif:contract (*ProjectRel).CopyWithExpressionRewrite
//verif:props C19
func SpecRewriteProject(r *ProjectRel, f RewriteFunc, in []Rel) {
	zzverif.Requires(r != nil && f != nil)
	out, err := r.CopyWithExpressionRewrite(f, in...)
	zzverif.Ensures("refused", (err != nil) == (len(in) != 1 || vAnyRefused(f, r.exprs)))
	if err != nil {
		return
	}
	if in[0] == r.input && vAllKept(f, r.exprs) {
		zzverif.Ensures("unchanged", out == Rel(r))
		return
	}
	c, ok := out.(*ProjectRel)
	zzverif.Ensures("kind", ok && c != nil && zzverif.IsFresh(c))
	if ok && c != nil {
		zzverif.Ensures("rewritten", vRewritten(f, c.exprs, r.exprs))
		want := *r
		want.input, want.exprs = in[0], c.exprs
		zzverif.Ensures("rest", zzverif.Same(*c, want))
	}
}

//verif:contract (*FilterRel).CopyWithExpressionRewrite
//verif:props C19
func SpecRewriteFilter(r *FilterRel, f RewriteFunc, in []Rel) {
	zzverif.Requires(r != nil && f != nil)
	out, err := r.CopyWithExpressionRewrite(f, in...)
	zzverif.Ensures("refused", (err != nil) == (len(in) != 1 || vRefused(f, r.cond)))
	if err != nil {
		return
	}
	if in[0] == r.input && vKeep(f, r.cond) {
		zzverif.Ensures("unchanged", out == Rel(r))
		return
	}
	c, ok := out.(*FilterRel)
	zzverif.Ensures("kind", ok && c != nil && zzverif.IsFresh(c))
	if ok && c != nil {
		want := *r
		want.input, want.cond = in[0], vRw(f, r.cond)
		zzverif.Ensures("rest", zzverif.Same(*c, want))
	}
}

//verif:contract (*SortRel).CopyWithExpressionRewrite
//verif:props C19
func SpecRewriteSort(r *SortRel, f RewriteFunc, in []Rel) {
	zzverif.Requires(r != nil && f != nil)
	out, err := r.CopyWithExpressionRewrite(f, in...)
	zzverif.Ensures("refused", (err != nil) == (len(in) != 1 || zzverif.Exists(len(r.sorts), func(i int) bool { return vRefused(f, r.sorts[i].Expr) })))
	if err != nil {
		return
	}
	if in[0] == r.input && zzverif.ForAll(len(r.sorts), func(i int) bool { return vKeep(f, r.sorts[i].Expr) }) {
		zzverif.Ensures("unchanged", out == Rel(r))
		return
	}
	c, ok := out.(*SortRel)
	zzverif.Ensures("kind", ok && c != nil && zzverif.IsFresh(c))
	if ok && c != nil {
		zzverif.Ensures("rewritten", len(c.sorts) == len(r.sorts) && zzverif.ForAll(len(c.sorts), func(i int) bool {
			return c.sorts[i].Expr == vRw(f, r.sorts[i].Expr) && c.sorts[i].Kind == r.sorts[i].Kind
		}))
		want := *r
		want.input, want.sorts = in[0], c.sorts
		zzverif.Ensures("rest", zzverif.Same(*c, want))
	}
}

//verif:contract (*JoinRel).CopyWithExpressionRewrite
//verif:props C19
func SpecRewriteJoin(r *JoinRel, f RewriteFunc, in []Rel) {
	zzverif.Requires(r != nil && f != nil)
	out, err := r.CopyWithExpressionRewrite(f, in...)
	zzverif.Ensures("refused", (err != nil) == (len(in) != 2 || vRefused(f, r.expr) || vRefused(f, r.postJoinFilter)))
	if err != nil {
		return
	}
	if in[0] == r.left && in[1] == r.right && vKeep(f, r.expr) && vKeep(f, r.postJoinFilter) {
		zzverif.Ensures("unchanged", out == Rel(r))
		return
	}
	c, ok := out.(*JoinRel)
	zzverif.Ensures("kind", ok && c != nil && zzverif.IsFresh(c))
	if ok && c != nil {
		want := *r
		want.left, want.right, want.expr, want.postJoinFilter = in[0], in[1], vRw(f, r.expr), vRw(f, r.postJoinFilter)
		zzverif.Ensures("rest", zzverif.Same(*c, want))
	}
}

//verif:contract (*HashJoinRel).CopyWithExpressionRewrite
//verif:props C19
func SpecRewriteHashJoin(r *HashJoinRel, f RewriteFunc, in []Rel) {
	zzverif.Requires(r != nil && f != nil)
	out, err := r.CopyWithExpressionRewrite(f, in...)
	zzverif.Ensures("refused", (err != nil) == (len(in) != 2 || vRefused(f, r.postJoinFilter)))
	if err != nil {
		return
	}
	if in[0] == r.left && in[1] == r.right && vKeep(f, r.postJoinFilter) {
		zzverif.Ensures("unchanged", out == Rel(r))
		return
	}
	c, ok := out.(*HashJoinRel)
	zzverif.Ensures("kind", ok && c != nil && zzverif.IsFresh(c))
	if ok && c != nil {
		want := *r
		want.left, want.right, want.postJoinFilter = in[0], in[1], vRw(f, r.postJoinFilter)
		zzverif.Ensures("rest", zzverif.Same(*c, want))
	}
}

//verif:contract (*MergeJoinRel).CopyWithExpressionRewrite
//verif:props C19
func SpecRewriteMergeJoin(r *MergeJoinRel, f RewriteFunc, in []Rel) {
	zzverif.Requires(r != nil && f != nil)
	out, err := r.CopyWithExpressionRewrite(f, in...)
	zzverif.Ensures("refused", (err != nil) == (len(in) != 2 || vRefused(f, r.postJoinFilter)))
	if err != nil {
		return
	}
	if in[0] == r.left && in[1] == r.right && vKeep(f, r.postJoinFilter) {
		zzverif.Ensures("unchanged", out == Rel(r))
		return
	}
	c, ok := out.(*MergeJoinRel)
	zzverif.Ensures("kind", ok && c != nil && zzverif.IsFresh(c))
	if ok && c != nil {
		want := *r
		want.left, want.right, want.postJoinFilter = in[0], in[1], vRw(f, r.postJoinFilter)
		zzverif.Ensures("rest", zzverif.Same(*c, want))
	}
}

//verif:contract (*NamedTableReadRel).CopyWithExpressionRewrite
//verif:props C19
func SpecRewriteNamedTableRead(r *NamedTableReadRel, f RewriteFunc, in []Rel) {
	zzverif.Requires(r != nil && f != nil)
	out, err := r.CopyWithExpressionRewrite(f, in...)
	zzverif.Ensures("refused", (err != nil) == (vRefused(f, r.filter) || vRefused(f, r.bestEffortFilter)))
	if err != nil {
		return
	}
	if vKeep(f, r.filter) && vKeep(f, r.bestEffortFilter) {
		zzverif.Ensures("unchanged", out == Rel(r))
		return
	}
	c, ok := out.(*NamedTableReadRel)
	zzverif.Ensures("kind", ok && c != nil && zzverif.IsFresh(c))
	if ok && c != nil {
		want := *r
		want.filter, want.bestEffortFilter = vRw(f, r.filter), vRw(f, r.bestEffortFilter)
		zzverif.Ensures("rest", zzverif.Same(*c, want))
	}
}

//verif:contract (*ExtensionTableReadRel).CopyWithExpressionRewrite
//verif:props C19
func SpecRewriteExtensionTableRead(r *ExtensionTableReadRel, f RewriteFunc, in []Rel) {
	zzverif.Requires(r != nil && f != nil)
	out, err := r.CopyWithExpressionRewrite(f, in...)
	zzverif.Ensures("refused", (err != nil) == (vRefused(f, r.filter) || vRefused(f, r.bestEffortFilter)))
	if err != nil {
		return
	}
	if vKeep(f, r.filter) && vKeep(f, r.bestEffortFilter) {
		zzverif.Ensures("unchanged", out == Rel(r))
		return
	}
	c, ok := out.(*ExtensionTableReadRel)
	zzverif.Ensures("kind", ok && c != nil && zzverif.IsFresh(c))
	if ok && c != nil {
		want := *r
		want.filter, want.bestEffortFilter = vRw(f, r.filter), vRw(f, r.bestEffortFilter)
		zzverif.Ensures("rest", zzverif.Same(*c, want))
	}
}

//verif:contract (*IcebergTableReadRel).CopyWithExpressionRewrite
//verif:props C19
func SpecRewriteIcebergTableRead(r *IcebergTableReadRel, f RewriteFunc, in []Rel) {
	zzverif.Requires(r != nil && f != nil)
	out, err := r.CopyWithExpressionRewrite(f, in...)
	zzverif.Ensures("refused", (err != nil) == (vRefused(f, r.filter) || vRefused(f, r.bestEffortFilter)))
	if err != nil {
		return
	}
	if vKeep(f, r.filter) && vKeep(f, r.bestEffortFilter) {
		zzverif.Ensures("unchanged", out == Rel(r))
		return
	}
	c, ok := out.(*IcebergTableReadRel)
	zzverif.Ensures("kind", ok && c != nil && zzverif.IsFresh(c))
	if ok && c != nil {
		want := *r
		want.filter, want.bestEffortFilter = vRw(f, r.filter), vRw(f, r.bestEffortFilter)
		zzverif.Ensures("rest", zzverif.Same(*c, want))
	}
}

//verif:contract (*LocalFileReadRel).CopyWithExpressionRewrite
//verif:props C19
func SpecRewriteLocalFileRead(r *LocalFileReadRel, f RewriteFunc, in []Rel) {
	zzverif.Requires(r != nil && f != nil)
	out, err := r.CopyWithExpressionRewrite(f, in...)
	zzverif.Ensures("refused", (err != nil) == (vRefused(f, r.filter) || vRefused(f, r.bestEffortFilter)))
	if err != nil {
		return
	}
	if vKeep(f, r.filter) && vKeep(f, r.bestEffortFilter) {
		zzverif.Ensures("unchanged", out == Rel(r))
		return
	}
	c, ok := out.(*LocalFileReadRel)
	zzverif.Ensures("kind", ok && c != nil && zzverif.IsFresh(c))
	if ok && c != nil {
		want := *r
		want.filter, want.bestEffortFilter = vRw(f, r.filter), vRw(f, r.bestEffortFilter)
		zzverif.Ensures("rest", zzverif.Same(*c, want))
	}
}

//verif:contract (*FetchRel).CopyWithExpressionRewrite
//verif:props C19
func SpecRewriteFetch(r *FetchRel, f RewriteFunc, in []Rel) {
	zzverif.Requires(r != nil && f != nil)
	out, err := r.CopyWithExpressionRewrite(f, in...)
	zzverif.Ensures("count", (err != nil) == (len(in) != 1))
	if err != nil {
		return
	}
	if len(in) == 1 && in[0] == r.input {
		zzverif.Ensures("unchanged", out == Rel(r))
		return
	}
	c, ok := out.(*FetchRel)
	zzverif.Ensures("kind", ok && c != nil && zzverif.IsFresh(c))
	if ok && c != nil {
		want := *r
		want.input = in[0]
		zzverif.Ensures("rest", zzverif.Same(*c, want))
	}
}

//verif:contract (*CrossRel).CopyWithExpressionRewrite
//verif:props C19
func SpecRewriteCross(r *CrossRel, f RewriteFunc, in []Rel) {
	zzverif.Requires(r != nil && f != nil)
	out, err := r.CopyWithExpressionRewrite(f, in...)
	zzverif.Ensures("count", (err != nil) == (len(in) != 2))
	if err != nil {
		return
	}
	if len(in) == 2 && in[0] == r.left && in[1] == r.right {
		zzverif.Ensures("unchanged", out == Rel(r))
		return
	}
	c, ok := out.(*CrossRel)
	zzverif.Ensures("kind", ok && c != nil && zzverif.IsFresh(c))
	if ok && c != nil {
		want := *r
		want.left, want.right = in[0], in[1]
		zzverif.Ensures("rest", zzverif.Same(*c, want))
	}
}

//verif:contract (*ExtensionSingleRel).CopyWithExpressionRewrite
//verif:props C19
func SpecRewriteExtensionSingle(r *ExtensionSingleRel, f RewriteFunc, in []Rel) {
	zzverif.Requires(r != nil && f != nil)
	out, err := r.CopyWithExpressionRewrite(f, in...)
	zzverif.Ensures("count", (err != nil) == (len(in) != 1))
	if err != nil {
		return
	}
	if len(in) == 1 && in[0] == r.input {
		zzverif.Ensures("unchanged", out == Rel(r))
		return
	}
	c, ok := out.(*ExtensionSingleRel)
	zzverif.Ensures("kind", ok && c != nil && zzverif.IsFresh(c))
	if ok && c != nil {
		want := *r
		want.input = in[0]
		zzverif.Ensures("rest", zzverif.Same(*c, want))
	}
}

//verif:contract (*NamedTableWriteRel).CopyWithExpressionRewrite
//verif:props C19
func SpecRewriteNamedTableWrite(r *NamedTableWriteRel, f RewriteFunc, in []Rel) {
	zzverif.Requires(r != nil && f != nil)
	out, err := r.CopyWithExpressionRewrite(f, in...)
	zzverif.Ensures("count", (err != nil) == (len(in) != 1))
	if err != nil {
		return
	}
	if len(in) == 1 && in[0] == r.input {
		zzverif.Ensures("unchanged", out == Rel(r))
		return
	}
	c, ok := out.(*NamedTableWriteRel)
	zzverif.Ensures("kind", ok && c != nil && zzverif.IsFresh(c))
	if ok && c != nil {
		want := *r
		want.input = in[0]
		zzverif.Ensures("rest", zzverif.Same(*c, want))
	}
}

//verif:contract (*SetRel).CopyWithExpressionRewrite
//verif:props C19
func SpecRewriteSet(r *SetRel, f RewriteFunc, in []Rel) {
	zzverif.Requires(r != nil && f != nil)
	out, err := r.CopyWithExpressionRewrite(f, in...)
	zzverif.Ensures("count", err == nil)
	if err != nil {
		return
	}
	if len(in) == len(r.inputs) && zzverif.ForAll(len(in), func(i int) bool { return in[i] == r.inputs[i] }) {
		zzverif.Ensures("unchanged", out == Rel(r))
		return
	}
	c, ok := out.(*SetRel)
	zzverif.Ensures("kind", ok && c != nil && zzverif.IsFresh(c))
	if ok && c != nil {
		want := *r
		want.inputs = in
		zzverif.Ensures("rest", zzverif.Same(*c, want))
	}
}

//verif:contract (*ExtensionMultiRel).CopyWithExpressionRewrite
//verif:props C19
func SpecRewriteExtensionMulti(r *ExtensionMultiRel, f RewriteFunc, in []Rel) {
	zzverif.Requires(r != nil && f != nil)
	out, err := r.CopyWithExpressionRewrite(f, in...)
	zzverif.Ensures("count", err == nil)
	if err != nil {
		return
	}
	if len(in) == len(r.inputs) && zzverif.ForAll(len(in), func(i int) bool { return in[i] == r.inputs[i] }) {
		zzverif.Ensures("unchanged", out == Rel(r))
		return
	}
	c, ok := out.(*ExtensionMultiRel)
	zzverif.Ensures("kind", ok && c != nil && zzverif.IsFresh(c))
	if ok && c != nil {
		want := *r
		want.inputs = in
		zzverif.Ensures("rest", zzverif.Same(*c, want))
	}
}

//verif:contract (*ExtensionLeafRel).CopyWithExpressionRewrite
//verif:props C19
func SpecRewriteExtensionLeaf(r *ExtensionLeafRel, f RewriteFunc, in []Rel) {
	zzverif.Requires(r != nil && f != nil)
	out, err := r.CopyWithExpressionRewrite(f, in...)
	zzverif.Ensures("unchanged", err == nil && out == Rel(r))
}

//verif:contract (*VirtualTableReadRel).CopyWithExpressionRewrite
//verif:props C19
func SpecRewriteVirtual(r *VirtualTableReadRel, f RewriteFunc, in []Rel) {
	zzverif.Requires(r != nil && f != nil)
	out, err := r.CopyWithExpressionRewrite(f, in...)
	zzverif.Ensures("refused", (err != nil) == (vRefused(f, r.filter) || vRefused(f, r.bestEffortFilter) ||
		zzverif.Exists(len(r.values), func(i int) bool { return vAnyRefused(f, r.values[i]) })))
	if err != nil {
		return
	}
	if vKeep(f, r.filter) && vKeep(f, r.bestEffortFilter) && zzverif.ForAll(len(r.values), func(i int) bool { return vAllKept(f, r.values[i]) }) {
		zzverif.Ensures("unchanged", out == Rel(r))
		return
	}
	c, ok := out.(*VirtualTableReadRel)
	zzverif.Ensures("kind", ok && c != nil && zzverif.IsFresh(c))
	if ok && c != nil {
		zzverif.Ensures("rows", len(c.values) == len(r.values) && zzverif.ForAll(len(r.values), func(i int) bool { return vRewritten(f, c.values[i], r.values[i]) }))
		want := *r
		want.filter, want.bestEffortFilter, want.values = vRw(f, r.filter), vRw(f, r.bestEffortFilter), c.values
		zzverif.Ensures("rest", zzverif.Same(*c, want))
	}
}

//verif:inputs SpecRewriteFilter
func VGenRwFilter(g *zzverif.Gen) (*FilterRel, RewriteFunc, []Rel) {
	r := VGenFilter(g)
	return r, VGenRewrite(g), vNewInputs(g, r)
}

//verif:inputs SpecRewriteSort
func VGenRwSort(g *zzverif.Gen) (*SortRel, RewriteFunc, []Rel) {
	r := VGenSortRel(g)
	return r, VGenRewrite(g), vNewInputs(g, r)
}

//verif:inputs SpecRewriteJoin
func VGenRwJoin(g *zzverif.Gen) (*JoinRel, RewriteFunc, []Rel) {
	r := VGenJoin(g)
	return r, VGenRewrite(g), vNewInputs(g, r)
}

//verif:inputs SpecRewriteHashJoin
func VGenRwHashJoin(g *zzverif.Gen) (*HashJoinRel, RewriteFunc, []Rel) {
	r := VGenHashJoin(g)
	return r, VGenRewrite(g), vNewInputs(g, r)
}

//verif:inputs SpecRewriteMergeJoin
func VGenRwMergeJoin(g *zzverif.Gen) (*MergeJoinRel, RewriteFunc, []Rel) {
	r := VGenMergeJoin(g)
	return r, VGenRewrite(g), vNewInputs(g, r)
}

//verif:inputs SpecRewriteNamedTableRead
func VGenRwNamedTableRead(g *zzverif.Gen) (*NamedTableReadRel, RewriteFunc, []Rel) {
	r := VGenNamedRead(g)
	return r, VGenRewrite(g), vNewInputs(g, r)
}

//verif:inputs SpecRewriteExtensionTableRead
func VGenRwExtensionTableRead(g *zzverif.Gen) (*ExtensionTableReadRel, RewriteFunc, []Rel) {
	r := VGenExtTable(g)
	return r, VGenRewrite(g), vNewInputs(g, r)
}

//verif:inputs SpecRewriteIcebergTableRead
func VGenRwIcebergTableRead(g *zzverif.Gen) (*IcebergTableReadRel, RewriteFunc, []Rel) {
	r := VGenIceberg(g)
	return r, VGenRewrite(g), vNewInputs(g, r)
}

//verif:inputs SpecRewriteLocalFileRead
func VGenRwLocalFileRead(g *zzverif.Gen) (*LocalFileReadRel, RewriteFunc, []Rel) {
	r := VGenLocal(g)
	return r, VGenRewrite(g), vNewInputs(g, r)
}

//verif:inputs SpecRewriteFetch
func VGenRwFetch(g *zzverif.Gen) (*FetchRel, RewriteFunc, []Rel) {
	r := VGenFetch(g)
	return r, VGenRewrite(g), vNewInputs(g, r)
}

//verif:inputs SpecRewriteCross
func VGenRwCross(g *zzverif.Gen) (*CrossRel, RewriteFunc, []Rel) {
	r := VGenCross(g)
	return r, VGenRewrite(g), vNewInputs(g, r)
}

//verif:inputs SpecRewriteExtensionSingle
func VGenRwExtensionSingle(g *zzverif.Gen) (*ExtensionSingleRel, RewriteFunc, []Rel) {
	r := VGenExtSingle(g)
	return r, VGenRewrite(g), vNewInputs(g, r)
}

//verif:inputs SpecRewriteNamedTableWrite
func VGenRwNamedTableWrite(g *zzverif.Gen) (*NamedTableWriteRel, RewriteFunc, []Rel) {
	r := VGenWrite(g)
	return r, VGenRewrite(g), vNewInputs(g, r)
}

//verif:inputs SpecRewriteSet
func VGenRwSet(g *zzverif.Gen) (*SetRel, RewriteFunc, []Rel) {
	r := VGenSet(g)
	return r, VGenRewrite(g), vNewInputs(g, r)
}

//verif:inputs SpecRewriteExtensionMulti
func VGenRwExtensionMulti(g *zzverif.Gen) (*ExtensionMultiRel, RewriteFunc, []Rel) {
	r := VGenExtMulti(g)
	return r, VGenRewrite(g), vNewInputs(g, r)
}

//verif:inputs SpecRewriteVirtual
func VGenRwVirtual(g *zzverif.Gen) (*VirtualTableReadRel, RewriteFunc, []Rel) {
	r := VGenVirtual(g)
	return r, VGenRewrite(g), vNewInputs(g, r)
}

// vMeasureKept: the rewrite keeps every expression of the call.
func vMeasureKept(f RewriteFunc, m *expr.AggregateFunction) bool {
	return zzverif.ForAll(m.NArgs(), func(i int) bool {
		e, ok := m.Arg(i).(expr.Expression)
		return !ok || vKeep(f, e)
	}) && zzverif.ForAll(len(m.Sorts), func(i int) bool { return vKeep(f, m.Sorts[i].Expr) })
}

func vMeasureRefused(f RewriteFunc, m *expr.AggregateFunction) bool {
	return zzverif.Exists(m.NArgs(), func(i int) bool {
		e, ok := m.Arg(i).(expr.Expression)
		return ok && vRefused(f, e)
	}) || zzverif.Exists(len(m.Sorts), func(i int) bool { return vRefused(f, m.Sorts[i].Expr) })
}

// vMeasure: now is the call old, rewritten.
func vMeasure(f RewriteFunc, now, old *expr.AggregateFunction) bool {
	if old == nil || vMeasureKept(f, old) {
		return now == old
	}
	return now != nil && now != old && now.NArgs() == old.NArgs() && len(now.Sorts) == len(old.Sorts) && expr.VAggRest(now, old) &&
		zzverif.ForAll(now.NArgs(), func(i int) bool {
			if e, ok := old.Arg(i).(expr.Expression); ok {
				return now.Arg(i) == types.FuncArg(vRw(f, e))
			}
			return now.Arg(i) == old.Arg(i)
		}) && zzverif.ForAll(len(now.Sorts), func(i int) bool {
		return now.Sorts[i].Expr == vRw(f, old.Sorts[i].Expr) && now.Sorts[i].Kind == old.Sorts[i].Kind
	})
}

// vMakes: the rewrite gives expressions.
func vMakes(f RewriteFunc, m *expr.AggregateFunction) bool {
	return zzverif.ForAll(m.NArgs(), func(i int) bool {
		e, ok := m.Arg(i).(expr.Expression)
		return !ok || vRw(f, e) != nil || vRefused(f, e)
	})
}

//verif:contract (*AggregateRel).rewriteAggregateFunc
//verif:props C19
func SpecRewriteMeasure(ar *AggregateRel, f RewriteFunc, m *expr.AggregateFunction) {
	zzverif.Requires(f != nil && (m == nil || vMakes(f, m)))
	out, err := ar.rewriteAggregateFunc(f, m)
	if m == nil {
		zzverif.Ensures("none", out == nil && err == nil)
		return
	}
	zzverif.Ensures("refused", (err != nil) == vMeasureRefused(f, m))
	if err == nil {
		zzverif.Ensures("rewritten", vMeasure(f, out, m))
	}
}

//verif:inputs SpecRewriteMeasure
func VGenRwMeasure(g *zzverif.Gen) (*AggregateRel, RewriteFunc, *expr.AggregateFunction) {
	n := vNamed(g)
	return VGenAgg(g), VGenRewrite(g), expr.VAggOver(g, types.NewRecordTypeFromStruct(n.Struct))
}

//verif:contract (*AggregateRel).CopyWithExpressionRewrite
//verif:props C19
func SpecRewriteAggregate(r *AggregateRel, f RewriteFunc, in []Rel) {
	zzverif.Requires(r != nil && f != nil && zzverif.ForAll(len(r.measures), func(i int) bool {
		return r.measures[i].measure != nil && vMakes(f, r.measures[i].measure)
	}))
	out, err := r.CopyWithExpressionRewrite(f, in...)
	zzverif.Ensures("refused", (err != nil) == (len(in) != 1 || vAnyRefused(f, r.groupingExpressions) ||
		zzverif.Exists(len(r.measures), func(i int) bool {
			return vRefused(f, r.measures[i].filter) || vMeasureRefused(f, r.measures[i].measure)
		})))
	if err != nil {
		return
	}
	if in[0] == r.input && vAllKept(f, r.groupingExpressions) && zzverif.ForAll(len(r.measures), func(i int) bool {
		return vKeep(f, r.measures[i].filter) && vMeasureKept(f, r.measures[i].measure)
	}) {
		zzverif.Ensures("unchanged", out == Rel(r))
		return
	}
	c, ok := out.(*AggregateRel)
	zzverif.Ensures("kind", ok && c != nil && zzverif.IsFresh(c))
	if ok && c != nil {
		zzverif.Ensures("groups", vRewritten(f, c.groupingExpressions, r.groupingExpressions))
		zzverif.Ensures("measures", len(c.measures) == len(r.measures) && zzverif.ForAll(len(c.measures), func(i int) bool {
			return c.measures[i].filter == vRw(f, r.measures[i].filter) && vMeasure(f, c.measures[i].measure, r.measures[i].measure)
		}))
		want := *r
		want.input, want.groupingExpressions, want.measures = in[0], c.groupingExpressions, c.measures
		zzverif.Ensures("rest", zzverif.Same(*c, want))
	}
}

//verif:inputs SpecRewriteAggregate
func VGenRwAggregate(g *zzverif.Gen) (*AggregateRel, RewriteFunc, []Rel) {
	r := VGenAgg(g)
	return r, VGenRewrite(g), vNewInputs(g, r)
}
