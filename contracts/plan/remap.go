package plan

import (
	"github.com/substrait-io/substrait-go/v8/types"
	"github.com/substrait-io/substrait-go/v8/zzverif"
	pb "google.golang.org/protobuf/proto"
)

//verif:contract (*RelCommon).OutputMapping
//verif:props C15
func SpecOutputMapping(rc *RelCommon) {
	zzverif.Requires(rc != nil)
	m := rc.OutputMapping()
	zzverif.Ensures("absent", (m == nil) == (rc.mapping == nil))
	zzverif.Ensures("mapping", len(m) == len(rc.mapping) && zzverif.ForAll(len(m), func(i int) bool { return m[i] == rc.mapping[i] }))
	zzverif.Ensures("own", len(m) == 0 || zzverif.IsFresh(m))
}

//verif:contract (*RelCommon).setMapping
//verif:props C15
func SpecSetMapping(rc *RelCommon, mapping []int32) {
	zzverif.Requires(rc != nil)
	want := *rc
	want.mapping = mapping
	zzverif.Modifies(rc)
	rc.setMapping(mapping)
	zzverif.Ensures("only-the-mapping", zzverif.Same(*rc, want))
}

//verif:contract isSequentialFromZero
//verif:props C15
func SpecSequential(order []int32) {
	zzverif.Requires(len(order) < 1<<30)
	b := isSequentialFromZero(order)
	zzverif.Ensures("identity", b == zzverif.ForAll(len(order), func(i int) bool { return order[i] == int32(i) }))
}

// vComposed: new is the mapping that picks columns m of old.
func vComposed(new, old, m []int32) bool {
	return len(new) == len(m) && zzverif.ForAll(len(m), func(i int) bool {
		if old == nil {
			return new[i] == m[i]
		}
		return new[i] == old[m[i]]
	})
}

// SpecRemap: a mapping applied to any relation gives the mapped columns of
// its current output, or an error; nothing else changes. (Replayed; the pieces
// it is made of are proved.)
//
//verif:bounded
//verif:weight 10
//verif:props C15
func SpecRemap(r Rel, mapping []int32) {
	zzverif.Requires(vKnown(r))
	cur, direct := vOut(r), vDirect(r)
	valid := vIndexOK(mapping, len(cur))
	before := r.ToProto()
	out, err := r.Remap(mapping...)
	zzverif.Ensures("range", valid == (err == nil))
	zzverif.Ensures("receiver", pb.Equal(before, r.ToProto()))
	if err != nil {
		return
	}
	got := out.RecordType()
	zzverif.Ensures("columns", len(got.Types()) == len(mapping) && zzverif.ForAll(len(mapping), func(i int) bool {
		return types.VEqType(got.Types()[i], cur[mapping[i]])
	}))
	zzverif.Ensures("direct", vEqCols(out.directOutputSchema().Types(), direct))
	now := r.RecordType()
	zzverif.Ensures("receiver-schema", vEqCols(now.Types(), cur))
	zzverif.Ensures("new", zzverif.IsFresh(out))
	m := zzverif.Clone(out.OutputMapping())
	if m != nil {
		zzverif.Ensures("composed", vComposed(m, vMapping(r), mapping))
	} else {
		zzverif.Ensures("identity", len(direct) == len(mapping) && len(mapping) > 0)
	}
	out.setMapping(vMapping(r))
	zzverif.Ensures("rest", pb.Equal(before, out.ToProto()))
}

//verif:inputs SpecRemap
func VGenRemap(g *zzverif.Gen) (Rel, []int32) {
	r := zzverif.Make[Rel](g)
	if !vKnown(r) {
		return r, nil
	}
	return r, vIndices(g, len(vOut(r)))
}

// vIndices: mostly columns, now and then past either end.
func vIndices(g *zzverif.Gen, n int) []int32 {
	if g.Chance(1, 8) {
		ms := []int32{}
		for i := 0; i < n; i++ {
			ms = append(ms, int32(i))
		}
		return ms
	}
	var ms []int32
	for i := g.Intn(5); i > 0; i-- {
		switch {
		case g.Chance(1, 12):
			ms = append(ms, int32(n))
		case g.Chance(1, 20):
			ms = append(ms, -1)
		case n > 0:
			ms = append(ms, int32(g.Intn(n)))
		}
	}
	return ms
}

// SpecRemapTwice: mappings compose, and earlier results are not disturbed.
//
//verif:bounded
//verif:weight 4
//verif:props C15
func SpecRemapTwice(r Rel, a, b, c []int32) {
	zzverif.Requires(vKnown(r))
	cur := vOut(r)
	zzverif.Requires(vIndexOK(a, len(cur)) && vIndexOK(b, len(a)) && vIndexOK(c, len(a)))
	x, err := r.Remap(a...)
	zzverif.Ensures("first", err == nil)
	y, err := x.Remap(b...)
	zzverif.Ensures("second", err == nil)
	z, err := x.Remap(c...)
	zzverif.Ensures("third", err == nil)
	tx, ty, tz := x.RecordType(), y.RecordType(), z.RecordType()
	zzverif.Ensures("x", vPicked(tx.Types(), cur, func(i int) int32 { return a[i] }, len(a)))
	zzverif.Ensures("y", vPicked(ty.Types(), cur, func(i int) int32 { return a[b[i]] }, len(b)))
	zzverif.Ensures("z", vPicked(tz.Types(), cur, func(i int) int32 { return a[c[i]] }, len(c)))
}

func vPicked(got, from []types.Type, at func(int) int32, n int) bool {
	return len(got) == n && zzverif.ForAll(n, func(i int) bool { return types.VEqType(got[i], from[at(i)]) })
}

//verif:inputs SpecRemapTwice
func VGenRemapTwice(g *zzverif.Gen) (Rel, []int32, []int32, []int32) {
	r := zzverif.Make[Rel](g)
	if !vKnown(r) {
		return r, nil, nil, nil
	}
	a := vIndices(g, len(vOut(r)))
	return r, a, vIndices(g, len(a)), vIndices(g, len(a))
}
