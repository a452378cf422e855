package plan

import (
	"github.com/substrait-io/substrait-go/v8/zzverif"
)

// Copying a relation: a new relation of the same kind that differs only in
// its inputs; the original is not written (frame condition of every contract).
//
//verif:contract (*NamedTableReadRel).Copy
//verif:nouse
//verif:props C15 C19
func SpecCopyNamedTableReadRel(r *NamedTableReadRel, in []Rel) {
	zzverif.Requires(r != nil)
	out, err := r.Copy(in...)
	zzverif.Ensures("ok", err == nil)
	if err != nil {
		return
	}
	c, ok := out.(*NamedTableReadRel)
	zzverif.Ensures("kind", ok && c != nil)
	if ok && c != nil {
		zzverif.Ensures("new", zzverif.IsFresh(c))
		want := *r
		zzverif.Ensures("rest", zzverif.Same(*c, want))
	}
}

//verif:contract (*VirtualTableReadRel).Copy
//verif:nouse
//verif:props C15 C19
func SpecCopyVirtualTableReadRel(r *VirtualTableReadRel, in []Rel) {
	zzverif.Requires(r != nil)
	out, err := r.Copy(in...)
	zzverif.Ensures("ok", err == nil)
	if err != nil {
		return
	}
	c, ok := out.(*VirtualTableReadRel)
	zzverif.Ensures("kind", ok && c != nil)
	if ok && c != nil {
		zzverif.Ensures("new", zzverif.IsFresh(c))
		want := *r
		zzverif.Ensures("rest", zzverif.Same(*c, want))
	}
}

//verif:contract (*ExtensionTableReadRel).Copy
//verif:nouse
//verif:props C15 C19
func SpecCopyExtensionTableReadRel(r *ExtensionTableReadRel, in []Rel) {
	zzverif.Requires(r != nil)
	out, err := r.Copy(in...)
	zzverif.Ensures("ok", err == nil)
	if err != nil {
		return
	}
	c, ok := out.(*ExtensionTableReadRel)
	zzverif.Ensures("kind", ok && c != nil)
	if ok && c != nil {
		zzverif.Ensures("new", zzverif.IsFresh(c))
		want := *r
		zzverif.Ensures("rest", zzverif.Same(*c, want))
	}
}

//verif:contract (*IcebergTableReadRel).Copy
//verif:nouse
//verif:props C15 C19
func SpecCopyIcebergTableReadRel(r *IcebergTableReadRel, in []Rel) {
	zzverif.Requires(r != nil)
	out, err := r.Copy(in...)
	zzverif.Ensures("ok", err == nil)
	if err != nil {
		return
	}
	c, ok := out.(*IcebergTableReadRel)
	zzverif.Ensures("kind", ok && c != nil)
	if ok && c != nil {
		zzverif.Ensures("new", zzverif.IsFresh(c))
		want := *r
		zzverif.Ensures("rest", zzverif.Same(*c, want))
	}
}

//verif:contract (*LocalFileReadRel).Copy
//verif:nouse
//verif:props C15 C19
func SpecCopyLocalFileReadRel(r *LocalFileReadRel, in []Rel) {
	zzverif.Requires(r != nil)
	out, err := r.Copy(in...)
	zzverif.Ensures("ok", err == nil)
	if err != nil {
		return
	}
	c, ok := out.(*LocalFileReadRel)
	zzverif.Ensures("kind", ok && c != nil)
	if ok && c != nil {
		zzverif.Ensures("new", zzverif.IsFresh(c))
		want := *r
		zzverif.Ensures("rest", zzverif.Same(*c, want))
	}
}

//verif:contract (*ExtensionLeafRel).Copy
//verif:nouse
//verif:props C15 C19
func SpecCopyExtensionLeafRel(r *ExtensionLeafRel, in []Rel) {
	zzverif.Requires(r != nil)
	out, err := r.Copy(in...)
	zzverif.Ensures("ok", err == nil)
	if err != nil {
		return
	}
	c, ok := out.(*ExtensionLeafRel)
	zzverif.Ensures("kind", ok && c != nil)
	if ok && c != nil {
		zzverif.Ensures("new", zzverif.IsFresh(c))
		want := *r
		zzverif.Ensures("rest", zzverif.Same(*c, want))
	}
}

//verif:contract (*ProjectRel).Copy
//verif:nouse
//verif:props C15 C19
func SpecCopyProjectRel(r *ProjectRel, in []Rel) {
	zzverif.Requires(r != nil)
	out, err := r.Copy(in...)
	zzverif.Ensures("count", (err == nil) == (len(in) == 1))
	if err != nil {
		return
	}
	c, ok := out.(*ProjectRel)
	zzverif.Ensures("kind", ok && c != nil)
	if ok && c != nil {
		zzverif.Ensures("new", zzverif.IsFresh(c))
		want := *r
		want.input = in[0]
		zzverif.Ensures("rest", zzverif.Same(*c, want))
	}
}

//verif:contract (*FetchRel).Copy
//verif:nouse
//verif:props C15 C19
func SpecCopyFetchRel(r *FetchRel, in []Rel) {
	zzverif.Requires(r != nil)
	out, err := r.Copy(in...)
	zzverif.Ensures("count", (err == nil) == (len(in) == 1))
	if err != nil {
		return
	}
	c, ok := out.(*FetchRel)
	zzverif.Ensures("kind", ok && c != nil)
	if ok && c != nil {
		zzverif.Ensures("new", zzverif.IsFresh(c))
		want := *r
		want.input = in[0]
		zzverif.Ensures("rest", zzverif.Same(*c, want))
	}
}

//verif:contract (*AggregateRel).Copy
//verif:nouse
//verif:props C15 C19
func SpecCopyAggregateRel(r *AggregateRel, in []Rel) {
	zzverif.Requires(r != nil)
	out, err := r.Copy(in...)
	zzverif.Ensures("count", (err == nil) == (len(in) == 1))
	if err != nil {
		return
	}
	c, ok := out.(*AggregateRel)
	zzverif.Ensures("kind", ok && c != nil)
	if ok && c != nil {
		zzverif.Ensures("new", zzverif.IsFresh(c))
		want := *r
		want.input = in[0]
		zzverif.Ensures("rest", zzverif.Same(*c, want))
	}
}

//verif:contract (*SortRel).Copy
//verif:nouse
//verif:props C15 C19
func SpecCopySortRel(r *SortRel, in []Rel) {
	zzverif.Requires(r != nil)
	out, err := r.Copy(in...)
	zzverif.Ensures("count", (err == nil) == (len(in) == 1))
	if err != nil {
		return
	}
	c, ok := out.(*SortRel)
	zzverif.Ensures("kind", ok && c != nil)
	if ok && c != nil {
		zzverif.Ensures("new", zzverif.IsFresh(c))
		want := *r
		want.input = in[0]
		zzverif.Ensures("rest", zzverif.Same(*c, want))
	}
}

//verif:contract (*FilterRel).Copy
//verif:nouse
//verif:props C15 C19
func SpecCopyFilterRel(r *FilterRel, in []Rel) {
	zzverif.Requires(r != nil)
	out, err := r.Copy(in...)
	zzverif.Ensures("count", (err == nil) == (len(in) == 1))
	if err != nil {
		return
	}
	c, ok := out.(*FilterRel)
	zzverif.Ensures("kind", ok && c != nil)
	if ok && c != nil {
		zzverif.Ensures("new", zzverif.IsFresh(c))
		want := *r
		want.input = in[0]
		zzverif.Ensures("rest", zzverif.Same(*c, want))
	}
}

//verif:contract (*ExtensionSingleRel).Copy
//verif:nouse
//verif:props C15 C19
func SpecCopyExtensionSingleRel(r *ExtensionSingleRel, in []Rel) {
	zzverif.Requires(r != nil)
	out, err := r.Copy(in...)
	zzverif.Ensures("count", (err == nil) == (len(in) == 1))
	if err != nil {
		return
	}
	c, ok := out.(*ExtensionSingleRel)
	zzverif.Ensures("kind", ok && c != nil)
	if ok && c != nil {
		zzverif.Ensures("new", zzverif.IsFresh(c))
		want := *r
		want.input = in[0]
		zzverif.Ensures("rest", zzverif.Same(*c, want))
	}
}

//verif:contract (*NamedTableWriteRel).Copy
//verif:nouse
//verif:props C15 C19
func SpecCopyNamedTableWriteRel(r *NamedTableWriteRel, in []Rel) {
	zzverif.Requires(r != nil)
	out, err := r.Copy(in...)
	zzverif.Ensures("count", (err == nil) == (len(in) == 1))
	if err != nil {
		return
	}
	c, ok := out.(*NamedTableWriteRel)
	zzverif.Ensures("kind", ok && c != nil)
	if ok && c != nil {
		zzverif.Ensures("new", zzverif.IsFresh(c))
		want := *r
		want.input = in[0]
		zzverif.Ensures("rest", zzverif.Same(*c, want))
	}
}

//verif:contract (*JoinRel).Copy
//verif:nouse
//verif:props C15 C19
func SpecCopyJoinRel(r *JoinRel, in []Rel) {
	zzverif.Requires(r != nil)
	out, err := r.Copy(in...)
	zzverif.Ensures("count", (err == nil) == (len(in) == 2))
	if err != nil {
		return
	}
	c, ok := out.(*JoinRel)
	zzverif.Ensures("kind", ok && c != nil)
	if ok && c != nil {
		zzverif.Ensures("new", zzverif.IsFresh(c))
		want := *r
		want.left, want.right = in[0], in[1]
		zzverif.Ensures("rest", zzverif.Same(*c, want))
	}
}

//verif:contract (*CrossRel).Copy
//verif:nouse
//verif:props C15 C19
func SpecCopyCrossRel(r *CrossRel, in []Rel) {
	zzverif.Requires(r != nil)
	out, err := r.Copy(in...)
	zzverif.Ensures("count", (err == nil) == (len(in) == 2))
	if err != nil {
		return
	}
	c, ok := out.(*CrossRel)
	zzverif.Ensures("kind", ok && c != nil)
	if ok && c != nil {
		zzverif.Ensures("new", zzverif.IsFresh(c))
		want := *r
		want.left, want.right = in[0], in[1]
		zzverif.Ensures("rest", zzverif.Same(*c, want))
	}
}

//verif:contract (*HashJoinRel).Copy
//verif:nouse
//verif:props C15 C19
func SpecCopyHashJoinRel(r *HashJoinRel, in []Rel) {
	zzverif.Requires(r != nil)
	out, err := r.Copy(in...)
	zzverif.Ensures("count", (err == nil) == (len(in) == 2))
	if err != nil {
		return
	}
	c, ok := out.(*HashJoinRel)
	zzverif.Ensures("kind", ok && c != nil)
	if ok && c != nil {
		zzverif.Ensures("new", zzverif.IsFresh(c))
		want := *r
		want.left, want.right = in[0], in[1]
		zzverif.Ensures("rest", zzverif.Same(*c, want))
	}
}

//verif:contract (*MergeJoinRel).Copy
//verif:nouse
//verif:props C15 C19
func SpecCopyMergeJoinRel(r *MergeJoinRel, in []Rel) {
	zzverif.Requires(r != nil)
	out, err := r.Copy(in...)
	zzverif.Ensures("count", (err == nil) == (len(in) == 2))
	if err != nil {
		return
	}
	c, ok := out.(*MergeJoinRel)
	zzverif.Ensures("kind", ok && c != nil)
	if ok && c != nil {
		zzverif.Ensures("new", zzverif.IsFresh(c))
		want := *r
		want.left, want.right = in[0], in[1]
		zzverif.Ensures("rest", zzverif.Same(*c, want))
	}
}

//verif:contract (*SetRel).Copy
//verif:nouse
//verif:props C15 C19
func SpecCopySetRel(r *SetRel, in []Rel) {
	zzverif.Requires(r != nil)
	out, err := r.Copy(in...)
	zzverif.Ensures("ok", err == nil)
	if err != nil {
		return
	}
	c, ok := out.(*SetRel)
	zzverif.Ensures("kind", ok && c != nil)
	if ok && c != nil {
		zzverif.Ensures("new", zzverif.IsFresh(c))
		want := *r
		want.inputs = in
		zzverif.Ensures("rest", zzverif.Same(*c, want))
	}
}

//verif:contract (*ExtensionMultiRel).Copy
//verif:nouse
//verif:props C15 C19
func SpecCopyExtensionMultiRel(r *ExtensionMultiRel, in []Rel) {
	zzverif.Requires(r != nil)
	out, err := r.Copy(in...)
	zzverif.Ensures("ok", err == nil)
	if err != nil {
		return
	}
	c, ok := out.(*ExtensionMultiRel)
	zzverif.Ensures("kind", ok && c != nil)
	if ok && c != nil {
		zzverif.Ensures("new", zzverif.IsFresh(c))
		want := *r
		want.inputs = in
		zzverif.Ensures("rest", zzverif.Same(*c, want))
	}
}
