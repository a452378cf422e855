package types

import "github.com/substrait-io/substrait-go/v8/zzverif"

//verif:contract NewRecordTypeFromTypes
//verif:props C11 C16
func SpecNewRecord(ts []Type) {
	r := NewRecordTypeFromTypes(ts)
	zzverif.Ensures("columns", r != nil && zzverif.Same(r.types, ts))
}

//verif:contract NewRecordTypeFromStruct
//verif:props C11 C16
func SpecNewRecordStruct(s StructType) {
	r := NewRecordTypeFromStruct(s)
	zzverif.Ensures("columns", r != nil && zzverif.Same(r.types, s.Types))
}

//verif:contract (RecordType).GetFieldRef
//verif:props C11 C16
func SpecRecordField(r RecordType, i int32) {
	zzverif.Requires(i >= 0 && int(i) < len(r.types))
	zzverif.Ensures("column", r.GetFieldRef(i) == r.types[i])
}

//verif:contract (RecordType).FieldCount
//verif:props C11 C16
func SpecRecordCount(r RecordType) {
	zzverif.Requires(len(r.types) < 1<<31)
	zzverif.Ensures("count", int(r.FieldCount()) == len(r.types))
}

//verif:contract (RecordType).Types
//verif:nouse
//verif:props C11 C16
func SpecRecordTypes(r RecordType) {
	zzverif.Ensures("columns", zzverif.Same(r.Types(), r.types))
}

//verif:contract (RecordType).AsStructType
//verif:props C11 C16
func SpecRecordStruct(r RecordType) {
	s := r.AsStructType()
	zzverif.Ensures("struct", s != nil && s.Nullability == NullabilityRequired && s.TypeVariationRef == 0 && zzverif.Same(s.Types, r.types))
}

//verif:contract (RecordType).Concat
//verif:nouse
//verif:props C11 C16
func SpecRecordConcat(r, o RecordType) {
	c := r.Concat(o)
	zzverif.Ensures("length", len(c.types) == len(r.types)+len(o.types))
	zzverif.Ensures("left", zzverif.ForAll(len(r.types), func(i int) bool { return c.types[i] == r.types[i] }))
	zzverif.Ensures("right", zzverif.ForAll(len(o.types), func(i int) bool { return c.types[len(r.types)+i] == o.types[i] }))
	zzverif.Ensures("own-array", len(c.types) == 0 || !zzverif.Same(c.types, r.types) && !zzverif.Same(c.types, o.types))
	zzverif.Ensures("fresh", len(c.types) == 0 || zzverif.IsFresh(c.types))
}

//verif:contract (RecordType).Equals
//verif:props C11 C16
func SpecRecordEquals(r RecordType, o *RecordType) {
	zzverif.Requires(o != nil)
	zzverif.Requires(zzverif.ForAll(len(r.types), func(i int) bool { return VConcType(r.types[i]) }))
	zzverif.Requires(zzverif.ForAll(len(o.types), func(i int) bool { return VConcType(o.types[i]) }))
	want := len(r.types) == len(o.types) && zzverif.ForAll(len(r.types), func(i int) bool { return VEqType(r.types[i], o.types[i]) })
	zzverif.Ensures("columns", r.Equals(o) == want)
}
