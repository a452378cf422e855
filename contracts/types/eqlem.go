package types

import "github.com/substrait-io/substrait-go/v8/zzverif"

// The three lemmas that make VEqType an equivalence, by induction on the type.

func VLemEqRefl(t Type) {
	switch t := t.(type) {
	case *StructType:
		for i := range t.Types {
			VLemEqRefl(t.Types[i])
		}
	case *FuncType:
		VLemEqRefl(t.ReturnType)
		for i := range t.ParameterTypes {
			VLemEqRefl(t.ParameterTypes[i])
		}
	case *ListType:
		VLemEqRefl(t.Type)
	case *MapType:
		VLemEqRefl(t.Key)
		VLemEqRefl(t.Value)
	case *UserDefinedType:
		for i := range t.TypeParameters {
			VLemEqReflP(t.TypeParameters[i])
		}
	}
}

func VLemEqReflP(t TypeParam) {
	switch t := t.(type) {
	case *DataTypeParameter:
		VLemEqRefl(t.Type)
	}
}

//verif:contract VLemEqRefl
//verif:split t
//verif:props C02 C06
func SpecLemEqRefl(t Type) {
	zzverif.Requires(VWfType(t) || vYearMonth(t))
	VLemEqRefl(t)
	zzverif.Ensures("reflexive", VEqType(t, t))
}

func vYearMonth(t Type) bool {
	_, ok := t.(IntervalYearToMonthType)
	return ok
}

//verif:contract VLemEqReflP
//verif:split t
//verif:props C02 C06
func SpecLemEqReflP(t TypeParam) {
	zzverif.Requires(VWfParam(t))
	VLemEqReflP(t)
	zzverif.Ensures("reflexive", VEqParam(t, t))
}

func VLemEqSym(t, u Type) {
	switch t := t.(type) {
	case *StructType:
		o := u.(*StructType)
		for i := range t.Types {
			VLemEqSym(t.Types[i], o.Types[i])
		}
	case *FuncType:
		o := u.(*FuncType)
		VLemEqSym(t.ReturnType, o.ReturnType)
		for i := range t.ParameterTypes {
			VLemEqSym(t.ParameterTypes[i], o.ParameterTypes[i])
		}
	case *ListType:
		VLemEqSym(t.Type, u.(*ListType).Type)
	case *MapType:
		VLemEqSym(t.Key, u.(*MapType).Key)
		VLemEqSym(t.Value, u.(*MapType).Value)
	case *UserDefinedType:
		o := u.(*UserDefinedType)
		for i := range t.TypeParameters {
			VLemEqSymP(t.TypeParameters[i], o.TypeParameters[i])
		}
	}
}

func VLemEqSymP(t, u TypeParam) {
	switch t := t.(type) {
	case *DataTypeParameter:
		VLemEqSym(t.Type, u.(*DataTypeParameter).Type)
	}
}

//verif:contract VLemEqSym
//verif:split t u
//verif:props C02 C06
func SpecLemEqSym(t, u Type) {
	zzverif.Requires(VEqType(t, u))
	VLemEqSym(t, u)
	zzverif.Ensures("symmetric", VEqType(u, t))
}

//verif:contract VLemEqSymP
//verif:split t u
//verif:props C02 C06
func SpecLemEqSymP(t, u TypeParam) {
	zzverif.Requires(VEqParam(t, u))
	VLemEqSymP(t, u)
	zzverif.Ensures("symmetric", VEqParam(u, t))
}

func VLemEqTrans(t, u, w Type) {
	switch t := t.(type) {
	case *StructType:
		o := u.(*StructType)
		q := w.(*StructType)
		for i := range t.Types {
			VLemEqTrans(t.Types[i], o.Types[i], q.Types[i])
		}
	case *FuncType:
		o := u.(*FuncType)
		q := w.(*FuncType)
		VLemEqTrans(t.ReturnType, o.ReturnType, q.ReturnType)
		for i := range t.ParameterTypes {
			VLemEqTrans(t.ParameterTypes[i], o.ParameterTypes[i], q.ParameterTypes[i])
		}
	case *ListType:
		VLemEqTrans(t.Type, u.(*ListType).Type, w.(*ListType).Type)
	case *MapType:
		VLemEqTrans(t.Key, u.(*MapType).Key, w.(*MapType).Key)
		VLemEqTrans(t.Value, u.(*MapType).Value, w.(*MapType).Value)
	case *UserDefinedType:
		o := u.(*UserDefinedType)
		q := w.(*UserDefinedType)
		for i := range t.TypeParameters {
			VLemEqTransP(t.TypeParameters[i], o.TypeParameters[i], q.TypeParameters[i])
		}
	}
}

func VLemEqTransP(t, u, w TypeParam) {
	switch t := t.(type) {
	case *DataTypeParameter:
		VLemEqTrans(t.Type, u.(*DataTypeParameter).Type, w.(*DataTypeParameter).Type)
	}
}

//verif:contract VLemEqTrans
//verif:split t u
//verif:props C02 C06
func SpecLemEqTrans(t, u, w Type) {
	zzverif.Requires(VEqType(t, u))
	zzverif.Requires(VEqType(u, w))
	VLemEqTrans(t, u, w)
	zzverif.Ensures("transitive", VEqType(t, w))
}

//verif:contract VLemEqTransP
//verif:split t u
//verif:props C02 C06
func SpecLemEqTransP(t, u, w TypeParam) {
	zzverif.Requires(VEqParam(t, u))
	zzverif.Requires(VEqParam(u, w))
	VLemEqTransP(t, u, w)
	zzverif.Ensures("transitive", VEqParam(t, w))
}
