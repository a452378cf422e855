package extensions

import "github.com/substrait-io/substrait-go/v8/zzverif"

// VSetMaps: the set has all of its tables.
//
//verif:logic
func VSetMaps(e *set) bool {
	return e != nil && e.urns != nil && e.typesMap != nil && e.types != nil && e.typeVariationMap != nil && e.typeVariations != nil && e.funcMap != nil && e.funcs != nil
}

// VFuncsOk: the two Func tables are inverse to each other.
//
//verif:logic
func VFuncsOk(e *set) bool {
	return zzverif.ForAllKeys(e.funcs, func(id FunctionID, a uint32) bool { return VHasFunc(e, a) && e.funcMap[a] == id }) &&
		zzverif.ForAllKeys(e.funcMap, func(a uint32, id FunctionID) bool { return VHasFuncID(e, id) && e.funcs[id] == a })
}

//verif:logic
func VHasFunc(e *set, a uint32) bool {
	_, ok := e.funcMap[a]
	return ok
}

//verif:logic
func VHasFuncID(e *set, id FunctionID) bool {
	_, ok := e.funcs[id]
	return ok
}

//verif:contract (*set).GetFuncAnchor
//verif:props C12
func SpecGetFuncAnchor(e *set, id FunctionID) {
	zzverif.Requires(VSetMaps(e))
	zzverif.Requires(VFuncsOk(e))
	had := VHasFuncID(e, id)
	if !had {
		zzverif.Modifies(e.funcs)
		zzverif.Modifies(e.funcMap)
		zzverif.Modifies(e.urns)
	}
	before := e.funcs[id]
	ids := zzverif.MapClone(e.funcs)
	anchors := zzverif.MapClone(e.funcMap)
	urns := zzverif.MapClone(e.urns)
	r := e.GetFuncAnchor(id)
	zzverif.Ensures("decodes-to-identity", VHasFunc(e, r) && e.funcMap[r] == id)
	zzverif.Ensures("stable", VHasFuncID(e, id) && e.funcs[id] == r && (!had || r == before))
	zzverif.Ensures("unique", zzverif.ForAllKeys(ids, func(k FunctionID, a uint32) bool { return k == id || a != r }))
	zzverif.Ensures("others-kept", zzverif.ForAllKeys(ids, func(k FunctionID, a uint32) bool { return VHasFuncID(e, k) && e.funcs[k] == a }))
	zzverif.Ensures("anchors-kept", zzverif.ForAllKeys(anchors, func(a uint32, k FunctionID) bool { return VHasFunc(e, a) && e.funcMap[a] == k }))
	zzverif.Ensures("only-identity-added", zzverif.ForAllKeys(e.funcs, func(k FunctionID, a uint32) bool {
		_, ok := ids[k]
		return ok || k == id
	}))
	zzverif.Ensures("tables-inverse", VFuncsOk(e))
	zzverif.Ensures("urns-kept", zzverif.ForAllKeys(urns, func(a uint32, u string) bool {
		v, ok := e.urns[a]
		return ok && v == u
	}))
	zzverif.Ensures("urn-declared", had || !zzverif.ForAllKeys(e.urns, func(_ uint32, u string) bool { return u != id.URN }))
}

//verif:spec
//verif:props C12
func SpecAskTwiceFunc(e *set, id FunctionID, other FunctionID) {
	zzverif.Requires(VSetMaps(e))
	zzverif.Requires(VFuncsOk(e))
	zzverif.Modifies(e.funcs)
	zzverif.Modifies(e.funcMap)
	zzverif.Modifies(e.urns)
	a := e.GetFuncAnchor(id)
	b := e.GetFuncAnchor(other)
	c := e.GetFuncAnchor(id)
	zzverif.Ensures("stable", a == c)
	zzverif.Ensures("unique", (a == b) == (id == other))
}

//verif:contract (*set).DecodeFunc
//verif:props C12
func SpecDecodeFunc(e *set, a uint32) {
	zzverif.Requires(VSetMaps(e))
	id, ok := e.DecodeFunc(a)
	zzverif.Ensures("reads-table", ok == VHasFunc(e, a) && (!ok || id == e.funcMap[a]))
}

// VTypesOk: the two Type tables are inverse to each other.
//
//verif:logic
func VTypesOk(e *set) bool {
	return zzverif.ForAllKeys(e.types, func(id TypeID, a uint32) bool { return VHasType(e, a) && e.typesMap[a] == id }) &&
		zzverif.ForAllKeys(e.typesMap, func(a uint32, id TypeID) bool { return VHasTypeID(e, id) && e.types[id] == a })
}

//verif:logic
func VHasType(e *set, a uint32) bool {
	_, ok := e.typesMap[a]
	return ok
}

//verif:logic
func VHasTypeID(e *set, id TypeID) bool {
	_, ok := e.types[id]
	return ok
}

//verif:contract (*set).GetTypeAnchor
//verif:props C12
func SpecGetTypeAnchor(e *set, id TypeID) {
	zzverif.Requires(VSetMaps(e))
	zzverif.Requires(VTypesOk(e))
	zzverif.Modifies(e.types)
	zzverif.Modifies(e.typesMap)
	zzverif.Modifies(e.urns)
	had := VHasTypeID(e, id)
	before := e.types[id]
	ids := zzverif.MapClone(e.types)
	anchors := zzverif.MapClone(e.typesMap)
	urns := zzverif.MapClone(e.urns)
	r := e.GetTypeAnchor(id)
	zzverif.Ensures("decodes-to-identity", VHasType(e, r) && e.typesMap[r] == id)
	zzverif.Ensures("stable", VHasTypeID(e, id) && e.types[id] == r && (!had || r == before))
	zzverif.Ensures("unique", zzverif.ForAllKeys(ids, func(k TypeID, a uint32) bool { return k == id || a != r }))
	zzverif.Ensures("others-kept", zzverif.ForAllKeys(ids, func(k TypeID, a uint32) bool { return VHasTypeID(e, k) && e.types[k] == a }))
	zzverif.Ensures("anchors-kept", zzverif.ForAllKeys(anchors, func(a uint32, k TypeID) bool { return VHasType(e, a) && e.typesMap[a] == k }))
	zzverif.Ensures("only-identity-added", zzverif.ForAllKeys(e.types, func(k TypeID, a uint32) bool {
		_, ok := ids[k]
		return ok || k == id
	}))
	zzverif.Ensures("tables-inverse", VTypesOk(e))
	zzverif.Ensures("urns-kept", zzverif.ForAllKeys(urns, func(a uint32, u string) bool {
		v, ok := e.urns[a]
		return ok && v == u
	}))
	zzverif.Ensures("urn-declared", had || !zzverif.ForAllKeys(e.urns, func(_ uint32, u string) bool { return u != id.URN }))
}

//verif:spec
//verif:props C12
func SpecAskTwiceType(e *set, id TypeID, other TypeID) {
	zzverif.Requires(VSetMaps(e))
	zzverif.Requires(VTypesOk(e))
	zzverif.Modifies(e.types)
	zzverif.Modifies(e.typesMap)
	zzverif.Modifies(e.urns)
	a := e.GetTypeAnchor(id)
	b := e.GetTypeAnchor(other)
	c := e.GetTypeAnchor(id)
	zzverif.Ensures("stable", a == c)
	zzverif.Ensures("unique", (a == b) == (id == other))
}

//verif:contract (*set).DecodeType
//verif:props C12
func SpecDecodeType(e *set, a uint32) {
	zzverif.Requires(VSetMaps(e))
	id, ok := e.DecodeType(a)
	zzverif.Ensures("reads-table", ok == VHasType(e, a) && (!ok || id == e.typesMap[a]))
}

//verif:contract (*set).LookupType
//verif:props C12
func SpecLookupType(e *set, a uint32, c *Collection) {
	zzverif.Requires(VSetMaps(e))
	zzverif.Requires(c != nil)
	v, ok := e.LookupType(a, c)
	w, known := c.GetType(e.typesMap[a])
	zzverif.Ensures("found-iff-declared-and-loaded", ok == (VHasType(e, a) && known))
	zzverif.Ensures("value", !ok || zzverif.Same(v, w))
}

// VTypeVariationsOk: the two TypeVariation tables are inverse to each other.
//
//verif:logic
func VTypeVariationsOk(e *set) bool {
	return zzverif.ForAllKeys(e.typeVariations, func(id TypeVariationID, a uint32) bool { return VHasTypeVariation(e, a) && e.typeVariationMap[a] == id }) &&
		zzverif.ForAllKeys(e.typeVariationMap, func(a uint32, id TypeVariationID) bool {
			return VHasTypeVariationID(e, id) && e.typeVariations[id] == a
		})
}

//verif:logic
func VHasTypeVariation(e *set, a uint32) bool {
	_, ok := e.typeVariationMap[a]
	return ok
}

//verif:logic
func VHasTypeVariationID(e *set, id TypeVariationID) bool {
	_, ok := e.typeVariations[id]
	return ok
}

//verif:contract (*set).GetTypeVariationAnchor
//verif:props C12
func SpecGetTypeVariationAnchor(e *set, id TypeVariationID) {
	zzverif.Requires(VSetMaps(e))
	zzverif.Requires(VTypeVariationsOk(e))
	zzverif.Modifies(e.typeVariations)
	zzverif.Modifies(e.typeVariationMap)
	zzverif.Modifies(e.urns)
	had := VHasTypeVariationID(e, id)
	before := e.typeVariations[id]
	ids := zzverif.MapClone(e.typeVariations)
	anchors := zzverif.MapClone(e.typeVariationMap)
	urns := zzverif.MapClone(e.urns)
	r := e.GetTypeVariationAnchor(id)
	zzverif.Ensures("decodes-to-identity", VHasTypeVariation(e, r) && e.typeVariationMap[r] == id)
	zzverif.Ensures("stable", VHasTypeVariationID(e, id) && e.typeVariations[id] == r && (!had || r == before))
	zzverif.Ensures("unique", zzverif.ForAllKeys(ids, func(k TypeVariationID, a uint32) bool { return k == id || a != r }))
	zzverif.Ensures("others-kept", zzverif.ForAllKeys(ids, func(k TypeVariationID, a uint32) bool { return VHasTypeVariationID(e, k) && e.typeVariations[k] == a }))
	zzverif.Ensures("anchors-kept", zzverif.ForAllKeys(anchors, func(a uint32, k TypeVariationID) bool { return VHasTypeVariation(e, a) && e.typeVariationMap[a] == k }))
	zzverif.Ensures("only-identity-added", zzverif.ForAllKeys(e.typeVariations, func(k TypeVariationID, a uint32) bool {
		_, ok := ids[k]
		return ok || k == id
	}))
	zzverif.Ensures("tables-inverse", VTypeVariationsOk(e))
	zzverif.Ensures("urns-kept", zzverif.ForAllKeys(urns, func(a uint32, u string) bool {
		v, ok := e.urns[a]
		return ok && v == u
	}))
	zzverif.Ensures("urn-declared", had || !zzverif.ForAllKeys(e.urns, func(_ uint32, u string) bool { return u != id.URN }))
}

//verif:spec
//verif:props C12
func SpecAskTwiceTypeVariation(e *set, id TypeVariationID, other TypeVariationID) {
	zzverif.Requires(VSetMaps(e))
	zzverif.Requires(VTypeVariationsOk(e))
	zzverif.Modifies(e.typeVariations)
	zzverif.Modifies(e.typeVariationMap)
	zzverif.Modifies(e.urns)
	a := e.GetTypeVariationAnchor(id)
	b := e.GetTypeVariationAnchor(other)
	c := e.GetTypeVariationAnchor(id)
	zzverif.Ensures("stable", a == c)
	zzverif.Ensures("unique", (a == b) == (id == other))
}

//verif:contract (*set).DecodeTypeVariation
//verif:props C12
func SpecDecodeTypeVariation(e *set, a uint32) {
	zzverif.Requires(VSetMaps(e))
	id, ok := e.DecodeTypeVariation(a)
	zzverif.Ensures("reads-table", ok == VHasTypeVariation(e, a) && (!ok || id == e.typeVariationMap[a]))
}

//verif:contract (*set).LookupTypeVariation
//verif:props C12
func SpecLookupTypeVariation(e *set, a uint32, c *Collection) {
	zzverif.Requires(VSetMaps(e))
	zzverif.Requires(c != nil)
	v, ok := e.LookupTypeVariation(a, c)
	w, known := c.GetTypeVariation(e.typeVariationMap[a])
	zzverif.Ensures("found-iff-declared-and-loaded", ok == (VHasTypeVariation(e, a) && known))
	zzverif.Ensures("value", !ok || zzverif.Same(v, w))
}

//verif:contract (*set).LookupScalarFunction
//verif:props C12
func SpecLookupScalarFunction(e *set, a uint32, c *Collection) {
	zzverif.Requires(VSetMaps(e))
	zzverif.Requires(c != nil)
	v, ok := e.LookupScalarFunction(a, c)
	w, known := c.GetScalarFunc(e.funcMap[a])
	zzverif.Ensures("found-iff-declared-and-loaded", ok == (VHasFunc(e, a) && known))
	zzverif.Ensures("value", !ok || v == w)
}

// A loaded function is found by its compound name; by a simple name only when
// the collection maps the simple name to a compound one.
//
//verif:contract (*Collection).GetScalarFunc
//verif:props C12
func SpecGetScalarFunc(c *Collection, id FunctionID) {
	zzverif.Requires(c != nil)
	v, ok := c.GetScalarFunc(id)
	w, direct := c.scalarMap[id]
	name, simple := c.simpleNameMap[id]
	w2, ok2 := c.scalarMap[FunctionID{URN: id.URN, Name: name}]
	zzverif.Ensures("compound-name", !direct || ok && v == w)
	zzverif.Ensures("simple-name", direct || ok == (simple && ok2) && (!ok || v == w2))
	zzverif.Ensures("absent-is-nil", ok || v == nil)
}

//verif:contract (*set).LookupAggregateFunction
//verif:props C12
func SpecLookupAggregateFunction(e *set, a uint32, c *Collection) {
	zzverif.Requires(VSetMaps(e))
	zzverif.Requires(c != nil)
	v, ok := e.LookupAggregateFunction(a, c)
	w, known := c.GetAggregateFunc(e.funcMap[a])
	zzverif.Ensures("found-iff-declared-and-loaded", ok == (VHasFunc(e, a) && known))
	zzverif.Ensures("value", !ok || v == w)
}

// A loaded function is found by its compound name; by a simple name only when
// the collection maps the simple name to a compound one.
//
//verif:contract (*Collection).GetAggregateFunc
//verif:props C12
func SpecGetAggregateFunc(c *Collection, id FunctionID) {
	zzverif.Requires(c != nil)
	v, ok := c.GetAggregateFunc(id)
	w, direct := c.aggregateMap[id]
	name, simple := c.simpleNameMap[id]
	w2, ok2 := c.aggregateMap[FunctionID{URN: id.URN, Name: name}]
	zzverif.Ensures("compound-name", !direct || ok && v == w)
	zzverif.Ensures("simple-name", direct || ok == (simple && ok2) && (!ok || v == w2))
	zzverif.Ensures("absent-is-nil", ok || v == nil)
}

//verif:contract (*set).LookupWindowFunction
//verif:props C12
func SpecLookupWindowFunction(e *set, a uint32, c *Collection) {
	zzverif.Requires(VSetMaps(e))
	zzverif.Requires(c != nil)
	v, ok := e.LookupWindowFunction(a, c)
	w, known := c.GetWindowFunc(e.funcMap[a])
	zzverif.Ensures("found-iff-declared-and-loaded", ok == (VHasFunc(e, a) && known))
	zzverif.Ensures("value", !ok || v == w)
}

// A loaded function is found by its compound name; by a simple name only when
// the collection maps the simple name to a compound one.
//
//verif:contract (*Collection).GetWindowFunc
//verif:props C12
func SpecGetWindowFunc(c *Collection, id FunctionID) {
	zzverif.Requires(c != nil)
	v, ok := c.GetWindowFunc(id)
	w, direct := c.windowMap[id]
	name, simple := c.simpleNameMap[id]
	w2, ok2 := c.windowMap[FunctionID{URN: id.URN, Name: name}]
	zzverif.Ensures("compound-name", !direct || ok && v == w)
	zzverif.Ensures("simple-name", direct || ok == (simple && ok2) && (!ok || v == w2))
	zzverif.Ensures("absent-is-nil", ok || v == nil)
}

//verif:contract (*set).FindURN
//verif:props C12 C13
func SpecFindURN(e *set, urn string) {
	zzverif.Requires(VSetMaps(e))
	a, ok := e.FindURN(urn)
	u, has := e.urns[a]
	zzverif.Ensures("found-is-declared", !ok || has && u == urn)
	zzverif.Ensures("declared-is-found", ok || zzverif.ForAllKeys(e.urns, func(_ uint32, u string) bool { return u != urn }))
}

//verif:contract (*set).addOrGetURN
//verif:props C12 C13
func SpecAddOrGetURN(e *set, urn string) {
	zzverif.Requires(VSetMaps(e))
	zzverif.Modifies(e.urns)
	old := zzverif.MapClone(e.urns)
	a, err := e.addOrGetURN(urn)
	u, has := e.urns[a]
	zzverif.Ensures("declared", err == nil && has && u == urn)
	zzverif.Ensures("kept", zzverif.ForAllKeys(old, func(b uint32, u string) bool {
		v, ok := e.urns[b]
		return ok && v == u
	}))
	zzverif.Ensures("nothing-else-added", zzverif.ForAllKeys(e.urns, func(b uint32, u string) bool {
		_, ok := old[b]
		return ok || b == a && zzverif.ForAllKeys(old, func(_ uint32, v string) bool { return v != urn })
	}))
}

//verif:spec
//verif:props C12
func SpecNewSet(a uint32) {
	s := NewSet()
	_, f := s.DecodeFunc(a)
	_, t := s.DecodeType(a)
	_, v := s.DecodeTypeVariation(a)
	e := s.(*set)
	zzverif.Ensures("empty", !f && !t && !v && VSetMaps(e) && VFuncsOk(e) && VTypesOk(e) && VTypeVariationsOk(e) && len(e.urns) == 0)
}

// VSetReady: a set in a state every history leads to.
func VSetReady(s Set) bool {
	e, ok := s.(*set)
	return ok && e != nil && VSetMaps(e) && VFuncsOk(e)
}
