package extensions

import (
	"strings"

	"github.com/substrait-io/substrait-go/v8/zzverif"
	"github.com/substrait-io/substrait-protobuf/go/substraitpb/extensions"
)

// VGenSet makes sets as decoding and registration leave them: inverse tables,
// arbitrary anchors, every identity's URN declared.
//
//verif:gen
func VGenSet(g *zzverif.Gen) *set {
	if g.Chance(1, 30) {
		return zzverif.MakeRaw[*set](g)
	}
	e := NewSet().(*set)
	urns := []string{"u", "v", "w", "extension:a:b", ""}
	if g.Chance(1, 2) {
		// names that are nearly the same
		for i := 1; i < 4; i++ {
			urns[i] = g.Near(urns[g.Intn(i)])
		}
		if urns[1] == "" || urns[2] == "" || urns[3] == "" || urns[1] == urns[0] || urns[2] == urns[1] || urns[2] == urns[0] || urns[3] == urns[0] || urns[3] == urns[1] || urns[3] == urns[2] {
			urns = []string{"u", "u/", "U", "uu", ""}
		}
	}
	anchor := func() uint32 {
		if g.Chance(1, 12) {
			return uint32(g.Int())
		}
		return uint32(g.Intn(9))
	}
	n := g.Intn(5)
	for _, u := range urns[:n] {
		a := anchor()
		if _, ok := e.urns[a]; !ok {
			e.urns[a] = u
		}
	}
	id := func() (string, string, bool) {
		if g.Chance(1, 12) {
			return g.Str(), g.Str(), true
		}
		for _, u := range urns[:n] {
			if _, ok := e.FindURN(u); ok && g.Chance(2, 3) {
				return u, []string{"f", "g", "h", "f:i32"}[g.Intn(4)], true
			}
		}
		return "", "", false
	}
	for i := g.Intn(6); i > 0; i-- {
		if u, n, ok := id(); ok {
			a := anchor()
			if _, has := e.funcMap[a]; !has && !VHasFuncID(e, FunctionID{u, n}) {
				e.encodeFunc(a, FunctionID{u, n})
			}
		}
	}
	for i := g.Intn(4); i > 0; i-- {
		if u, n, ok := id(); ok {
			a := anchor()
			if _, has := e.typesMap[a]; !has && !VHasTypeID(e, TypeID{u, n}) {
				e.encodeType(a, TypeID{u, n})
			}
		}
	}
	for i := g.Intn(4); i > 0; i-- {
		if u, n, ok := id(); ok {
			a := anchor()
			if _, has := e.typeVariationMap[a]; !has && !VHasTypeVariationID(e, TypeVariationID{u, n}) {
				e.encodeTypeVariation(a, TypeVariationID{u, n})
			}
		}
	}
	return e
}

// ids drawn from the same small pool as the sets
//
//verif:gen
func VGenFunctionID(g *zzverif.Gen) FunctionID {
	return FunctionID{zzverif.OneOf(g, "u", "v", "w", "extension:a:b", "x"), zzverif.OneOf(g, "f", "g", "h", "f:i32", "f:str_dec")}
}

//verif:gen
func VGenTypeID(g *zzverif.Gen) TypeID { return TypeID(VGenFunctionID(g)) }

//verif:gen
func VGenTypeVariationID(g *zzverif.Gen) TypeVariationID { return TypeVariationID(VGenFunctionID(g)) }

//verif:gen
func VGenCollection(g *zzverif.Gen) *Collection {
	c := &Collection{}
	if g.Chance(1, 10) {
		return c
	}
	c.init()
	for i := g.Intn(4); i > 0; i-- {
		id := VGenFunctionID(g)
		c.urnSet[id.URN] = struct{}{}
		switch g.Intn(6) {
		case 0:
			c.scalarMap[id] = &ScalarFunctionVariant{urn: id.URN}
		case 1:
			c.aggregateMap[id] = &AggregateFunctionVariant{urn: id.URN}
		case 2:
			c.windowMap[id] = &WindowFunctionVariant{urn: id.URN}
		case 3:
			c.typeMap[TypeID(id)] = Type{Name: id.Name}
		case 4:
			c.typeVariationMap[TypeVariationID(id)] = TypeVariation{Name: id.Name}
		case 5:
			c.simpleNameMap[id] = zzverif.OneOf(g, "f", "g", "f:i32")
		}
	}
	return c
}

// VSetOk: a set as it is after any history of registrations, or after decoding
// a plan whose declarations are unambiguous.
func VSetOk(e *set) bool {
	if !VSetMaps(e) || !VFuncsOk(e) || !VTypesOk(e) || !VTypeVariationsOk(e) {
		return false
	}
	known := map[string]bool{}
	for _, u := range e.urns {
		if known[u] {
			return false
		}
		known[u] = true
	}
	for id := range e.funcs {
		if !known[id.URN] {
			return false
		}
	}
	for id := range e.types {
		if !known[id.URN] {
			return false
		}
	}
	for id := range e.typeVariations {
		if !known[id.URN] {
			return false
		}
	}
	return true
}

// VTop is a plan as far as extensions are concerned.
type VTop struct {
	Urns  []*extensions.SimpleExtensionURN
	Decls []*extensions.SimpleExtensionDeclaration
}

func (v *VTop) GetExtensionUrns() []*extensions.SimpleExtensionURN      { return v.Urns }
func (v *VTop) GetExtensions() []*extensions.SimpleExtensionDeclaration { return v.Decls }

// VDeclOrder: class and anchor of a declaration.
func VDeclOrder(d *extensions.SimpleExtensionDeclaration) (class int, anchor uint32, name string, urn uint32) {
	switch k := d.MappingType.(type) {
	case *extensions.SimpleExtensionDeclaration_ExtensionType_:
		return 0, k.ExtensionType.TypeAnchor, k.ExtensionType.Name, k.ExtensionType.ExtensionUrnReference
	case *extensions.SimpleExtensionDeclaration_ExtensionTypeVariation_:
		return 1, k.ExtensionTypeVariation.TypeVariationAnchor, k.ExtensionTypeVariation.Name, k.ExtensionTypeVariation.ExtensionUrnReference
	case *extensions.SimpleExtensionDeclaration_ExtensionFunction_:
		return 2, k.ExtensionFunction.FunctionAnchor, k.ExtensionFunction.Name, k.ExtensionFunction.ExtensionUrnReference
	}
	return 3, 0, "", 0
}

// SpecSetToProto: one declaration per identity, tied to its URN, ordered by
// class and anchor (hence a function of the set).
//
//verif:bounded
//verif:props C13
func SpecSetToProto(e *set, c *Collection) {
	zzverif.Requires(VSetOk(e))
	urns, decls := e.ToProto(c)
	zzverif.Ensures("one-urn-each", len(urns) == len(e.urns))
	for i, u := range urns {
		v, ok := e.urns[u.ExtensionUrnAnchor]
		zzverif.Ensures("urn-as-declared", ok && v == u.Urn)
		zzverif.Ensures("urns-ordered", i == 0 || urns[i-1].ExtensionUrnAnchor < u.ExtensionUrnAnchor)
	}
	zzverif.Ensures("one-declaration-each", len(decls) == len(e.funcs)+len(e.types)+len(e.typeVariations))
	for i, d := range decls {
		class, anchor, name, ref := VDeclOrder(d)
		urn, known := e.urns[ref]
		ok := false
		switch class {
		case 0:
			id, has := e.typesMap[anchor]
			ok = has && id == TypeID{urn, name}
		case 1:
			id, has := e.typeVariationMap[anchor]
			ok = has && id == TypeVariationID{urn, name}
		case 2:
			id, has := e.funcMap[anchor]
			ok = has && id == FunctionID{urn, name}
		}
		zzverif.Ensures("declaration-of-an-identity", ok && known)
		if i > 0 {
			pc, pa, _, _ := VDeclOrder(decls[i-1])
			zzverif.Ensures("ordered", pc < class || pc == class && pa < anchor)
		}
	}
	// decoding what was encoded gives the same set
	all := &Collection{}
	all.init()
	for _, u := range e.urns {
		all.urnSet[u] = struct{}{}
	}
	s, err := GetExtensionSet(&VTop{urns, decls}, all)
	zzverif.Ensures("decodes", err == nil)
	d := s.(*set)
	zzverif.Ensures("same-set", VSameSet(d, e))
	zzverif.Ensures("independent-of-map-order", VSameDecls(s.ToProto(all))(urns, decls))
}

func VSameDecls(u1 []*extensions.SimpleExtensionURN, d1 []*extensions.SimpleExtensionDeclaration) func([]*extensions.SimpleExtensionURN, []*extensions.SimpleExtensionDeclaration) bool {
	return func(u2 []*extensions.SimpleExtensionURN, d2 []*extensions.SimpleExtensionDeclaration) bool {
		if len(u1) != len(u2) || len(d1) != len(d2) {
			return false
		}
		for i := range u1 {
			if u1[i].Urn != u2[i].Urn || u1[i].ExtensionUrnAnchor != u2[i].ExtensionUrnAnchor {
				return false
			}
		}
		for i := range d1 {
			a, b, c, d := VDeclOrder(d1[i])
			e, f, g, h := VDeclOrder(d2[i])
			if a != e || b != f || c != g || d != h {
				return false
			}
		}
		return true
	}
}

func VSameSet(d, e *set) bool {
	if len(d.urns) != len(e.urns) || len(d.funcs) != len(e.funcs) || len(d.types) != len(e.types) || len(d.typeVariations) != len(e.typeVariations) ||
		len(d.funcMap) != len(e.funcMap) || len(d.typesMap) != len(e.typesMap) || len(d.typeVariationMap) != len(e.typeVariationMap) {
		return false
	}
	for a, u := range e.urns {
		if v, ok := d.urns[a]; !ok || v != u {
			return false
		}
	}
	for a, id := range e.funcMap {
		if v, ok := d.funcMap[a]; !ok || v != id || d.funcs[id] != a {
			return false
		}
	}
	for a, id := range e.typesMap {
		if v, ok := d.typesMap[a]; !ok || v != id || d.types[id] != a {
			return false
		}
	}
	for a, id := range e.typeVariationMap {
		if v, ok := d.typeVariationMap[a]; !ok || v != id || d.typeVariations[id] != a {
			return false
		}
	}
	return true
}

// SpecGetExtensionSet: the decoded set holds exactly what the declarations
// say; a reference to an undeclared URN, or to one that is not loaded, is an
// error.
//
//verif:bounded
//verif:props C13 C12
func SpecGetExtensionSet(top *VTop, c *Collection) {
	seen := map[[2]uint32]bool{}
	ids := map[[3]string]bool{}
	urns := map[uint32]string{}
	for _, u := range top.Urns {
		zzverif.Requires(u != nil)
		_, dup := urns[u.ExtensionUrnAnchor]
		zzverif.Requires(!dup)
		urns[u.ExtensionUrnAnchor] = u.Urn
	}
	bad := false
	n := [3]int{}
	for _, d := range top.Decls {
		class, anchor, name, ref := VDeclOrder(d)
		if class == 3 {
			continue
		}
		k := [2]uint32{uint32(class), anchor}
		ki := [3]string{string(rune('0' + class)), urns[ref], name}
		zzverif.Requires(!seen[k] && !ids[ki])
		seen[k], ids[ki] = true, true
		n[class]++
		u, ok := urns[ref]
		if !ok || !c.URNLoaded(u) {
			bad = true
		}
	}
	s, err := GetExtensionSet(top, c)
	zzverif.Ensures("undeclared-urn-rejected", (err != nil) == bad)
	if err != nil {
		return
	}
	e := s.(*set)
	zzverif.Ensures("tables", VSetMaps(e) && VFuncsOk(e) && VTypesOk(e) && VTypeVariationsOk(e))
	zzverif.Ensures("counts", len(e.types) == n[0] && len(e.typeVariations) == n[1] && len(e.funcs) == n[2])
	for _, d := range top.Decls {
		class, anchor, name, ref := VDeclOrder(d)
		switch class {
		case 0:
			id, ok := s.DecodeType(anchor)
			zzverif.Ensures("type-as-declared", ok && id == TypeID{urns[ref], name} && s.GetTypeAnchor(id) == anchor)
		case 1:
			id, ok := s.DecodeTypeVariation(anchor)
			zzverif.Ensures("variation-as-declared", ok && id == TypeVariationID{urns[ref], name} && s.GetTypeVariationAnchor(id) == anchor)
		case 2:
			id, ok := s.DecodeFunc(anchor)
			zzverif.Ensures("function-as-declared", ok && id == FunctionID{urns[ref], name} && s.GetFuncAnchor(id) == anchor)
		}
	}
	for a, u := range urns {
		zzverif.Ensures("urn-as-declared", e.urns[a] == u)
	}
}

//verif:inputs SpecGetExtensionSet
func VInGetExtensionSet(g *zzverif.Gen) (*VTop, *Collection) {
	c := VGenCollection(g)
	e := VGenSet(g)
	t := &VTop{}
	if VSetMaps(e) {
		t.Urns, t.Decls = e.ToProto(nil)
		if g.Chance(3, 4) {
			c.init()
			for _, u := range e.urns {
				if !g.Chance(1, 20) {
					c.urnSet[u] = struct{}{}
				}
			}
		}
		g.R.Shuffle(len(t.Urns), func(i, j int) { t.Urns[i], t.Urns[j] = t.Urns[j], t.Urns[i] })
		g.R.Shuffle(len(t.Decls), func(i, j int) { t.Decls[i], t.Decls[j] = t.Decls[j], t.Decls[i] })
		if g.Chance(1, 6) && len(t.Urns) > 0 {
			t.Urns = t.Urns[:len(t.Urns)-1]
		}
		if g.Chance(1, 6) {
			t.Decls = append(t.Decls, &extensions.SimpleExtensionDeclaration{})
		}
	}
	return t, c
}

// SpecSetHistory: whatever the order of registrations, an identity keeps the
// anchor it was first given, anchors are not shared, and encoding and decoding
// in between changes nothing.
//
//verif:bounded
//verif:props C12 C13
func SpecSetHistory(e *set, ops []uint8, fs []FunctionID, ts []TypeID, vs []TypeVariationID) {
	zzverif.Requires(VSetOk(e))
	zzverif.Modifies(e.funcs)
	zzverif.Modifies(e.funcMap)
	zzverif.Modifies(e.types)
	zzverif.Modifies(e.typesMap)
	zzverif.Modifies(e.typeVariations)
	zzverif.Modifies(e.typeVariationMap)
	zzverif.Modifies(e.urns)
	var s Set = e
	fa := map[FunctionID]uint32{}
	ta := map[TypeID]uint32{}
	va := map[TypeVariationID]uint32{}
	for id, a := range e.funcs {
		fa[id] = a
	}
	for id, a := range e.types {
		ta[id] = a
	}
	for id, a := range e.typeVariations {
		va[id] = a
	}
	all := &Collection{}
	all.init()
	for i, op := range ops {
		switch op % 4 {
		case 0:
			if len(fs) > 0 {
				id := fs[i%len(fs)]
				a := s.GetFuncAnchor(id)
				old, had := fa[id]
				zzverif.Ensures("stable", !had || old == a)
				fa[id] = a
				all.urnSet[id.URN] = struct{}{}
			}
		case 1:
			if len(ts) > 0 {
				id := ts[i%len(ts)]
				a := s.GetTypeAnchor(id)
				old, had := ta[id]
				zzverif.Ensures("stable", !had || old == a)
				ta[id] = a
				all.urnSet[id.URN] = struct{}{}
			}
		case 2:
			if len(vs) > 0 {
				id := vs[i%len(vs)]
				a := s.GetTypeVariationAnchor(id)
				old, had := va[id]
				zzverif.Ensures("stable", !had || old == a)
				va[id] = a
				all.urnSet[id.URN] = struct{}{}
			}
		case 3:
			urns, decls := s.ToProto(all)
			for _, u := range urns {
				all.urnSet[u.Urn] = struct{}{}
			}
			d, err := GetExtensionSet(&VTop{urns, decls}, all)
			zzverif.Ensures("decodes", err == nil)
			s = d
		}
	}
	used := map[uint32]bool{}
	for id, a := range fa {
		got, ok := s.DecodeFunc(a)
		zzverif.Ensures("function-kept", ok && got == id && !used[a])
		used[a] = true
	}
	used = map[uint32]bool{}
	for id, a := range ta {
		got, ok := s.DecodeType(a)
		zzverif.Ensures("type-kept", ok && got == id && !used[a])
		used[a] = true
	}
	used = map[uint32]bool{}
	for id, a := range va {
		got, ok := s.DecodeTypeVariation(a)
		zzverif.Ensures("variation-kept", ok && got == id && !used[a])
		used[a] = true
	}
}

// Variants made on the fly, of functions no collection defines: they are known by
// the name in the plan and by nothing else.

func vMadeName(id, name string, args FuncParameterList) bool {
	i := strings.IndexByte(id, ':')
	if i < 0 {
		return name == id && len(args) == 0
	}
	s := ScalarFunctionImpl{Args: args}
	return name == id[:i] && s.signatureKey() == id[i+1:]
}

//verif:contract NewScalarFuncVariant
//verif:noprove
//verif:props C08
func SpecNewScalarVariant(id FunctionID) {
	v := NewScalarFuncVariant(id)
	zzverif.Ensures("made", v != nil && v.urn == id.URN)
	if !zzverif.Using() && !zzverif.Prove() {
		zzverif.Ensures("name", vMadeName(id.Name, v.name, v.impl.Args))
	}
}

//verif:contract NewWindowFuncVariant
//verif:noprove
//verif:props C08
func SpecNewWindowVariant(id FunctionID) {
	v := NewWindowFuncVariant(id)
	zzverif.Ensures("made", v != nil && v.urn == id.URN)
	if !zzverif.Using() && !zzverif.Prove() {
		zzverif.Ensures("name", vMadeName(id.Name, v.name, v.impl.Args))
	}
}

//verif:contract NewAggFuncVariant
//verif:noprove
//verif:props C08
func SpecNewAggVariant(id FunctionID) {
	v := NewAggFuncVariant(id)
	zzverif.Ensures("made", v != nil && v.urn == id.URN)
	if !zzverif.Using() && !zzverif.Prove() {
		zzverif.Ensures("name", vMadeName(id.Name, v.name, v.impl.Args))
	}
}
