From 0cec45cc851dcc938dbe59ba22559865defc78dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:24 +0000
Subject: [PATCH 01/56] fix: IntervalDayType.WithNullability must not modify
 its receiver

---
 types/interval_day_type.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/types/interval_day_type.go b/types/interval_day_type.go
index 0d0369b..3bf0401 100644
--- a/types/interval_day_type.go
+++ b/types/interval_day_type.go
@@ -19,8 +19,9 @@ func (m *IntervalDayType) GetPrecisionProtoVal() int32 {
 
 func (*IntervalDayType) isRootRef() {}
 func (m *IntervalDayType) WithNullability(n Nullability) Type {
-	m.Nullability = n
-	return m
+	out := *m
+	out.Nullability = n
+	return &out
 }
 
 func (m *IntervalDayType) GetType() Type                     { return m }
-- 
2.43.0


From 8551845b6ff80ebc84fa2cb2a13bf9a15ccbef15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:33 +0000
Subject: [PATCH 02/56] fix: encode the interval types the decoder and the
 constructors produce

---
 types/types.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/types/types.go b/types/types.go
index 3407436..3e6f5f2 100644
--- a/types/types.go
+++ b/types/types.go
@@ -745,6 +745,11 @@ func TypeToProto(t Type) *proto.Type {
 				Precision:              precision,
 				Nullability:            proto.Type_Nullability(t.nullability),
 				TypeVariationReference: t.typeVariationRef}}}
+	case *IntervalCompoundType:
+		// the representation TypeFromProto produces
+		return t.ToProto()
+	case IntervalYearToMonthType:
+		return t.ToProto()
 	case *UUIDType:
 		return &proto.Type{Kind: &proto.Type_Uuid{
 			Uuid: &proto.Type_UUID{
-- 
2.43.0


From fe9300e5abf06b1b25a58cefa69bf192ae54fb78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:06 +0000
Subject: [PATCH 03/56] fix: never hand out an extension anchor that is already
 in use

---
 extensions/extension_mgr.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/extensions/extension_mgr.go b/extensions/extension_mgr.go
index 7eaa25a..f6d4e06 100644
--- a/extensions/extension_mgr.go
+++ b/extensions/extension_mgr.go
@@ -515,7 +515,7 @@ func (e *set) GetTypeAnchor(id TypeID) uint32 {
 		if err != nil {
 			panic(err)
 		}
-		a = uint32(len(e.types)) + 1
+		a = nextAnchor(e.typesMap, len(e.types))
 		e.encodeType(a, id)
 	}
 	return a
@@ -528,7 +528,7 @@ func (e *set) GetFuncAnchor(id FunctionID) uint32 {
 		if err != nil {
 			panic(err)
 		}
-		a = uint32(len(e.funcs)) + 1
+		a = nextAnchor(e.funcMap, len(e.funcs))
 		e.encodeFunc(a, id)
 	}
 	return a
@@ -544,12 +544,24 @@ func (e *set) GetTypeVariationAnchor(id TypeVariationID) uint32 {
 		// add 1 to the length to avoid an anchor of 0
 		// so that it's easier to tell when there is no
 		// type variation.
-		a = uint32(len(e.typeVariations)) + 1
+		a = nextAnchor(e.typeVariationMap, len(e.typeVariations))
 		e.encodeTypeVariation(a, id)
 	}
 	return a
 }
 
+// nextAnchor returns the first anchor after n that is not in use: the anchors of
+// a set decoded from a plan need not be consecutive.
+func nextAnchor[V any](used map[uint32]V, n int) uint32 {
+	a := uint32(n) + 1
+	for {
+		if _, ok := used[a]; !ok {
+			return a
+		}
+		a++
+	}
+}
+
 func (e *set) encodeType(anchor uint32, id TypeID) {
 	e.typesMap[anchor] = id
 	e.types[id] = anchor
-- 
2.43.0


From 8a1c2a3d0602eba013898b389b607f75ebb18b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:24 +0000
Subject: [PATCH 04/56] fix: adding a URN to a set with sparse URN anchors must
 not panic

---
 extensions/extension_mgr.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/extensions/extension_mgr.go b/extensions/extension_mgr.go
index f6d4e06..7be90ed 100644
--- a/extensions/extension_mgr.go
+++ b/extensions/extension_mgr.go
@@ -592,11 +592,7 @@ func (e *set) addOrGetURN(urn string) (uint32, error) {
 			return k, nil
 		}
 	}
-	sz := uint32(len(e.urns)) + 1
-	if _, ok := e.urns[sz]; ok {
-		return 0, fmt.Errorf("%w: URN anchor %d already exists", substraitgo.ErrKeyExists, sz)
-	}
-
+	sz := nextAnchor(e.urns, len(e.urns))
 	e.urns[sz] = urn
 	return sz, nil
 }
-- 
2.43.0


From e7d7c86d9ea50ad135eb2f15ac4ec4bb483449a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:30 +0000
Subject: [PATCH 05/56] fix: sort type variation and function declarations by
 their own anchors

---
 extensions/extension_mgr.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/extensions/extension_mgr.go b/extensions/extension_mgr.go
index 7be90ed..e2a03c2 100644
--- a/extensions/extension_mgr.go
+++ b/extensions/extension_mgr.go
@@ -422,7 +422,7 @@ func (e *set) ToProto(c *Collection) ([]*extensions.SimpleExtensionURN, []*exten
 
 	typeDecls := decls[typesCount:]
 	sort.Slice(typeDecls, func(i, j int) bool {
-		return decls[i].GetExtensionTypeVariation().TypeVariationAnchor < decls[j].GetExtensionTypeVariation().TypeVariationAnchor
+		return typeDecls[i].GetExtensionTypeVariation().TypeVariationAnchor < typeDecls[j].GetExtensionTypeVariation().TypeVariationAnchor
 	})
 
 	typeVarCount := len(decls)
@@ -440,7 +440,7 @@ func (e *set) ToProto(c *Collection) ([]*extensions.SimpleExtensionURN, []*exten
 
 	typeVarDecls := decls[typeVarCount:]
 	sort.Slice(typeVarDecls, func(i, j int) bool {
-		return decls[i].GetExtensionFunction().GetFunctionAnchor() < decls[j].GetExtensionFunction().GetFunctionAnchor()
+		return typeVarDecls[i].GetExtensionFunction().GetFunctionAnchor() < typeVarDecls[j].GetExtensionFunction().GetFunctionAnchor()
 	})
 
 	return urns, decls
-- 
2.43.0


From ca90ad51b0e6a222b98a9f477320fa35dbe4b71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:58 +0000
Subject: [PATCH 06/56] fix: matching too few arguments against a variadic
 signature must answer no instead of panicking

---
 extensions/variants.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/extensions/variants.go b/extensions/variants.go
index e8cb077..9954f2d 100644
--- a/extensions/variants.go
+++ b/extensions/variants.go
@@ -167,6 +167,9 @@ func matchArguments(nullability NullabilityHandling, paramTypeList FuncParameter
 		return false, nil
 	} else if variadicBehavior != nil {
 		numNonVariadicArgs := len(paramTypeList) - 1
+		if numNonVariadicArgs < 0 || len(actualTypes) < numNonVariadicArgs {
+			return false, nil
+		}
 		if !validateVariadicBehaviorForMatch(variadicBehavior, actualTypes[numNonVariadicArgs:]) {
 			return false, nil
 		}
-- 
2.43.0


From f1aa78ccd28db5f63600aa2dac1317cfb994491e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:37 +0000
Subject: [PATCH 07/56] fix: variadic bounds limit the variadic tail, not the
 whole argument list

---
 extensions/variants.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extensions/variants.go b/extensions/variants.go
index 9954f2d..df7c328 100644
--- a/extensions/variants.go
+++ b/extensions/variants.go
@@ -214,7 +214,7 @@ func matchArgumentAtCommon(actualType types.Type, argPos int, nullability Nullab
 	// check if argument out of range
 	if variadicBehavior == nil && argPos >= len(funcDefArgList) {
 		return false, nil
-	} else if variadicBehavior != nil && !variadicBehavior.IsValidArgumentPosition(argPos) {
+	} else if variadicBehavior != nil && argPos >= len(funcDefArgList) && !variadicBehavior.IsValidArgumentPosition(argPos-len(funcDefArgList)+2) {
 		// this argument position can't be more than the max allowed by the variadic behavior
 		return false, nil
 	}
-- 
2.43.0


From cdb91787be474f6dc78358d47db9e90b62c5cdd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:59 +0000
Subject: [PATCH 08/56] fix: a variadic parameter without actual arguments must
 not make parameter matching panic

---
 types/type_derivation.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/types/type_derivation.go b/types/type_derivation.go
index 3799ec1..f24c7bb 100644
--- a/types/type_derivation.go
+++ b/types/type_derivation.go
@@ -310,6 +310,10 @@ type SymbolInfo struct {
 func buildTypeParametersNameValueMap(funcParameters []FuncDefArgType, argumentTypes []Type) (map[string]any, error) {
 	symbolTable := make(map[string]any)
 	for i, p := range funcParameters {
+		if i >= len(argumentTypes) {
+			// a variadic parameter without any actual argument binds nothing
+			break
+		}
 		paramNames := p.GetParameterizedParams()
 		if len(paramNames) > 0 {
 			paramValues := argumentTypes[i].GetParameters()
-- 
2.43.0


From 854f7661293cbf9f94eb62abff5598388bf34b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:17 +0000
Subject: [PATCH 09/56] fix: strict matching compares the nullability of
 component types at every level

---
 types/parameterized_func_type.go         | 14 +++++++++++++-
 types/parameterized_user_defined_type.go |  6 ++----
 types/type_derivation.go                 |  5 +----
 3 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/types/parameterized_func_type.go b/types/parameterized_func_type.go
index ce9fe8f..b646473 100644
--- a/types/parameterized_func_type.go
+++ b/types/parameterized_func_type.go
@@ -72,7 +72,19 @@ func (f *ParameterizedFuncType) MatchWithNullability(ot Type) bool {
 	if f.Nullability != ot.GetNullability() {
 		return false
 	}
-	return f.MatchWithoutNullability(ot)
+	oft, ok := ot.(*FuncType)
+	if !ok {
+		return false
+	}
+	if len(f.Parameters) != len(oft.ParameterTypes) {
+		return false
+	}
+	for i, pt := range f.Parameters {
+		if !pt.MatchWithNullability(oft.ParameterTypes[i]) {
+			return false
+		}
+	}
+	return f.Return.MatchWithNullability(oft.ReturnType)
 }
 
 // MatchWithoutNullability checks if this parameterized type matches the given concrete type
diff --git a/types/parameterized_user_defined_type.go b/types/parameterized_user_defined_type.go
index 1c68a20..441d624 100644
--- a/types/parameterized_user_defined_type.go
+++ b/types/parameterized_user_defined_type.go
@@ -38,10 +38,8 @@ func (d *DataTypeUDTParam) toTypeParamWithArgs(funcParams []FuncDefArgType, argT
 }
 
 func (d *DataTypeUDTParam) MatchWithNullability(param TypeParam) bool {
-	if d.MatchWithoutNullability(param) {
-		if dataParam, ok := param.(*DataTypeParameter); ok {
-			return d.Type.GetNullability() == dataParam.Type.GetNullability()
-		}
+	if dataParam, ok := param.(*DataTypeParameter); ok {
+		return d.Type.MatchWithNullability(dataParam.Type)
 	}
 	return false
 }
diff --git a/types/type_derivation.go b/types/type_derivation.go
index f24c7bb..4eb6712 100644
--- a/types/type_derivation.go
+++ b/types/type_derivation.go
@@ -284,10 +284,7 @@ func (m *OutputDerivation) GetParameterizedParams() []interface{} {
 }
 
 func (m *OutputDerivation) MatchWithNullability(ot Type) bool {
-	if m.FinalType.GetNullability() != ot.GetNullability() {
-		return false
-	}
-	return m.MatchWithoutNullability(ot)
+	return m.FinalType.MatchWithNullability(ot)
 }
 
 func (m *OutputDerivation) MatchWithoutNullability(ot Type) bool {
-- 
2.43.0


From b5151ebcd3a28d11e83296a1542dba3a7c38f4ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:28 +0000
Subject: [PATCH 10/56] fix: an integer parameter of a user-defined type must
 not match modulo 2^32

---
 types/parameterized_user_defined_type.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/types/parameterized_user_defined_type.go b/types/parameterized_user_defined_type.go
index 441d624..c27a5c8 100644
--- a/types/parameterized_user_defined_type.go
+++ b/types/parameterized_user_defined_type.go
@@ -67,7 +67,7 @@ func (i *IntegerUDTParam) toTypeParam() (TypeParam, error) {
 
 func (i *IntegerUDTParam) MatchWithoutNullability(param TypeParam) bool {
 	if intParam, ok := param.(IntegerParameter); ok {
-		return i.Integer == int32(intParam)
+		return IntegerParameter(i.Integer) == intParam
 	}
 	return false
 }
-- 
2.43.0


From d8dce2ccd69b7af9f3348fc56be80171b15211d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:14 +0000
Subject: [PATCH 11/56] fix: symbolic parameters of user defined types

HasParameterizedParam looked only at the first data type parameter, and
finding the symbolic leaves of a user defined type panicked.
---
 extensions/variants.go                   | 4 ++++
 types/parameterized_user_defined_type.go | 4 ++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/extensions/variants.go b/extensions/variants.go
index df7c328..6dbbdc5 100644
--- a/extensions/variants.go
+++ b/extensions/variants.go
@@ -665,6 +665,10 @@ func getLeafParameterizedParams(abstractTypes interface{}) []string {
 	if leaf, ok := abstractTypes.(integer_parameters.IntegerParameter); ok {
 		return []string{leaf.String()}
 	}
+	// a data type parameter of a user defined type stands for its type
+	if udtParam, ok := abstractTypes.(*types.DataTypeUDTParam); ok {
+		return getLeafParameterizedParams(udtParam.Type)
+	}
 	// if it is not a leaf type recurse
 	if pat, ok := abstractTypes.(types.FuncDefArgType); ok {
 		var outLeafParams []string
diff --git a/types/parameterized_user_defined_type.go b/types/parameterized_user_defined_type.go
index c27a5c8..0d8a3e5 100644
--- a/types/parameterized_user_defined_type.go
+++ b/types/parameterized_user_defined_type.go
@@ -132,8 +132,8 @@ func (m *ParameterizedUserDefinedType) String() string {
 
 func (m *ParameterizedUserDefinedType) HasParameterizedParam() bool {
 	for _, typ := range m.TypeParameters {
-		if param, ok := typ.(*DataTypeUDTParam); ok {
-			return param.Type.HasParameterizedParam()
+		if param, ok := typ.(*DataTypeUDTParam); ok && param.Type.HasParameterizedParam() {
+			return true
 		}
 	}
 	return false
-- 
2.43.0


From f5091f633e4c9c1590f7f69022eb677e10884c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:44 +0000
Subject: [PATCH 12/56] fix: variadic signatures without parameters panicked

MatchAt indexed an empty parameter list, and so did the evaluation of the
return type.
---
 extensions/variants.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/extensions/variants.go b/extensions/variants.go
index 6dbbdc5..129d76f 100644
--- a/extensions/variants.go
+++ b/extensions/variants.go
@@ -85,6 +85,9 @@ func validateType(funcParameter FuncParameter, actual types.Type, idx int, nullH
 func EvaluateTypeExpression(urn string, nullHandling NullabilityHandling, returnTypeExpr types.FuncDefArgType,
 	funcParameters FuncParameterList, variadic *VariadicBehavior, argumentTypes []types.Type, registry Set) (types.Type, error) {
 	if variadic != nil {
+		if len(funcParameters) == 0 {
+			return nil, fmt.Errorf("%w: variadic function without parameters", substraitgo.ErrInvalidExpr)
+		}
 		numVariadicArgs := len(argumentTypes) - (len(funcParameters) - 1)
 		if numVariadicArgs < 0 {
 			return nil, fmt.Errorf("%w: mismatch in number of arguments provided. got %d, expected at least %d",
@@ -214,7 +217,7 @@ func matchArgumentAtCommon(actualType types.Type, argPos int, nullability Nullab
 	// check if argument out of range
 	if variadicBehavior == nil && argPos >= len(funcDefArgList) {
 		return false, nil
-	} else if variadicBehavior != nil && argPos >= len(funcDefArgList) && !variadicBehavior.IsValidArgumentPosition(argPos-len(funcDefArgList)+2) {
+	} else if variadicBehavior != nil && argPos >= len(funcDefArgList) && (len(funcDefArgList) == 0 || !variadicBehavior.IsValidArgumentPosition(argPos-len(funcDefArgList)+2)) {
 		// this argument position can't be more than the max allowed by the variadic behavior
 		return false, nil
 	}
-- 
2.43.0


From 79e0b675bef31560110b0bd6fd00c3f7917a8d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:51 +0000
Subject: [PATCH 13/56] fix: signatures with shared integer symbols skipped the
 type variable check

---
 extensions/variants.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/extensions/variants.go b/extensions/variants.go
index 129d76f..3ab0de3 100644
--- a/extensions/variants.go
+++ b/extensions/variants.go
@@ -192,8 +192,8 @@ func matchArguments(nullability NullabilityHandling, paramTypeList FuncParameter
 			return false, nil
 		}
 	}
-	if HasSyncParams(funcDefArgList) {
-		return types.AreSyncTypeParametersMatching(funcDefArgList, actualTypes), nil
+	if HasSyncParams(funcDefArgList) && !types.AreSyncTypeParametersMatching(funcDefArgList, actualTypes) {
+		return false, nil
 	}
 
 	if err := ValidateConstrainedAnyTypeConsistency(funcDefArgList, actualTypes, variadicBehavior); err != nil {
-- 
2.43.0


From 991768bb9a93e3fdee5d187f3b4a75e0baec7543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:59 +0000
Subject: [PATCH 14/56] fix: consistent variadic arguments were not compared
 below the minimum count

With a minimum of n the first n-1 variadic arguments could have any types.
---
 extensions/variants.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/extensions/variants.go b/extensions/variants.go
index 3ab0de3..a9d6b51 100644
--- a/extensions/variants.go
+++ b/extensions/variants.go
@@ -249,8 +249,7 @@ func validateVariadicBehaviorForMatch(variadicBehavior *VariadicBehavior, actual
 	// verify consistency of variadic behavior
 	if variadicBehavior.ParameterConsistency == ConsistentParams {
 		// all concrete types must be equal for all variable arguments
-		firstVariadicArgIdx := max(variadicBehavior.Min-1, 0)
-		for i := firstVariadicArgIdx; i < len(actualTypes)-1; i++ {
+		for i := 0; i < len(actualTypes)-1; i++ {
 			if !actualTypes[i].Equals(actualTypes[i+1].WithNullability(actualTypes[i].GetNullability())) {
 				return false
 			}
-- 
2.43.0


From eaf98c1eb648355469545271e34ca38affeb94a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:06 +0000
Subject: [PATCH 15/56] fix: mirrored nullability ignored inconsistent variadic
 arguments

Only consistent variadic arguments beyond the declared parameters were
looked at, so a nullable one could give a required return type.
---
 extensions/variants.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/extensions/variants.go b/extensions/variants.go
index a9d6b51..9ce519b 100644
--- a/extensions/variants.go
+++ b/extensions/variants.go
@@ -114,8 +114,8 @@ func EvaluateTypeExpression(urn string, nullHandling NullabilityHandling, return
 		allNonNull = allNonNull && nonNull
 	}
 
-	// validate variadic argument consistency
-	if variadic != nil && len(argumentTypes) > len(funcParameters) && variadic.ParameterConsistency == ConsistentParams {
+	// validate the remaining variadic arguments
+	if variadic != nil && len(argumentTypes) > len(funcParameters) {
 		nparams := len(funcParameters)
 		lastParam := funcParameters[nparams-1]
 		for i, actual := range argumentTypes[nparams:] {
-- 
2.43.0


From 728e6951c8c2188ec4a531417ec1576ecea9eacb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:19 +0000
Subject: [PATCH 16/56] fix: bind symbolic integers of nested types and of
 precisions

A map, struct or function type with some symbolic components never matched,
symbols inside lists were not compared, and precisions conflicted with equal
lengths.
---
 types/type_derivation.go | 89 +++++++++++++++++++++++++++++++++-------
 1 file changed, 74 insertions(+), 15 deletions(-)

diff --git a/types/type_derivation.go b/types/type_derivation.go
index 4eb6712..3b5788e 100644
--- a/types/type_derivation.go
+++ b/types/type_derivation.go
@@ -311,25 +311,84 @@ func buildTypeParametersNameValueMap(funcParameters []FuncDefArgType, argumentTy
 			// a variadic parameter without any actual argument binds nothing
 			break
 		}
-		paramNames := p.GetParameterizedParams()
-		if len(paramNames) > 0 {
-			paramValues := argumentTypes[i].GetParameters()
-			if len(paramNames) != len(paramValues) {
-				return nil, fmt.Errorf("function parameter %s has %d parameters, but %d were provided", p.String(), len(paramNames), len(paramValues))
+		if err := bindTypeParameters(p, argumentTypes[i], symbolTable); err != nil {
+			return nil, err
+		}
+	}
+	return symbolTable, nil
+}
+
+// bindTypeParameters records in symbolTable the value of every symbolic integer
+// of p, including those of nested types, in the actual argument type t.
+func bindTypeParameters(p FuncDefArgType, t Type, symbolTable map[string]any) error {
+	if !p.HasParameterizedParam() {
+		return nil
+	}
+	params := typeParameterComponents(p)
+	values := t.GetParameters()
+	if len(params) != len(values) {
+		return fmt.Errorf("function parameter %s has %d parameters, but %d were provided", p.String(), len(params), len(values))
+	}
+	for j, param := range params {
+		value := values[j]
+		if udtParam, ok := param.(*DataTypeUDTParam); ok {
+			dataParam, ok := value.(*DataTypeParameter)
+			if !ok {
+				return fmt.Errorf("function parameter %s does not match argument %s", p.String(), t.String())
+			}
+			param, value = udtParam.Type, dataParam.Type
+		}
+		switch param := param.(type) {
+		case *integer_parameters.VariableIntParam:
+			if precision, ok := value.(TimePrecision); ok {
+				value = int64(precision)
+			}
+			name := string(*param)
+			if existingValue, ok := symbolTable[name]; ok && existingValue != value {
+				return fmt.Errorf("sync parameters %s has conflicting values: %v and %v", name, existingValue, value)
 			}
-			for j, param := range paramNames {
-				if intParam, ok := param.(*integer_parameters.VariableIntParam); ok {
-					name := string(*intParam)
-					if existingValue, ok := symbolTable[name]; ok && existingValue != paramValues[j] {
-						return nil, fmt.Errorf("sync parameters %s has conflicting values: %v and %v", name, existingValue, paramValues[j])
-					}
-					symbolTable[name] = paramValues[j]
-					continue
-				}
+			symbolTable[name] = value
+		case FuncDefArgType:
+			nested, ok := value.(Type)
+			if !ok {
+				return fmt.Errorf("function parameter %s does not match argument %s", p.String(), t.String())
+			}
+			if err := bindTypeParameters(param, nested, symbolTable); err != nil {
+				return err
 			}
 		}
 	}
-	return symbolTable, nil
+	return nil
+}
+
+// typeParameterComponents returns all parameters of p, symbolic or not, in the
+// order in which GetParameters of a matching concrete type lists its own.
+func typeParameterComponents(p FuncDefArgType) []any {
+	var params []any
+	switch p := p.(type) {
+	case *ParameterizedListType:
+		params = append(params, p.Type)
+	case *ParameterizedMapType:
+		params = append(params, p.Key, p.Value)
+	case *ParameterizedStructType:
+		for _, field := range p.Types {
+			params = append(params, field)
+		}
+	case *ParameterizedFuncType:
+		for _, param := range p.Parameters {
+			params = append(params, param)
+		}
+		params = append(params, p.Return)
+	case *ParameterizedUserDefinedType:
+		for _, param := range p.TypeParameters {
+			params = append(params, param)
+		}
+	case *OutputDerivation:
+		return typeParameterComponents(p.FinalType)
+	default:
+		return p.GetParameterizedParams()
+	}
+	return params
 }
 
 func (m *OutputDerivation) ReturnType(funcParameters []FuncDefArgType, argumentTypes []Type) (Type, error) {
-- 
2.43.0


From 6bf26b0ac50b41513f5ce0e50e03c26a40cc934a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:29 +0000
Subject: [PATCH 17/56] fix: division by zero in a type derivation panicked

---
 types/type_derivation.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/types/type_derivation.go b/types/type_derivation.go
index 3b5788e..5d2b4df 100644
--- a/types/type_derivation.go
+++ b/types/type_derivation.go
@@ -128,6 +128,9 @@ func (b BinaryExpr) Evaluate(symbolTable map[string]any) (any, error) {
 	case Multiply:
 		return left.(int64) * right.(int64), nil
 	case Divide:
+		if right.(int64) == 0 {
+			return nil, fmt.Errorf("division by zero in %s", b)
+		}
 		return left.(int64) / right.(int64), nil
 	case LT:
 		return left.(int64) < right.(int64), nil
-- 
2.43.0


From 8a4bdada8904089bfef2a2760a39b9a7bc537351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:02 +0000
Subject: [PATCH 18/56] fix: type variables inside function and user defined
 types were not checked

Two uses of one type variable could be bound to different types when one of
them was inside a function type or a user defined type.
---
 extensions/variants.go | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/extensions/variants.go b/extensions/variants.go
index 9ce519b..2530763 100644
--- a/extensions/variants.go
+++ b/extensions/variants.go
@@ -685,7 +685,7 @@ func getLeafParameterizedParams(abstractTypes interface{}) []string {
 }
 
 // validateAnyTypeBinding validates and records the binding of an AnyType parameter to a concrete type.
-// It recursively handles nested types (lists, maps, structs).
+// It recursively handles nested types (lists, maps, structs, function types, user defined types).
 func validateAnyTypeBinding(paramType types.FuncDefArgType, argType types.Type, bindings map[string]types.Type) error {
 	switch p := paramType.(type) {
 	case *types.AnyType:
@@ -758,6 +758,28 @@ func validateAnyTypeBinding(paramType types.FuncDefArgType, argType types.Type,
 				}
 			}
 		}
+	case *types.ParameterizedFuncType:
+		if funcType, ok := argType.(*types.FuncType); ok && len(funcType.ParameterTypes) == len(p.Parameters) {
+			for i, param := range p.Parameters {
+				if err := validateAnyTypeBinding(param, funcType.ParameterTypes[i], bindings); err != nil {
+					return err
+				}
+			}
+			return validateAnyTypeBinding(p.Return, funcType.ReturnType, bindings)
+		}
+	case *types.ParameterizedUserDefinedType:
+		if udt, ok := argType.(*types.UserDefinedType); ok && len(udt.TypeParameters) == len(p.TypeParameters) {
+			for i, param := range p.TypeParameters {
+				declared, declaredOk := param.(*types.DataTypeUDTParam)
+				actual, actualOk := udt.TypeParameters[i].(*types.DataTypeParameter)
+				if !declaredOk || !actualOk {
+					continue
+				}
+				if err := validateAnyTypeBinding(declared.Type, actual.Type, bindings); err != nil {
+					return err
+				}
+			}
+		}
 	}
 	return nil
 }
-- 
2.43.0


From 2fb4775cc32fe65bd2f9e5f6147cf34c40d6459b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:36 +0000
Subject: [PATCH 19/56] fix: resolving a type variable could write into a
 declared function type

---
 types/any_type.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/types/any_type.go b/types/any_type.go
index 4b065b7..2f291f9 100644
--- a/types/any_type.go
+++ b/types/any_type.go
@@ -99,7 +99,7 @@ func unwrapAnyTypeWithName(name string, p FuncDefArgType, argType Type) (Type, e
 	case *ParameterizedFuncType:
 		// FuncType.GetParameters() returns [paramTypes..., returnType]
 		// ParameterizedFuncType has Parameters (inputs) + Return (output), so append here
-		allDefTypes := append(arg.Parameters, arg.Return)
+		allDefTypes := append(slices.Clip(arg.Parameters), arg.Return)
 		argParams := argType.GetParameters()
 		if len(argParams) != len(allDefTypes) || slices.Contains(argParams, nil) {
 			return nil, fmt.Errorf("expected FuncType to have %d non-nil parameters, found %v",
-- 
2.43.0


From 89f821c6b868134fe68c02f77488ec9b24f8dd2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:45 +0000
Subject: [PATCH 20/56] fix: type variables bound only inside a user defined
 type were not resolved

---
 types/any_type.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/types/any_type.go b/types/any_type.go
index 2f291f9..0ed0314 100644
--- a/types/any_type.go
+++ b/types/any_type.go
@@ -114,6 +114,26 @@ func unwrapAnyTypeWithName(name string, p FuncDefArgType, argType Type) (Type, e
 				return pt, nil
 			}
 		}
+	case *ParameterizedUserDefinedType:
+		argParams := argType.GetParameters()
+		if len(argParams) != len(arg.TypeParameters) {
+			return nil, fmt.Errorf("expected UserDefinedType to have %d parameters, found %v",
+				len(arg.TypeParameters), argParams)
+		}
+		for i, param := range arg.TypeParameters {
+			declared, declaredOk := param.(*DataTypeUDTParam)
+			actual, actualOk := argParams[i].(*DataTypeParameter)
+			if !declaredOk || !actualOk {
+				continue
+			}
+			pt, err := unwrapAnyTypeWithName(name, declared.Type, actual.Type)
+			if err != nil {
+				return nil, err
+			}
+			if pt != nil {
+				return pt, nil
+			}
+		}
 	}
 	// Didn't find matching AnyType.
 	return nil, nil
-- 
2.43.0


From 33a95150081ed814b5f0050b9a25675d14482e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:31 +0000
Subject: [PATCH 21/56] fix: type derivations with a nested symbolic final type
 failed

---
 types/type_derivation.go | 93 ++++++++++++++++++++++++++++++++++++----
 1 file changed, 84 insertions(+), 9 deletions(-)

diff --git a/types/type_derivation.go b/types/type_derivation.go
index 5d2b4df..4770786 100644
--- a/types/type_derivation.go
+++ b/types/type_derivation.go
@@ -409,25 +409,100 @@ func (m *OutputDerivation) ReturnType(funcParameters []FuncDefArgType, argumentT
 		}
 	}
 
+	return resolveFinalType(m.FinalType, symbolTable, funcParameters, argumentTypes)
+}
+
+// resolveFinalType replaces the symbolic integers of p, including those of
+// nested types, by their values in symbolTable.
+func resolveFinalType(p FuncDefArgType, symbolTable map[string]any, funcParameters []FuncDefArgType, argumentTypes []Type) (Type, error) {
+	resolve := func(nested FuncDefArgType) (Type, error) {
+		return resolveFinalType(nested, symbolTable, funcParameters, argumentTypes)
+	}
+	if !p.HasParameterizedParam() {
+		return p.ReturnType(funcParameters, argumentTypes)
+	}
+	switch p := p.(type) {
+	case *OutputDerivation:
+		return p.ReturnType(funcParameters, argumentTypes)
+	case *ParameterizedListType:
+		elem, err := resolve(p.Type)
+		if err != nil {
+			return nil, err
+		}
+		return &ListType{Nullability: p.Nullability, Type: elem}, nil
+	case *ParameterizedMapType:
+		key, err := resolve(p.Key)
+		if err != nil {
+			return nil, err
+		}
+		value, err := resolve(p.Value)
+		if err != nil {
+			return nil, err
+		}
+		return &MapType{Nullability: p.Nullability, Key: key, Value: value}, nil
+	case *ParameterizedStructType:
+		fields := make([]Type, len(p.Types))
+		for i, field := range p.Types {
+			var err error
+			if fields[i], err = resolve(field); err != nil {
+				return nil, err
+			}
+		}
+		return &StructType{Nullability: p.Nullability, Types: fields}, nil
+	case *ParameterizedFuncType:
+		params := make([]Type, len(p.Parameters))
+		for i, param := range p.Parameters {
+			var err error
+			if params[i], err = resolve(param); err != nil {
+				return nil, err
+			}
+		}
+		ret, err := resolve(p.Return)
+		if err != nil {
+			return nil, err
+		}
+		return &FuncType{Nullability: p.Nullability, ParameterTypes: params, ReturnType: ret}, nil
+	case *ParameterizedUserDefinedType:
+		params := make([]TypeParam, len(p.TypeParameters))
+		for i, param := range p.TypeParameters {
+			dataParam, ok := param.(*DataTypeUDTParam)
+			if !ok {
+				var err error
+				if params[i], err = param.toTypeParam(); err != nil {
+					return nil, err
+				}
+				continue
+			}
+			typ, err := resolve(dataParam.Type)
+			if err != nil {
+				return nil, err
+			}
+			params[i] = &DataTypeParameter{Type: typ}
+		}
+		return &UserDefinedType{Nullability: p.Nullability, TypeParameters: params}, nil
+	}
+
 	// make slice of parameters for final type
-	parametrizedParams := m.FinalType.GetParameterizedParams()
-	params := make([]interface{}, 0, len(parametrizedParams))
-	for _, p := range parametrizedParams {
-		switch param := p.(type) {
+	components := p.GetParameterizedParams()
+	params := make([]any, 0, len(components))
+	for _, component := range components {
+		switch param := component.(type) {
 		case *integer_parameters.VariableIntParam:
-			if paramValue, ok := symbolTable[string(*param)]; ok {
-				params = append(params, paramValue)
-			} else {
+			paramValue, ok := symbolTable[string(*param)]
+			if !ok {
 				return nil, fmt.Errorf("parameter %s is not defined", param)
 			}
+			if value, ok := paramValue.(int64); ok && value != int64(int32(value)) {
+				return nil, fmt.Errorf("value %d of parameter %s is out of range", value, param)
+			}
+			params = append(params, paramValue)
 		case *integer_parameters.ConcreteIntParam:
 			params = append(params, int64(*param))
 		default:
 			params = append(params, param)
 		}
 	}
-
-	return m.FinalType.WithParameters(params)
+	return p.WithParameters(params)
 }
 
 func (m *OutputDerivation) WithParameters([]interface{}) (Type, error) {
-- 
2.43.0


From 5c5c26ba772c8508be4001658c49fca38c50e928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:56 +0000
Subject: [PATCH 22/56] fix: user defined types nested in a derived return type
 had no type reference

---
 extensions/variants.go | 53 +++++++++++++++++++++++++++++++++++-------
 1 file changed, 45 insertions(+), 8 deletions(-)

diff --git a/extensions/variants.go b/extensions/variants.go
index 2530763..d44a9f6 100644
--- a/extensions/variants.go
+++ b/extensions/variants.go
@@ -145,15 +145,10 @@ func EvaluateTypeExpression(urn string, nullHandling NullabilityHandling, return
 		return nil, err
 	}
 
-	// If the return type expression is a ParameterizedUserDefinedType, we need to
-	// fill in the TypeReference since ParameterizedUserDefinedType.ReturnType()
-	// doesn't have access to the registry to set it itself.
+	// ReturnType() doesn't have access to the registry, so the type references of
+	// the user defined types it made are filled in here.
 	// For other types like AnyType, the TypeReference is already correctly set.
-	if udt, ok := outType.(*types.UserDefinedType); ok {
-		if paramUDT, ok := returnTypeExpr.(*types.ParameterizedUserDefinedType); ok {
-			udt.TypeReference = registry.GetTypeAnchor(TypeID{Name: paramUDT.Name, URN: urn})
-		}
-	}
+	setTypeReferences(urn, returnTypeExpr, outType, registry)
 
 	if nullHandling == MirrorNullability || nullHandling == "" {
 		if allNonNull {
@@ -165,6 +160,48 @@ func EvaluateTypeExpression(urn string, nullHandling NullabilityHandling, return
 	return outType, nil
 }
 
+// setTypeReferences sets the type references of the user defined types in t that
+// were made from the user defined types named in typeExpr.
+func setTypeReferences(urn string, typeExpr types.FuncDefArgType, t types.Type, registry Set) {
+	switch p := typeExpr.(type) {
+	case *types.ParameterizedUserDefinedType:
+		if udt, ok := t.(*types.UserDefinedType); ok {
+			udt.TypeReference = registry.GetTypeAnchor(TypeID{Name: p.Name, URN: urn})
+			for i, param := range p.TypeParameters {
+				declared, declaredOk := param.(*types.DataTypeUDTParam)
+				actual, actualOk := udt.TypeParameters[i].(*types.DataTypeParameter)
+				if declaredOk && actualOk {
+					setTypeReferences(urn, declared.Type, actual.Type, registry)
+				}
+			}
+		}
+	case *types.ParameterizedListType:
+		if list, ok := t.(*types.ListType); ok {
+			setTypeReferences(urn, p.Type, list.Type, registry)
+		}
+	case *types.ParameterizedMapType:
+		if m, ok := t.(*types.MapType); ok {
+			setTypeReferences(urn, p.Key, m.Key, registry)
+			setTypeReferences(urn, p.Value, m.Value, registry)
+		}
+	case *types.ParameterizedStructType:
+		if st, ok := t.(*types.StructType); ok {
+			for i, field := range p.Types {
+				setTypeReferences(urn, field, st.Types[i], registry)
+			}
+		}
+	case *types.ParameterizedFuncType:
+		if fn, ok := t.(*types.FuncType); ok {
+			for i, param := range p.Parameters {
+				setTypeReferences(urn, param, fn.ParameterTypes[i], registry)
+			}
+			setTypeReferences(urn, p.Return, fn.ReturnType, registry)
+		}
+	case *types.OutputDerivation:
+		setTypeReferences(urn, p.FinalType, t, registry)
+	}
+}
+
 func matchArguments(nullability NullabilityHandling, paramTypeList FuncParameterList, variadicBehavior *VariadicBehavior, actualTypes []types.Type) (bool, error) {
 	if variadicBehavior == nil && len(actualTypes) != len(paramTypeList) {
 		return false, nil
-- 
2.43.0


From ae4447d1b4b8440bd954911c04d1719aa04b8d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:28 +0000
Subject: [PATCH 23/56] fix: a symbolic integer used twice by one parameter
 could stand for two integers

---
 extensions/variants.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extensions/variants.go b/extensions/variants.go
index d44a9f6..b85c4ce 100644
--- a/extensions/variants.go
+++ b/extensions/variants.go
@@ -229,7 +229,7 @@ func matchArguments(nullability NullabilityHandling, paramTypeList FuncParameter
 			return false, nil
 		}
 	}
-	if HasSyncParams(funcDefArgList) && !types.AreSyncTypeParametersMatching(funcDefArgList, actualTypes) {
+	if !types.AreSyncTypeParametersMatching(funcDefArgList, actualTypes) {
 		return false, nil
 	}
 
-- 
2.43.0


From ddfa4445b42ed0cb296ec53a857062495fd2b59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:45 +0000
Subject: [PATCH 24/56] fix: timestamp literals before the epoch could not be
 decoded

---
 expr/literals.go | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/expr/literals.go b/expr/literals.go
index f43e5cc..7423ff5 100644
--- a/expr/literals.go
+++ b/expr/literals.go
@@ -1245,9 +1245,6 @@ func LiteralFromProto(l *proto.Expression_Literal) Literal {
 		if err != nil {
 			return nil
 		}
-		if precTimeStamp.Value < 0 {
-			return nil
-		}
 		return NewPrecisionTimestampLiteral(precTimeStamp.Value, precision, nullability)
 	case *proto.Expression_Literal_PrecisionTimestampTz:
 		precTimeStamp := lit.PrecisionTimestampTz
@@ -1255,9 +1252,6 @@ func LiteralFromProto(l *proto.Expression_Literal) Literal {
 		if err != nil {
 			return nil
 		}
-		if precTimeStamp.Value < 0 {
-			return nil
-		}
 		return NewPrecisionTimestampTzLiteral(precTimeStamp.Value, precision, nullability)
 	case *proto.Expression_Literal_IntervalYearToMonth_:
 		return intervalYearToMonthLiteralFromProto(l)
-- 
2.43.0


From 604c424886c6ef7e61dce4cae4c7f46cd2344e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:52 +0000
Subject: [PATCH 25/56] fix: decoding a precision time or timestamp literal
 lost its type variation

---
 expr/literals.go | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/expr/literals.go b/expr/literals.go
index 7423ff5..882a027 100644
--- a/expr/literals.go
+++ b/expr/literals.go
@@ -1238,21 +1238,44 @@ func LiteralFromProto(l *proto.Expression_Literal) Literal {
 		if precTime.Value < 0 {
 			return nil
 		}
-		return NewPrecisionTimeLiteral(precTime.Value, precision, nullability)
+		return &ProtoLiteral{
+			Value: precTime.Value,
+			Type: &types.PrecisionTimeType{
+				Precision:        precision,
+				Nullability:      nullability,
+				TypeVariationRef: l.TypeVariationReference,
+			},
+		}
 	case *proto.Expression_Literal_PrecisionTimestamp_:
 		precTimeStamp := lit.PrecisionTimestamp
 		precision, err := types.ProtoToTimePrecision(precTimeStamp.Precision)
 		if err != nil {
 			return nil
 		}
-		return NewPrecisionTimestampLiteral(precTimeStamp.Value, precision, nullability)
+		return &ProtoLiteral{
+			Value: precTimeStamp.Value,
+			Type: &types.PrecisionTimestampType{
+				Precision:        precision,
+				Nullability:      nullability,
+				TypeVariationRef: l.TypeVariationReference,
+			},
+		}
 	case *proto.Expression_Literal_PrecisionTimestampTz:
 		precTimeStamp := lit.PrecisionTimestampTz
 		precision, err := types.ProtoToTimePrecision(precTimeStamp.Precision)
 		if err != nil {
 			return nil
 		}
-		return NewPrecisionTimestampTzLiteral(precTimeStamp.Value, precision, nullability)
+		return &ProtoLiteral{
+			Value: precTimeStamp.Value,
+			Type: &types.PrecisionTimestampTzType{
+				PrecisionTimestampType: types.PrecisionTimestampType{
+					Precision:        precision,
+					Nullability:      nullability,
+					TypeVariationRef: l.TypeVariationReference,
+				},
+			},
+		}
 	case *proto.Expression_Literal_IntervalYearToMonth_:
 		return intervalYearToMonthLiteralFromProto(l)
 	case *proto.Expression_Literal_IntervalCompound_:
-- 
2.43.0


From cd1f14d25e2f5b9888162cd28c60f9c7dde0a1e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:15 +0000
Subject: [PATCH 26/56] fix: a zero compound interval lost its sub-second
 precision when encoded

---
 expr/interval_compound_literal.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expr/interval_compound_literal.go b/expr/interval_compound_literal.go
index ec9790b..b279e01 100644
--- a/expr/interval_compound_literal.go
+++ b/expr/interval_compound_literal.go
@@ -35,7 +35,7 @@ func (m IntervalCompoundLiteral) ToProtoLiteral() *proto.Expression_Literal {
 		intrCompPB.IntervalYearToMonth = yearToMonthProto
 	}
 
-	if m.Days != 0 || m.Seconds != 0 || m.SubSeconds != 0 {
+	if m.Days != 0 || m.Seconds != 0 || m.SubSeconds != 0 || m.SubSecondPrecision != 0 {
 		dayToSecondProto := &proto.Expression_Literal_IntervalDayToSecond{
 			Days:          m.Days,
 			Seconds:       m.Seconds,
-- 
2.43.0


From fb888d2ebeaef9ce1ede74a3c4ae40d8fd1a5a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:19 +0000
Subject: [PATCH 27/56] fix: literals holding messages compared unequal after a
 trip over the wire

---
 expr/literals.go | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/expr/literals.go b/expr/literals.go
index 882a027..1f33902 100644
--- a/expr/literals.go
+++ b/expr/literals.go
@@ -18,6 +18,7 @@ import (
 	substraitgo "github.com/substrait-io/substrait-go/v8"
 	"github.com/substrait-io/substrait-go/v8/types"
 	proto "github.com/substrait-io/substrait-protobuf/go/substraitpb"
+	pb "google.golang.org/protobuf/proto"
 )
 
 // PrimitiveLiteralValue is a type constraint that represents
@@ -683,11 +684,28 @@ func (t *ProtoLiteral) ToProto() *proto.Expression {
 func (t *ProtoLiteral) Equals(rhs Expression) bool {
 	if other, ok := rhs.(*ProtoLiteral); ok {
 		return t.Type.Equals(other.Type) &&
-			reflect.DeepEqual(t.Value, other.Value)
+			equalProtoValues(t.Value, other.Value)
 	}
 	return false
 }
 
+// equalProtoValues compares the values of two ProtoLiterals. Messages are
+// compared by content: their internal state depends on how they were made.
+func equalProtoValues(lhs, rhs any) bool {
+	switch l := lhs.(type) {
+	case *proto.Expression_Literal_UserDefined_Value:
+		r, ok := rhs.(*proto.Expression_Literal_UserDefined_Value)
+		return ok && pb.Equal(l.Value, r.Value)
+	case *proto.Expression_Literal_UserDefined_Struct:
+		r, ok := rhs.(*proto.Expression_Literal_UserDefined_Struct)
+		return ok && pb.Equal(l.Struct, r.Struct)
+	case pb.Message:
+		r, ok := rhs.(pb.Message)
+		return ok && pb.Equal(l, r)
+	}
+	return reflect.DeepEqual(lhs, rhs)
+}
+
 func (t *ProtoLiteral) ToProtoFuncArg() *proto.FunctionArgument {
 	return &proto.FunctionArgument{
 		ArgType: &proto.FunctionArgument_Value{Value: t.ToProto()},
-- 
2.43.0


From 5ac01888b0be05746248faa178833ef8e998fcc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:37 +0000
Subject: [PATCH 28/56] fix: interval literals in microseconds were typed with
 precision 0

---
 expr/literals.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/expr/literals.go b/expr/literals.go
index 1f33902..f9d511a 100644
--- a/expr/literals.go
+++ b/expr/literals.go
@@ -963,11 +963,15 @@ func NewLiteral[T allLiteralTypes](val T, nullable bool) (Literal, error) {
 			},
 		}, nil
 	case *types.IntervalDayToSecond:
+		precision := types.PrecisionMicroSeconds
+		if mode, ok := v.PrecisionMode.(*proto.Expression_Literal_IntervalDayToSecond_Precision); ok {
+			precision = types.TimePrecision(mode.Precision)
+		}
 		return &ProtoLiteral{
 			Value: v,
 			Type: &types.IntervalDayType{
 				Nullability: getNullability(nullable),
-				Precision:   types.TimePrecision(v.GetPrecision()),
+				Precision:   precision,
 			},
 		}, nil
 	case *types.Decimal:
-- 
2.43.0


From 4dc8a36b94cea78c49f7b06431ae3961f4650591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:26 +0000
Subject: [PATCH 29/56] fix: decoding a direct field reference without a
 segment panicked

---
 expr/field_reference.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/expr/field_reference.go b/expr/field_reference.go
index 362d7bd..627cb00 100644
--- a/expr/field_reference.go
+++ b/expr/field_reference.go
@@ -783,6 +783,10 @@ func FieldReferenceFromProto(p *proto.Expression_FieldReference, baseSchema *typ
 	switch rt := p.ReferenceType.(type) {
 	case *proto.Expression_FieldReference_DirectReference:
 		refseg := RefSegmentFromProto(rt.DirectReference)
+		if refseg == nil {
+			return nil, fmt.Errorf("%w: direct field reference without a reference segment",
+				substraitgo.ErrInvalidExpr)
+		}
 		if root == RootReference && baseSchema != nil {
 			baseType := baseSchema.AsStructType()
 			knownType, err = refseg.GetType(baseType)
-- 
2.43.0


From af0d1933c98a300e5be995dd5b8b420a203d1e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:42 +0000
Subject: [PATCH 30/56] fix: concatenating record types could overwrite another
 schema's columns

---
 plan/builders.go | 3 ++-
 types/types.go   | 5 ++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/plan/builders.go b/plan/builders.go
index b63af38..c317c36 100644
--- a/plan/builders.go
+++ b/plan/builders.go
@@ -241,7 +241,8 @@ func (b *builder) UserDefinedType(nameSpace, typeName string, params ...types.Ty
 }
 
 func (b *builder) JoinedRecordFieldRef(left, right Rel, index int32) (*expr.FieldReference, error) {
-	baseTypes := append(left.RecordType().Types(), right.RecordType().Types()...)
+	leftType, rightType := left.RecordType(), right.RecordType()
+	baseTypes := leftType.Concat(rightType).Types()
 	if index < 0 || index > int32(len(baseTypes)) {
 		return nil, fmt.Errorf("%w: cannot create field ref index %d, only %d fields to reference",
 			substraitgo.ErrInvalidArg, index, len(baseTypes))
diff --git a/types/types.go b/types/types.go
index 3e6f5f2..bd08c72 100644
--- a/types/types.go
+++ b/types/types.go
@@ -1818,7 +1818,10 @@ func (r RecordType) Types() []Type {
 }
 
 func (r RecordType) Concat(other RecordType) RecordType {
-	return RecordType{types: append(r.Types(), other.Types()...)}
+	concat := make([]Type, 0, len(r.types)+len(other.types))
+	concat = append(concat, r.types...)
+	concat = append(concat, other.types...)
+	return RecordType{types: concat}
 }
 
 func (d Date) ToTimeString() string {
-- 
2.43.0


From b8a20d2d3c0206572779700c0e25f6a2931df06e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:28 +0000
Subject: [PATCH 31/56] fix: compare the number of arguments of scalar
 functions

---
 expr/functions.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/expr/functions.go b/expr/functions.go
index cd16c14..a68bc39 100644
--- a/expr/functions.go
+++ b/expr/functions.go
@@ -423,10 +423,8 @@ func (s *ScalarFunction) Equals(rhs Expression) bool {
 		return false
 	}
 
-	for i := range s.args {
-		if !FuncArgsEqual(s.args[i], other.args[i]) {
-			return false
-		}
+	if !slices.EqualFunc(s.args, other.args, FuncArgsEqual) {
+		return false
 	}
 
 	return slices.EqualFunc(s.options, other.options, func(a, b *types.FunctionOption) bool {
-- 
2.43.0


From c7b2fdbd2b80f8913ab8e42c965f6d2f528ae358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:28 +0000
Subject: [PATCH 32/56] fix: compare the bounds type of window functions

---
 expr/functions.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/expr/functions.go b/expr/functions.go
index a68bc39..6681d64 100644
--- a/expr/functions.go
+++ b/expr/functions.go
@@ -649,6 +649,8 @@ func (w *WindowFunction) Equals(other Expression) bool {
 		return false
 	case w.phase != rhs.phase || w.invocation != rhs.invocation:
 		return false
+	case w.BoundsType != rhs.BoundsType:
+		return false
 	case w.LowerBound != rhs.LowerBound || w.UpperBound != rhs.UpperBound:
 		return false
 	case !slices.EqualFunc(w.options, rhs.options, func(l, r *types.FunctionOption) bool {
-- 
2.43.0


From ef24d7d0548cc3ccdc8b444cb2b180925f91bb19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:28 +0000
Subject: [PATCH 33/56] fix: compare mask references by content

---
 expr/field_reference.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/expr/field_reference.go b/expr/field_reference.go
index 627cb00..a091337 100644
--- a/expr/field_reference.go
+++ b/expr/field_reference.go
@@ -10,6 +10,7 @@ import (
 	substraitgo "github.com/substrait-io/substrait-go/v8"
 	"github.com/substrait-io/substrait-go/v8/types"
 	proto "github.com/substrait-io/substrait-protobuf/go/substraitpb"
+	pb "google.golang.org/protobuf/proto"
 )
 
 // RootRefType is a marker interface for types that can be used as a Root
@@ -742,7 +743,7 @@ func (f *FieldReference) Equals(rhs Expression) bool {
 				return false
 			}
 
-			return ref == rhs
+			return pb.Equal(ref.ToProto(), rhs.ToProto())
 		}
 	}
 
-- 
2.43.0


From a8f720fac0f0673c204c44a0be12c11bae612726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:28 +0000
Subject: [PATCH 34/56] fix: visiting a multi-or-list whose first change is in
 the options panicked

---
 expr/expression.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/expr/expression.go b/expr/expression.go
index 0ea24aa..1ae7d8f 100644
--- a/expr/expression.go
+++ b/expr/expression.go
@@ -1221,9 +1221,8 @@ func (ex *MultiOrList) Visit(visit VisitFunc) Expression {
 					out.Options[k] = slices.Clone(ex.Options[k])
 				}
 
-				for k := 0; k < j; k++ {
-					out.Options[i][k] = ex.Options[i][k]
-				}
+				out.Options[i] = make([]Expression, len(opts))
+				copy(out.Options[i], opts[:j])
 			}
 
 			if out != nil {
-- 
2.43.0


From 8adbbfa9f50aef8a222b1a2ff880dfdfaec63502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:28 +0000
Subject: [PATCH 35/56] fix: visit the sort fields and partitions of window
 functions

---
 expr/functions.go | 34 ++++++++++++++++++++++++++++++++--
 1 file changed, 32 insertions(+), 2 deletions(-)

diff --git a/expr/functions.go b/expr/functions.go
index 6681d64..43a1db4 100644
--- a/expr/functions.go
+++ b/expr/functions.go
@@ -758,12 +758,42 @@ func (w *WindowFunction) Visit(visit VisitFunc) Expression {
 		}
 	}
 
-	if args == nil {
+	var sorts []SortField
+	for i, s := range w.Sorts {
+		after := visit(s.Expr)
+		if sorts == nil && after != s.Expr {
+			sorts = slices.Clone(w.Sorts)
+		}
+		if sorts != nil {
+			sorts[i].Expr = after
+		}
+	}
+
+	var parts []Expression
+	for i, p := range w.Partitions {
+		after := visit(p)
+		if parts == nil && after != p {
+			parts = slices.Clone(w.Partitions)
+		}
+		if parts != nil {
+			parts[i] = after
+		}
+	}
+
+	if args == nil && sorts == nil && parts == nil {
 		return w
 	}
 
 	out := *w
-	out.args = args
+	if args != nil {
+		out.args = args
+	}
+	if sorts != nil {
+		out.Sorts = sorts
+	}
+	if parts != nil {
+		out.Partitions = parts
+	}
 	return &out
 }
 
-- 
2.43.0


From e1b2cdac02b202d7622caca0ed1287b0d2870901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:28 +0000
Subject: [PATCH 36/56] fix: do not visit the absent else clause of a switch
 expression

---
 expr/expression.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/expr/expression.go b/expr/expression.go
index 1ae7d8f..a3e6fde 100644
--- a/expr/expression.go
+++ b/expr/expression.go
@@ -963,7 +963,11 @@ func (ex *SwitchExpr) Visit(visit VisitFunc) Expression {
 		}
 	}
 
-	afterElse := visit(ex.elseClause)
+	// the else clause is optional
+	var afterElse Expression
+	if ex.elseClause != nil {
+		afterElse = visit(ex.elseClause)
+	}
 	if out == nil {
 		if afterElse == ex.elseClause {
 			return ex
-- 
2.43.0


From 088427d0c669fbf962ca87639e81abcf49360715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:28 +0000
Subject: [PATCH 37/56] fix: decode switch expressions without an else clause

---
 expr/expression.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/expr/expression.go b/expr/expression.go
index a3e6fde..ed5f433 100644
--- a/expr/expression.go
+++ b/expr/expression.go
@@ -182,9 +182,13 @@ func ExprFromProto(e *proto.Expression, baseSchema *types.RecordType, reg Extens
 			return nil, err
 		}
 
-		elseExpr, err := ExprFromProto(et.SwitchExpression.Else, baseSchema, reg)
-		if err != nil {
-			return nil, err
+		// the else clause is optional
+		var elseExpr Expression
+		if et.SwitchExpression.Else != nil {
+			elseExpr, err = ExprFromProto(et.SwitchExpression.Else, baseSchema, reg)
+			if err != nil {
+				return nil, err
+			}
 		}
 
 		ifs := make([]struct {
-- 
2.43.0


From b1c6b35a01d75ce56bef12d85f9a578a8522c04a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:28 +0000
Subject: [PATCH 38/56] fix: list and map masks without a child panicked on the
 wire

---
 expr/field_reference.go | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/expr/field_reference.go b/expr/field_reference.go
index a091337..fca1300 100644
--- a/expr/field_reference.go
+++ b/expr/field_reference.go
@@ -374,10 +374,11 @@ func maskSelectFromProto(p *proto.Expression_MaskExpression_Select) MaskSelect {
 				selection[i] = (*MaskListSlice)(s.Slice)
 			}
 		}
-		return &MaskListSelect{
-			selection: selection,
-			child:     maskSelectFromProto(s.List.Child),
+		ret := &MaskListSelect{selection: selection}
+		if s.List.Child != nil {
+			ret.child = maskSelectFromProto(s.List.Child)
 		}
+		return ret
 	case *proto.Expression_MaskExpression_Select_Map:
 		var ret MaskMapSelect
 		if s.Map.Child != nil {
@@ -451,11 +452,16 @@ func (m *MaskListSelect) ToProto() *proto.Expression_MaskExpression_Select {
 		selection[i] = s.ToProto()
 	}
 
+	var child *proto.Expression_MaskExpression_Select
+	if m.child != nil {
+		child = m.child.ToProto()
+	}
+
 	return &proto.Expression_MaskExpression_Select{
 		Type: &proto.Expression_MaskExpression_Select_List{
 			List: &proto.Expression_MaskExpression_ListSelect{
 				Selection: selection,
-				Child:     m.child.ToProto(),
+				Child:     child,
 			},
 		},
 	}
@@ -520,9 +526,10 @@ func (m *MaskMapSelect) Child() MaskSelect {
 
 func (m *MaskMapSelect) ToProto() *proto.Expression_MaskExpression_Select {
 	ret := &proto.Expression_MaskExpression_Select_Map{
-		Map: &proto.Expression_MaskExpression_MapSelect{
-			Child: m.child.ToProto(),
-		},
+		Map: &proto.Expression_MaskExpression_MapSelect{},
+	}
+	if m.child != nil {
+		ret.Map.Child = m.child.ToProto()
 	}
 
 	if m.kind == MapSelectKey {
-- 
2.43.0


From 8fa0291aa4638a83d2ab49d850061fffd9d67fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:28 +0000
Subject: [PATCH 39/56] fix: custom aggregate functions kept no declaration

---
 expr/functions.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/expr/functions.go b/expr/functions.go
index 43a1db4..df658e0 100644
--- a/expr/functions.go
+++ b/expr/functions.go
@@ -845,13 +845,14 @@ func NewCustomAggregateFunc(
 	}
 
 	return &AggregateFunction{
-		funcRef:    reg.GetFuncAnchor(v.ID()),
-		outputType: outputType,
-		options:    opts,
-		args:       args,
-		invocation: invoke,
-		phase:      phase,
-		Sorts:      sorts,
+		funcRef:     reg.GetFuncAnchor(v.ID()),
+		declaration: v,
+		outputType:  outputType,
+		options:     opts,
+		args:        args,
+		invocation:  invoke,
+		phase:       phase,
+		Sorts:       sorts,
 	}, nil
 }
 
-- 
2.43.0


From fb5d845f7186b44d080c37bb35ec29ae8972d75a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:02 +0000
Subject: [PATCH 40/56] fix: variants made from a compound name panicked on
 short type names

---
 extensions/variants.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/extensions/variants.go b/extensions/variants.go
index b85c4ce..de7c84c 100644
--- a/extensions/variants.go
+++ b/extensions/variants.go
@@ -320,8 +320,11 @@ func parseFuncName(compoundName string) (name string, args FuncParameterList) {
 	splitArgs := strings.Split(argsStr, "_")
 	for _, argStr := range splitArgs {
 		parsed, err := parser.ParseType(argStr)
-		if err != nil {
-			panic(err)
+		if err != nil || parsed.ShortString() != argStr {
+			// a short name that isn't the name of a type on its own (str, dec, list,
+			// any1, req, ...): there is nothing to know about it but its spelling.
+			args = append(args, signatureArg(argStr))
+			continue
 		}
 		exp := ValueArg{Name: name, Value: &parser.TypeExpression{ValueType: parsed}}
 		args = append(args, exp)
@@ -330,6 +333,18 @@ func parseFuncName(compoundName string) (name string, args FuncParameterList) {
 	return name, args
 }
 
+// signatureArg is an argument of an on-the-fly function variant of which only
+// the short name in the signature of the function is known.
+type signatureArg string
+
+func (s signatureArg) toTypeString() string { return string(s) }
+
+func (signatureArg) argumentMarker() {}
+
+func (signatureArg) GetTypeExpression() types.FuncDefArgType {
+	return &types.AnyType{Name: "any"}
+}
+
 func minArgumentCount(paramTypeList FuncParameterList, variadicBehavior *VariadicBehavior) int {
 	if variadicBehavior == nil {
 		return len(paramTypeList)
-- 
2.43.0


From 6bd54fe23ed6933510a470a09dd1e15e2fa87731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:06 +0000
Subject: [PATCH 41/56] fix: decoding a function that is not registered changed
 its anchor

---
 expr/expression.go | 16 +++-------------
 expr/functions.go  |  2 +-
 2 files changed, 4 insertions(+), 14 deletions(-)

diff --git a/expr/expression.go b/expr/expression.go
index ed5f433..f184aba 100644
--- a/expr/expression.go
+++ b/expr/expression.go
@@ -82,7 +82,8 @@ func ExprFromProto(e *proto.Expression, baseSchema *types.RecordType, reg Extens
 
 		decl, ok := reg.LookupScalarFunction(et.ScalarFunction.FunctionReference)
 		if !ok {
-			return NewCustomScalarFunc(reg, extensions.NewScalarFuncVariant(id), types.TypeFromProto(et.ScalarFunction.OutputType), et.ScalarFunction.Options, args...)
+			// nothing but its name is known about the function; it keeps the anchor it has
+			decl = extensions.NewScalarFuncVariant(id)
 		}
 
 		return &ScalarFunction{
@@ -125,18 +126,7 @@ func ExprFromProto(e *proto.Expression, baseSchema *types.RecordType, reg Extens
 		}
 		decl, ok := reg.LookupWindowFunction(et.WindowFunction.FunctionReference)
 		if !ok {
-			fn, err := NewCustomWindowFunc(reg, extensions.NewWindowFuncVariant(id), types.TypeFromProto(et.WindowFunction.OutputType),
-				et.WindowFunction.Options, et.WindowFunction.Invocation, et.WindowFunction.Phase, args...)
-			if err != nil {
-				return nil, err
-			}
-
-			fn.Partitions = parts
-			fn.Sorts = sorts
-			fn.LowerBound = BoundFromProto(et.WindowFunction.LowerBound)
-			fn.BoundsType = et.WindowFunction.BoundsType
-			fn.UpperBound = BoundFromProto(et.WindowFunction.UpperBound)
-			return fn, nil
+			decl = extensions.NewWindowFuncVariant(id)
 		}
 
 		return &WindowFunction{
diff --git a/expr/functions.go b/expr/functions.go
index df658e0..be83e3c 100644
--- a/expr/functions.go
+++ b/expr/functions.go
@@ -884,7 +884,7 @@ func NewAggregateFunctionFromProto(
 	}
 	decl, ok := reg.LookupAggregateFunction(agg.FunctionReference)
 	if !ok {
-		return NewCustomAggregateFunc(reg, extensions.NewAggFuncVariant(id), types.TypeFromProto(agg.OutputType), agg.Options, agg.Invocation, agg.Phase, sorts, args...)
+		decl = extensions.NewAggFuncVariant(id)
 	}
 
 	return &AggregateFunction{
-- 
2.43.0


From 2ad2756dedfbeaa94c0da09439d3d2517131af77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:48 +0000
Subject: [PATCH 42/56] fix: hash and merge joins reported the same schema for
 every join type

---
 plan/plan.go      |  4 ++--
 plan/relations.go | 29 +++++++++++++++++++++++++++--
 2 files changed, 29 insertions(+), 4 deletions(-)

diff --git a/plan/plan.go b/plan/plan.go
index 43fbb1b..1b73865 100644
--- a/plan/plan.go
+++ b/plan/plan.go
@@ -852,7 +852,7 @@ func RelFromProto(rel *proto.Rel, reg expr.ExtensionRegistry) (Rel, error) {
 		out.fromProtoCommon(rel.HashJoin.Common)
 
 		if rel.HashJoin.PostJoinFilter != nil {
-			base := out.RecordType()
+			base := leftBase.Concat(rightBase)
 			out.postJoinFilter, err = expr.ExprFromProto(rel.HashJoin.PostJoinFilter, &base, reg)
 			if err != nil {
 				return nil, fmt.Errorf("error getting post join filter for HashJoinRel: %w", err)
@@ -889,7 +889,7 @@ func RelFromProto(rel *proto.Rel, reg expr.ExtensionRegistry) (Rel, error) {
 		out.fromProtoCommon(rel.MergeJoin.Common)
 
 		if rel.MergeJoin.PostJoinFilter != nil {
-			base := out.RecordType()
+			base := leftBase.Concat(rightBase)
 			out.postJoinFilter, err = expr.ExprFromProto(rel.MergeJoin.PostJoinFilter, &base, reg)
 			if err != nil {
 				return nil, fmt.Errorf("error getting post join filter for MergeJoin: %w", err)
diff --git a/plan/relations.go b/plan/relations.go
index 4f501c6..433e6bd 100644
--- a/plan/relations.go
+++ b/plan/relations.go
@@ -1822,6 +1822,31 @@ const (
 
 // SimpleComparisonType describes one of the predefined comparison behaviors
 // used by a ComparisonJoinKey.
+// outputSchema returns the output record type of a join of this type, which is
+// the one of the corresponding logical join.
+func (t HashMergeJoinType) outputSchema(left, right Rel) types.RecordType {
+	join := JoinRel{left: left, right: right}
+	switch t {
+	case HashMergeOuter:
+		join.joinType = JoinTypeOuter
+	case HashMergeLeft:
+		join.joinType = JoinTypeLeft
+	case HashMergeRight:
+		join.joinType = JoinTypeRight
+	case HashMergeLeftSemi:
+		join.joinType = JoinTypeLeftSemi
+	case HashMergeRightSemi:
+		join.joinType = JoinTypeRightSemi
+	case HashMergeLeftAnti:
+		join.joinType = JoinTypeLeftAnti
+	case HashMergeRightAnti:
+		join.joinType = JoinTypeRightAnti
+	default:
+		join.joinType = JoinTypeInner
+	}
+	return join.directOutputSchema()
+}
+
 type SimpleComparisonType = proto.ComparisonJoinKey_SimpleComparisonType
 
 const (
@@ -2026,7 +2051,7 @@ type HashJoinRel struct {
 }
 
 func (hr *HashJoinRel) directOutputSchema() types.RecordType {
-	return hr.left.RecordType().Concat(hr.right.RecordType())
+	return hr.joinType.outputSchema(hr.left, hr.right)
 }
 
 func (hr *HashJoinRel) RecordType() types.RecordType {
@@ -2143,7 +2168,7 @@ type MergeJoinRel struct {
 }
 
 func (mr *MergeJoinRel) directOutputSchema() types.RecordType {
-	return mr.left.RecordType().Concat(mr.right.RecordType())
+	return mr.joinType.outputSchema(mr.left, mr.right)
 }
 
 func (mr *MergeJoinRel) RecordType() types.RecordType {
-- 
2.43.0


From 7125fcc48a23c2c2513aa6e2f8867b09acb82e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:48 +0000
Subject: [PATCH 43/56] fix: remapping a relation without inputs changed the
 relation itself

---
 plan/relations.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/plan/relations.go b/plan/relations.go
index 433e6bd..3114b6e 100644
--- a/plan/relations.go
+++ b/plan/relations.go
@@ -243,7 +243,8 @@ func (n *NamedTableReadRel) ToProto() *proto.Rel {
 }
 
 func (n *NamedTableReadRel) Copy(_ ...Rel) (Rel, error) {
-	return n, nil
+	c := *n
+	return &c, nil
 }
 
 func (n *NamedTableReadRel) CopyWithExpressionRewrite(rewriteFunc RewriteFunc, _ ...Rel) (Rel, error) {
@@ -302,7 +303,8 @@ func (v *VirtualTableReadRel) ToProtoPlanRel() *proto.PlanRel {
 }
 
 func (v *VirtualTableReadRel) Copy(_ ...Rel) (Rel, error) {
-	return v, nil
+	c := *v
+	return &c, nil
 }
 
 func (v *VirtualTableReadRel) CopyWithExpressionRewrite(rewriteFunc RewriteFunc, _ ...Rel) (Rel, error) {
@@ -373,7 +375,8 @@ func (e *ExtensionTableReadRel) ToProtoPlanRel() *proto.PlanRel {
 }
 
 func (e *ExtensionTableReadRel) Copy(_ ...Rel) (Rel, error) {
-	return e, nil
+	c := *e
+	return &c, nil
 }
 
 func (e *ExtensionTableReadRel) CopyWithExpressionRewrite(rewriteFunc RewriteFunc, _ ...Rel) (Rel, error) {
@@ -479,7 +482,8 @@ func (n *IcebergTableReadRel) ToProto() *proto.Rel {
 }
 
 func (n *IcebergTableReadRel) Copy(_ ...Rel) (Rel, error) {
-	return n, nil
+	c := *n
+	return &c, nil
 }
 
 func (n *IcebergTableReadRel) CopyWithExpressionRewrite(rewriteFunc RewriteFunc, _ ...Rel) (Rel, error) {
@@ -672,7 +676,8 @@ func (lf *LocalFileReadRel) ToProtoPlanRel() *proto.PlanRel {
 }
 
 func (lf *LocalFileReadRel) Copy(_ ...Rel) (Rel, error) {
-	return lf, nil
+	c := *lf
+	return &c, nil
 }
 
 func (lf *LocalFileReadRel) CopyWithExpressionRewrite(rewriteFunc RewriteFunc, _ ...Rel) (Rel, error) {
@@ -1726,7 +1731,8 @@ func (el *ExtensionLeafRel) GetInputs() []Rel {
 }
 
 func (el *ExtensionLeafRel) Copy(_ ...Rel) (Rel, error) {
-	return el, nil
+	c := *el
+	return &c, nil
 }
 
 func (el *ExtensionLeafRel) CopyWithExpressionRewrite(_ RewriteFunc, _ ...Rel) (Rel, error) {
-- 
2.43.0


From 14811fe5619bc1ac6e6bcc175cd4c501f3b5606c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:31 +0000
Subject: [PATCH 44/56] fix: rewriting a virtual table ignored its values
 unless a filter changed

---
 plan/relations.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/plan/relations.go b/plan/relations.go
index 3114b6e..c33873c 100644
--- a/plan/relations.go
+++ b/plan/relations.go
@@ -312,11 +312,6 @@ func (v *VirtualTableReadRel) CopyWithExpressionRewrite(rewriteFunc RewriteFunc,
 	if err != nil {
 		return nil, err
 	}
-	if slices.Equal(newExprs, v.getExpressions()) {
-		return v, nil
-	}
-	vtr := *v
-	vtr.updateFilters(newExprs)
 	valuesUnchanged := true
 	newValues := make([]expr.VirtualTableExpressionValue, len(v.values))
 	for i, val := range v.values {
@@ -326,11 +321,16 @@ func (v *VirtualTableReadRel) CopyWithExpressionRewrite(rewriteFunc RewriteFunc,
 			if err != nil {
 				return nil, err
 			}
-			valuesUnchanged = valuesUnchanged && newExpr.Equals(e)
+			valuesUnchanged = valuesUnchanged && newExpr == e
 			newExprs[j] = newExpr
 		}
 		newValues[i] = newExprs
 	}
+	if valuesUnchanged && slices.Equal(newExprs, v.getExpressions()) {
+		return v, nil
+	}
+	vtr := *v
+	vtr.updateFilters(newExprs)
 	if !valuesUnchanged {
 		vtr.values = newValues
 	}
-- 
2.43.0


From b25c8b935c8737b754f075b5cc0e5da40d2eae8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:31 +0000
Subject: [PATCH 45/56] fix: rewriting an aggregation left the sort fields of
 its measures out

---
 plan/relations.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/plan/relations.go b/plan/relations.go
index c33873c..6c1d482 100644
--- a/plan/relations.go
+++ b/plan/relations.go
@@ -1259,6 +1259,14 @@ func (ar *AggregateRel) rewriteAggregateFunc(rewriteFunc RewriteFunc, f *expr.Ag
 			argsAreEqual = argsAreEqual && exp == newExp
 		}
 	}
+	for i, s := range f.Sorts {
+		newExp, err := rewriteFunc(s.Expr)
+		if err != nil {
+			return nil, err
+		}
+		newF.Sorts[i].Expr = newExp
+		argsAreEqual = argsAreEqual && s.Expr == newExp
+	}
 	if argsAreEqual {
 		return f, nil
 	}
-- 
2.43.0


From e3345debd272e1687f8d450f3c627df1bb27a38c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:45:15 +0000
Subject: [PATCH 46/56] fix: decoding a relation without its common part
 panicked

---
 plan/common.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/plan/common.go b/plan/common.go
index 6890c0d..8b925c6 100644
--- a/plan/common.go
+++ b/plan/common.go
@@ -132,8 +132,8 @@ type RelCommon struct {
 }
 
 func (rc *RelCommon) fromProtoCommon(c *proto.RelCommon) {
-	rc.hint = c.Hint
-	rc.advExtension = c.AdvancedExtension
+	rc.hint = c.GetHint()
+	rc.advExtension = c.GetAdvancedExtension()
 
 	if emit, ok := c.GetEmitKind().(*proto.RelCommon_Emit_); ok {
 		rc.mapping = emit.Emit.OutputMapping
-- 
2.43.0


From 9993ddbb5bb4744641f4639f9422643ac3ecea0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:45:15 +0000
Subject: [PATCH 47/56] fix: decoding an incomplete relation panicked

---
 expr/field_reference.go |  4 ++
 expr/functions.go       |  2 +-
 plan/plan.go            | 89 ++++++++++++++++++++++++++++++++++-------
 plan/subquery.go        |  2 +-
 types/types.go          |  8 ++--
 5 files changed, 84 insertions(+), 21 deletions(-)

diff --git a/expr/field_reference.go b/expr/field_reference.go
index fca1300..132f0e1 100644
--- a/expr/field_reference.go
+++ b/expr/field_reference.go
@@ -775,6 +775,10 @@ func FieldReferenceFromProto(p *proto.Expression_FieldReference, baseSchema *typ
 		err       error
 	)
 
+	if p == nil {
+		return nil, fmt.Errorf("%w: protobuf FieldReference is nil", substraitgo.ErrInvalidExpr)
+	}
+
 	switch rt := p.RootType.(type) {
 	case *proto.Expression_FieldReference_Expression:
 		if root, err = ExprFromProto(rt.Expression, baseSchema, reg); err != nil {
diff --git a/expr/functions.go b/expr/functions.go
index be83e3c..222ae18 100644
--- a/expr/functions.go
+++ b/expr/functions.go
@@ -859,7 +859,7 @@ func NewCustomAggregateFunc(
 func NewAggregateFunctionFromProto(
 	agg *proto.AggregateFunction, baseSchema *types.RecordType, reg ExtensionRegistry,
 ) (*AggregateFunction, error) {
-	if agg.OutputType == nil {
+	if agg.GetOutputType() == nil {
 		return nil, fmt.Errorf("%w: missing output type", substraitgo.ErrInvalidExpr)
 	}
 
diff --git a/plan/plan.go b/plan/plan.go
index 1b73865..6d3e911 100644
--- a/plan/plan.go
+++ b/plan/plan.go
@@ -94,6 +94,12 @@ func (r *Relation) FromProto(p *proto.PlanRel, reg expr.ExtensionRegistry) error
 			return err
 		}
 
+		if isRecordTypeSupported(input) {
+			if err := checkSchema(input); err != nil {
+				return err
+			}
+		}
+
 		r.rel = input
 		return nil
 	case *proto.PlanRel_Root:
@@ -104,6 +110,9 @@ func (r *Relation) FromProto(p *proto.PlanRel, reg expr.ExtensionRegistry) error
 
 		names := rel.Root.Names
 		if isRecordTypeSupported(input) {
+			if err := checkSchema(input); err != nil {
+				return err
+			}
 			if err := validateRootNamesForSchema(input.RecordType(), names); err != nil {
 				return err
 			}
@@ -261,6 +270,9 @@ func FromProtoWithDecoder(plan *proto.Plan, c *extensions.Collection, decoders m
 	if len(plan.ParameterBindings) > 0 {
 		ret.parameterBindings = make([]DynamicParameterBinding, len(plan.ParameterBindings))
 		for i, pb := range plan.ParameterBindings {
+			if pb.GetValue() == nil {
+				return nil, fmt.Errorf("%w: binding of parameter %d has no value", substraitgo.ErrInvalidPlan, pb.GetParameterAnchor())
+			}
 			ret.parameterBindings[i] = DynamicParameterBinding{
 				ParameterAnchor: pb.ParameterAnchor,
 				Value:           expr.LiteralFromProto(pb.Value),
@@ -446,8 +458,49 @@ func decodeExtensionDef(reg expr.ExtensionRegistry, detail *anypb.Any) (Extensio
 	return &UndecodedExtension{detail: detail}, nil
 }
 
+// checkSchema returns an error if the output schema of a decoded relation
+// cannot be computed.
+func checkSchema(rel Rel) error {
+	switch r := rel.(type) {
+	case *ExtensionSingleRel, *ExtensionMultiRel:
+		// decoded without looking at the schema of their inputs
+		for _, in := range r.GetInputs() {
+			if err := checkSchema(in); err != nil {
+				return err
+			}
+		}
+	case *NamedTableWriteRel:
+		if r.outputMode == OutputModeUnspecified {
+			return fmt.Errorf("%w: output mode of WriteRel must be specified", substraitgo.ErrInvalidRel)
+		}
+	}
+	mapping := rel.OutputMapping()
+	if len(mapping) == 0 {
+		return nil
+	}
+	nOutput := rel.directOutputSchema().FieldCount()
+	for _, idx := range mapping {
+		if idx < 0 || idx >= nOutput {
+			return errOutputMappingOutOfRange
+		}
+	}
+	return nil
+}
+
+// inputFromProto decodes a relation whose output schema is needed.
+func inputFromProto(rel *proto.Rel, reg expr.ExtensionRegistry) (Rel, error) {
+	input, err := RelFromProto(rel, reg)
+	if err != nil {
+		return nil, err
+	}
+	if err := checkSchema(input); err != nil {
+		return nil, err
+	}
+	return input, nil
+}
+
 func RelFromProto(rel *proto.Rel, reg expr.ExtensionRegistry) (Rel, error) {
-	switch rel := rel.RelType.(type) {
+	switch rel := rel.GetRelType().(type) {
 	case *proto.Rel_Read:
 		var out ReadRel
 		switch readType := rel.Read.ReadType.(type) {
@@ -519,7 +572,7 @@ func RelFromProto(rel *proto.Rel, reg expr.ExtensionRegistry) (Rel, error) {
 
 		return out, nil
 	case *proto.Rel_Filter:
-		input, err := RelFromProto(rel.Filter.Input, reg)
+		input, err := inputFromProto(rel.Filter.Input, reg)
 		if err != nil {
 			return nil, fmt.Errorf("error getting input to FilterRel: %w", err)
 		}
@@ -540,7 +593,7 @@ func RelFromProto(rel *proto.Rel, reg expr.ExtensionRegistry) (Rel, error) {
 		}
 		return out, nil
 	case *proto.Rel_Fetch:
-		input, err := RelFromProto(rel.Fetch.Input, reg)
+		input, err := inputFromProto(rel.Fetch.Input, reg)
 		if err != nil {
 			return nil, fmt.Errorf("error getting input to FetchRel: %w", err)
 		}
@@ -570,7 +623,7 @@ func RelFromProto(rel *proto.Rel, reg expr.ExtensionRegistry) (Rel, error) {
 		}
 		return out, nil
 	case *proto.Rel_Aggregate:
-		input, err := RelFromProto(rel.Aggregate.Input, reg)
+		input, err := inputFromProto(rel.Aggregate.Input, reg)
 		if err != nil {
 			return nil, fmt.Errorf("error getting input to AggregateRel: %w", err)
 		}
@@ -587,6 +640,12 @@ func RelFromProto(rel *proto.Rel, reg expr.ExtensionRegistry) (Rel, error) {
 				groupingExpressions = append(groupingExpressions, expr)
 			}
 			for _, g := range rel.Aggregate.Groupings {
+				for _, ref := range g.ExpressionReferences {
+					if int(ref) >= len(groupingExpressions) {
+						return nil, fmt.Errorf("%w: grouping reference %d of AggregateRel is out of range",
+							substraitgo.ErrInvalidRel, ref)
+					}
+				}
 				groupingReferences = append(groupingReferences, g.ExpressionReferences)
 			}
 		} else { // support old style grouping for backward compatibility
@@ -629,7 +688,7 @@ func RelFromProto(rel *proto.Rel, reg expr.ExtensionRegistry) (Rel, error) {
 		out.fromProtoCommon(rel.Aggregate.Common)
 		return out, nil
 	case *proto.Rel_Sort:
-		input, err := RelFromProto(rel.Sort.Input, reg)
+		input, err := inputFromProto(rel.Sort.Input, reg)
 		if err != nil {
 			return nil, fmt.Errorf("error getting input to SortRel: %w", err)
 		}
@@ -659,12 +718,12 @@ func RelFromProto(rel *proto.Rel, reg expr.ExtensionRegistry) (Rel, error) {
 			return nil, fmt.Errorf("%w: JoinRel must not have unspecified join type", substraitgo.ErrInvalidRel)
 		}
 
-		left, err := RelFromProto(rel.Join.Left, reg)
+		left, err := inputFromProto(rel.Join.Left, reg)
 		if err != nil {
 			return nil, fmt.Errorf("error getting left input to JoinRel: %w", err)
 		}
 
-		right, err := RelFromProto(rel.Join.Right, reg)
+		right, err := inputFromProto(rel.Join.Right, reg)
 		if err != nil {
 			return nil, fmt.Errorf("error getting right input to JoinRel: %w", err)
 		}
@@ -692,7 +751,7 @@ func RelFromProto(rel *proto.Rel, reg expr.ExtensionRegistry) (Rel, error) {
 
 		return out, nil
 	case *proto.Rel_Project:
-		input, err := RelFromProto(rel.Project.Input, reg)
+		input, err := inputFromProto(rel.Project.Input, reg)
 		if err != nil {
 			return nil, fmt.Errorf("error getting input to ProjectRel: %w", err)
 		}
@@ -729,7 +788,7 @@ func RelFromProto(rel *proto.Rel, reg expr.ExtensionRegistry) (Rel, error) {
 
 		var err error
 		for i, r := range rel.Set.Inputs {
-			inputs[i], err = RelFromProto(r, reg)
+			inputs[i], err = inputFromProto(r, reg)
 			if err != nil {
 				return nil, fmt.Errorf("error getting input %d for SetRel: %w", i, err)
 			}
@@ -806,12 +865,12 @@ func RelFromProto(rel *proto.Rel, reg expr.ExtensionRegistry) (Rel, error) {
 
 		return out, nil
 	case *proto.Rel_Cross:
-		left, err := RelFromProto(rel.Cross.Left, reg)
+		left, err := inputFromProto(rel.Cross.Left, reg)
 		if err != nil {
 			return nil, fmt.Errorf("error getting left input to CrossRel: %w", err)
 		}
 
-		right, err := RelFromProto(rel.Cross.Right, reg)
+		right, err := inputFromProto(rel.Cross.Right, reg)
 		if err != nil {
 			return nil, fmt.Errorf("error getting right input to CrossRel: %w", err)
 		}
@@ -824,12 +883,12 @@ func RelFromProto(rel *proto.Rel, reg expr.ExtensionRegistry) (Rel, error) {
 		out.fromProtoCommon(rel.Cross.Common)
 		return out, nil
 	case *proto.Rel_HashJoin:
-		left, err := RelFromProto(rel.HashJoin.Left, reg)
+		left, err := inputFromProto(rel.HashJoin.Left, reg)
 		if err != nil {
 			return nil, fmt.Errorf("error getting left input to HashJoinRel: %w", err)
 		}
 
-		right, err := RelFromProto(rel.HashJoin.Right, reg)
+		right, err := inputFromProto(rel.HashJoin.Right, reg)
 		if err != nil {
 			return nil, fmt.Errorf("error getting right input to HashJoin: %w", err)
 		}
@@ -861,12 +920,12 @@ func RelFromProto(rel *proto.Rel, reg expr.ExtensionRegistry) (Rel, error) {
 
 		return out, nil
 	case *proto.Rel_MergeJoin:
-		left, err := RelFromProto(rel.MergeJoin.Left, reg)
+		left, err := inputFromProto(rel.MergeJoin.Left, reg)
 		if err != nil {
 			return nil, fmt.Errorf("error getting left input to MergeJoinRel: %w", err)
 		}
 
-		right, err := RelFromProto(rel.MergeJoin.Right, reg)
+		right, err := inputFromProto(rel.MergeJoin.Right, reg)
 		if err != nil {
 			return nil, fmt.Errorf("error getting right input to MergeJoinRel: %w", err)
 		}
diff --git a/plan/subquery.go b/plan/subquery.go
index 02516ec..a31be47 100644
--- a/plan/subquery.go
+++ b/plan/subquery.go
@@ -23,7 +23,7 @@ type ExpressionConverter struct {
 func (r *ExpressionConverter) SubqueryFromProto(sub *proto.Expression_Subquery, baseSchema *types.RecordType, reg expr.ExtensionRegistry) (expr.Expression, error) {
 	switch subType := sub.SubqueryType.(type) {
 	case *proto.Expression_Subquery_Scalar_:
-		rel, err := RelFromProto(subType.Scalar.Input, reg)
+		rel, err := inputFromProto(subType.Scalar.Input, reg)
 		if err != nil {
 			return nil, err
 		}
diff --git a/types/types.go b/types/types.go
index bd08c72..9aef054 100644
--- a/types/types.go
+++ b/types/types.go
@@ -1702,16 +1702,16 @@ func NewNamedStructFromProto(n *proto.NamedStruct) NamedStruct {
 		return NamedStruct{}
 	}
 
-	fields := make([]Type, len(n.Struct.Types))
-	for i, f := range n.Struct.Types {
+	fields := make([]Type, len(n.GetStruct().GetTypes()))
+	for i, f := range n.GetStruct().GetTypes() {
 		fields[i] = TypeFromProto(f)
 	}
 
 	return NamedStruct{
 		Names: n.Names,
 		Struct: StructType{
-			Nullability:      Nullability(n.Struct.Nullability),
-			TypeVariationRef: n.Struct.TypeVariationReference,
+			Nullability:      Nullability(n.GetStruct().GetNullability()),
+			TypeVariationRef: n.GetStruct().GetTypeVariationReference(),
 			Types:            fields,
 		},
 	}
-- 
2.43.0


From 5b932409c8fc068909dee9119699ecadd12bfb9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:23 +0000
Subject: [PATCH 48/56] fix: keep empty output mapping when decoding a relation

---
 plan/common.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/plan/common.go b/plan/common.go
index 8b925c6..ad14194 100644
--- a/plan/common.go
+++ b/plan/common.go
@@ -136,7 +136,11 @@ func (rc *RelCommon) fromProtoCommon(c *proto.RelCommon) {
 	rc.advExtension = c.GetAdvancedExtension()
 
 	if emit, ok := c.GetEmitKind().(*proto.RelCommon_Emit_); ok {
-		rc.mapping = emit.Emit.OutputMapping
+		rc.mapping = emit.Emit.GetOutputMapping()
+		if rc.mapping == nil {
+			// an empty mapping emits no columns, unlike an absent one
+			rc.mapping = []int32{}
+		}
 	} else {
 		rc.mapping = nil
 	}
-- 
2.43.0


From 51056f98dc3178c50cfefa0b373c4e6bca80d469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:23 +0000
Subject: [PATCH 49/56] fix: reject field references to absent relations
 instead of panicking

---
 plan/builders.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/plan/builders.go b/plan/builders.go
index c317c36..74f7094 100644
--- a/plan/builders.go
+++ b/plan/builders.go
@@ -241,6 +241,10 @@ func (b *builder) UserDefinedType(nameSpace, typeName string, params ...types.Ty
 }
 
 func (b *builder) JoinedRecordFieldRef(left, right Rel, index int32) (*expr.FieldReference, error) {
+	if left == nil || right == nil {
+		return nil, errNilInputRel
+	}
+
 	leftType, rightType := left.RecordType(), right.RecordType()
 	baseTypes := leftType.Concat(rightType).Types()
 	if index < 0 || index > int32(len(baseTypes)) {
@@ -252,6 +256,10 @@ func (b *builder) JoinedRecordFieldRef(left, right Rel, index int32) (*expr.Fiel
 }
 
 func (b *builder) RootFieldRef(input Rel, index int32) (*expr.FieldReference, error) {
+	if input == nil {
+		return nil, errNilInputRel
+	}
+
 	base := input.RecordType()
 	if index < 0 || index > base.FieldCount() {
 		return nil, fmt.Errorf("%w: cannot create field ref index %d, only %d fields in rel",
-- 
2.43.0


From bd6074e277041a65cafdea4c7cb975b87575f2cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:23 +0000
Subject: [PATCH 50/56] fix: reject virtual table rows of another width than
 the schema

---
 plan/builders.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/plan/builders.go b/plan/builders.go
index 74f7094..ce8ffa9 100644
--- a/plan/builders.go
+++ b/plan/builders.go
@@ -606,6 +606,10 @@ func (b *builder) VirtualTableFromExprRemap(fieldNames []string, remap []int32,
 	}
 
 	for _, row := range values[1:] {
+		if len(row) != nfields {
+			return nil, fmt.Errorf("%w: mismatched number of fields (%d) and literal values (%d) in virtual table",
+				substraitgo.ErrInvalidRel, nfields, len(row))
+		}
 		for j, v := range row {
 			if !typeList[j].Equals(v.GetType()) {
 				return nil, fmt.Errorf("%w: inconsistent literal types for virtual table, found %s in col %d, expected %s",
-- 
2.43.0


From 41c88d7760f8a6438c4f0b5e5392fa22df2bd346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:23 +0000
Subject: [PATCH 51/56] fix: validate a filter's output mapping against the
 columns of its input

---
 plan/builders.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plan/builders.go b/plan/builders.go
index ce8ffa9..e7f5b3e 100644
--- a/plan/builders.go
+++ b/plan/builders.go
@@ -430,7 +430,7 @@ func (b *builder) FilterRemap(input Rel, condition expr.Expression, remap []int3
 			substraitgo.ErrInvalidArg, condition.GetType())
 	}
 
-	noutput := input.directOutputSchema().FieldCount()
+	noutput := input.RecordType().FieldCount()
 	for _, idx := range remap {
 		if idx < 0 || idx >= noutput {
 			return nil, errOutputMappingOutOfRange
-- 
2.43.0


From a118db961d57c72f2935fcad1cafe2f59f77e30a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:23 +0000
Subject: [PATCH 52/56] fix: keep every relation of a plan built with several

---
 plan/builders.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/plan/builders.go b/plan/builders.go
index e7f5b3e..7fce40e 100644
--- a/plan/builders.go
+++ b/plan/builders.go
@@ -794,7 +794,10 @@ func (b *builder) PlanWithBindings(root Rel, rootNames []string, expectedTypeURL
 	}
 
 	for i, o := range others {
-		relations[i].rel = o
+		if o == nil {
+			return nil, errNilInputRel
+		}
+		relations[i+1].rel = o
 	}
 
 	reg := b.reg
-- 
2.43.0


From d3e426db50d4adcf0f7a02ec0c0b69930f3e04fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:23 +0000
Subject: [PATCH 53/56] fix: reject negative offsets and counts of a fetch
 relation

---
 plan/builders.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/plan/builders.go b/plan/builders.go
index 7fce40e..0c275e1 100644
--- a/plan/builders.go
+++ b/plan/builders.go
@@ -404,6 +404,15 @@ func (b *builder) FetchRemap(input Rel, offset, count int64, remap []int32) (*Fe
 		}
 	}
 
+	if offset < 0 {
+		return nil, fmt.Errorf("%w: offset for Fetch Relation must not be negative, got %d",
+			substraitgo.ErrInvalidArg, offset)
+	}
+	if count < 0 && count != FETCH_COUNT_ALL_RECORDS {
+		return nil, fmt.Errorf("%w: count for Fetch Relation must not be negative, got %d",
+			substraitgo.ErrInvalidArg, count)
+	}
+
 	return &FetchRel{
 		RelCommon: RelCommon{mapping: remap},
 		input:     input,
-- 
2.43.0


From b8e54760072e06e5602d5e44b33aba1d48f26fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:23 +0000
Subject: [PATCH 54/56] fix: validate a write relation's output mapping against
 its own columns

---
 plan/builders.go | 40 ++++++++++++++++++++++------------------
 1 file changed, 22 insertions(+), 18 deletions(-)

diff --git a/plan/builders.go b/plan/builders.go
index 0c275e1..215724f 100644
--- a/plan/builders.go
+++ b/plan/builders.go
@@ -349,21 +349,23 @@ func (b *builder) CreateTableAsSelectRemap(input Rel, remap []int32, tableName [
 		return nil, errNilInputRel
 	}
 
-	nOutput := input.RecordType().FieldCount()
-	for _, idx := range remap {
-		if idx < 0 || idx >= nOutput {
-			return nil, errOutputMappingOutOfRange
-		}
-	}
-
-	return &NamedTableWriteRel{
+	out := &NamedTableWriteRel{
 		RelCommon:   RelCommon{mapping: remap},
 		names:       tableName,
 		tableSchema: schema,
 		op:          WriteOpCTAS,
 		input:       input,
 		outputMode:  OutputModeModifiedRecords,
-	}, nil
+	}
+
+	nOutput := out.directOutputSchema().FieldCount()
+	for _, idx := range remap {
+		if idx < 0 || idx >= nOutput {
+			return nil, errOutputMappingOutOfRange
+		}
+	}
+
+	return out, nil
 }
 
 func (b *builder) CreateTableAsSelect(input Rel, tableName []string, schema types.NamedStruct) (*NamedTableWriteRel, error) {
@@ -520,21 +522,23 @@ func (b *builder) NamedWriteRemap(input Rel, op WriteOp, tableName []string, sch
 		return nil, errNilInputRel
 	}
 
-	nOutput := input.RecordType().FieldCount()
-	for _, idx := range remap {
-		if idx < 0 || idx >= nOutput {
-			return nil, errOutputMappingOutOfRange
-		}
-	}
-
-	return &NamedTableWriteRel{
+	out := &NamedTableWriteRel{
 		RelCommon:   RelCommon{mapping: remap},
 		names:       tableName,
 		tableSchema: schema,
 		op:          op,
 		input:       input,
 		outputMode:  OutputModeNoOutput,
-	}, nil
+	}
+
+	nOutput := out.directOutputSchema().FieldCount()
+	for _, idx := range remap {
+		if idx < 0 || idx >= nOutput {
+			return nil, errOutputMappingOutOfRange
+		}
+	}
+
+	return out, nil
 }
 
 func (b *builder) NamedWrite(input Rel, op WriteOp, tableName []string, schema types.NamedStruct) (*NamedTableWriteRel, error) {
-- 
2.43.0


From 19d62ef7ac6f0c7fb5b5a8de604217ac89ab7fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:23 +0000
Subject: [PATCH 55/56] fix: find the dynamic parameters in every expression of
 a plan

---
 plan/common.go | 34 ++++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/plan/common.go b/plan/common.go
index ad14194..6239bbf 100644
--- a/plan/common.go
+++ b/plan/common.go
@@ -42,6 +42,11 @@ func ValidateParameterBindings(root Rel, bindings []DynamicParameterBinding) err
 	collectDynamicParams(root, paramTypes)
 
 	for _, b := range bindings {
+		if b.Value == nil {
+			return fmt.Errorf("%w: parameter binding for anchor %d has no value",
+				substraitgo.ErrInvalidPlan, b.ParameterAnchor)
+		}
+
 		declaredType, ok := paramTypes[b.ParameterAnchor]
 		if !ok {
 			return fmt.Errorf("%w: parameter binding references anchor %d, "+
@@ -87,6 +92,16 @@ func collectDynamicParams(rel Rel, out map[uint32]types.Type) {
 // walkRelExprs invokes fn for every top-level expression in a relation.
 func walkRelExprs(rel Rel, fn func(expr.Expression)) {
 	switch r := rel.(type) {
+	case ReadRel:
+		fn(r.Filter())
+		fn(r.BestEffortFilter())
+		if v, ok := r.(*VirtualTableReadRel); ok {
+			for _, row := range v.Values() {
+				for _, e := range row {
+					fn(e)
+				}
+			}
+		}
 	case *FilterRel:
 		fn(r.Condition())
 	case *ProjectRel:
@@ -98,6 +113,25 @@ func walkRelExprs(rel Rel, fn func(expr.Expression)) {
 		if pjf := r.PostJoinFilter(); pjf != nil {
 			fn(pjf)
 		}
+	case *HashJoinRel:
+		fn(r.postJoinFilter)
+	case *MergeJoinRel:
+		fn(r.postJoinFilter)
+	case *AggregateRel:
+		for _, e := range r.GroupingExpressions() {
+			fn(e)
+		}
+		for _, m := range r.Measures() {
+			for i := 0; i < m.measure.NArgs(); i++ {
+				if e, ok := m.measure.Arg(i).(expr.Expression); ok {
+					fn(e)
+				}
+			}
+			for _, sf := range m.measure.Sorts {
+				fn(sf.Expr)
+			}
+			fn(m.filter)
+		}
 	case *SortRel:
 		for _, sf := range r.Sorts() {
 			fn(sf.Expr)
-- 
2.43.0


From 15c288a0f381f155b8e58ff72cea00dcabae8d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:39 +0000
Subject: [PATCH 56/56] fix: reject scalar subqueries that do not return one
 column

---
 plan/builders.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/plan/builders.go b/plan/builders.go
index 215724f..76d5511 100644
--- a/plan/builders.go
+++ b/plan/builders.go
@@ -1024,6 +1024,12 @@ func (b *builder) ScalarSubquery(input Rel) (*ScalarSubquery, error) {
 		return nil, errNilInputRel
 	}
 
+	record := input.RecordType()
+	if n := record.FieldCount(); n != 1 {
+		return nil, fmt.Errorf("%w: scalar subquery must return exactly one column, not %d",
+			substraitgo.ErrInvalidExpr, n)
+	}
+
 	return NewScalarSubquery(input), nil
 }
 
-- 
2.43.0

