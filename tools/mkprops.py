#!/usr/bin/env python3
# Regenerates /verif/properties.jsonl from the table below.
import json,os
P=[]
def p(id,title,statement,qtext,why,files,mech,over=("inputs",),state=(),observe=()):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=list(over),text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=None)))

p("C01","Types survive the protobuf wire format",
 "Encoding any well-formed concrete type to protobuf and decoding the message yields a type equal to the original: same kind, nullability, type-variation reference, parameters (length, precision, scale, user-defined reference and arguments) and, recursively, component types. Encoding never panics on a type the decoder can produce, and never changes the type it encodes.",
 "every well-formed concrete type: every kind, any parameter values, any nesting depth and any number of children",
 "Round-trip tests sample about one value per kind and mostly depth one; a field dropped for one kind, or a child encoded at the wrong index, passes unless that exact combination is listed.",
 ["types/types.go","types/precison_timestamp_types.go","types/interval_day_type.go","types/interval_compound_type.go","types/interval_year_month_type.go"],
 [("type encoder, one arm per kind, recursing into components","types/types.go TypeToProto / *ToProto"),("type decoder","types/types.go TypeFromProto")])
p("C02","Type equality is exactly structural equality",
 "Two concrete types compare equal if and only if they are of the same kind, have the same nullability, type-variation reference and parameters, and their component types are pairwise equal in the same order. Hence the comparison is reflexive, symmetric and transitive, never panics, and changes nothing.",
 "every pair (and triple) of well-formed concrete types, including types of different kinds and different component counts",
 "Tests compare a few hand-picked pairs; equality over all pairs of kinds, lengths and parameter values is a relation no finite table settles.",
 ["types/types.go","types/precison_timestamp_types.go","types/interval_day_type.go","types/interval_compound_type.go","types/interval_year_month_type.go"],
 [("per-kind comparison","types/*.go Equals")])
p("C03","Changing a type's nullability changes only nullability, and only in the result",
 "Asking for a concrete type with a given nullability returns a type that has that nullability and agrees with the original in kind, parameters, type-variation reference and component types. The original type, and anything reachable from it, is left exactly as it was.",
 "every well-formed concrete type and every nullability value",
 "Tests check the returned value for some kinds; none checks that the receiver is untouched for every kind, and shared type tables in the library rely on it.",
 ["types/types.go","types/precison_timestamp_types.go","types/interval_day_type.go","types/interval_compound_type.go","types/interval_year_month_type.go"],
 [("copying nullability setter","types/*.go WithNullability / withNullability")])
p("C04","A concrete type matches a parameterized type exactly when the shapes agree",
 "A parameterized type accepts a concrete argument type if and only if the argument is of the same kind, its parameters agree with the literal parameters and are consistent with the symbolic ones, its components match recursively, and (unless nullability is ignored) the nullability agrees. Ignoring nullability accepts everything the strict match accepts; matching never panics and never modifies either side.",
 "every pair of a parameterized type and a concrete type, at any nesting, with and without nullability",
 "Tests list a handful of accept and reject pairs per kind; acceptance is a relation over an unbounded product of types.",
 ["types/any_type.go","types/parameterized_*.go","types/integer_parameters/*.go","types/types.go"],
 [("nullability-strict and nullability-agnostic matchers per parameterized kind","types/parameterized_*.go MatchWith*"),("literal and variable integer parameters","types/integer_parameters")])
p("C05","Return types are derived with the declared nullability rule",
 "Under mirrored nullability the derived return type of a function is nullable exactly when some argument type is nullable, and required otherwise; under declared-output the declared nullability is kept; under discrete, argument nullabilities must match the declaration. Type variables in the return type are replaced by the types and integers bound by the actual arguments, inconsistent bindings are rejected with an error, and no argument type or declared type is modified.",
 "every function signature, nullability rule, and list of actual argument types (including empty lists and variadic tails)",
 "Tests exercise a few functions from the bundled catalogue; the rule must hold for every argument list, position of the nullable argument and number of arguments.",
 ["extensions/variants.go","types/any_type.go","types/types.go","types/parameterized_*.go"],
 [("return type evaluation","extensions/variants.go EvaluateTypeExpression"),("argument matching","extensions/variants.go matchArguments*")])
p("C06","Literals survive the protobuf wire format with value and type",
 "Encoding any well-formed literal to protobuf and decoding it yields a literal equal to the original, with the same value and the same type, including nullability, type-variation reference, precision, scale and length, and recursively for list, map, struct and user-defined values. Decoding never panics on a well-formed message.",
 "every well-formed literal of every kind, any value, any nesting and element count",
 "Tests round-trip a list of sample literals with mostly default nullability and no type variation.",
 ["expr/literals.go","expr/interval_compound_literal.go","expr/interval_year_to_month.go","expr/decimal_util.go"],
 [("literal encoder and decoder","expr/literals.go ToProtoLiteral / LiteralFromProto")])
p("C07","Literal values are converted exactly or rejected",
 "Constructing a literal from numbers, decimal strings, times of day, dates, timestamps and intervals represents exactly the given quantity at the requested precision or scale, or fails with an error when the quantity is out of the type's range; it never wraps around, silently truncates to another quantity, or panics. The constructed literal has the type and nullability asked for.",
 "every numeric argument, precision, scale, sign and boundary value",
 "Overflow and rounding show only at boundaries of 32-bit and 64-bit ranges, at negative values and at specific precisions, which example tables do not cover.",
 ["literal/utils.go","expr/decimal_util.go","expr/literals.go","types/precison_timestamp_types.go"],
 [("checked constructors","literal/utils.go New*"),("decimal encode and decode","expr/decimal_util.go"),("precision conversion","types/precison_timestamp_types.go")])
p("C08","Expressions survive the protobuf wire format",
 "Encoding any well-formed expression (literal, field reference, function call, cast, if-then, switch, in-list, nested value, lambda, parameter) to protobuf and decoding it against the same extension set and base schema yields an expression equal to the original with the same type. Every operand, option, sort field, bound and branch is carried over in order.",
 "every well-formed expression tree of any depth and operand count",
 "Round-trip tests use a few fixed messages; operand order, optional branches and enum fields vary independently.",
 ["expr/expression.go","expr/functions.go","expr/field_reference.go","expr/lambda.go","expr/literals.go"],
 [("expression encoders","expr/*.go ToProto"),("expression decoder","expr/expression.go ExprFromProto")])
p("C09","Expression equality is structural",
 "Two expressions compare equal if and only if they are the same kind of expression, with equal attributes (function, output type, options, phase, invocation, bounds, cast failure behaviour, reference path) and pairwise equal operands in the same order and number. The comparison is reflexive and symmetric, never panics, and changes nothing.",
 "every pair of expressions, including different operand counts, absent optional operands and different kinds",
 "Tests mostly compare an expression with a copy of itself; inequality in each single attribute and in length is unexplored.",
 ["expr/expression.go","expr/functions.go","expr/field_reference.go","expr/lambda.go","expr/literals.go","plan/subquery.go"],
 [("per-kind comparison","expr/*.go Equals")])
p("C10","Expression rewriting replaces every direct child and mutates nothing",
 "Visiting an expression calls the visitor once for each direct operand expression, and the result has each operand replaced by what the visitor returned, in place, with all other attributes unchanged. If the visitor returns every operand unchanged, the very same expression is returned; the original expression and its operand lists are never modified. The root of a field reference is part of its path, not an operand.",
 "every expression with any number of operands, and every visitor function (any subset of operands changed)",
 "Tests visit one or two expression kinds with a visitor that changes nothing or everything; the subset and position of the first changed operand matters.",
 ["expr/expression.go","expr/functions.go","expr/lambda.go","plan/subquery.go"],
 [("copy-on-write visitors","expr/*.go Visit")])
p("C11","Field references resolve to the type of the addressed field or fail",
 "Resolving a field, map-key or list-element reference path against a base schema returns the type of exactly the addressed component, whatever the nesting. A path that leaves the schema (negative or too large index, wrong kind of container) is rejected with an error and never panics, and resolution changes neither the path nor the schema.",
 "every reference path and every base schema",
 "Tests use a few in-range paths; every index value, depth and mismatching container kind must be handled.",
 ["expr/field_reference.go","expr/builder.go","types/types.go"],
 [("type resolution along a path","expr/field_reference.go GetType"),("reference constructors","expr/field_reference.go NewFieldRef*")])
p("C12","An extension set assigns each identity one stable, unique anchor",
 "In an extension set, asking for the anchor of a function, type or type variation always gives the same anchor for the same identity and different anchors for different identities of the same class; looking an anchor up gives back the identity it was assigned to. This holds whatever the order of registrations, and also for sets decoded from a plan whose anchors are sparse or non-consecutive; no existing anchor is ever reassigned.",
 "every sequence of registrations and lookups, starting from an empty set or any decoded set",
 "Tests register a few identities into an empty set; collisions appear only after particular anchor values were already present.",
 ["extensions/extension_mgr.go"],
 [("two-way anchor maps","extensions/extension_mgr.go set")],over=("histories","inputs"),
 state=[("anchor maps","identity to anchor and back, per class","extensions/extension_mgr.go set")])
p("C13","Extension declarations serialize completely and deterministically",
 "Serializing an extension set produces one declaration per registered identity, each tied to the URN of its identity, ordered by class and anchor, and the output is a function of the set alone. Decoding the declarations gives a set with the same anchors and identities, and references to undeclared URNs are rejected with an error.",
 "every extension set: any number of functions, types and type variations, any anchors and URNs",
 "Tests serialize sets with one or two functions; ordering and mixtures of all three classes are not explored, and map iteration order hides errors.",
 ["extensions/extension_mgr.go","plan/plan.go"],
 [("declaration encoder and decoder","extensions/extension_mgr.go ToProto / GetExtensionSet")])
p("C14","Function signature matching is total and respects arity",
 "Matching a list of actual argument types against a function signature accepts exactly the lists whose length fits the signature (fixed part plus a variadic tail within its bounds) and whose every position matches the declared argument, with type variables and symbolic integers standing for one value each; otherwise it answers no or an error. It never panics, whatever the number of actual arguments, including none.",
 "every signature (fixed, variadic with any bounds, empty) and every actual argument list",
 "Tests pass well-sized lists to catalogue functions; lists shorter than the fixed part and boundary variadic counts are not covered.",
 ["extensions/variants.go","extensions/simple_extension.go","functions/registries.go"],
 [("arity and positional matching","extensions/variants.go Match / MatchAt")])
p("C15","Output mappings reorder columns exactly and never touch the input relation",
 "Applying an output mapping to a relation yields a relation whose i-th output column is the mapped column of the current output, so that successive mappings compose. A mapping with an index outside the current output is rejected with an error; the relation it is applied to keeps its own schema and mapping.",
 "every relation kind, every current mapping and every new mapping (repeated, reordered, empty or out-of-range indices), any number of successive mappings",
 "Tests remap a projection or a read once with in-range indices; composition and isolation over every relation kind is untested.",
 ["plan/common.go","plan/relations.go","plan/builders.go"],
 [("mapping composition","plan/relations.go RemapHelper / plan/common.go"),("schema after mapping","plan/relations.go RecordType / remap")],over=("inputs","histories"))
p("C16","Each relation reports the output schema its inputs and kind prescribe",
 "A relation's direct output schema is determined by its kind: filters, sorts and fetches keep the input columns; projections append one column per expression; cross products and inner joins concatenate; outer joins make the columns of the optional side nullable; semi and anti joins keep one side; aggregates give grouping columns then measures; set operations keep the columns of their first input; a hash or merge join has the schema of the logical join of its type. Computing the schema never changes the relation or the schemas of its inputs.",
 "every relation kind, join and set-operation variant, and every input schema",
 "Tests cover inner joins and a few others; each join kind with each nullability pattern, and aliasing between input and output schemas, is not tested.",
 ["plan/relations.go","plan/common.go","types/types.go"],
 [("schema computation per relation","plan/relations.go directOutputSchema / RecordType")])
p("C17","Relations and plans survive the protobuf wire format",
 "Encoding any well-formed relation or plan and decoding it yields a relation or plan with the same structure, expressions, output mapping, hints, root names and output schema, whose encoding is the same message again. Decoding a structurally incomplete message gives an error, not a panic.",
 "every well-formed plan built from any relation kinds nested to any depth",
 "Round-trip tests use a set of golden plans; optional fields and combinations of relation kinds are sampled.",
 ["plan/plan.go","plan/relations.go","plan/common.go","plan/subquery.go"],
 [("relation encoders and decoder","plan/relations.go ToProto, plan/plan.go RelFromProto")])
p("C18","Builders reject inconsistent arguments and accept consistent ones",
 "Building a relation or expression from inconsistent arguments (absent inputs, too few inputs, non-boolean conditions, indices or grouping references out of range, rows of different width or type, negative offsets or counts, mismatching root names or parameter bindings) fails with an error and no panic. Consistent arguments yield a relation with exactly those parts.",
 "every builder operation and every combination of arguments",
 "Tests check one invalid value per operation; off-by-one boundary indices and later rows are not covered.",
 ["plan/builders.go","plan/plan.go","expr/builder.go","expr/functions.go","expr/expression.go"],
 [("argument validation","plan/builders.go"),("parameter binding validation","plan/plan.go")])
p("C19","Rewriting a relation's expressions is complete, and copies are independent",
 "Rewriting the expressions of a relation applies the rewrite to each expression the relation itself carries (an absent filter is offered too, so that the rewrite may supply one; join keys, which are column references of the inputs, and extension definitions are left alone) and gives a relation that differs only in those expressions; if the rewrite changes nothing and the inputs are the same, the same relation is returned, and a rewrite error is returned. The original relation is never modified, and copying with new inputs replaces exactly the inputs.",
 "every relation kind and every rewrite function",
 "Tests rewrite one or two relation kinds with one visitor.",
 ["plan/relations.go","plan/common.go"],
 [("copy and copy-with-rewrite per relation","plan/relations.go Copy / CopyWithExpressionRewrite")])
p("C20","Grouping sets are exactly the requested ones",
 "For an aggregation built with explicit grouping sets, rollup or cube, the grouping sets it reports and encodes are exactly those the definition prescribes (all non-empty prefixes for a rollup, longest first; all non-empty subsets for a cube, each in the given order), each referring to the expressions given. An expression added to the builder again is not stored again, and when groupings of the older encoding, which list expressions, are decoded, equal expressions are stored once. Building does not modify the caller's slices and rejects out-of-range references.",
 "every list of grouping expressions (with repetitions) and every sequence of grouping operations",
 "Tests use two or three distinct columns; repetition, sharing of slices between calls and larger counts are not covered.",
 ["plan/builders.go","plan/relations.go"],
 [("grouping expression store and references","plan/builders.go aggregateRelBuilder")],over=("inputs","histories"))
p("C21","Function registries and dialects translate names consistently",
 "A dialect's local function registry gives for every supported function a local variant whose local name, notation, options and supported kernels are those the dialect declares, and looking a function up by local name and by Substrait name gives consistent results. Types map between local and Substrait names as declared, and lookups never modify the registry.",
 "every dialect definition, function registry and lookup",
 "Tests load two or three dialect files and look up a handful of functions.",
 ["functions/dialect.go","functions/registries.go","functions/local_functions.go","functions/types.go"],
 [("dialect translation tables","functions/dialect.go"),("type name tables","functions/types.go")])
p("C22","Type strings parse back to the type they print",
 "Parsing the textual form of any parameterized or concrete type of the supported grammar yields a type whose textual form is the same text. Malformed text is rejected with an error, not a panic.",
 "every type expression of the grammar",
 "Tests parse a table of examples.",
 ["types/parser/*.go"],
 [("generated ANTLR parser and tree visitor","types/parser")])
p("C23","Shared extension catalogues are safe under concurrent use",
 "Concurrent lookups in a shared extension collection, including the lazily loaded default collection, return the same results as sequential ones and load the catalogue at most once.",
 "every interleaving of concurrent lookups",
 "Tests run lookups on one goroutine.",
 ["extensions/extension_mgr.go"],
 [("once-guarded loading","extensions/extension_mgr.go GetDefaultCollection")],over=("schedules",))
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
