#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source for ids, titles, statements)."""
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=False):
    a={"files":files,"mechanism":mech}
    if state: a["state"]=[{"name":n,"meaning":m} for n,m in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","Plans and relations survive a protobuf round trip unchanged",
"Reading a valid plan or relation from protobuf and writing it back yields a protobuf message equal to the original: every relation kind, relation field, hint, emit mapping, advanced extension, plan root, version, expected type URL and extension declaration the library supports is kept with its value. Writing, reading and writing again is a fixed point for plans made with the builder, too. What cannot be represented is reported as an error and never silently dropped or turned into a different plan.",
["programs"],"all plans over the bounded grammar: every relation kind x every supported field mutated on/off and to distinct values x nesting up to the depth bound",
"Tests pin a few dozen hand written plans; a field dropped for one relation kind, or only when two fields are set together, is not among them.",
["plan/plan.go","plan/relations.go","plan/common.go","plan/builders.go"],["FromProto","RelFromProto","ToProto","RelCommon.fromProtoCommon","RelCommon.toProto"],
[("RelCommon","emit mapping, hint and advanced extension shared by all relations")],"plan.FromProto / Plan.ToProto / plan.RelFromProto / Rel.ToProto")
p("C02","A relation's output schema is the one the Substrait specification gives",
"For every relation kind and every combination of inputs, the reported output record type is the one the specification derives: projections append expression types, joins combine sides with the nullability and columns dictated by the join type, set operations combine column nullability by operation, aggregations list grouping then measure columns (with the grouping-set id when there are several sets), writes report the table schema or, when they ask for no output, none, and the rest pass the input through. The schema is the same whether the relation was built or read back from protobuf, and asking for it never changes the relation or its inputs.",
["programs"],"all relation trees up to the depth bound over small schemas with mixed nullability, every join type and set operation, every grouping-set shape",
"Tests check one schema per relation; join type x nullability x nesting x emit combinations and aliasing of shared type slices are outside the samples.",
["plan/relations.go","types/types.go","plan/builders.go"],["RecordType","directOutputSchema","JoinRecordType","RecordType.Concat"],
[("RelCommon.mapping","emit mapping applied over the direct output schema")],"Rel.RecordType, Rel.Remap")
p("C03","Emit mappings select the chosen columns and never disturb the relation",
"Remapping a relation gives a relation whose column i is the column the mapping names in the previous output, so successive remaps compose; the original relation, and anything derived from it, is unaffected. A mapping that names a column outside the output is rejected with an error, and an accepted mapping is the one written to and read from protobuf.",
["histories","programs"],"all sequences of remap operations up to the depth bound, over every relation kind and all mappings up to a length bound including out-of-range, negative, duplicate and empty ones",
"Tests remap a few relations once; mutation of the original, composition of several remaps and kind-specific range checks need sequences over all kinds.",
["plan/common.go","plan/relations.go","plan/internal/helper.go"],["RemapHelper","RelCommon.setMapping","ChangeMapping","Copy"],
[("mapping","current output mapping of a relation")],"Rel.Remap, Rel.OutputMapping, Rel.RecordType")
p("C04","The plan builder accepts exactly the well-formed relations",
"For every call of a plan-builder operation the arguments are either well formed, and the call returns a relation that has precisely the requested inputs, expressions, and settings, or they are not (missing input or expression, non-boolean condition, wrong column counts or names, unknown join or set operation, unknown function), and the call returns an error. No builder call panics on such arguments, and a plan is only accepted when its root names match the output schema.",
["inputs","programs"],"every builder operation x all combinations of valid/invalid arguments from bounded pools",
"Tests try one bad argument at a time for some operations; combinations and the remaining operations are unchecked.",
["plan/builders.go","plan/relations.go","plan/plan.go"],["builder.*","NewAggregateRelBuilder","Plan"],None,"plan.Builder methods")
p("C05","Expression rewriting visits every child and leaves the original intact",
"Visiting an expression calls the visitor exactly once for each direct child expression (the root of a field reference is part of the reference unless it is an expression of its own); an identity visitor returns an equal expression, and a visitor that replaces a child gives a new expression equal to the old one with exactly that child replaced. Rewriting a relation applies the rewrite to every expression and input the relation holds, and keeps everything else. The original expression or relation is unchanged by any rewrite.",
["programs"],"all expression and relation shapes up to the depth bound, every child position replaced in turn, optional children present and absent",
"Tests rewrite a handful of shapes; a skipped child position or aliasing of a shared child slice shows only for a given kind, position and optionality.",
["expr/expression.go","expr/functions.go","expr/field_reference.go","expr/lambda.go","plan/relations.go"],["Expression.Visit","CopyWithExpressionRewrite","Copy"],None,"Expression.Visit, Rel.CopyWithExpressionRewrite, Rel.Copy")
p("C06","Expressions survive a protobuf round trip with the same meaning",
"Converting any valid expression to protobuf and back gives an equal expression with the same type, and converting it again gives an equal protobuf message; the same holds starting from protobuf. This covers every expression kind, function option, sort order, window bound, failure behaviour, reference segment and mask.",
["programs"],"all expressions of the bounded grammar over every kind, with every optional part on and off",
"Tests round-trip about a hundred fixed expressions; combinations of optional parts and nested kinds are not covered.",
["expr/expression.go","expr/functions.go","expr/field_reference.go","expr/lambda.go","plan/subquery.go"],["ExprFromProto","ToProto"],None,"expr.ExprFromProto, Expression.ToProto")
p("C07","Expression equality is an equivalence that agrees with the serialized form",
"Equality of expressions is reflexive, symmetric and transitive, never panics, and holds exactly when the two expressions have the same protobuf form (a relation inside a subquery counts as the same only when it is the same relation object). In particular two expressions that differ in any part the protobuf records are unequal.",
["inputs"],"all ordered pairs (and triples through the canonical form) from the bounded universe of expressions",
"Tests compare a few pairs; quadratic pair space, prefix/longer argument lists and optional parts are beyond sampling.",
["expr/expression.go","expr/functions.go","expr/literals.go","expr/field_reference.go","expr/lambda.go"],["Equals"],None,"Expression.Equals")
p("C08","Literals keep value, type, nullability and variation",
"Every literal of every literal kind, for all boundary values, nullability settings, type variations and type parameters, is written to protobuf and read back as a literal with the same value, type, nullability and variation, including nested lists, maps, structs and user-defined values. A literal constructed from a Go value reports the value and type it was constructed with, and malformed literal messages are rejected with an error and never a panic.",
["inputs"],"all literal kinds x boundary value tables x nullability x variation x nesting to the depth bound",
"Tests cover one or two values per kind, seldom with variation or nullability set.",
["expr/literals.go","expr/interval_compound_literal.go","expr/interval_year_to_month.go","literal/utils.go"],["LiteralFromProto","ToProtoLiteral","NewLiteral"],None,"expr.LiteralFromProto, Literal.ToProtoLiteral")
p("C09","Types survive protobuf and behave as immutable values",
"Every type converts to protobuf and back to an equal type, with parameters, nullability, variation and nesting kept, and two types are equal exactly when their protobuf forms are equal. Deriving a type with another nullability or parameter returns that type and leaves the original unchanged.",
["inputs","histories"],"all types of the bounded type grammar, all ordered pairs for equality, all nullability/parameter derivations on each",
"Tests enumerate simple types; pairwise equality, variation, nested nullability and mutation of the receiver are not compared.",
["types/types.go","types/interval_day_type.go","types/interval_compound_type.go","types/precison_timestamp_types.go","types/interval_year_month_type.go","types/any_type.go"],["TypeFromProto","TypeToProto","Equals","WithNullability","WithPrecision"],None,"types.TypeFromProto, TypeToProto, Equals, WithNullability")
p("C10","Type text parses to what it prints and malformed text is rejected",
"Printing a type (concrete, parameterized, or a return-type program) and parsing the text gives back the same type, with nullability, parameters and nesting kept, irrespective of letter case and of white space. Text that is not in the type grammar gives an error, never a different type or a panic.",
["inputs"],"all types of the bounded type grammar printed and parsed; all token strings up to a length bound over the grammar's alphabet",
"Tests list valid spellings; the space of token strings, in particular the invalid ones, is not sampled at all.",
["types/parser/parse.go","types/parser/visitor.go","types/types.go","types/parameterized_*.go"],["ParseType","VisitX","String"],None,"parser.ParseType, String()")
p("C11","A function signature matches exactly the argument lists the spec allows",
"A function variant matches an argument list if and only if each argument's type conforms to the declared type at that position, the same type placeholder and the same parameter name stand for the same type and value throughout, nullability obeys the variant's nullability rule, and the number and consistency of arguments obey its variadic rule. Matching a single position agrees with matching the full list, and matching never changes the signature or the arguments.",
["inputs","configurations"],"all signatures from a bounded pool (nullability rule x variadic rule x parameter types) x all argument lists up to a length bound over a type universe, compared with a reference matcher",
"Tests try dozens of argument lists; interplay of nullability, variadic bounds, placeholders and synced parameters is combinatorial.",
["extensions/variants.go","types/any_type.go","types/parameterized_*.go"],["matchArguments","MatchWithNullability","MatchWithoutNullability","HasSyncParams","matchArgumentAt"],None,"ScalarFunctionVariant.Match / MatchAt")
p("C12","Function return types follow the signature, nullability rule and arguments",
"Resolving a function's return type for matching arguments gives the declared type with every type placeholder and parameter replaced by what the arguments bind it to, and nullability set by the variant's rule: mirror is nullable exactly when some argument is, declared output and discrete follow the declaration. Arguments that do not match are rejected with an error, and resolution does not change the signature or arguments.",
["inputs","configurations"],"signature pool x argument lists as for matching, and every function variant of the bundled extension files x argument nullability patterns, compared with a reference resolver",
"Tests look at a few functions; nullability patterns x variadic x nested placeholders are not sampled.",
["extensions/variants.go","types/any_type.go","types/type_derivation.go"],["EvaluateTypeExpression","ResolveType","ReturnType","setReturnTypeNullability"],None,"FunctionVariant.ResolveType")
p("C13","Return-type programs compute what their expression text says",
"Evaluating a return-type program (assignments over integer parameters with arithmetic, comparisons, boolean connectives, min/max/abs and conditionals, ending in a type) gives the type whose parameters are the values that ordinary integer evaluation of the text gives, grouping operators as the grammar does (all binary operators rank equally, left to right, unless parenthesized) and respecting assignment order. Undefined names, division by zero and ill-typed operands are reported as errors, never as a panic or a wrong type.",
["programs"],"all programs of the bounded expression grammar x parameter valuations, compared with a reference interpreter over the generated syntax tree",
"Tests run the decimal formulas for a few inputs; operator pairs, precedence and error cases are not covered.",
["types/type_derivation.go","types/parser/visitor.go","grammar/SubstraitType.g4"],["OutputDerivation.Evaluate","BinaryExpr","IfExpr","FunctionCallExpr"],None,"parser.ParseType(...).ReturnType / FunctionVariant.ResolveType")
p("C14","Extension anchors are unique, stable and resolvable in both directions",
"In an extension set every registered function, type and variation has one anchor, asking again gives the same anchor, different entries have different anchors, and each anchor decodes to the entry it was given for; this also holds for sets read from plans with arbitrary, sparse anchors and extended afterwards. Writing the set to protobuf lists each declaration exactly once in a deterministic order with URN references that resolve, and reading that gives an equivalent set; conflicting or dangling declarations give an error.",
["histories"],"all operation sequences up to the depth bound over small pools of ids, from empty and from every sparse declaration set of the pool",
"Tests do single short sequences from an empty set; collisions after reading sparse anchors need specific histories.",
["extensions/extension_mgr.go"],["set.GetFuncAnchor","GetTypeAnchor","GetTypeVariationAnchor","GetExtensionSet","ToProto"],
[("anchor maps","anchor<->id for types, functions, variations and URNs")],"extensions.Set")
p("C15","Loading extension files makes exactly their declarations resolvable",
"After any sequence of loads the collection resolves precisely the functions, types and variations declared by the successfully loaded documents, by full signature and, where only one implementation of any kind has that name, by simple name; window functions include the aggregate functions as specified. A failed load (malformed text, duplicate URN, bad declaration) reports an error and leaves every lookup as it was.",
["histories"],"all load sequences up to the depth bound over a pool of documents (valid, duplicate, overlapping names, dependent, malformed)",
"Tests load files once and look names up; atomicity and name ambiguity need sequences.",
["extensions/extension_mgr.go","extensions/simple_extension.go","extensions/validation.go"],["Collection.Load","addToMaps","GetScalarFunc","GetDefaultCollection"],
[("scalarMap/aggregateMap/windowMap/typeMap/simpleNames","lookup tables")],"extensions.Collection")
p("C16","Dialects expose exactly their functions and translate names both ways",
"A function registry built from a dialect offers exactly the functions, kernels, and local names the dialect declares: a Substrait invocation maps to the declared local name and back, options and variadic limits are those declared, and lookups by name and argument count return precisely the matching variants. A variadic function may be found under the number of its declared parameters, too. A dialect that refers to unknown dependencies, functions, kernels or types is rejected with an error, and the outcome does not depend on iteration order or on previous lookups.",
["configurations","histories"],"all dialect documents from a bounded grammar (functions x kernels x local names x kinds) over a small collection; all lookups over the pool; repeated construction over map orders",
"Tests use one dialect file; name collisions between local and Substrait names and kinds depend on configuration and map order.",
["functions/dialect.go","functions/registries.go","functions/local_functions.go"],["LoadDialect","LocalizeFunctionRegistry","getLocalFunctionVariants","Get*FunctionByInvocation"],None,"functions.Dialect, LocalFunctionRegistry")
p("C17","Dialect types translate to engine names and back without loss",
"For every type a dialect supports, translating it to the engine's spelling and parsing that spelling gives back the same type with its parameters (nullability and variation are not part of an engine spelling), and unsupported types or spellings are rejected with an error. A spelling that several types share stands for one of them, always the same.",
["configurations","inputs"],"all supported type sets of the pool x all types of the type universe x all spellings built from the names, parameters and nullability marks",
"Tests translate a list of types for one dialect; parameterized types and aliases are thinly covered.",
["functions/types.go","functions/dialect.go"],["GetTypeFromLocalType","GetLocalTypeFromSubstraitType","GetTypeRegistry"],None,"functions.LocalTypeRegistry")
p("C18","Decimal text and the 16-byte encoding are exact inverses",
"A decimal text within 38 digits encodes to the 16-byte little-endian two's complement of its unscaled value with the precision and scale of the text, and decoding with that scale prints the same number; every 16-byte value within 38 digits decodes and re-encodes to itself. Too many digits, precision or scale out of range, or malformed text gives an error, and changing scale or precision never alters the numeric value except by an error.",
["inputs"],"all decimal texts over a digit alphabet up to a length bound plus boundary values around every power of ten and byte boundary, all (precision, scale) pairs, against big-integer arithmetic",
"Tests sample some strings; sign, byte-boundary and scale interactions need systematic enumeration.",
["expr/decimal_util.go","literal/utils.go","expr/literals.go"],["decimalStringToBytes","decimalBytesToString","modifyDecimalPrecisionAndScale","NewDecimalFromString"],None,"literal.NewDecimalFromString, NewDecimalFromApdDecimal, Literal.ValueString")
p("C19","Date, time, timestamp and interval literals denote the given instant",
"A temporal literal built from text or a Go time value holds exactly the denoted number of days, months, seconds and sub-second units at its precision, for negative and extreme values as well, and printing it denotes the same instant or interval. Text that is malformed or out of range is rejected with an error; digits finer than the precision are cut off.",
["inputs"],"all field combinations over boundary tables for each text form and every precision 0-9, plus all single-token corruptions, against integer calendar arithmetic",
"Tests sample a few dates around 1970 and now; negative, sub-second and overflow combinations are not covered.",
["literal/utils.go","types/precison_timestamp_types.go","types/types.go","expr/literals.go"],["parseIntervalYearsToMonth","parseIntervalDaysToSecond","GetTimeValueByPrecision","NewDateFromString","NewTimestampFromString"],None,"literal.New*FromString, types.*")
p("C20","Aggregation builders produce exactly the requested grouping sets",
"An aggregation builder yields a relation whose grouping sets are those the calls denote: a grouping set adds one set, a cube every non-empty subset once, a rollup every non-empty prefix once, with expressions and references pointing at the grouping expressions given, in a deterministic order; measures and filters are those added. Builders are independent: using one, or one derived from a relation, never alters another builder or an already built relation, and grouping sets survive protobuf round trips including the older embedded form.",
["histories"],"all builder operation sequences up to the depth bound over a pool of grouping references, including re-use of caller slices and derived builders",
"Tests make one builder and one rollup or cube; aliasing between built relations and order effects need call histories.",
["plan/builders.go","plan/relations.go"],["AggregateRelBuilder","AddCube","AddRollup","AddGroupingSet","ToBuilder"],
[("builder state","grouping expressions, sets, measures")],"plan.AggregateRelBuilder, AggregateRel")
p("C21","Field and lambda references have the type of what they point at",
"A field reference whose root is known - relation row, expression, or the parameters of an enclosing lambda made with the builder - has the type obtained by walking its segments from that root; references to an enclosing query keep their distance and segments, and a mask keeps precisely the selected parts in order. A reference that points outside its root or through an incompatible type, or at a lambda that does not enclose it, is rejected with an error.",
["programs","inputs"],"all reference segment chains up to the depth bound x all root types of the type universe x lambda nestings x distances, against a reference walker",
"Tests resolve short references; segment chains through nested types and nested scopes are combinatorial.",
["expr/field_reference.go","expr/lambda.go","expr/builder.go","expr/expression.go"],["GetType","FieldReferenceFromProto","NewFieldRef","Lambda"],None,"expr.NewFieldRef, FieldReferenceFromProto, Expression.GetType")
p("C22","Dynamic parameters are checked wherever they occur in a plan",
"The bindings of a plan validate exactly when each is for a parameter that occurs somewhere in it - in any relation, expression or subquery - and has the type, nullability aside, of every occurrence; otherwise there is an error. Parameters may stay unbound. Bindings survive the protobuf round trip.",
["programs","configurations"],"all placements of parameters over every expression slot of every relation kind up to the depth bound x all binding lists up to a length bound",
"Tests place parameters in a projection or filter only.",
["plan/plan.go","plan/common.go","expr/expression.go"],["ValidateParameterBindings","walkRelExprs","DynamicParameter"],None,"Plan.ValidateParameterBindings / builder PlanWithParameterBindings")
p("C23","Function test files parse to the cases they state",
"Parsing a function test file yields, in order, each test case with the function, arguments, argument types, options and result the line states, under its group; printing a parsed case and parsing it again gives the same case. The value of a string is the text between its quotes as it stands. A malformed line gives an error, never a panic or a partial result without error.",
["inputs"],"all case lines from a bounded grammar (argument kinds x values x options x results x shapes), printed and parsed; all single-token corruptions of a corpus",
"Tests parse some dozens of lines and the bundled files.",
["testcases/parser/parse.go","testcases/parser/visitor.go","testcases/parser/nodes.go"],["ParseTestCasesFromString","TestCase.String"],None,"parser.ParseTestCasesFromString")
p("C24","Shared collections, registries and types are safe to share",
"Operations of independent users on a shared extension collection, function registry, dialect or type - lookups, plan building, type resolution, plan reading - give each user the same results as when run alone, in every order and interleaving, including concurrently. No such operation changes shared objects, and the process-wide default collection stays usable by all.",
["schedules","histories"],"all interleavings of operation scripts of 2-3 clients over shared objects, all orderings of read operations with deep snapshots between, plus concurrent runs of every operation pair under the race detector",
"Tests run one client at a time.",
["extensions/extension_mgr.go","extensions/variants.go","functions/registries.go","functions/dialect.go","types/types.go"],["GetDefaultCollectionWithNoError","ResolveType","WithNullability","LocalizeTypeRegistry"],None,"extensions.Collection, functions.FunctionRegistry")
p("C25","Function expressions carry the resolved signature, anchors and arguments",
"A scalar, aggregate or window function expression is accepted exactly when the named function exists, its arguments match and, for a window function that cannot be decomposed, its phase is initial-to-result; a custom one when it has an output type; and then its type is the resolved return type, its arguments, options, sorts, bounds, phase and invocation are those given, and its reference resolves through the extension set to that function. A mismatch or missing function is an error that leaves the extension set usable, and never a panic.",
["inputs","histories"],"all (function id, argument list) pairs over a bounded pool for each function kind with all optional settings on/off, by constructor and by builder",
"Tests build a few functions; the mapping from arguments (types, enums, literals) to signatures is combinatorial.",
["expr/functions.go","expr/builder.go","extensions/variants.go"],["NewScalarFunc","NewAggregateFunc","NewWindowFunc","NewCustom*","resolveVariant"],None,"expr.New*Func, expr.ExprBuilder")
p("C26","Subqueries and set predicates keep their relation and report their type",
"A scalar subquery has the type of the single column of its relation, IN, EXISTS/UNIQUE and quantified-comparison predicates are boolean, and each keeps its needles, relation, operation and comparison through protobuf, rewriting and equality. Malformed subqueries (missing relation or operand, a scalar subquery with other than one column, unspecified operations) are rejected with an error.",
["programs"],"all subquery kinds x operations x needle lists x nested relations x invalid parts",
"Tests build one of each.",
["plan/subquery.go","expr/expression.go"],["ScalarSubquery","InPredicateSubquery","SetPredicateSubquery","SetComparisonSubquery","SubqueryFromProto"],None,"plan.New*Subquery, expr.ExprFromProto")
p("C27","Malformed input messages give errors, never crashes",
"Reading any protobuf message that decoding bytes can give for a plan, relation, expression, literal or type in which some part is missing, unset or out of range returns an error or a well-defined value and never panics; a result that is returned without error can be printed, asked for its type or schema, and written again without a panic.",
["inputs"],"every base message of the corpora with every field (recursively) cleared, every enum and integer set to out-of-range values, one and two at a time",
"Tests check a few hand-picked malformed messages.",
["plan/plan.go","plan/relations.go","expr/expression.go","expr/literals.go","types/types.go"],["FromProto","RelFromProto","ExprFromProto","LiteralFromProto","TypeFromProto"],None,"FromProto entry points")
p("C28","Expression constructors and builders build exactly what was asked for",
"An expression made by a constructor (if-then, switch, list, field reference, expression and measure reference) or through ExprBuilder (literals, wrapped expressions, enums, references, lambdas and their parameters, casts, scalar, aggregate and window functions) writes exactly the requested protobuf message and has the type the parts give it, however often Build is called, in whatever order the setters are called (the last one counts), and whatever else is built with the same builder. A request that is incomplete or inconsistent (missing parts, branches of differing types, references to fields or lambda parameters that do not exist, an error inside a wrapped part) gives an error and no expression.",
["inputs","histories"],"all constructor requests over a pool of valid, missing and mistyped parts; all builder terms of bounded depth, alone and in pairs on one builder; all histories of setter and build calls",
"Tests build a few expressions once; the combinations of nested builders, repeated builds, setter orders and invalid parts are unbounded.",
["expr/builder.go","expr/expression.go","expr/field_reference.go","expr/lambda.go"],["ExprBuilder","NewIfThen","NewSwitch","NewCast","NewListExpr","NewFieldRef","NewExpressionReference"],None,"expr.ExprBuilder, expr.New*")
p("C29","Accessors answer with the parts of the message and setters change only what they name",
"Every accessor of a plan, root, relation, expression, function, mask or reference answers with the corresponding part of the protobuf message it writes (inputs, names, schemas, keys, filters, sorts, measures, arguments, options, phases, bounds, declared function attributes, ...), an absent filter is the literal true, and an expression is scalar exactly when no window function or lambda is part of it. What is documented as a clone can be changed without changing the object. A setter (advanced extension, projection, input, measures, grouping, function argument, expression or measure of a reference) changes exactly the part it names, returns the previous value where it returns one, and leaves every copy, remapped copy and clone made before as it was.",
["inputs","histories"],"all accessors of all relations, plans and expressions of the corpora; all sequences of up to 3-4 setter calls on every relation kind beside its copies",
"Tests read a few attributes back from a few objects; a swapped, defaulted or shared part shows only on the kind, attribute and history concerned.",
["plan/relations.go","plan/plan.go","plan/common.go","expr/functions.go","expr/field_reference.go","expr/expression.go"],["Left","Right","Filter","SetAdvancedExtension","SetProjection","Clone","SetArg","IsScalar"],None,"plan.Rel and expr.Expression accessors")
p("C30","Signature types and function variants answer truthfully about themselves",
"A declared argument type names exactly its integer parameters (HasParameterizedParam, GetParameterizedParams, HasSyncParams: true exactly when two arguments share a parameter name) and the user defined types in it; SetNullability changes its nullability and nothing else; filled in with parameters it becomes the concrete type with those parameters and its own nullability, or an error, and a type that matches it, taken apart and filled in again, is that type; a derivation answers like its final type. Enumerations and the value-type intervals compare, print and serialize by their parts. A function variant made from a name and properties reports exactly these, and a declaration gives the same variants by GetVariants, by ResolveURN and through a collection.",
["inputs"],"all declared argument types up to nesting depth 2-3 over a basis x nullabilities x parameter lists x concrete types; all on-the-fly variants over names x properties; all functions of the standard files",
"Tests look at a few templates of each kind; the defects hide in particular mixes of numbers and variables, nestings, nullabilities and kinds of function.",
["types/parameterized_decimal_type.go","types/parameterized_single_integer_param_type.go","types/type_derivation.go","types/types.go","types/interval_year_month_type.go","extensions/variants.go","extensions/simple_extension.go"],["WithParameters","GetParameterizedParams","SetNullability","HasSyncParams","ResolveURN","NewAggFuncVariantOpts","EnumType"],None,"types.FuncDefArgType, extensions.FunctionVariant")
p("C31","Extension files written out declare the same again",
"An extension file that was read (or built) as a SimpleExtensionFile and written as YAML, through a pointer or as a value, loads again and declares exactly what it declared: URN, dependencies, metadata, types with structure, parameters and metadata, type variations, and every implementation of every function with its arguments, options, variadic behaviour, determinism, session dependence, nullability, return and intermediate types, decomposability and window type. Writing what was read again gives the same text.",
["inputs"],"all documents of the loading universe (kinds x arguments x attributes two at a time x entry lists), types and variations with every attribute, and all shipped files",
"The one test that writes a file compares a single scalar file; what gets lost depends on the kind of function and on attributes that differ from their defaults.",
["extensions/simple_extension.go","types/parser/parse.go"],["MarshalYAML","UnmarshalYAML","SimpleExtensionFile","Deterministic","Intermediate"],None,"extensions.SimpleExtensionFile with yaml.Marshal / Unmarshal")
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
