// Shared generator: the bounded grammar of expression messages, the schema they
// are read against, and a reference semantics for their shape (children in slot
// order) and their type, both written from the Substrait specification.
package main

import (
	"fmt"
	"sync"

	"github.com/substrait-io/substrait-go/v8/expr"
	"github.com/substrait-io/substrait-go/v8/extensions"
	"github.com/substrait-io/substrait-go/v8/plan"
	"github.com/substrait-io/substrait-go/v8/types"
	pb "github.com/substrait-io/substrait-protobuf/go/substraitpb"
	ext "github.com/substrait-io/substrait-protobuf/go/substraitpb/extensions"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/anypb"
)

const (
	urnArith  = "extension:io.substrait:functions_arithmetic"
	urnCustom = "extension:io.substrait:functions_boolean"
)

// anchors of the functions every generated message may refer to
const (
	fnAdd    = 11 // scalar, known
	fnSum    = 12 // aggregate, known
	fnRowNum = 13 // window, known
	fnFoo    = 14 // scalar, not in any loaded file
	fnBar    = 15 // aggregate, not in any loaded file
	fnBaz    = 16 // window, not in any loaded file
	fnCmp    = 17 // comparison function of a sort
)

var fnNames = map[uint32][2]string{
	fnAdd: {urnArith, "add:i32_i32"}, fnSum: {urnArith, "sum:i32"}, fnRowNum: {urnArith, "row_number:"},
	fnFoo: {urnCustom, "foo:i32_i32"}, fnBar: {urnCustom, "bar:i32"}, fnBaz: {urnCustom, "baz:i32"}, fnCmp: {urnCustom, "cmp:i32_i32"},
}

type urnHolder struct {
	urns []*ext.SimpleExtensionURN
	decl []*ext.SimpleExtensionDeclaration
}

func (u *urnHolder) GetExtensionUrns() []*ext.SimpleExtensionURN      { return u.urns }
func (u *urnHolder) GetExtensions() []*ext.SimpleExtensionDeclaration { return u.decl }
func fnDecl(anchor, urn uint32, name string) *ext.SimpleExtensionDeclaration {
	return &ext.SimpleExtensionDeclaration{MappingType: &ext.SimpleExtensionDeclaration_ExtensionFunction_{
		ExtensionFunction: &ext.SimpleExtensionDeclaration_ExtensionFunction{ExtensionUrnReference: urn, FunctionAnchor: anchor, Name: name}}}
}

func stdDecls() *urnHolder {
	h := &urnHolder{urns: []*ext.SimpleExtensionURN{
		{ExtensionUrnAnchor: 3, Urn: urnArith}, {ExtensionUrnAnchor: 5, Urn: urnCustom}}}
	for a := uint32(fnAdd); a <= fnCmp; a++ {
		u := uint32(3)
		if fnNames[a][0] == urnCustom {
			u = 5
		}
		h.decl = append(h.decl, fnDecl(a, u, fnNames[a][1]))
	}
	return h
}

var defColl = sync.OnceValue(func() *extensions.Collection { return extensions.GetDefaultCollectionWithNoError() })

// stdReg is a fresh registry with the standard declarations.
func stdReg() expr.ExtensionRegistry {
	set, err := extensions.GetExtensionSet(stdDecls(), defColl())
	if err != nil {
		panic(err)
	}
	reg := expr.NewExtensionRegistry(set, defColl())
	reg.SetSubqueryConverter(&plan.ExpressionConverter{ExtensionRegistry: reg})
	return reg
}

// pb type helpers
func tI32(n pb.Type_Nullability) *pb.Type { return leafT("i32", n, 0) }
func leafT(name string, n pb.Type_Nullability, v uint32) *pb.Type {
	for _, m := range leafMakersOnce() {
		if m.name == name {
			return m.mk(n, v)
		}
	}
	panic(name)
}

var leafMakersOnce = sync.OnceValue(leafMakers)

// baseCols is the schema of the row that root references point into.
func baseCols() []*pb.Type {
	return []*pb.Type{
		leafT("i32", nReq, 0),
		leafT("string", nNul, 0),
		pbStruct(nReq, 0, leafT("i64", nNul, 0), pbList(nReq, 0, leafT("string", nReq, 0)), pbStruct(nNul, 0, leafT("date", nReq, 0))),
		pbList(nNul, 0, leafT("i32", nNul, 0)),
		pbMap(nReq, 0, leafT("string", nReq, 0), pbStruct(nReq, 0, leafT("fp64", nReq, 0))),
		leafT("boolean", nReq, 0),
		leafT("decimal<10,2>", nNul, 0),
		leafT("i32", nReq, 7),
	}
}

func recordOf(cols []*pb.Type) *types.RecordType {
	ts := make([]types.Type, len(cols))
	for i, c := range cols {
		ts[i] = types.TypeFromProto(c)
	}
	return types.NewRecordTypeFromTypes(ts)
}

// ---- small constructors ----
func xLit(l *pb.Expression_Literal) *pb.Expression {
	return &pb.Expression{RexType: &pb.Expression_Literal_{Literal: l}}
}
func lI32(v int32) *pb.Expression_Literal {
	return &pb.Expression_Literal{LiteralType: &pb.Expression_Literal_I32{I32: v}}
}
func lI64(v int64) *pb.Expression_Literal {
	return &pb.Expression_Literal{LiteralType: &pb.Expression_Literal_I64{I64: v}}
}
func lStr(v string) *pb.Expression_Literal {
	return &pb.Expression_Literal{LiteralType: &pb.Expression_Literal_String_{String_: v}}
}
func lBool(v bool) *pb.Expression_Literal {
	return &pb.Expression_Literal{LiteralType: &pb.Expression_Literal_Boolean{Boolean: v}}
}
func lNull(t *pb.Type) *pb.Expression_Literal {
	return &pb.Expression_Literal{LiteralType: &pb.Expression_Literal_Null{Null: t}, Nullable: true}
}

func segField(f int32, child *pb.Expression_ReferenceSegment) *pb.Expression_ReferenceSegment {
	return &pb.Expression_ReferenceSegment{ReferenceType: &pb.Expression_ReferenceSegment_StructField_{
		StructField: &pb.Expression_ReferenceSegment_StructField{Field: f, Child: child}}}
}
func segElem(o int32, child *pb.Expression_ReferenceSegment) *pb.Expression_ReferenceSegment {
	return &pb.Expression_ReferenceSegment{ReferenceType: &pb.Expression_ReferenceSegment_ListElement_{
		ListElement: &pb.Expression_ReferenceSegment_ListElement{Offset: o, Child: child}}}
}
func segKey(k *pb.Expression_Literal, child *pb.Expression_ReferenceSegment) *pb.Expression_ReferenceSegment {
	return &pb.Expression_ReferenceSegment{ReferenceType: &pb.Expression_ReferenceSegment_MapKey_{
		MapKey: &pb.Expression_ReferenceSegment_MapKey{MapKey: k, Child: child}}}
}

func xSel(f *pb.Expression_FieldReference) *pb.Expression {
	return &pb.Expression{RexType: &pb.Expression_Selection{Selection: f}}
}
func xRef(s *pb.Expression_ReferenceSegment) *pb.Expression {
	return xSel(&pb.Expression_FieldReference{
		ReferenceType: &pb.Expression_FieldReference_DirectReference{DirectReference: s},
		RootType:      &pb.Expression_FieldReference_RootReference_{RootReference: &pb.Expression_FieldReference_RootReference{}}})
}
func xCol(i int32) *pb.Expression { return xRef(segField(i, nil)) }
func xOuter(steps uint32, s *pb.Expression_ReferenceSegment) *pb.Expression {
	return xSel(&pb.Expression_FieldReference{
		ReferenceType: &pb.Expression_FieldReference_DirectReference{DirectReference: s},
		RootType:      &pb.Expression_FieldReference_OuterReference_{OuterReference: &pb.Expression_FieldReference_OuterReference{StepsOut: steps}}})
}
func xLambdaRef(steps uint32, s *pb.Expression_ReferenceSegment) *pb.Expression {
	return xSel(&pb.Expression_FieldReference{
		ReferenceType: &pb.Expression_FieldReference_DirectReference{DirectReference: s},
		RootType:      &pb.Expression_FieldReference_LambdaParameterReference_{LambdaParameterReference: &pb.Expression_FieldReference_LambdaParameterReference{StepsOut: steps}}})
}
func xExprRef(e *pb.Expression, s *pb.Expression_ReferenceSegment) *pb.Expression {
	return xSel(&pb.Expression_FieldReference{
		ReferenceType: &pb.Expression_FieldReference_DirectReference{DirectReference: s},
		RootType:      &pb.Expression_FieldReference_Expression{Expression: e}})
}
func xMask(m *pb.Expression_MaskExpression) *pb.Expression {
	return xSel(&pb.Expression_FieldReference{
		ReferenceType: &pb.Expression_FieldReference_MaskedReference{MaskedReference: m},
		RootType:      &pb.Expression_FieldReference_RootReference_{RootReference: &pb.Expression_FieldReference_RootReference{}}})
}
func argV(e *pb.Expression) *pb.FunctionArgument {
	return &pb.FunctionArgument{ArgType: &pb.FunctionArgument_Value{Value: e}}
}
func argT(t *pb.Type) *pb.FunctionArgument {
	return &pb.FunctionArgument{ArgType: &pb.FunctionArgument_Type{Type: t}}
}
func argE(s string) *pb.FunctionArgument {
	return &pb.FunctionArgument{ArgType: &pb.FunctionArgument_Enum{Enum: s}}
}
func argsV(es []*pb.Expression) []*pb.FunctionArgument {
	var r []*pb.FunctionArgument
	for _, e := range es {
		r = append(r, argV(e))
	}
	return r
}
func xScalar(ref uint32, out *pb.Type, opts []*pb.FunctionOption, args ...*pb.FunctionArgument) *pb.Expression {
	return &pb.Expression{RexType: &pb.Expression_ScalarFunction_{ScalarFunction: &pb.Expression_ScalarFunction{
		FunctionReference: ref, OutputType: out, Options: opts, Arguments: args}}}
}
func xCast(e *pb.Expression, t *pb.Type, b pb.Expression_Cast_FailureBehavior) *pb.Expression {
	return &pb.Expression{RexType: &pb.Expression_Cast_{Cast: &pb.Expression_Cast{Input: e, Type: t, FailureBehavior: b}}}
}
func xNested(nul bool, v uint32, n *pb.Expression_Nested) *pb.Expression {
	n.Nullable, n.TypeVariationReference = nul, v
	return &pb.Expression{RexType: &pb.Expression_Nested_{Nested: n}}
}
func xNestList(nul bool, v uint32, k ...*pb.Expression) *pb.Expression {
	return xNested(nul, v, &pb.Expression_Nested{NestedType: &pb.Expression_Nested_List_{List: &pb.Expression_Nested_List{Values: k}}})
}
func xNestStruct(nul bool, v uint32, k ...*pb.Expression) *pb.Expression {
	return xNested(nul, v, &pb.Expression_Nested{NestedType: &pb.Expression_Nested_Struct_{Struct: &pb.Expression_Nested_Struct{Fields: k}}})
}
func xNestMap(nul bool, v uint32, k ...*pb.Expression) *pb.Expression {
	m := &pb.Expression_Nested_Map{}
	for i := 0; i+1 < len(k); i += 2 {
		m.KeyValues = append(m.KeyValues, &pb.Expression_Nested_Map_KeyValue{Key: k[i], Value: k[i+1]})
	}
	return xNested(nul, v, &pb.Expression_Nested{NestedType: &pb.Expression_Nested_Map_{Map: m}})
}
func xDyn(t *pb.Type, ref uint32) *pb.Expression {
	return &pb.Expression{RexType: &pb.Expression_DynamicParameter{DynamicParameter: &pb.DynamicParameter{Type: t, ParameterReference: ref}}}
}
func xLambda(body *pb.Expression, v uint32, ps ...*pb.Type) *pb.Expression {
	return &pb.Expression{RexType: &pb.Expression_Lambda_{Lambda: &pb.Expression_Lambda{
		Parameters: &pb.Type_Struct{Types: ps, Nullability: nReq, TypeVariationReference: v}, Body: body}}}
}
func xIf(k ...*pb.Expression) *pb.Expression {
	f := &pb.Expression_IfThen{Else: k[len(k)-1]}
	for i := 0; i+2 < len(k); i += 2 {
		f.Ifs = append(f.Ifs, &pb.Expression_IfThen_IfClause{If: k[i], Then: k[i+1]})
	}
	return &pb.Expression{RexType: &pb.Expression_IfThen_{IfThen: f}}
}
func xSwitch(match, els *pb.Expression, lits []*pb.Expression_Literal, thens ...*pb.Expression) *pb.Expression {
	f := &pb.Expression_SwitchExpression{Match: match, Else: els}
	for i, t := range thens {
		f.Ifs = append(f.Ifs, &pb.Expression_SwitchExpression_IfValue{If: lits[i], Then: t})
	}
	return &pb.Expression{RexType: &pb.Expression_SwitchExpression_{SwitchExpression: f}}
}
func xOr(v *pb.Expression, opts ...*pb.Expression) *pb.Expression {
	return &pb.Expression{RexType: &pb.Expression_SingularOrList_{SingularOrList: &pb.Expression_SingularOrList{Value: v, Options: opts}}}
}
func xMultiOr(w int, k ...*pb.Expression) *pb.Expression {
	f := &pb.Expression_MultiOrList{Value: k[:w]}
	for i := w; i+w <= len(k); i += w {
		f.Options = append(f.Options, &pb.Expression_MultiOrList_Record{Fields: k[i : i+w]})
	}
	return &pb.Expression{RexType: &pb.Expression_MultiOrList_{MultiOrList: f}}
}

// nsOf is a named struct over the given column types.
func nsOf(cols []*pb.Type) *pb.NamedStruct {
	ns := &pb.NamedStruct{Struct: &pb.Type_Struct{Types: cols, Nullability: nReq}}
	for i := range cols {
		ns.Names = append(ns.Names, fmt.Sprintf("c%d", i))
		ns.Names = append(ns.Names, nestedNames(cols[i], fmt.Sprintf("c%d", i))...)
	}
	return ns
}

// nestedNames lists the names of the fields of structs inside a type, depth first.
func nestedNames(t *pb.Type, prefix string) []string {
	var r []string
	switch k := t.GetKind().(type) {
	case *pb.Type_Struct_:
		for i, c := range k.Struct.Types {
			n := fmt.Sprintf("%s_%d", prefix, i)
			r = append(r, n)
			r = append(r, nestedNames(c, n)...)
		}
	case *pb.Type_List_:
		r = nestedNames(k.List.Type, prefix)
	case *pb.Type_Map_:
		r = append(nestedNames(k.Map.Key, prefix), nestedNames(k.Map.Value, prefix)...)
	}
	return r
}
func relNamed(name string, cols ...*pb.Type) *pb.Rel {
	return &pb.Rel{RelType: &pb.Rel_Read{Read: &pb.ReadRel{
		Common:     relDirect(),
		BaseSchema: nsOf(cols),
		ReadType:   &pb.ReadRel_NamedTable_{NamedTable: &pb.ReadRel_NamedTable{Names: []string{name}}}}}}
}
func relDirect() *pb.RelCommon {
	return &pb.RelCommon{EmitKind: &pb.RelCommon_Direct_{Direct: &pb.RelCommon_Direct{}}}
}
func xSub(s *pb.Expression_Subquery) *pb.Expression {
	return &pb.Expression{RexType: &pb.Expression_Subquery_{Subquery: s}}
}
func xSubScalar(r *pb.Rel) *pb.Expression {
	return xSub(&pb.Expression_Subquery{SubqueryType: &pb.Expression_Subquery_Scalar_{Scalar: &pb.Expression_Subquery_Scalar{Input: r}}})
}
func xSubIn(r *pb.Rel, needles ...*pb.Expression) *pb.Expression {
	return xSub(&pb.Expression_Subquery{SubqueryType: &pb.Expression_Subquery_InPredicate_{InPredicate: &pb.Expression_Subquery_InPredicate{Needles: needles, Haystack: r}}})
}
func xSubSet(r *pb.Rel, op pb.Expression_Subquery_SetPredicate_PredicateOp) *pb.Expression {
	return xSub(&pb.Expression_Subquery{SubqueryType: &pb.Expression_Subquery_SetPredicate_{SetPredicate: &pb.Expression_Subquery_SetPredicate{PredicateOp: op, Tuples: r}}})
}
func xSubCmp(r *pb.Rel, left *pb.Expression, red pb.Expression_Subquery_SetComparison_ReductionOp, cmp pb.Expression_Subquery_SetComparison_ComparisonOp) *pb.Expression {
	return xSub(&pb.Expression_Subquery{SubqueryType: &pb.Expression_Subquery_SetComparison_{SetComparison: &pb.Expression_Subquery_SetComparison{
		ReductionOp: red, ComparisonOp: cmp, Left: left, Right: r}}})
}

func sortDir(e *pb.Expression, d pb.SortField_SortDirection) *pb.SortField {
	return &pb.SortField{Expr: e, SortKind: &pb.SortField_Direction{Direction: d}}
}
func sortCmp(e *pb.Expression, ref uint32) *pb.SortField {
	return &pb.SortField{Expr: e, SortKind: &pb.SortField_ComparisonFunctionReference{ComparisonFunctionReference: ref}}
}

type wopt func(w *pb.Expression_WindowFunction)

func xWindow(ref uint32, out *pb.Type, nargs, nparts int, k []*pb.Expression, o ...wopt) *pb.Expression {
	w := &pb.Expression_WindowFunction{FunctionReference: ref, OutputType: out,
		Phase: pb.AggregationPhase_AGGREGATION_PHASE_INITIAL_TO_RESULT, Invocation: pb.AggregateFunction_AGGREGATION_INVOCATION_ALL,
		LowerBound: bnd(0, 0), UpperBound: bnd(3, 0)}
	w.Arguments = argsV(k[:nargs])
	w.Partitions = append(w.Partitions, k[nargs:nargs+nparts]...)
	for i, s := range k[nargs+nparts:] {
		if i%2 == 0 {
			w.Sorts = append(w.Sorts, sortDir(s, pb.SortField_SORT_DIRECTION_ASC_NULLS_FIRST))
		} else {
			w.Sorts = append(w.Sorts, sortCmp(s, fnCmp))
		}
	}
	for _, f := range o {
		f(w)
	}
	return &pb.Expression{RexType: &pb.Expression_WindowFunction_{WindowFunction: w}}
}

func bnd(kind int, off int64) *pb.Expression_WindowFunction_Bound {
	switch kind {
	case 0:
		return &pb.Expression_WindowFunction_Bound{Kind: &pb.Expression_WindowFunction_Bound_Unbounded_{Unbounded: &pb.Expression_WindowFunction_Bound_Unbounded{}}}
	case 1:
		return &pb.Expression_WindowFunction_Bound{Kind: &pb.Expression_WindowFunction_Bound_Preceding_{Preceding: &pb.Expression_WindowFunction_Bound_Preceding{Offset: off}}}
	case 2:
		return &pb.Expression_WindowFunction_Bound{Kind: &pb.Expression_WindowFunction_Bound_Following_{Following: &pb.Expression_WindowFunction_Bound_Following{Offset: off}}}
	case 3:
		return &pb.Expression_WindowFunction_Bound{Kind: &pb.Expression_WindowFunction_Bound_CurrentRow_{CurrentRow: &pb.Expression_WindowFunction_Bound_CurrentRow{}}}
	}
	return nil
}

// ---- masks ----
func mItem(f int32, child *pb.Expression_MaskExpression_Select) *pb.Expression_MaskExpression_StructItem {
	return &pb.Expression_MaskExpression_StructItem{Field: f, Child: child}
}
func mStruct(items ...*pb.Expression_MaskExpression_StructItem) *pb.Expression_MaskExpression_StructSelect {
	return &pb.Expression_MaskExpression_StructSelect{StructItems: items}
}
func mSelStruct(items ...*pb.Expression_MaskExpression_StructItem) *pb.Expression_MaskExpression_Select {
	return &pb.Expression_MaskExpression_Select{Type: &pb.Expression_MaskExpression_Select_Struct{Struct: mStruct(items...)}}
}
func mElem(f int32) *pb.Expression_MaskExpression_ListSelect_ListSelectItem {
	return &pb.Expression_MaskExpression_ListSelect_ListSelectItem{Type: &pb.Expression_MaskExpression_ListSelect_ListSelectItem_Item{
		Item: &pb.Expression_MaskExpression_ListSelect_ListSelectItem_ListElement{Field: f}}}
}
func mSlice(a, b int32) *pb.Expression_MaskExpression_ListSelect_ListSelectItem {
	return &pb.Expression_MaskExpression_ListSelect_ListSelectItem{Type: &pb.Expression_MaskExpression_ListSelect_ListSelectItem_Slice{
		Slice: &pb.Expression_MaskExpression_ListSelect_ListSelectItem_ListSlice{Start: a, End: b}}}
}
func mSelList(child *pb.Expression_MaskExpression_Select, items ...*pb.Expression_MaskExpression_ListSelect_ListSelectItem) *pb.Expression_MaskExpression_Select {
	return &pb.Expression_MaskExpression_Select{Type: &pb.Expression_MaskExpression_Select_List{List: &pb.Expression_MaskExpression_ListSelect{Selection: items, Child: child}}}
}
func mSelKey(k string, child *pb.Expression_MaskExpression_Select) *pb.Expression_MaskExpression_Select {
	return &pb.Expression_MaskExpression_Select{Type: &pb.Expression_MaskExpression_Select_Map{Map: &pb.Expression_MaskExpression_MapSelect{
		Select: &pb.Expression_MaskExpression_MapSelect_Key{Key: &pb.Expression_MaskExpression_MapSelect_MapKey{MapKey: k}}, Child: child}}}
}
func mSelKeyExpr(k string, child *pb.Expression_MaskExpression_Select) *pb.Expression_MaskExpression_Select {
	return &pb.Expression_MaskExpression_Select{Type: &pb.Expression_MaskExpression_Select_Map{Map: &pb.Expression_MaskExpression_MapSelect{
		Select: &pb.Expression_MaskExpression_MapSelect_Expression{Expression: &pb.Expression_MaskExpression_MapSelect_MapKeyExpression{MapKeyExpression: k}}, Child: child}}}
}

// maskSelects enumerates masks below a struct item to the given depth.
func maskSelects(depth int) []*pb.Expression_MaskExpression_Select {
	r := []*pb.Expression_MaskExpression_Select{nil}
	if depth == 0 {
		return r
	}
	kids := maskSelects(depth - 1)
	for i, k := range kids {
		r = append(r, mSelStruct(mItem(0, k)), mSelStruct(mItem(1, k), mItem(0, kids[(i+1)%len(kids)])),
			mSelList(k, mElem(2)), mSelList(k, mSlice(1, 4)), mSelList(k, mElem(0), mSlice(-3, -1), mElem(5)),
			mSelKey("k", k), mSelKeyExpr("a*", k))
	}
	r = append(r, mSelStruct(), mSelKey("", nil))
	return r
}

// ---- the universe ----
type px struct {
	id string
	e  *pb.Expression
}

func leafExprs() []px {
	i32 := tI32(nReq)
	return []px{
		{"lit i32", xLit(lI32(5))}, {"lit i64", xLit(lI64(-9))}, {"lit str", xLit(lStr("x"))}, {"lit bool", xLit(lBool(true))},
		{"lit null", xLit(lNull(tI32(nNul)))}, {"lit list", xLit(litList(lI32(1), lI32(2)))},
		{"lit struct", xLit(litStruct(lI32(1), lStr("q")))}, {"lit map", xLit(litMap(lStr("a"), lI32(1)))},
		{"col0", xCol(0)}, {"col1", xCol(1)}, {"col2.0", xRef(segField(2, segField(0, nil)))},
		{"col2.1[3]", xRef(segField(2, segField(1, segElem(3, nil))))}, {"col3[-1]", xRef(segField(3, segElem(-1, nil)))},
		{"col4[k].0", xRef(segField(4, segKey(lStr("k"), segField(0, nil))))}, {"col5", xCol(5)}, {"col7", xCol(7)},
		{"outer1", xOuter(1, segField(0, nil))}, {"outer2", xOuter(2, segField(0, nil))}, {"lref0", xLambdaRef(0, segField(0, nil))}, {"lref1", xLambdaRef(1, segField(1, segField(0, nil)))},
		{"mask", xMask(&pb.Expression_MaskExpression{Select: mStruct(mItem(0, nil), mItem(2, mSelStruct(mItem(1, nil)))), MaintainSingularStruct: true})},
		{"dyn0", xDyn(i32, 0)}, {"dyn3", xDyn(leafT("string", nNul, 7), 3)},
		{"add0", xScalar(fnFoo, tI32(nNul), nil)},
	}
}

type xmaker struct {
	name  string
	arity int
	mk    func(k []*pb.Expression) *pb.Expression
}

// exprMakers: every composite expression kind, with every attribute of the
// message varied on its own.
func exprMakers() []xmaker {
	var r []xmaker
	add := func(name string, arity int, mk func(k []*pb.Expression) *pb.Expression) {
		r = append(r, xmaker{name, arity, mk})
	}
	ri, ni := tI32(nReq), tI32(nNul)
	opt := func(n string, p ...string) *pb.FunctionOption { return &pb.FunctionOption{Name: n, Preference: p} }
	for _, ref := range []uint32{fnAdd, fnFoo} {
		for i, o := range [][]*pb.FunctionOption{nil, {opt("overflow", "ERROR")}, {opt("overflow", "SILENT")}, {opt("overflow", "ERROR", "SILENT")}, {opt("a", "b"), opt("c", "d")}, {opt("c", "d"), opt("a", "b")}, {opt("a")}} {
			add(fmt.Sprintf("scalar%d opt%d", ref, i), 2, func(k []*pb.Expression) *pb.Expression { return xScalar(ref, ri, o, argsV(k)...) })
		}
		add(fmt.Sprintf("scalar%d nul", ref), 2, func(k []*pb.Expression) *pb.Expression { return xScalar(ref, ni, nil, argsV(k)...) })
		add(fmt.Sprintf("scalar%d var", ref), 2, func(k []*pb.Expression) *pb.Expression { return xScalar(ref, leafT("i32", nReq, 7), nil, argsV(k)...) })
		add(fmt.Sprintf("scalar%d i64", ref), 2, func(k []*pb.Expression) *pb.Expression { return xScalar(ref, leafT("i64", nReq, 0), nil, argsV(k)...) })
		add(fmt.Sprintf("scalar%d 1", ref), 1, func(k []*pb.Expression) *pb.Expression { return xScalar(ref, ri, nil, argsV(k)...) })
		add(fmt.Sprintf("scalar%d 3", ref), 3, func(k []*pb.Expression) *pb.Expression { return xScalar(ref, ri, nil, argsV(k)...) })
		add(fmt.Sprintf("scalar%d enum", ref), 1, func(k []*pb.Expression) *pb.Expression { return xScalar(ref, ri, nil, argE("YEAR"), argV(k[0])) })
		add(fmt.Sprintf("scalar%d enum2", ref), 1, func(k []*pb.Expression) *pb.Expression { return xScalar(ref, ri, nil, argE("MONTH"), argV(k[0])) })
		add(fmt.Sprintf("scalar%d type", ref), 1, func(k []*pb.Expression) *pb.Expression {
			return xScalar(ref, ri, nil, argV(k[0]), argT(leafT("varchar<10>", nNul, 7)))
		})
		add(fmt.Sprintf("scalar%d type2", ref), 1, func(k []*pb.Expression) *pb.Expression {
			return xScalar(ref, ri, nil, argV(k[0]), argT(leafT("varchar<1>", nNul, 7)))
		})
		add(fmt.Sprintf("scalar%d mix", ref), 2, func(k []*pb.Expression) *pb.Expression {
			return xScalar(ref, ri, nil, argT(ri), argV(k[0]), argE("x"), argV(k[1]))
		})
	}
	for _, ref := range []uint32{fnRowNum, fnBaz} {
		wadd := func(name string, na, np, ns int, o ...wopt) {
			add(fmt.Sprintf("window%d %s", ref, name), na+np+ns, func(k []*pb.Expression) *pb.Expression { return xWindow(ref, leafT("i64", nReq, 0), na, np, k, o...) })
		}
		wadd("args", 2, 0, 0)
		wadd("part", 0, 2, 0)
		wadd("sort", 0, 0, 2)
		wadd("all", 1, 1, 1)
		wadd("all2", 2, 2, 2)
		for p := int32(0); p <= 4; p++ {
			wadd(fmt.Sprintf("phase%d", p), 1, 0, 0, func(w *pb.Expression_WindowFunction) { w.Phase = pb.AggregationPhase(p) })
		}
		for p := int32(0); p <= 2; p++ {
			wadd(fmt.Sprintf("inv%d", p), 1, 0, 0, func(w *pb.Expression_WindowFunction) { w.Invocation = pb.AggregateFunction_AggregationInvocation(p) })
			wadd(fmt.Sprintf("bt%d", p), 1, 0, 0, func(w *pb.Expression_WindowFunction) { w.BoundsType = pb.Expression_WindowFunction_BoundsType(p) })
		}
		for lo := 0; lo <= 4; lo++ {
			for hi := 0; hi <= 4; hi++ {
				wadd(fmt.Sprintf("bounds%d%d", lo, hi), 1, 0, 0, func(w *pb.Expression_WindowFunction) { w.LowerBound, w.UpperBound = bnd(lo, 2), bnd(hi, 3) })
			}
		}
		wadd("bounds off", 1, 0, 0, func(w *pb.Expression_WindowFunction) { w.LowerBound = bnd(1, 7) })
		wadd("opts", 1, 0, 0, func(w *pb.Expression_WindowFunction) { w.Options = []*pb.FunctionOption{opt("a", "b", "c")} })
		wadd("opts2", 1, 0, 0, func(w *pb.Expression_WindowFunction) { w.Options = []*pb.FunctionOption{opt("a", "c", "b")} })
		wadd("enum", 1, 0, 0, func(w *pb.Expression_WindowFunction) {
			w.Arguments = append([]*pb.FunctionArgument{argE("x"), argT(ri)}, w.Arguments...)
		})
		for d := int32(0); d <= 5; d++ {
			wadd(fmt.Sprintf("dir%d", d), 0, 0, 1, func(w *pb.Expression_WindowFunction) {
				w.Sorts[0] = sortDir(w.Sorts[0].Expr, pb.SortField_SortDirection(d))
			})
		}
		wadd("cmp", 0, 0, 1, func(w *pb.Expression_WindowFunction) { w.Sorts[0] = sortCmp(w.Sorts[0].Expr, fnCmp) })
		wadd("cmp2", 0, 0, 1, func(w *pb.Expression_WindowFunction) { w.Sorts[0] = sortCmp(w.Sorts[0].Expr, fnFoo) })
	}
	for n := 1; n <= 3; n++ {
		add(fmt.Sprintf("ifthen%d", n), 2*n+1, func(k []*pb.Expression) *pb.Expression { return xIf(k...) })
	}
	l3 := []*pb.Expression_Literal{lI32(1), lI32(2), lI32(3)}
	for n := 1; n <= 3; n++ {
		add(fmt.Sprintf("switch%d", n), n+2, func(k []*pb.Expression) *pb.Expression { return xSwitch(k[0], k[n+1], l3, k[1:n+1]...) })
		add(fmt.Sprintf("switch%d noelse", n), n+1, func(k []*pb.Expression) *pb.Expression { return xSwitch(k[0], nil, l3, k[1:n+1]...) })
	}
	add("switch str", 3, func(k []*pb.Expression) *pb.Expression {
		return xSwitch(k[0], k[2], []*pb.Expression_Literal{lStr("a")}, k[1])
	})
	for n := 0; n <= 3; n++ {
		add(fmt.Sprintf("orlist%d", n), n+1, func(k []*pb.Expression) *pb.Expression { return xOr(k[0], k[1:]...) })
	}
	for w := 1; w <= 2; w++ {
		for n := 0; n <= 2; n++ {
			add(fmt.Sprintf("multior%dx%d", w, n), w+w*n, func(k []*pb.Expression) *pb.Expression { return xMultiOr(w, k...) })
		}
	}
	for b := int32(0); b <= 2; b++ {
		add(fmt.Sprintf("cast b%d", b), 1, func(k []*pb.Expression) *pb.Expression { return xCast(k[0], ni, pb.Expression_Cast_FailureBehavior(b)) })
	}
	for i, ct := range []*pb.Type{ri, leafT("i32", nNul, 7), leafT("decimal<10,2>", nReq, 0), pbList(nNul, 7, ri), pbUDT(nReq, 0, 2)} {
		add(fmt.Sprintf("cast t%d", i), 1, func(k []*pb.Expression) *pb.Expression { return xCast(k[0], ct, 1) })
	}
	for _, f := range []struct {
		n bool
		v uint32
	}{{false, 0}, {true, 0}, {false, 7}, {true, 9}} {
		s := fmt.Sprintf(" %v %d", f.n, f.v)
		for n := 1; n <= 3; n++ {
			if n == 3 && f.v != 0 {
				continue
			}
			add(fmt.Sprintf("list%d", n)+s, n, func(k []*pb.Expression) *pb.Expression { return xNestList(f.n, f.v, k...) })
			add(fmt.Sprintf("struct%d", n)+s, n, func(k []*pb.Expression) *pb.Expression { return xNestStruct(f.n, f.v, k...) })
			if n < 3 {
				add(fmt.Sprintf("map%d", n)+s, 2*n, func(k []*pb.Expression) *pb.Expression { return xNestMap(f.n, f.v, k...) })
			}
		}
	}
	add("struct0", 0, func(k []*pb.Expression) *pb.Expression { return xNestStruct(false, 0) })
	add("lambda1", 1, func(k []*pb.Expression) *pb.Expression { return xLambda(k[0], 0, ri) })
	add("lambda1n", 1, func(k []*pb.Expression) *pb.Expression { return xLambda(k[0], 0, ni) })
	add("lambda2", 1, func(k []*pb.Expression) *pb.Expression { return xLambda(k[0], 0, ri, pbStruct(nReq, 0, ni)) })
	add("lambda0", 1, func(k []*pb.Expression) *pb.Expression { return xLambda(k[0], 0) })
	add("lambda var", 1, func(k []*pb.Expression) *pb.Expression { return xLambda(k[0], 7, ri) })
	// references into the value of an expression (a struct, so that the segment fits)
	add("exprref s.0", 1, func(k []*pb.Expression) *pb.Expression {
		return xExprRef(xNestStruct(false, 0, k[0]), segField(0, nil))
	})
	add("exprref s.1", 2, func(k []*pb.Expression) *pb.Expression {
		return xExprRef(xNestStruct(false, 0, k...), segField(1, nil))
	})
	add("exprref l[0]", 1, func(k []*pb.Expression) *pb.Expression { return xExprRef(xNestList(false, 0, k[0]), segElem(0, nil)) })
	add("exprref dyn", 0, func(k []*pb.Expression) *pb.Expression {
		return xExprRef(xDyn(pbMap(nReq, 0, leafT("string", nReq, 0), ni), 1), segKey(lStr("z"), nil))
	})
	one := func(t *pb.Type) *pb.Rel { return relNamed("sub", t) }
	add("sub scalar", 0, func(k []*pb.Expression) *pb.Expression { return xSubScalar(one(leafT("i32", nReq, 0))) })
	add("sub scalar n", 0, func(k []*pb.Expression) *pb.Expression { return xSubScalar(one(leafT("string", nNul, 7))) })
	add("sub in1", 1, func(k []*pb.Expression) *pb.Expression { return xSubIn(one(ri), k...) })
	add("sub in2", 2, func(k []*pb.Expression) *pb.Expression { return xSubIn(relNamed("sub", ri, ni), k...) })
	for o := int32(1); o <= 2; o++ {
		add(fmt.Sprintf("sub set%d", o), 0, func(k []*pb.Expression) *pb.Expression {
			return xSubSet(one(ri), pb.Expression_Subquery_SetPredicate_PredicateOp(o))
		})
		for cmp := int32(1); cmp <= 6; cmp++ {
			add(fmt.Sprintf("sub cmp%d%d", o, cmp), 1, func(k []*pb.Expression) *pb.Expression {
				return xSubCmp(one(ri), k[0], pb.Expression_Subquery_SetComparison_ReductionOp(o), pb.Expression_Subquery_SetComparison_ComparisonOp(cmp))
			})
		}
	}
	return r
}

func hasSubquery(e *pb.Expression) bool {
	found := false
	walkPB(e, func(m proto.Message) {
		if _, ok := m.(*pb.Expression_Subquery); ok {
			found = true
		}
	})
	return found
}

// exprUniverse: depth 0 leaves, depth 1 every maker over rotating leaves (every
// leaf in every slot), deeper levels every maker with every deeper child in every slot.
func exprUniverse(level int) []px {
	leaves := leafExprs()
	makers := exprMakers()
	cl := func(e *pb.Expression) *pb.Expression { return proto.Clone(e).(*pb.Expression) }
	out := append([]px(nil), leaves...)
	build := func(m xmaker, slot int, kid px, rot int) px {
		ks := make([]*pb.Expression, m.arity)
		for i := range ks {
			ks[i] = cl(leaves[(rot+i*3)%16].e)
		}
		id := m.name
		if m.arity > 0 {
			ks[slot] = cl(kid.e)
			id = fmt.Sprintf("%s@%d(%s)", m.name, slot, kid.id)
		}
		return px{id, m.mk(ks)}
	}
	var d1 []px
	for mi, m := range makers {
		if m.arity == 0 {
			d1 = append(d1, build(m, 0, px{}, 0))
		}
		for s := 0; s < m.arity; s++ {
			for li, l := range leaves {
				d1 = append(d1, build(m, s, l, mi+li))
			}
		}
	}
	out = append(out, d1...)
	if level < 2 {
		return out
	}
	// one representative of each maker
	reps := func(ps []px, names []xmaker) []px {
		var r []px
		for mi, m := range names {
			r = append(r, build(m, 0, leaves[(mi*5)%len(leaves)], mi))
		}
		return r
	}
	r1 := reps(d1, makers)
	// the interesting representatives: one per construct
	seen := map[string]bool{}
	var core []px
	for i, m := range makers {
		k := m.name
		for j, ch := range k {
			if ch == ' ' || (ch >= '0' && ch <= '9') {
				k = k[:j]
				break
			}
		}
		if m.name == "sub scalar" || m.name == "sub in1" || m.name == "sub set1" || m.name == "sub cmp11" || m.name == "exprref l[0]" || m.name == "window13 all" {
			k = m.name
		}
		if !seen[k] {
			seen[k] = true
			core = append(core, r1[i])
		}
	}
	var d2 []px
	for mi, m := range makers {
		for s := 0; s < m.arity; s++ {
			pool := core
			if level >= 3 {
				pool = r1
			}
			for ki, k := range pool {
				d2 = append(d2, build(m, s, k, mi+ki))
			}
		}
	}
	out = append(out, d2...)
	if level >= 3 {
		step := 23
		var pool []px
		for i := 0; i < len(d2); i += step * 7 {
			pool = append(pool, d2[i])
		}
		for mi, m := range makers {
			for s := 0; s < m.arity; s++ {
				for ki, k := range pool {
					if (mi+s+ki)%11 == 0 {
						out = append(out, build(m, s, k, mi+ki))
					}
				}
			}
		}
	}
	return out
}

// ---- reference shape: the direct child expressions in slot order ----
type kid struct {
	e   *pb.Expression
	set func(*pb.Expression)
	lit bool // the slot takes a literal only
}

func exprKids(e *pb.Expression) []kid {
	var r []kid
	slot := func(p **pb.Expression) {
		if *p != nil {
			r = append(r, kid{e: *p, set: func(n *pb.Expression) { *p = n }})
		}
	}
	args := func(as []*pb.FunctionArgument) {
		for _, a := range as {
			if v, ok := a.ArgType.(*pb.FunctionArgument_Value); ok {
				slot(&v.Value)
			}
		}
	}
	switch x := e.RexType.(type) {
	case *pb.Expression_Selection:
		if rt, ok := x.Selection.RootType.(*pb.Expression_FieldReference_Expression); ok {
			slot(&rt.Expression)
		}
	case *pb.Expression_ScalarFunction_:
		args(x.ScalarFunction.Arguments)
	case *pb.Expression_WindowFunction_:
		args(x.WindowFunction.Arguments)
		for i := range x.WindowFunction.Partitions {
			slot(&x.WindowFunction.Partitions[i])
		}
		for _, s := range x.WindowFunction.Sorts {
			slot(&s.Expr)
		}
	case *pb.Expression_IfThen_:
		for _, c := range x.IfThen.Ifs {
			slot(&c.If)
			slot(&c.Then)
		}
		slot(&x.IfThen.Else)
	case *pb.Expression_SwitchExpression_:
		slot(&x.SwitchExpression.Match)
		for _, c := range x.SwitchExpression.Ifs {
			r = append(r, kid{e: xLit(c.If), lit: true, set: func(n *pb.Expression) { c.If = n.GetLiteral() }})
			slot(&c.Then)
		}
		slot(&x.SwitchExpression.Else)
	case *pb.Expression_SingularOrList_:
		slot(&x.SingularOrList.Value)
		for i := range x.SingularOrList.Options {
			slot(&x.SingularOrList.Options[i])
		}
	case *pb.Expression_MultiOrList_:
		for i := range x.MultiOrList.Value {
			slot(&x.MultiOrList.Value[i])
		}
		for _, o := range x.MultiOrList.Options {
			for i := range o.Fields {
				slot(&o.Fields[i])
			}
		}
	case *pb.Expression_Cast_:
		slot(&x.Cast.Input)
	case *pb.Expression_Nested_:
		switch n := x.Nested.NestedType.(type) {
		case *pb.Expression_Nested_List_:
			for i := range n.List.Values {
				slot(&n.List.Values[i])
			}
		case *pb.Expression_Nested_Struct_:
			for i := range n.Struct.Fields {
				slot(&n.Struct.Fields[i])
			}
		case *pb.Expression_Nested_Map_:
			for _, kv := range n.Map.KeyValues {
				slot(&kv.Key)
				slot(&kv.Value)
			}
		}
	case *pb.Expression_Lambda_:
		slot(&x.Lambda.Body)
	case *pb.Expression_Subquery_:
		switch s := x.Subquery.SubqueryType.(type) {
		case *pb.Expression_Subquery_InPredicate_:
			for i := range s.InPredicate.Needles {
				slot(&s.InPredicate.Needles[i])
			}
		case *pb.Expression_Subquery_SetComparison_:
			slot(&s.SetComparison.Left)
		}
	}
	return r
}

// ---- reference types ----
func pbNullability(t *pb.Type) pb.Type_Nullability {
	v, ok := typeField(t, "nullability")
	if !ok {
		return 0
	}
	return pb.Type_Nullability(v.Enum())
}

// refSegType: the type a chain of segments points at, or nil if it points at nothing.
func refSegType(parent *pb.Type, s *pb.Expression_ReferenceSegment) *pb.Type {
	if s == nil {
		return parent
	}
	if parent == nil {
		return nil
	}
	switch x := s.ReferenceType.(type) {
	case *pb.Expression_ReferenceSegment_StructField_:
		st := parent.GetStruct()
		f := x.StructField.Field
		if st == nil || f < 0 || int(f) >= len(st.Types) {
			return nil
		}
		return refSegType(st.Types[f], x.StructField.Child)
	case *pb.Expression_ReferenceSegment_ListElement_:
		if parent.GetList() == nil {
			return nil
		}
		return refSegType(parent.GetList().Type, x.ListElement.Child)
	case *pb.Expression_ReferenceSegment_MapKey_:
		mp := parent.GetMap()
		if mp == nil {
			return nil
		}
		if mtext(refLitType(x.MapKey.MapKey)) != mtext(mp.Key) {
			return nil
		}
		return refSegType(mp.Value, x.MapKey.Child)
	}
	return nil
}

func nul(b bool) pb.Type_Nullability {
	if b {
		return nNul
	}
	return nReq
}

// refExprType returns the type of an expression, nil where it cannot be known
// from the expression and its row type alone (outer and lambda references,
// masks, and whatever is built from them).
func refExprType(e *pb.Expression, cols []*pb.Type) *pb.Type {
	b := func() *pb.Type { return leafT("boolean", nReq, 0) }
	switch x := e.RexType.(type) {
	case *pb.Expression_Literal_:
		return refLitType(x.Literal)
	case *pb.Expression_Selection:
		d, ok := x.Selection.ReferenceType.(*pb.Expression_FieldReference_DirectReference)
		if !ok {
			return nil
		}
		switch rt := x.Selection.RootType.(type) {
		case *pb.Expression_FieldReference_RootReference_:
			return refSegType(pbStruct(nReq, 0, cols...), d.DirectReference)
		case *pb.Expression_FieldReference_Expression:
			return refSegType(refExprType(rt.Expression, cols), d.DirectReference)
		}
		return nil
	case *pb.Expression_ScalarFunction_:
		return x.ScalarFunction.OutputType
	case *pb.Expression_WindowFunction_:
		return x.WindowFunction.OutputType
	case *pb.Expression_IfThen_:
		return refExprType(x.IfThen.Else, cols)
	case *pb.Expression_SwitchExpression_:
		var last *pb.Type
		for _, c := range x.SwitchExpression.Ifs {
			last = refExprType(c.Then, cols)
			if last == nil {
				return nil
			}
			if pbNullability(last) == nNul {
				return last
			}
		}
		if x.SwitchExpression.Else == nil {
			return withNullability(last, nNul)
		}
		return refExprType(x.SwitchExpression.Else, cols)
	case *pb.Expression_SingularOrList_, *pb.Expression_MultiOrList_:
		return b()
	case *pb.Expression_Cast_:
		return x.Cast.Type
	case *pb.Expression_Nested_:
		n, v := nul(x.Nested.Nullable), x.Nested.TypeVariationReference
		switch y := x.Nested.NestedType.(type) {
		case *pb.Expression_Nested_List_:
			if t := refExprType(y.List.Values[0], cols); t != nil {
				return pbList(n, v, t)
			}
		case *pb.Expression_Nested_Struct_:
			ts := make([]*pb.Type, len(y.Struct.Fields))
			for i, f := range y.Struct.Fields {
				if ts[i] = refExprType(f, cols); ts[i] == nil {
					return nil
				}
			}
			return pbStruct(n, v, ts...)
		case *pb.Expression_Nested_Map_:
			k, w := refExprType(y.Map.KeyValues[0].Key, cols), refExprType(y.Map.KeyValues[0].Value, cols)
			if k != nil && w != nil {
				return pbMap(n, v, k, w)
			}
		}
		return nil
	case *pb.Expression_DynamicParameter:
		return x.DynamicParameter.Type
	case *pb.Expression_Lambda_:
		if t := refExprType(x.Lambda.Body, cols); t != nil {
			return pbFunc(nReq, t, x.Lambda.Parameters.Types...)
		}
		return nil
	case *pb.Expression_Subquery_:
		if s, ok := x.Subquery.SubqueryType.(*pb.Expression_Subquery_Scalar_); ok {
			return refScalarSubqueryType(s.Scalar.Input)
		}
		return b()
	}
	return nil
}

func refScalarSubqueryType(r *pb.Rel) *pb.Type {
	if cols := refRelCols(r); len(cols) == 1 {
		return cols[0]
	}
	return nil
}

func usableType(p *pb.Type) bool { return true }

// aggUniverse: aggregate function messages with every attribute varied.
func aggUniverse() []*pb.AggregateFunction {
	var r []*pb.AggregateFunction
	leaves := leafExprs()
	for _, ref := range []uint32{fnSum, fnBar} {
		mk := func(f ...func(a *pb.AggregateFunction)) {
			a := &pb.AggregateFunction{FunctionReference: ref, OutputType: leafT("i64", nNul, 0), Arguments: argsV([]*pb.Expression{xCol(0)}),
				Phase: pb.AggregationPhase_AGGREGATION_PHASE_INITIAL_TO_RESULT, Invocation: pb.AggregateFunction_AGGREGATION_INVOCATION_ALL}
			for _, g := range f {
				g(a)
			}
			r = append(r, proto.Clone(a).(*pb.AggregateFunction))
		}
		mk()
		for p := int32(0); p <= 4; p++ {
			mk(func(a *pb.AggregateFunction) { a.Phase = pb.AggregationPhase(p) })
		}
		for p := int32(0); p <= 2; p++ {
			mk(func(a *pb.AggregateFunction) { a.Invocation = pb.AggregateFunction_AggregationInvocation(p) })
		}
		for _, l := range leaves {
			mk(func(a *pb.AggregateFunction) { a.Arguments = argsV([]*pb.Expression{l.e}) })
			mk(func(a *pb.AggregateFunction) {
				a.Arguments = []*pb.FunctionArgument{argE("x"), argV(l.e), argT(tI32(nNul))}
			})
			mk(func(a *pb.AggregateFunction) { a.Arguments = argsV([]*pb.Expression{xCol(1), l.e}) })
			for d := int32(0); d <= 5; d++ {
				mk(func(a *pb.AggregateFunction) {
					a.Sorts = []*pb.SortField{sortDir(l.e, pb.SortField_SortDirection(d)), sortCmp(xCol(1), fnCmp)}
				})
			}
		}
		mk(func(a *pb.AggregateFunction) { a.Arguments = nil })
		mk(func(a *pb.AggregateFunction) {
			a.Options = []*pb.FunctionOption{{Name: "overflow", Preference: []string{"SILENT", "ERROR"}}}
		})
		mk(func(a *pb.AggregateFunction) {
			a.Options = []*pb.FunctionOption{{Name: "b", Preference: []string{"c"}}, {Name: "a"}}
		})
		for _, n := range []string{"i32", "decimal<38,0>", "string", "precision_timestamp_tz<6>"} {
			mk(func(a *pb.AggregateFunction) { a.OutputType = leafT(n, nReq, 7) })
		}
	}
	return r
}

// extendedUniverse: extended expressions over one to three references.
func extendedUniverse(deep bool) []*pb.ExtendedExpression {
	var r []*pb.ExtendedExpression
	exprs := []px{}
	for _, x := range exprUniverse(1) {
		if !hasSubquery(x.e) {
			exprs = append(exprs, x)
		}
	}
	aggs := aggUniverse()
	step := 17
	if deep {
		step = 1
	}
	ref := func(i int, n ...string) *pb.ExpressionReference {
		if i%3 == 2 {
			return &pb.ExpressionReference{OutputNames: n, ExprType: &pb.ExpressionReference_Measure{Measure: proto.Clone(aggs[i%len(aggs)]).(*pb.AggregateFunction)}}
		}
		return &pb.ExpressionReference{OutputNames: n, ExprType: &pb.ExpressionReference_Expression{Expression: proto.Clone(exprs[i%len(exprs)].e).(*pb.Expression)}}
	}
	for i := 0; i < len(exprs); i += step {
		h := stdDecls()
		x := &pb.ExtendedExpression{Version: &pb.Version{MinorNumber: 29, Producer: "verif"}, ExtensionUrns: h.urns, Extensions: h.decl,
			BaseSchema: nsOf(baseCols())}
		x.BaseSchema.Struct.Nullability = nReq
		x.ReferredExpr = append(x.ReferredExpr, ref(i, "a"))
		switch (i / step) % 4 {
		case 1:
			x.ReferredExpr = append(x.ReferredExpr, ref(i*7+2, "b", "c"))
			x.ExpectedTypeUrls = []string{"u1", "u2"}
		case 2:
			x.ReferredExpr = append(x.ReferredExpr, ref(2, "b", "c"), ref(i+1))
			x.AdvancedExtensions = &ext.AdvancedExtension{Enhancement: anyOf("enh"), Optimization: nil}
		case 3:
			x.Version = &pb.Version{MajorNumber: 1, PatchNumber: 3, GitHash: "abcd"}
			x.BaseSchema = nsOf(baseCols())
		}
		r = append(r, x)
	}
	return r
}

func anyOf(s string) *anypb.Any {
	return &anypb.Any{TypeUrl: "type.googleapis.com/verif." + s, Value: []byte(s)}
}

type hasExts interface {
	GetExtensionUrns() []*ext.SimpleExtensionURN
	GetExtensions() []*ext.SimpleExtensionDeclaration
}

// declMap resolves the declarations of a message: kind and anchor to urn and name.
func declMap(m hasExts) (map[string]string, string) {
	urns := map[uint32]string{}
	bad := ""
	for _, u := range m.GetExtensionUrns() {
		if o, dup := urns[u.ExtensionUrnAnchor]; dup && o != u.Urn {
			bad = fmt.Sprintf("urn anchor %d is both %q and %q", u.ExtensionUrnAnchor, o, u.Urn)
		}
		urns[u.ExtensionUrnAnchor] = u.Urn
	}
	r := map[string]string{}
	put := func(k, v string) {
		if o, dup := r[k]; dup && o != v {
			bad = fmt.Sprintf("%s is both %q and %q", k, o, v)
		}
		r[k] = v
	}
	urn := func(a uint32) string {
		u, ok := urns[a]
		if !ok {
			bad = fmt.Sprintf("urn anchor %d is not declared", a)
		}
		return u
	}
	for _, d := range m.GetExtensions() {
		switch x := d.MappingType.(type) {
		case *ext.SimpleExtensionDeclaration_ExtensionFunction_:
			f := x.ExtensionFunction
			put(fmt.Sprintf("func %d", f.FunctionAnchor), urn(f.ExtensionUrnReference)+" "+f.Name)
		case *ext.SimpleExtensionDeclaration_ExtensionType_:
			f := x.ExtensionType
			put(fmt.Sprintf("type %d", f.TypeAnchor), urn(f.ExtensionUrnReference)+" "+f.Name)
		case *ext.SimpleExtensionDeclaration_ExtensionTypeVariation_:
			f := x.ExtensionTypeVariation
			put(fmt.Sprintf("variation %d", f.TypeVariationAnchor), urn(f.ExtensionUrnReference)+" "+f.Name)
		}
	}
	return r, bad
}

// sameDecls compares the declarations of two messages by what they resolve to.
func sameDecls(a, b hasExts) string {
	ma, _ := declMap(a)
	mb, bad := declMap(b)
	if bad != "" {
		return "declarations: " + bad
	}
	for k, v := range ma {
		if mb[k] != v {
			return fmt.Sprintf("declarations: %s was %q, is %q", k, v, mb[k])
		}
	}
	for k, v := range mb {
		if ma[k] != v {
			return fmt.Sprintf("declarations: new %s = %q", k, v)
		}
	}
	return ""
}

func sameExtended(a, b *pb.ExtendedExpression) string {
	if d := sameDecls(a, b); d != "" {
		return d
	}
	x, y := proto.Clone(a).(*pb.ExtendedExpression), proto.Clone(b).(*pb.ExtendedExpression)
	x.Extensions, x.ExtensionUrns, y.Extensions, y.ExtensionUrns = nil, nil, nil, nil
	if mtext(x) != mtext(y) {
		return "content"
	}
	return ""
}
