// Shared generator: the bounded grammar of relation messages, a reference
// semantics for their output columns and their canonical form, both written
// from the Substrait specification.
package main

import (
	"fmt"

	"github.com/substrait-io/substrait-go/v8/expr"
	"github.com/substrait-io/substrait-go/v8/plan"
	"github.com/substrait-io/substrait-go/v8/types"
	pb "github.com/substrait-io/substrait-protobuf/go/substraitpb"
	ext "github.com/substrait-io/substrait-protobuf/go/substraitpb/extensions"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/types/known/anypb"
)

const (
	urlKnownExt   = "type.test/known"   // decoded, columns listed in the detail
	urlUnknownExt = "type.test/unknown" // not decoded
)

// extDef is a decoded extension: its detail is a serialized Type.Struct and
// tells the columns it adds to those of its inputs.
type extDef struct {
	cols []*pb.Type
	any  *anypb.Any
	ex   []expr.Expression
}

func (d *extDef) Schema(inputs []plan.Rel) types.RecordType {
	var ts []types.Type
	for _, in := range inputs {
		r := in.RecordType()
		ts = append(ts, r.Types()...)
	}
	for _, c := range d.cols {
		ts = append(ts, types.TypeFromProto(c))
	}
	return *types.NewRecordTypeFromTypes(ts)
}
func (d *extDef) Build(inputs []plan.Rel) *anypb.Any              { return d.any }
func (d *extDef) Expressions(inputs []plan.Rel) []expr.Expression { return d.ex }
func (extDec) DecodeExtensionRel(detail *anypb.Any) (any, error) {
	s := &pb.Type_Struct{}
	if err := proto.Unmarshal(detail.Value, s); err != nil {
		return nil, err
	}
	for _, t := range s.Types {
		if types.TypeFromProto(t) == nil {
			return nil, fmt.Errorf("bad column")
		}
	}
	return &extDef{cols: s.Types, any: detail}, nil
}

type extDec struct{}

func knownExt(cols ...*pb.Type) *anypb.Any {
	b, err := proto.MarshalOptions{Deterministic: true}.Marshal(&pb.Type_Struct{Types: cols})
	if err != nil {
		panic(err)
	}
	return &anypb.Any{TypeUrl: urlKnownExt, Value: b}
}

// relReg is stdReg with the extension decoder.
func relReg() expr.ExtensionRegistry {
	reg := stdReg()
	if err := reg.SetExtensionRelDecoder(urlKnownExt, extDec{}); err != nil {
		panic(err)
	}
	reg.SetSubqueryConverter(&plan.ExpressionConverter{ExtensionRegistry: reg})
	return reg
}

func advExt(s string) *ext.AdvancedExtension {
	return &ext.AdvancedExtension{Optimization: []*anypb.Any{anyOf("o" + s), anyOf("p" + s)}, Enhancement: anyOf("e" + s)}
}

func fullHint() *pb.RelCommon_Hint {
	return &pb.RelCommon_Hint{
		Stats:      &pb.RelCommon_Hint_Stats{RowCount: 3, RecordSize: 4, AdvancedExtension: advExt("s")},
		Constraint: &pb.RelCommon_Hint_RuntimeConstraint{AdvancedExtension: advExt("c")},
		Alias:      "al", OutputNames: []string{"x", "y"}, AdvancedExtension: advExt("h"),
		SavedComputations:  []*pb.RelCommon_Hint_SavedComputation{{ComputationId: 5, Type: 1, AdvancedExtension: advExt("v")}},
		LoadedComputations: []*pb.RelCommon_Hint_LoadedComputation{{ComputationIdReference: 5, Type: 2, AdvancedExtension: advExt("l")}},
	}
}

// commons lists the variants of the common part for a relation of n columns.
func commons(n int) []struct {
	id string
	c  *pb.RelCommon
} {
	type cm = struct {
		id string
		c  *pb.RelCommon
	}
	r := []cm{{"nil", nil}, {"direct", relDirect()}, {"none", &pb.RelCommon{}}, {"emit[]", relEmit()}}
	if n > 0 {
		r = append(r, cm{"emit[0]", relEmit(0)}, cm{"emit[dup]", relEmit(int32(n-1), 0, int32(n-1))})
		var id, rev []int32
		for i := 0; i < n; i++ {
			id, rev = append(id, int32(i)), append(rev, int32(n-1-i))
		}
		r = append(r, cm{"emit[rev]", relEmit(rev...)}, cm{"emit[id]", relEmit(id...)})
		full := relEmit(rev...)
		full.Hint, full.AdvancedExtension = fullHint(), advExt("r")
		r = append(r, cm{"full", full})
	}
	h := relDirect()
	h.Hint = &pb.RelCommon_Hint{Alias: "a"}
	a := relDirect()
	a.AdvancedExtension = &ext.AdvancedExtension{}
	return append(r, cm{"hint", h}, cm{"adv", a})
}

// relCommonOf and setCommon access the common part of any relation.
func setCommon(r *pb.Rel, c *pb.RelCommon) *pb.Rel {
	m := r.ProtoReflect()
	fd := m.WhichOneof(m.Descriptor().Oneofs().ByName("rel_type"))
	in := m.Mutable(fd).Message()
	cf := in.Descriptor().Fields().ByName("common")
	if c == nil {
		in.Clear(cf)
	} else {
		in.Set(cf, pbVal(c))
	}
	return r
}
func commonOf(r *pb.Rel) *pb.RelCommon {
	m := r.ProtoReflect()
	fd := m.WhichOneof(m.Descriptor().Oneofs().ByName("rel_type"))
	if fd == nil {
		return nil
	}
	in := m.Get(fd).Message()
	cf := in.Descriptor().Fields().ByName("common")
	if cf == nil || !in.Has(cf) {
		return nil
	}
	return in.Get(cf).Message().Interface().(*pb.RelCommon)
}

type prel struct {
	id string
	r  *pb.Rel
}

func cloneRel(r *pb.Rel) *pb.Rel { return proto.Clone(r).(*pb.Rel) }

var tBool = func() *pb.Type { return leafT("boolean", nReq, 0) }

// relColsA/B are the schemas of the two base tables.
func relColsA() []*pb.Type {
	return []*pb.Type{leafT("i32", nReq, 0), leafT("string", nNul, 0), tBool()}
}
func relColsB() []*pb.Type {
	return []*pb.Type{leafT("i64", nNul, 7), pbStruct(nReq, 0, leafT("i32", nReq, 0), leafT("date", nNul, 0))}
}

func relRead(rd *pb.ReadRel) *pb.Rel { return &pb.Rel{RelType: &pb.Rel_Read{Read: rd}} }

// condOn is a boolean condition that reads column i of the schema, if there is one.
func condOn(cols []*pb.Type, i int, tag int32) *pb.Expression {
	a := argV(xLit(lI32(tag)))
	b := a
	if i >= 0 && i < len(cols) {
		b = argV(xCol(int32(i)))
	}
	return xScalar(fnFoo, tBool(), nil, b, a)
}
func valOn(cols []*pb.Type, i int, tag int32) *pb.Expression {
	if i < len(cols) {
		return xCol(int32(i))
	}
	return xLit(lI32(tag))
}

// readRels lists read relations of every kind with every part varied on its own.
func readRels() []prel {
	var r []prel
	cols := relColsA()
	base := func() *pb.ReadRel { return &pb.ReadRel{Common: relDirect(), BaseSchema: nsOf(cols)} }
	named := func() *pb.ReadRel {
		b := base()
		b.ReadType = &pb.ReadRel_NamedTable_{NamedTable: &pb.ReadRel_NamedTable{Names: []string{"db", "t"}}}
		return b
	}
	row := func(k ...*pb.Expression) *pb.Expression_Nested_Struct { return &pb.Expression_Nested_Struct{Fields: k} }
	kinds := []struct {
		id string
		f  func(*pb.ReadRel)
	}{
		{"named", func(b *pb.ReadRel) {
			b.ReadType = &pb.ReadRel_NamedTable_{NamedTable: &pb.ReadRel_NamedTable{Names: []string{"db", "t"}}}
		}},
		{"named-noname", func(b *pb.ReadRel) { b.ReadType = &pb.ReadRel_NamedTable_{NamedTable: &pb.ReadRel_NamedTable{}} }},
		{"named-adv", func(b *pb.ReadRel) {
			b.ReadType = &pb.ReadRel_NamedTable_{NamedTable: &pb.ReadRel_NamedTable{Names: []string{"t"}, AdvancedExtension: advExt("n")}}
		}},
		{"virtual0", func(b *pb.ReadRel) { b.ReadType = &pb.ReadRel_VirtualTable_{VirtualTable: &pb.ReadRel_VirtualTable{}} }},
		{"virtual-exprs", func(b *pb.ReadRel) {
			b.ReadType = &pb.ReadRel_VirtualTable_{VirtualTable: &pb.ReadRel_VirtualTable{Expressions: []*pb.Expression_Nested_Struct{
				row(xLit(lI32(1)), xLit(lStr("a")), xLit(lBool(true))),
				row(xScalar(fnAdd, tI32(nReq), nil, argV(xLit(lI32(1))), argV(xLit(lI32(2)))), xCast(xLit(lI32(7)), leafT("string", nNul, 0), 1), xLit(lBool(false)))}}}
		}},
		{"virtual-values", func(b *pb.ReadRel) {
			b.ReadType = &pb.ReadRel_VirtualTable_{VirtualTable: &pb.ReadRel_VirtualTable{Values: []*pb.Expression_Literal_Struct{
				{Fields: []*pb.Expression_Literal{lI32(1), lStr("a"), lBool(true)}}, {Fields: []*pb.Expression_Literal{lI32(2), lNull(leafT("string", nNul, 0)), lBool(false)}}}}}
		}},
		{"exttable", func(b *pb.ReadRel) {
			b.ReadType = &pb.ReadRel_ExtensionTable_{ExtensionTable: &pb.ReadRel_ExtensionTable{Detail: anyOf("tbl")}}
		}},
		{"exttable-nodetail", func(b *pb.ReadRel) {
			b.ReadType = &pb.ReadRel_ExtensionTable_{ExtensionTable: &pb.ReadRel_ExtensionTable{}}
		}},
	}
	for i, s := range []func(*pb.ReadRel_IcebergTable_MetadataFileRead){
		func(m *pb.ReadRel_IcebergTable_MetadataFileRead) {},
		func(m *pb.ReadRel_IcebergTable_MetadataFileRead) {
			m.Snapshot = &pb.ReadRel_IcebergTable_MetadataFileRead_SnapshotId{SnapshotId: "sid"}
		},
		func(m *pb.ReadRel_IcebergTable_MetadataFileRead) {
			m.Snapshot = &pb.ReadRel_IcebergTable_MetadataFileRead_SnapshotTimestamp{SnapshotTimestamp: 1234567}
		},
	} {
		kinds = append(kinds, struct {
			id string
			f  func(*pb.ReadRel)
		}{fmt.Sprintf("iceberg%d", i), func(b *pb.ReadRel) {
			m := &pb.ReadRel_IcebergTable_MetadataFileRead{MetadataUri: "file:///m"}
			s(m)
			b.ReadType = &pb.ReadRel_IcebergTable_{IcebergTable: &pb.ReadRel_IcebergTable{TableType: &pb.ReadRel_IcebergTable_Direct{Direct: m}}}
		}})
	}
	type fof = pb.ReadRel_LocalFiles_FileOrFiles
	files := func(adv bool, items ...*fof) func(*pb.ReadRel) {
		return func(b *pb.ReadRel) {
			lf := &pb.ReadRel_LocalFiles{Items: items}
			if adv {
				lf.AdvancedExtension = advExt("f")
			}
			b.ReadType = &pb.ReadRel_LocalFiles_{LocalFiles: lf}
		}
	}
	paths := []func(*fof){
		func(f *fof) { f.PathType = &pb.ReadRel_LocalFiles_FileOrFiles_UriFile{UriFile: "a"} },
		func(f *fof) { f.PathType = &pb.ReadRel_LocalFiles_FileOrFiles_UriFolder{UriFolder: "b"} },
		func(f *fof) { f.PathType = &pb.ReadRel_LocalFiles_FileOrFiles_UriPath{UriPath: "c"} },
		func(f *fof) { f.PathType = &pb.ReadRel_LocalFiles_FileOrFiles_UriPathGlob{UriPathGlob: "d*"} },
	}
	vt := "nullval"
	formats := []func(*fof){
		func(f *fof) {},
		func(f *fof) {
			f.FileFormat = &pb.ReadRel_LocalFiles_FileOrFiles_Parquet{Parquet: &pb.ReadRel_LocalFiles_FileOrFiles_ParquetReadOptions{}}
		},
		func(f *fof) {
			f.FileFormat = &pb.ReadRel_LocalFiles_FileOrFiles_Arrow{Arrow: &pb.ReadRel_LocalFiles_FileOrFiles_ArrowReadOptions{}}
		},
		func(f *fof) {
			f.FileFormat = &pb.ReadRel_LocalFiles_FileOrFiles_Orc{Orc: &pb.ReadRel_LocalFiles_FileOrFiles_OrcReadOptions{}}
		},
		func(f *fof) {
			f.FileFormat = &pb.ReadRel_LocalFiles_FileOrFiles_Dwrf{Dwrf: &pb.ReadRel_LocalFiles_FileOrFiles_DwrfReadOptions{}}
		},
		func(f *fof) { f.FileFormat = &pb.ReadRel_LocalFiles_FileOrFiles_Extension{Extension: anyOf("fmt")} },
		func(f *fof) {
			f.FileFormat = &pb.ReadRel_LocalFiles_FileOrFiles_Text{Text: &pb.ReadRel_LocalFiles_FileOrFiles_DelimiterSeparatedTextReadOptions{
				FieldDelimiter: "|", MaxLineSize: 9, Quote: "'", HeaderLinesToSkip: 2, Escape: "\\", ValueTreatedAsNull: &vt}}
		},
	}
	for i, p := range paths {
		for j, f := range formats {
			it := &fof{PartitionIndex: 3, Start: 4, Length: 5}
			p(it)
			f(it)
			kinds = append(kinds, struct {
				id string
				f  func(*pb.ReadRel)
			}{fmt.Sprintf("files-%d-%d", i, j), files(j%2 == 1, it)})
		}
	}
	two := []*fof{{}, {Length: 1<<64 - 1}}
	paths[0](two[0])
	formats[1](two[0])
	paths[3](two[1])
	kinds = append(kinds, struct {
		id string
		f  func(*pb.ReadRel)
	}{"files2", files(false, two...)}, struct {
		id string
		f  func(*pb.ReadRel)
	}{"files0", files(true)})
	for _, k := range kinds {
		b := base()
		k.f(b)
		r = append(r, prel{k.id, relRead(b)})
	}
	// the parts all reads share, on each kind of read
	share := []struct {
		id string
		f  func(*pb.ReadRel)
	}{
		{"filter", func(b *pb.ReadRel) { b.Filter = condOn(cols, 0, 1) }},
		{"best", func(b *pb.ReadRel) { b.BestEffortFilter = condOn(cols, 1, 2) }},
		{"filters+adv", func(b *pb.ReadRel) {
			b.Filter, b.BestEffortFilter, b.AdvancedExtension = condOn(cols, 0, 3), xCol(2), advExt("b")
		}},
		{"mask", func(b *pb.ReadRel) {
			b.Projection = &pb.Expression_MaskExpression{Select: mStruct(mItem(1, nil), mItem(0, nil)), MaintainSingularStruct: true}
		}},
		{"noschema", func(b *pb.ReadRel) { b.BaseSchema = nil }},
		{"cols0", func(b *pb.ReadRel) { b.BaseSchema = nsOf(nil) }},
		{"colsB", func(b *pb.ReadRel) { b.BaseSchema = nsOf(relColsB()) }},
		{"structnull", func(b *pb.ReadRel) {
			b.BaseSchema.Struct.Nullability, b.BaseSchema.Struct.TypeVariationReference = nNul, 3
		}},
	}
	for _, k := range []int{0, 4, 6, 9, 11} {
		for _, s := range share {
			b := base()
			kinds[k].f(b)
			s.f(b)
			r = append(r, prel{kinds[k].id + "/" + s.id, relRead(b)})
		}
	}
	// every subquery and window in a read filter
	b := named()
	b.Filter = xSubSet(relFilter(relNamed("u", relColsB()...), xScalar(fnFoo, tBool(), nil, argV(xCol(0)), argV(xOuter(1, segField(0, nil))))), 1)
	return append(r, prel{"named/exists", relRead(b)})
}

type relMaker struct {
	kind  string
	arity int
	mk    func(ins []*pb.Rel, cols [][]*pb.Type) []prel // first variant is the default one
}

func fieldRefOf(e *pb.Expression) *pb.Expression_FieldReference { return e.GetSelection() }

// joinKeysOf makes n keys comparing columns of both sides.
func joinKeysOf(n int, l, r []*pb.Type) []*pb.ComparisonJoinKey {
	var ks []*pb.ComparisonJoinKey
	for i := 0; i < n; i++ {
		k := &pb.ComparisonJoinKey{Left: fieldRefOf(xCol(int32(i % len(l)))), Right: fieldRefOf(xCol(int32(i % len(r))))}
		switch i % 4 {
		case 0, 1, 2:
			k.Comparison = &pb.ComparisonJoinKey_ComparisonType{InnerType: &pb.ComparisonJoinKey_ComparisonType_Simple{Simple: pb.ComparisonJoinKey_SimpleComparisonType(i%4 + 1)}}
		case 3:
			k.Comparison = &pb.ComparisonJoinKey_ComparisonType{InnerType: &pb.ComparisonJoinKey_ComparisonType_CustomFunctionReference{CustomFunctionReference: fnCmp}}
		}
		ks = append(ks, k)
	}
	return ks
}
func eqKeys(n int, l, r []*pb.Type) []*pb.ComparisonJoinKey {
	ks := joinKeysOf(n, l, r)
	for _, k := range ks {
		k.Comparison = &pb.ComparisonJoinKey_ComparisonType{InnerType: &pb.ComparisonJoinKey_ComparisonType_Simple{Simple: 1}}
	}
	return ks
}

func relAgg(in *pb.Rel, ex []*pb.Expression, sets [][]uint32, ms ...*pb.AggregateRel_Measure) *pb.Rel {
	a := &pb.AggregateRel{Common: relDirect(), Input: in, GroupingExpressions: ex, Measures: ms}
	for _, s := range sets {
		a.Groupings = append(a.Groupings, &pb.AggregateRel_Grouping{ExpressionReferences: s})
	}
	return &pb.Rel{RelType: &pb.Rel_Aggregate{Aggregate: a}}
}

func aggMeasure(ref uint32, out *pb.Type, filter *pb.Expression, args ...*pb.Expression) *pb.AggregateRel_Measure {
	return &pb.AggregateRel_Measure{Measure: &pb.AggregateFunction{FunctionReference: ref, OutputType: out, Phase: 3, Invocation: 1, Arguments: argsV(args)}, Filter: filter}
}

// groupingShapes: lists of grouping sets over n expressions.
func groupingShapes(n int) [][][]uint32 {
	r := [][][]uint32{nil, {{}}}
	if n >= 1 {
		r = append(r, [][]uint32{{0}}, [][]uint32{{0}, {}}, [][]uint32{{}, {}}, [][]uint32{{0}, {0}}, [][]uint32{{0, 0}})
	}
	if n >= 2 {
		r = append(r, [][]uint32{{0, 1}}, [][]uint32{{1, 0}}, [][]uint32{{1}}, [][]uint32{{0}, {1}}, [][]uint32{{1}, {0, 1}}, [][]uint32{{0, 1}, {0}, {}}, [][]uint32{{0}, {1}, {1, 0}})
	}
	if n >= 3 {
		r = append(r, [][]uint32{{2, 0}, {1}}, [][]uint32{{0, 1, 2}, {0, 1}, {0}}, [][]uint32{{2}, {0, 2}, {2, 1}})
	}
	return r
}

func relMakers() []relMaker {
	return []relMaker{
		{"filter", 1, func(ins []*pb.Rel, cs [][]*pb.Type) []prel {
			in, c := ins[0], cs[0]
			mk := func(e *pb.Expression) *pb.Rel { return relFilter(in, e) }
			r := []prel{{"", mk(condOn(c, 0, 1))}, {"lit", mk(xLit(lBool(true)))},
				{"exists", mk(xSubSet(relNamed("s", relColsB()...), 1))},
				{"in", mk(xSubIn(relNamed("s", tI32(nReq)), valOn(c, 0, 3)))},
				{"dyn", mk(xDyn(tBool(), 4))}}
			x := mk(condOn(c, len(c)-1, 2))
			x.GetFilter().AdvancedExtension = advExt("x")
			return append(r, prel{"adv", x})
		}},
		{"fetch", 1, func(ins []*pb.Rel, cs [][]*pb.Type) []prel {
			var r []prel
			for i, oc := range [][2]int64{{0, 5}, {7, 0}, {3, -1}, {1 << 62, 1<<63 - 1}} {
				f := &pb.FetchRel{Common: relDirect(), Input: ins[0], OffsetMode: &pb.FetchRel_Offset{Offset: oc[0]}, CountMode: &pb.FetchRel_Count{Count: oc[1]}}
				if i == 2 {
					f.AdvancedExtension = advExt("x")
				}
				r = append(r, prel{fmt.Sprint(i), &pb.Rel{RelType: &pb.Rel_Fetch{Fetch: f}}})
			}
			return r
		}},
		{"sort", 1, func(ins []*pb.Rel, cs [][]*pb.Type) []prel {
			var r []prel
			mk := func(id string, s ...*pb.SortField) {
				r = append(r, prel{id, &pb.Rel{RelType: &pb.Rel_Sort{Sort: &pb.SortRel{Common: relDirect(), Input: ins[0], Sorts: s}}}})
			}
			mk("", sortDir(valOn(cs[0], 0, 1), 1))
			for d := 2; d <= 5; d++ {
				mk(fmt.Sprint("dir", d), sortDir(valOn(cs[0], 1, 1), pb.SortField_SortDirection(d)))
			}
			mk("cmp", sortCmp(valOn(cs[0], 0, 1), fnCmp))
			mk("three", sortCmp(valOn(cs[0], 2, 1), fnCmp), sortDir(valOn(cs[0], 0, 1), 2), sortDir(condOn(cs[0], 1, 3), 3))
			r[len(r)-1].r.GetSort().AdvancedExtension = advExt("x")
			return r
		}},
		{"project", 1, func(ins []*pb.Rel, cs [][]*pb.Type) []prel {
			c := cs[0]
			r := []prel{{"", relProject(ins[0], relDirect(), condOn(c, 0, 1))},
				{"two", relProject(ins[0], relDirect(), valOn(c, 1, 1), xLit(lI64(4)))},
				{"cast", relProject(ins[0], relDirect(), xCast(valOn(c, 0, 1), leafT("fp64", nNul, 0), 2), valOn(c, 0, 9), valOn(c, 0, 8))},
				{"scalar", relProject(ins[0], relDirect(), xSubScalar(relNamed("s", leafT("i64", nNul, 7))))},
				{"window", relProject(ins[0], relDirect(), xWindow(fnRowNum, leafT("i64", nReq, 0), 0, 1, []*pb.Expression{valOn(c, 0, 1)}))},
				{"nested", relProject(ins[0], relDirect(), xNestStruct(false, 0, valOn(c, 0, 1), xLit(lStr("q"))), xNestList(true, 0, xLit(lI32(1))))}}
			x := relProject(ins[0], relDirect(), xLit(lI32(1)))
			x.GetProject().AdvancedExtension = advExt("x")
			return append(r, prel{"adv", x})
		}},
		{"aggregate", 1, func(ins []*pb.Rel, cs [][]*pb.Type) []prel {
			c := cs[0]
			ex := []*pb.Expression{valOn(c, 0, 1), valOn(c, 1, 2), condOn(c, 0, 3)}
			m := aggMeasure(fnSum, leafT("i64", nNul, 0), nil, valOn(c, 0, 1))
			r := []prel{{"", relAgg(ins[0], ex[:1], [][]uint32{{0}}, m)}}
			for n := 0; n <= 3; n++ {
				for i, s := range groupingShapes(n) {
					if n == 0 && i > 0 {
						break // without expressions there is no reference style
					}
					for k, ms := range [][]*pb.AggregateRel_Measure{nil, {m, aggMeasure(fnBar, leafT("string", nReq, 0), condOn(c, 1, 4), valOn(c, 1, 1))}} {
						r = append(r, prel{fmt.Sprintf("g%d.%d.m%d", n, i, k), relAgg(ins[0], ex[:n], s, ms...)})
					}
				}
			}
			// the older form: expressions inside the groupings
			old := func(id string, gs ...[]*pb.Expression) {
				a := &pb.AggregateRel{Common: relDirect(), Input: ins[0], Measures: []*pb.AggregateRel_Measure{m}}
				for _, g := range gs {
					a.Groupings = append(a.Groupings, &pb.AggregateRel_Grouping{GroupingExpressions: g})
				}
				r = append(r, prel{"old" + id, &pb.Rel{RelType: &pb.Rel_Aggregate{Aggregate: a}}})
			}
			old("1", ex[:1])
			old("2", ex[:2])
			old("dup", []*pb.Expression{ex[0], ex[0]})
			old("sets", []*pb.Expression{ex[1], ex[0]}, ex[:1], []*pb.Expression{ex[2]})
			old("empty", nil)
			old("mixed", ex[1:], nil)
			so := aggMeasure(fnSum, leafT("i64", nNul, 0), nil, valOn(c, 0, 1))
			so.Measure.Sorts = []*pb.SortField{sortDir(valOn(c, 1, 1), 2), sortCmp(valOn(c, 0, 1), fnCmp)}
			so.Measure.Options = []*pb.FunctionOption{{Name: "overflow", Preference: []string{"SILENT", "ERROR"}}}
			so.Measure.Invocation, so.Measure.Phase = 2, 1
			x := relAgg(ins[0], ex[:2], [][]uint32{{0}, {1}}, so, m)
			x.GetAggregate().AdvancedExtension = advExt("x")
			return append(r, prel{"sorted", x})
		}},
		{"write", 1, func(ins []*pb.Rel, cs [][]*pb.Type) []prel {
			var r []prel
			c := cs[0]
			for _, op := range []pb.WriteRel_WriteOp{pb.WriteRel_WRITE_OP_CTAS, pb.WriteRel_WRITE_OP_INSERT, pb.WriteRel_WRITE_OP_DELETE} {
				for cm := pb.WriteRel_CreateMode(0); cm <= 4; cm++ {
					w := &pb.WriteRel{Common: relDirect(), Input: ins[0], Op: op, CreateMode: cm, TableSchema: nsOf(c),
						WriteType: &pb.WriteRel_NamedTable{NamedTable: &pb.NamedObjectWrite{Names: []string{"db", "w"}}}}
					if cm == 2 {
						w.AdvancedExtension = advExt("w")
					}
					if cm == 3 {
						w.GetNamedTable().AdvancedExtension = advExt("n")
					}
					r = append(r, prel{fmt.Sprintf("%d.%d", op, cm), &pb.Rel{RelType: &pb.Rel_Write{Write: w}}})
				}
			}
			return r
		}},
		{"writeout", 1, func(ins []*pb.Rel, cs [][]*pb.Type) []prel {
			var r []prel
			for out := pb.WriteRel_OutputMode(1); out <= 2; out++ {
				w := &pb.WriteRel{Common: relDirect(), Input: ins[0], Op: pb.WriteRel_WRITE_OP_INSERT, Output: out, TableSchema: nsOf(cs[0]),
					WriteType: &pb.WriteRel_NamedTable{NamedTable: &pb.NamedObjectWrite{Names: []string{"db", "w"}}}}
				r = append(r, prel{fmt.Sprint(int(out)), &pb.Rel{RelType: &pb.Rel_Write{Write: w}}})
			}
			return r
		}},
		{"extsingle", 1, func(ins []*pb.Rel, cs [][]*pb.Type) []prel {
			mk := func(d *anypb.Any) *pb.Rel {
				return &pb.Rel{RelType: &pb.Rel_ExtensionSingle{ExtensionSingle: &pb.ExtensionSingleRel{Common: relDirect(), Input: ins[0], Detail: d}}}
			}
			return []prel{{"", mk(knownExt(leafT("date", nNul, 0)))}, {"none", mk(knownExt())}, {"undecoded", mk(&anypb.Any{TypeUrl: urlUnknownExt, Value: []byte("zz")})}, {"nodetail", mk(nil)}}
		}},
		{"extleaf", 0, func(ins []*pb.Rel, cs [][]*pb.Type) []prel {
			mk := func(d *anypb.Any) *pb.Rel {
				return &pb.Rel{RelType: &pb.Rel_ExtensionLeaf{ExtensionLeaf: &pb.ExtensionLeafRel{Common: relDirect(), Detail: d}}}
			}
			return []prel{{"", mk(knownExt(relColsA()...))}, {"B", mk(knownExt(relColsB()...))}, {"none", mk(knownExt())}, {"undecoded", mk(&anypb.Any{TypeUrl: urlUnknownExt, Value: []byte("zz")})}, {"nodetail", mk(nil)}}
		}},
		{"extmulti", 2, func(ins []*pb.Rel, cs [][]*pb.Type) []prel {
			mk := func(d *anypb.Any, ins ...*pb.Rel) *pb.Rel {
				return &pb.Rel{RelType: &pb.Rel_ExtensionMulti{ExtensionMulti: &pb.ExtensionMultiRel{Common: relDirect(), Inputs: ins, Detail: d}}}
			}
			return []prel{{"", mk(knownExt(leafT("date", nNul, 0)), ins...)}, {"one", mk(knownExt(), ins[0])}, {"zero", mk(knownExt(relColsB()...))},
				{"three", mk(knownExt(), ins[0], ins[1], ins[0])}, {"undecoded", mk(&anypb.Any{TypeUrl: urlUnknownExt, Value: []byte("zz")}, ins...)}, {"undecoded1", mk(&anypb.Any{TypeUrl: urlUnknownExt}, ins[1])}}
		}},
		{"join", 2, func(ins []*pb.Rel, cs [][]*pb.Type) []prel {
			var r []prel
			both := append(append([]*pb.Type{}, cs[0]...), cs[1]...)
			for ty := pb.JoinRel_JoinType(1); ty <= 12; ty++ {
				j := &pb.JoinRel{Common: relDirect(), Left: ins[0], Right: ins[1], Type: ty, Expression: condOn(both, len(both)-1, 1)}
				r = append(r, prel{fmt.Sprint(int(ty)), &pb.Rel{RelType: &pb.Rel_Join{Join: j}}})
				j2 := proto.Clone(j).(*pb.JoinRel)
				j2.PostJoinFilter, j2.AdvancedExtension = condOn(both, 0, 2), advExt("x")
				r = append(r, prel{fmt.Sprint(int(ty), "post"), &pb.Rel{RelType: &pb.Rel_Join{Join: j2}}})
			}
			return r
		}},
		{"cross", 2, func(ins []*pb.Rel, cs [][]*pb.Type) []prel {
			mk := func(a *ext.AdvancedExtension) *pb.Rel {
				return &pb.Rel{RelType: &pb.Rel_Cross{Cross: &pb.CrossRel{Common: relDirect(), Left: ins[0], Right: ins[1], AdvancedExtension: a}}}
			}
			return []prel{{"", mk(nil)}, {"adv", mk(advExt("x"))}}
		}},
		{"hash", 2, func(ins []*pb.Rel, cs [][]*pb.Type) []prel {
			var r []prel
			both := append(append([]*pb.Type{}, cs[0]...), cs[1]...)
			max := 5
			if len(cs[0]) == 0 || len(cs[1]) == 0 {
				max = 0
			}
			for ty := pb.HashJoinRel_JoinType(1); ty <= 13; ty++ {
				j := &pb.HashJoinRel{Common: relDirect(), Left: ins[0], Right: ins[1], Type: ty % 13, Keys: eqKeys(min(1, max), cs[0], cs[1])}
				r = append(r, prel{fmt.Sprint(int(ty % 13)), &pb.Rel{RelType: &pb.Rel_HashJoin{HashJoin: j}}})
				j2 := proto.Clone(j).(*pb.HashJoinRel)
				j2.PostJoinFilter, j2.BuildInput, j2.AdvancedExtension = condOn(both, len(both)-1, 2), pb.HashJoinRel_BuildInput(ty%3), advExt("x")
				r = append(r, prel{fmt.Sprint(int(ty%13), "post"), &pb.Rel{RelType: &pb.Rel_HashJoin{HashJoin: j2}}})
			}
			for n := 0; n <= max; n++ {
				for k, ks := range [][]*pb.ComparisonJoinKey{joinKeysOf(n, cs[0], cs[1]), eqKeys(n, cs[0], cs[1])} {
					j := &pb.HashJoinRel{Common: relDirect(), Left: ins[0], Right: ins[1], Type: 1, Keys: ks}
					r = append(r, prel{fmt.Sprintf("keys%d.%d", n, k), &pb.Rel{RelType: &pb.Rel_HashJoin{HashJoin: j}}})
					if k == 1 {
						o := &pb.HashJoinRel{Common: relDirect(), Left: ins[0], Right: ins[1], Type: 1}
						for _, x := range ks {
							o.LeftKeys, o.RightKeys = append(o.LeftKeys, x.Left), append(o.RightKeys, x.Right)
						}
						r = append(r, prel{fmt.Sprintf("legacy%d", n), &pb.Rel{RelType: &pb.Rel_HashJoin{HashJoin: o}}})
					}
				}
			}
			return r
		}},
		{"merge", 2, func(ins []*pb.Rel, cs [][]*pb.Type) []prel {
			var r []prel
			both := append(append([]*pb.Type{}, cs[0]...), cs[1]...)
			max := 5
			if len(cs[0]) == 0 || len(cs[1]) == 0 {
				max = 0
			}
			for ty := pb.MergeJoinRel_JoinType(1); ty <= 13; ty++ {
				j := &pb.MergeJoinRel{Common: relDirect(), Left: ins[0], Right: ins[1], Type: ty % 13, Keys: eqKeys(min(1, max), cs[0], cs[1])}
				r = append(r, prel{fmt.Sprint(int(ty % 13)), &pb.Rel{RelType: &pb.Rel_MergeJoin{MergeJoin: j}}})
				j2 := proto.Clone(j).(*pb.MergeJoinRel)
				j2.PostJoinFilter, j2.AdvancedExtension = condOn(both, len(both)-1, 2), advExt("x")
				r = append(r, prel{fmt.Sprint(int(ty%13), "post"), &pb.Rel{RelType: &pb.Rel_MergeJoin{MergeJoin: j2}}})
			}
			for n := 0; n <= max; n++ {
				for k, ks := range [][]*pb.ComparisonJoinKey{joinKeysOf(n, cs[0], cs[1]), eqKeys(n, cs[0], cs[1])} {
					j := &pb.MergeJoinRel{Common: relDirect(), Left: ins[0], Right: ins[1], Type: 1, Keys: ks}
					r = append(r, prel{fmt.Sprintf("keys%d.%d", n, k), &pb.Rel{RelType: &pb.Rel_MergeJoin{MergeJoin: j}}})
					if k == 1 {
						o := &pb.MergeJoinRel{Common: relDirect(), Left: ins[0], Right: ins[1], Type: 1}
						for _, x := range ks {
							o.LeftKeys, o.RightKeys = append(o.LeftKeys, x.Left), append(o.RightKeys, x.Right)
						}
						r = append(r, prel{fmt.Sprintf("legacy%d", n), &pb.Rel{RelType: &pb.Rel_MergeJoin{MergeJoin: o}}})
					}
				}
			}
			return r
		}},
		{"set", 1, func(ins []*pb.Rel, cs [][]*pb.Type) []prel {
			var r []prel
			second := relFilter(ins[0], xLit(lBool(false)))
			n := len(pb.SetRel_SetOp_name)
			for op := 1; op < n; op++ {
				for k := 2; k <= 3; k++ {
					s := &pb.SetRel{Common: relDirect(), Op: pb.SetRel_SetOp(op), Inputs: []*pb.Rel{ins[0], second, ins[0]}[:k]}
					if k == 3 {
						s.AdvancedExtension = advExt("x")
					}
					r = append(r, prel{fmt.Sprintf("%d.%d", op, k), &pb.Rel{RelType: &pb.Rel_Set{Set: s}}})
				}
			}
			return r
		}},
	}
}

// applyMaker gives the relations of a kind over the inputs, each a copy of its own.
func applyMaker(m relMaker, ins ...*pb.Rel) []prel {
	cs := make([][]*pb.Type, len(ins))
	for i, in := range ins {
		cs[i] = refRelCols(in)
	}
	r := m.mk(ins, cs)
	for i := range r {
		r[i].id = m.kind + ":" + r[i].id
		r[i].r = cloneRel(r[i].r)
	}
	return r
}

// baseRels: every variant of every kind over base tables, and the first variant
// of every kind with every common part.
func baseRels() []prel {
	r := readRels()
	a, b := relNamed("a", relColsA()...), relNamed("b", relColsB()...)
	firsts := []prel{r[0], r[4], r[6], r[9], r[11]}
	for _, m := range relMakers() {
		vs := applyMaker(m, []*pb.Rel{a, b}[:m.arity]...)
		r = append(r, vs...)
		firsts = append(firsts, vs[0])
		if m.kind == "writeout" {
			firsts = append(firsts, vs[1])
		}
		if m.kind == "aggregate" || m.kind == "join" || m.kind == "hash" || m.kind == "merge" {
			firsts = append(firsts, vs[len(vs)-1], vs[5])
		}
	}
	for _, f := range firsts {
		for _, cm := range commons(len(refRelCols(f.r))) {
			x := cloneRel(f.r)
			setCommon(x, cm.c)
			r = append(r, prel{f.id + "/" + cm.id, x})
		}
	}
	return r
}

// undecoded reports whether the schema of a relation is not known.
func undecoded(r *pb.Rel) bool {
	bad := func(d *anypb.Any) bool { return d.GetTypeUrl() != urlKnownExt }
	switch x := r.RelType.(type) {
	case *pb.Rel_ExtensionSingle:
		return bad(x.ExtensionSingle.Detail)
	case *pb.Rel_ExtensionMulti:
		return bad(x.ExtensionMulti.Detail)
	case *pb.Rel_ExtensionLeaf:
		return bad(x.ExtensionLeaf.Detail)
	}
	return false
}

// relUniverse: level 1 is baseRels, level 2 puts every base relation in every
// input of the first variants of every kind, level 3 again over a part of it.
func relUniverse(level int) []prel {
	base := baseRels()
	out := base
	prev := base
	b := relNamed("b", relColsB()...)
	for l := 2; l <= level; l++ {
		var next []prel
		for i, p := range prev {
			if undecoded(p.r) && commonOf(p.r).GetEmit() != nil {
				continue // the columns of such a relation are not known
			}
			if l > 2 && i%7 != 0 {
				continue
			}
			for _, m := range relMakers() {
				if m.arity == 0 {
					continue
				}
				var vs []prel
				switch m.arity {
				case 1:
					v := applyMaker(m, p.r)
					vs = append(vs, v[0], v[i%len(v)])
				case 2:
					v := applyMaker(m, p.r, b)
					w := applyMaker(m, b, p.r)
					vs = append(vs, v[0], v[i%len(v)], w[i%len(w)])
				}
				for k, v := range vs {
					if k > 0 {
						n := len(refRelCols(v.r))
						cm := commons(n)
						setCommon(v.r, cm[(i+k)%len(cm)].c)
					}
					next = append(next, prel{fmt.Sprintf("%s(%s)#%d", v.id, p.id, k), v.r})
				}
			}
		}
		out = append(out, next...)
		prev = next
	}
	return out
}

// refRelCols computes the output columns of a relation from the message alone.
func refRelCols(r *pb.Rel) []*pb.Type {
	var d []*pb.Type
	switch x := r.RelType.(type) {
	case *pb.Rel_Read:
		d = x.Read.GetBaseSchema().GetStruct().GetTypes()
	case *pb.Rel_Filter:
		d = refRelCols(x.Filter.Input)
	case *pb.Rel_Fetch:
		d = refRelCols(x.Fetch.Input)
	case *pb.Rel_Sort:
		d = refRelCols(x.Sort.Input)
	case *pb.Rel_Project:
		in := refRelCols(x.Project.Input)
		d = append(d, in...)
		for _, e := range x.Project.Expressions {
			d = append(d, refExprType(e, in))
		}
	case *pb.Rel_Aggregate:
		in := refRelCols(x.Aggregate.Input)
		ex, sets := x.Aggregate.GroupingExpressions, [][]uint32{}
		if len(ex) == 0 { // older form
			for _, g := range x.Aggregate.Groupings {
				var s []uint32
				for _, e := range g.GroupingExpressions {
					s = append(s, addExpr(&ex, e))
				}
				sets = append(sets, s)
			}
		} else {
			for _, g := range x.Aggregate.Groupings {
				sets = append(sets, g.ExpressionReferences)
			}
		}
		count := map[uint32]int{}
		var order []uint32
		for _, s := range sets {
			seen := map[uint32]bool{}
			for _, e := range s {
				if count[e] == 0 && !seen[e] {
					order = append(order, e)
				}
				if !seen[e] {
					count[e]++
				}
				seen[e] = true
			}
		}
		for _, e := range order {
			ty := refExprType(ex[e], in)
			if count[e] < len(sets) {
				ty = withNullability(ty, nNul)
			}
			d = append(d, ty)
		}
		for _, m := range x.Aggregate.Measures {
			d = append(d, m.Measure.OutputType)
		}
		if len(sets) > 1 {
			d = append(d, leafT("i32", nReq, 0))
		}
	case *pb.Rel_Write:
		if o := x.Write.Output; o == pb.WriteRel_OUTPUT_MODE_MODIFIED_RECORDS || o == 0 && x.Write.Op == pb.WriteRel_WRITE_OP_CTAS {
			d = x.Write.TableSchema.GetStruct().GetTypes()
		}
	case *pb.Rel_Cross:
		d = append(append(d, refRelCols(x.Cross.Left)...), refRelCols(x.Cross.Right)...)
	case *pb.Rel_Join:
		d = refJoinCols(x.Join.Type.String(), refRelCols(x.Join.Left), refRelCols(x.Join.Right))
	case *pb.Rel_HashJoin:
		d = refJoinCols(x.HashJoin.Type.String(), refRelCols(x.HashJoin.Left), refRelCols(x.HashJoin.Right))
	case *pb.Rel_MergeJoin:
		d = refJoinCols(x.MergeJoin.Type.String(), refRelCols(x.MergeJoin.Left), refRelCols(x.MergeJoin.Right))
	case *pb.Rel_Set:
		d = refRelCols(x.Set.Inputs[0])
	case *pb.Rel_ExtensionSingle:
		d = extCols(x.ExtensionSingle.Detail, x.ExtensionSingle.Input)
	case *pb.Rel_ExtensionMulti:
		d = extCols(x.ExtensionMulti.Detail, x.ExtensionMulti.Inputs...)
	case *pb.Rel_ExtensionLeaf:
		d = extCols(x.ExtensionLeaf.Detail)
	}
	if em := commonOf(r).GetEmit(); em != nil {
		var o []*pb.Type
		for _, i := range em.OutputMapping {
			if int(i) < len(d) {
				o = append(o, d[i])
			}
		}
		return o
	}
	return d
}

func addExpr(ex *[]*pb.Expression, e *pb.Expression) uint32 {
	for i, x := range *ex {
		if mtext(normExpr(x)) == mtext(normExpr(e)) {
			return uint32(i)
		}
	}
	*ex = append(*ex, e)
	return uint32(len(*ex) - 1)
}

func extCols(d *anypb.Any, ins ...*pb.Rel) []*pb.Type {
	var r []*pb.Type
	if d.GetTypeUrl() != urlKnownExt {
		if len(ins) == 1 { // guessed, by the documentation
			return refRelCols(ins[0])
		}
		return nil
	}
	for _, in := range ins {
		r = append(r, refRelCols(in)...)
	}
	s := &pb.Type_Struct{}
	if err := proto.Unmarshal(d.Value, s); err == nil {
		r = append(r, s.Types...)
	}
	return r
}

func allNullable(ts []*pb.Type) []*pb.Type {
	var r []*pb.Type
	for _, t := range ts {
		r = append(r, withNullability(t, nNul))
	}
	return r
}

func refJoinCols(ty string, l, r []*pb.Type) []*pb.Type {
	cat := func(a, b []*pb.Type) []*pb.Type { return append(append([]*pb.Type{}, a...), b...) }
	mark := []*pb.Type{leafT("boolean", nNul, 0)}
	switch ty {
	case "JOIN_TYPE_INNER", "JOIN_TYPE_UNSPECIFIED":
		return cat(l, r)
	case "JOIN_TYPE_OUTER":
		return cat(allNullable(l), allNullable(r))
	case "JOIN_TYPE_LEFT", "JOIN_TYPE_LEFT_SINGLE":
		return cat(l, allNullable(r))
	case "JOIN_TYPE_RIGHT", "JOIN_TYPE_RIGHT_SINGLE":
		return cat(allNullable(l), r)
	case "JOIN_TYPE_LEFT_SEMI", "JOIN_TYPE_LEFT_ANTI":
		return l
	case "JOIN_TYPE_RIGHT_SEMI", "JOIN_TYPE_RIGHT_ANTI":
		return r
	case "JOIN_TYPE_LEFT_MARK":
		return cat(l, mark)
	case "JOIN_TYPE_RIGHT_MARK":
		return cat(r, mark)
	}
	panic(ty)
}

// normRel is the canonical form of any message with relations in it: spellings
// with the same meaning become one, deprecated ones the current ones.
// strict: redundant deprecated parts must agree with what they repeat.
func normRel[M proto.Message](m M, strict bool) M {
	c := normLits(m)
	walkPB(c, func(x proto.Message) {
		if r, ok := x.(*pb.Rel); ok {
			normRelNode(r, strict)
		}
	})
	return c.(M)
}

func normRelNode(r *pb.Rel, strict bool) {
	if r.RelType == nil {
		return
	}
	c := commonOf(r)
	if c == nil {
		m := r.ProtoReflect()
		fd := m.WhichOneof(m.Descriptor().Oneofs().ByName("rel_type"))
		if m.Get(fd).Message().Descriptor().Fields().ByName("common") == nil {
			return
		}
		if !m.Get(fd).Message().IsValid() {
			return
		}
		setCommon(r, relDirect())
	} else if c.EmitKind == nil {
		c.EmitKind = relDirect().EmitKind
	}
	keys := func(ks []*pb.ComparisonJoinKey, l, r []*pb.Expression_FieldReference) ([]*pb.ComparisonJoinKey, bool) {
		if len(ks) > 0 {
			if strict && (len(l) > 0 || len(r) > 0) {
				if len(l) != len(ks) || len(r) != len(ks) {
					return ks, false
				}
				for i, k := range ks {
					if mtext(k.Left) != mtext(l[i]) || mtext(k.Right) != mtext(r[i]) || k.GetComparison().GetSimple() != 1 {
						return ks, false
					}
				}
			}
			return ks, true
		}
		if len(l) != len(r) {
			return nil, false
		}
		for i := range l {
			ks = append(ks, &pb.ComparisonJoinKey{Left: l[i], Right: r[i], Comparison: &pb.ComparisonJoinKey_ComparisonType{InnerType: &pb.ComparisonJoinKey_ComparisonType_Simple{Simple: 1}}})
		}
		return ks, true
	}
	switch x := r.RelType.(type) {
	case *pb.Rel_Read:
		if x.Read.BaseSchema == nil {
			x.Read.BaseSchema = &pb.NamedStruct{Struct: &pb.Type_Struct{}}
		}
		if v := x.Read.GetVirtualTable(); v != nil && len(v.Values) > 0 && len(v.Expressions) == 0 {
			for _, row := range v.Values {
				n := &pb.Expression_Nested_Struct{}
				for _, l := range row.Fields {
					n.Fields = append(n.Fields, xLit(l))
				}
				v.Expressions = append(v.Expressions, n)
			}
			v.Values = nil
		}
	case *pb.Rel_Write:
		if x.Write.TableSchema == nil {
			x.Write.TableSchema = &pb.NamedStruct{Struct: &pb.Type_Struct{}}
		}
	case *pb.Rel_Aggregate:
		a := x.Aggregate
		if len(a.GroupingExpressions) == 0 {
			for _, g := range a.Groupings {
				if len(g.GroupingExpressions) > 0 && len(g.ExpressionReferences) > 0 {
					return
				}
			}
			for _, g := range a.Groupings {
				for _, e := range g.GroupingExpressions {
					g.ExpressionReferences = append(g.ExpressionReferences, addExpr(&a.GroupingExpressions, e))
				}
				g.GroupingExpressions = nil
			}
		}
	case *pb.Rel_HashJoin:
		h := x.HashJoin
		if ks, ok := keys(h.Keys, h.LeftKeys, h.RightKeys); ok {
			h.Keys, h.LeftKeys, h.RightKeys = ks, nil, nil
		}
	case *pb.Rel_MergeJoin:
		h := x.MergeJoin
		if ks, ok := keys(h.Keys, h.LeftKeys, h.RightKeys); ok {
			h.Keys, h.LeftKeys, h.RightKeys = ks, nil, nil
		}
	}
}

func pbVal(m proto.Message) protoreflect.Value { return protoreflect.ValueOfMessage(m.ProtoReflect()) }
