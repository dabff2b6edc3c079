package main

import (
	"fmt"
	"regexp"
	"strconv"
	"strings"

	pb "github.com/substrait-io/substrait-protobuf/go/substraitpb"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
)

// Relations with many parts: the other universes vary every part but keep the
// lists short, so these look at what only long lists show (positions beyond a
// byte, growth of a shared slice, several grouping sets at once).

// manyCols lists n columns of changing types and nullability.
func manyCols(n int) []*pb.Type {
	kinds := []string{"i32", "string", "boolean", "i64", "date", "fp64", "binary"}
	var r []*pb.Type
	for i := 0; i < n; i++ {
		q := nReq
		if i%3 == 1 {
			q = nNul
		}
		r = append(r, leafT(kinds[(i+i/7)%len(kinds)], q, uint32(i%2)*uint32(i)))
	}
	return r
}

func sizedRels(thorough bool) []prel {
	var r []prel
	add := func(id string, x *pb.Rel) { r = append(r, prel{"sized-" + id, x}) }
	tag := func(i int) *pb.Expression { return xLit(lI32(int32(i))) }
	narrow := relNamed("s", manyCols(3)...)
	for _, n := range []int{4, 5, 8, 9, 16, 17, 33, 65, 129, 257, 300} {
		cols := manyCols(n)
		w, w2 := relNamed("w", cols...), relNamed("v", append([]*pb.Type{leafT("uuid", nReq, 0)}, cols...)...)
		last := int32(n - 1)
		all := identity(n)
		back := make([]int32, n)
		for i := range back {
			back[i] = last - int32(i)
		}
		for k, m := range [][]int32{nil, {last}, {last, 0, last}, all, back, append(append([]int32{}, back...), all...), all[:n-1], {}} {
			for j, x := range []*pb.Rel{w, relFilter(w, condOn(cols, n-1, 1)), relProject(relNamed("p", cols[:n-1]...), relDirect(), condOn(cols[:n-1], n-2, 1))} {
				x = cloneRel(x)
				if m != nil {
					x = setCommon(x, relEmit(m...))
				}
				add(fmt.Sprintf("emit%d-%d.%d", n, k, j), x)
			}
		}
		if n == 17 || n == 300 || thorough {
			for _, m := range relMakers() {
				for _, x := range applyMaker(m, []*pb.Rel{w, w2}[:m.arity]...) {
					add(fmt.Sprintf("wide%d-%s", n, x.id), x.r)
				}
			}
		}
		var es []*pb.Expression
		var sorts []*pb.SortField
		var ms []*pb.AggregateRel_Measure
		var refs []uint32
		var rows []*pb.Expression_Nested_Struct
		var files []*pb.ReadRel_LocalFiles_FileOrFiles
		var ins []*pb.Rel
		for i := 0; i < n; i++ {
			es = append(es, tag(i))
			sorts = append(sorts, sortDir(xCol(int32(i)), pb.SortField_SortDirection(i%4+1)))
			var filter *pb.Expression
			if i%3 == 2 {
				filter = condOn(cols, i, int32(i))
			}
			ms = append(ms, aggMeasure([]uint32{fnSum, fnBar}[i%2], manyCols(i + 1)[i], filter, tag(i)))
			refs = append(refs, uint32(i))
			rows = append(rows, &pb.Expression_Nested_Struct{Fields: []*pb.Expression{tag(i)}})
			files = append(files, &pb.ReadRel_LocalFiles_FileOrFiles{PathType: &pb.ReadRel_LocalFiles_FileOrFiles_UriFile{UriFile: fmt.Sprint("f", i)}, Start: uint64(i), Length: 1,
				FileFormat: &pb.ReadRel_LocalFiles_FileOrFiles_Orc{Orc: &pb.ReadRel_LocalFiles_FileOrFiles_OrcReadOptions{}}})
			ins = append(ins, relFilter(narrow, condOn(manyCols(3), 0, int32(i))))
		}
		add(fmt.Sprint("project", n), relProject(narrow, relDirect(), es...))
		add(fmt.Sprint("project-last", n), relProject(narrow, relEmit(last+3, 0, last+2), es...))
		add(fmt.Sprint("sort", n), &pb.Rel{RelType: &pb.Rel_Sort{Sort: &pb.SortRel{Common: relDirect(), Input: w, Sorts: sorts}}})
		add(fmt.Sprint("measures", n), relAgg(w, nil, nil, ms...))
		add(fmt.Sprint("grouping", n), relAgg(w, es, [][]uint32{refs}, ms[0]))
		add(fmt.Sprint("grouping-two", n), relAgg(w, es, [][]uint32{refs[n/2:], refs[:n/2+1]}, ms...))
		singles := [][]uint32{}
		rolled := [][]uint32{}
		for i := range refs {
			singles = append(singles, refs[i:i+1])
			rolled = append(rolled, refs[:n-i])
		}
		add(fmt.Sprint("grouping-singles", n), relAgg(w, es, singles, ms[0]))
		add(fmt.Sprint("grouping-rollup", n), relAgg(w, es, rolled, ms[0]))
		add(fmt.Sprint("rows", n), relRead(&pb.ReadRel{Common: relDirect(), BaseSchema: nsOf([]*pb.Type{tI32(nReq)}), ReadType: &pb.ReadRel_VirtualTable_{VirtualTable: &pb.ReadRel_VirtualTable{Expressions: rows}}}))
		add(fmt.Sprint("files", n), relRead(&pb.ReadRel{Common: relDirect(), BaseSchema: nsOf(cols), ReadType: &pb.ReadRel_LocalFiles_{LocalFiles: &pb.ReadRel_LocalFiles{Items: files}}}))
		add(fmt.Sprint("set", n), &pb.Rel{RelType: &pb.Rel_Set{Set: &pb.SetRel{Common: relDirect(), Inputs: ins, Op: 4}}})
		add(fmt.Sprint("multi", n), &pb.Rel{RelType: &pb.Rel_ExtensionMulti{ExtensionMulti: &pb.ExtensionMultiRel{Common: relDirect(), Inputs: ins, Detail: knownExt(cols...)}}})
		for k := 1; k <= 12; k++ {
			if n > 17 && k%4 != 1 {
				continue
			}
			add(fmt.Sprintf("hash%d.%d", n, k), &pb.Rel{RelType: &pb.Rel_HashJoin{HashJoin: &pb.HashJoinRel{Common: relDirect(), Left: w, Right: w2, Type: pb.HashJoinRel_JoinType(k), Keys: joinKeysOf(n, cols, cols)}}})
			add(fmt.Sprintf("merge%d.%d", n, k), &pb.Rel{RelType: &pb.Rel_MergeJoin{MergeJoin: &pb.MergeJoinRel{Common: relDirect(), Left: w, Right: w2, Type: pb.MergeJoinRel_JoinType(k), Keys: joinKeysOf(n, cols, cols)}}})
		}
		if n <= 65 {
			x := narrow
			for i := 0; i < n; i++ {
				if i%2 == 0 {
					x = relFilter(x, condOn(manyCols(3), 0, int32(i)))
				} else {
					x = relProject(x, relEmit(3, 1, 0), tag(i))
				}
			}
			add(fmt.Sprint("deep", n), x)
		}
	}
	// every list of three and four (five) grouping sets over two expressions
	sub := [][]uint32{{}, {0}, {1}, {0, 1}}
	m := aggMeasure(fnSum, leafT("i64", nNul, 0), nil, tag(1))
	a := relNamed("a", relColsA()...)
	ex := []*pb.Expression{xCol(0), xCol(2)}
	top := 4
	if thorough {
		top = 5
	}
	for n := 3; n <= top; n++ {
		total := 1
		for i := 0; i < n; i++ {
			total *= len(sub)
		}
		for k := 0; k < total; k++ {
			var sets [][]uint32
			used := [2]bool{}
			for i, v := 0, k; i < n; i, v = i+1, v/len(sub) {
				sets = append(sets, sub[v%len(sub)])
				for _, e := range sub[v%len(sub)] {
					used[e] = true
				}
			}
			if used == [2]bool{true, true} {
				add(fmt.Sprintf("sets%d.%d", n, k), relAgg(a, ex, sets, m))
			}
		}
	}
	return r
}

var sizedNum = regexp.MustCompile(`^sized-[a-z-]+(\d+)`)

func sizeOf(id string) int {
	n := 0
	if m := sizedNum.FindStringSubmatch(id); m != nil {
		n, _ = strconv.Atoi(m[1])
	}
	return n
}

// sizedExprs are expressions with long lists of parts and deep ones.
func sizedExprs(limit int) []px {
	var r []px
	add := func(n int, id string, e *pb.Expression) { r = append(r, px{fmt.Sprintf("sized-%s%d", id, n), e}) }
	for _, n := range []int{4, 5, 8, 9, 16, 17, 33, 65, 129, 257, 300} {
		if n > limit {
			break
		}
		var k, b []*pb.Expression
		var ls []*pb.Expression_Literal
		var opts []*pb.FunctionOption
		var types []*pb.Type
		var kvs []*pb.Expression_Literal_Map_KeyValue
		for i := 0; i < n; i++ {
			k = append(k, xLit(lI32(int32(i))))
			b = append(b, xScalar(fnFoo, tBool(), nil, argV(xCol(0)), argV(xLit(lI32(int32(i))))))
			ls = append(ls, lI32(int32(i)))
			opts = append(opts, &pb.FunctionOption{Name: fmt.Sprint("o", i), Preference: []string{fmt.Sprint("p", i), "q"}[:i%2+1]})
			kvs = append(kvs, &pb.Expression_Literal_Map_KeyValue{Key: lI32(int32(i)), Value: lStr(fmt.Sprint(i))})
		}
		types = manyCols(n)
		many := &pb.FunctionOption{Name: "many"}
		for i := 0; i < n; i++ {
			many.Preference = append(many.Preference, fmt.Sprint("p", i))
		}
		add(n, "fn", xScalar(fnFoo, tI32(nReq), nil, argsV(k)...))
		add(n, "opts", xScalar(fnAdd, tI32(nReq), opts, argsV(k[:2])...))
		add(n, "pref", xScalar(fnAdd, tI32(nReq), []*pb.FunctionOption{many}, argsV(k[:2])...))
		add(n, "wargs", xWindow(fnBaz, tI32(nReq), n, 0, k))
		add(n, "wparts", xWindow(fnRowNum, leafT("i64", nReq, 0), 0, n, k))
		add(n, "wsorts", xWindow(fnRowNum, leafT("i64", nReq, 0), 0, 0, k))
		w := xWindow(fnBaz, tI32(nReq), 1, 1, k)
		w.GetWindowFunction().Options = opts
		add(n, "wopts", w)
		iff := append([]*pb.Expression{}, k[0])
		for i := 0; i < n; i++ {
			iff = append(iff, b[i], k[i])
		}
		if n%2 == 0 {
			iff = iff[1:]
		}
		add(n, "if", xIf(iff...))
		add(n, "switch", xSwitch(xCol(0), xLit(lI32(-1)), ls, k...))
		add(n, "or", xOr(xCol(0), k...))
		add(n, "multior", xMultiOr(2, append(append([]*pb.Expression{}, k...), k[:n%2]...)...))
		add(n, "multiorwide", xMultiOr(n, append(append([]*pb.Expression{}, k...), k...)...))
		add(n, "list", xNestList(true, 3, k...))
		add(n, "struct", xNestStruct(false, 0, k...))
		add(n, "map", xNestMap(false, 0, append(append([]*pb.Expression{}, k...), k...)...))
		add(n, "lambda", xLambda(xLambdaRef(0, segField(int32(n-1), nil)), 0, types...))
		add(n, "litlist", xLit(lList(ls...)))
		add(n, "litstruct", xLit(&pb.Expression_Literal{LiteralType: &pb.Expression_Literal_Struct_{Struct: &pb.Expression_Literal_Struct{Fields: ls}}}))
		add(n, "litmap", xLit(&pb.Expression_Literal{LiteralType: &pb.Expression_Literal_Map_{Map: &pb.Expression_Literal_Map{KeyValues: kvs}}}))
		add(n, "casttype", xCast(xLit(&pb.Expression_Literal{Nullable: true, LiteralType: &pb.Expression_Literal_Null{Null: pbStruct(nNul, 0, types...)}}), pbStruct(nNul, 0, types...), 1))
		add(n, "in", xSubIn(relNamed("s", manyColsOf(n)...), k...))
		add(n, "strlit", xLit(lStr(strings.Repeat("é", n))))
		add(n, "field", xExprRef(xNestStruct(false, 0, k...), segField(int32(n-1), nil)))
		if n <= 33 {
			c, l, f, o := xCol(0), xCol(0), xCol(0), xCol(0)
			for i := 0; i < n; i++ {
				c = xCast(c, leafT([]string{"i64", "i32"}[i%2], nReq, 0), pb.Expression_Cast_FailureBehavior(i%2+1))
				l = xNestList(i%2 == 1, uint32(i), l)
				f = xScalar(fnFoo, tI32(nReq), nil, argV(f), argV(k[i]))
				o = xIf(k[0], b[i], o)
			}
			add(n, "deepcast", c)
			add(n, "deeplist", l)
			add(n, "deepfn", f)
			add(n, "deepif", o)
		}
	}
	return r
}

func manyColsOf(n int) []*pb.Type {
	var r []*pb.Type
	for i := 0; i < n; i++ {
		r = append(r, tI32(nReq))
	}
	return r
}

// sizedTypes are types with many parts, and deep nests.
func sizedTypes(thorough bool) []ptype {
	var r []ptype
	add := func(id string, p *pb.Type) { r = append(r, ptype{id, p}) }
	sizes := []int{4, 5, 8, 9, 16, 17, 33, 65, 129}
	if thorough {
		sizes = append(sizes, 257, 300)
	}
	for _, n := range sizes {
		cols := manyCols(n)
		add(fmt.Sprint("struct", n), pbStruct(nReq, 0, cols...))
		add(fmt.Sprint("struct-in-list", n), pbList(nNul, 7, pbStruct(nNul, 0, cols...)))
		add(fmt.Sprint("func", n), pbFunc(nReq, cols[n-1], cols...))
		var ps []*pb.Type_Parameter
		for i, x := range cols {
			switch i % 3 {
			case 0:
				ps = append(ps, &pb.Type_Parameter{Parameter: &pb.Type_Parameter_DataType{DataType: x}})
			case 1:
				ps = append(ps, &pb.Type_Parameter{Parameter: &pb.Type_Parameter_Integer{Integer: int64(i)}})
			default:
				ps = append(ps, &pb.Type_Parameter{Parameter: &pb.Type_Parameter_String_{String_: fmt.Sprint("p", i)}})
			}
		}
		add(fmt.Sprint("udt", n), pbUDT(nReq, 0, 2, ps...))
		if n <= 33 {
			for shape := 0; shape < 4; shape++ {
				p := leafT("string", nNul, 3)
				for i := 0; i < n; i++ {
					q := nReq
					if i%2 == 1 {
						q = nNul
					}
					switch (i*shape + shape) % 4 {
					case 0:
						p = pbList(q, uint32(i), p)
					case 1:
						p = pbMap(q, 0, leafT("i32", nReq, 0), p)
					case 2:
						p = pbStruct(q, 0, leafT("date", nReq, 0), p)
					default:
						p = pbFunc(q, p, leafT("i64", nReq, 0))
					}
				}
				add(fmt.Sprintf("deep%d.%d", n, shape), p)
			}
		}
	}
	return r
}

// typeEdits changes the nullability of one part at any depth at a time.
func typeEdits(p *pb.Type) []*pb.Type {
	var r []*pb.Type
	for k := 0; ; k++ {
		q := proto.Clone(p).(*pb.Type)
		i, hit := 0, false
		var walk func(m protoreflect.Message)
		walk = func(m protoreflect.Message) {
			m.Range(func(fd protoreflect.FieldDescriptor, v protoreflect.Value) bool {
				switch {
				case fd.IsList() && fd.Message() != nil:
					for j := 0; j < v.List().Len(); j++ {
						walk(v.List().Get(j).Message())
					}
				case !fd.IsList() && !fd.IsMap() && fd.Message() != nil:
					walk(v.Message())
				case fd.Name() == "nullability":
					if i == k {
						hit = true
						n := protoreflect.EnumNumber(1)
						if v.Enum() == 1 {
							n = 2
						}
						m.Set(fd, protoreflect.ValueOfEnum(n))
					}
					i++
				}
				return !hit
			})
		}
		walk(q.ProtoReflect())
		if !hit {
			return r
		}
		r = append(r, q)
	}
}

// plainTypes drops the variations, which have no text.
func plainTypes(ts []ptype) []ptype {
	var r []ptype
	for _, x := range ts {
		q := proto.Clone(x.p).(*pb.Type)
		var walk func(m protoreflect.Message)
		walk = func(m protoreflect.Message) {
			if fd := m.Descriptor().Fields().ByName("type_variation_reference"); fd != nil {
				m.Clear(fd)
			}
			m.Range(func(fd protoreflect.FieldDescriptor, v protoreflect.Value) bool {
				switch {
				case fd.IsList() && fd.Message() != nil:
					for j := 0; j < v.List().Len(); j++ {
						walk(v.List().Get(j).Message())
					}
				case !fd.IsList() && !fd.IsMap() && fd.Message() != nil:
					walk(v.Message())
				}
				return true
			})
		}
		walk(q.ProtoReflect())
		r = append(r, ptype{"plain-" + x.id, q})
	}
	return r
}
