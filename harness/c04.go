// C04: the plan builder accepts exactly the well-formed relations.
package main

import (
	"fmt"
	"math"

	"github.com/substrait-io/substrait-go/v8/expr"
	"github.com/substrait-io/substrait-go/v8/plan"
	"github.com/substrait-io/substrait-go/v8/types"
	pb "github.com/substrait-io/substrait-protobuf/go/substraitpb"
	"google.golang.org/protobuf/types/known/anypb"
)

func init() {
	checks["C04"] = &Check{Run: runC04, Quick: 250, Thorough: 850, Shards: 8,
		Bounds: "every builder operation x the product of its arguments: inputs (none, tables of 0, 2 and 3 columns, a projection, a mapped relation) x conditions (none, boolean literal/column/nullable, non-boolean) x mappings (none, empty, valid, repeated, out of range low and high) x expression lists of length 0-3 with missing elements x all join types and set operations incl. unspecified and unknown ones x 0-3 set inputs of equal and unequal schemas x row matrices of virtual tables up to 2x3 with every misfit x sort fields with missing parts x field indices around the ends x root name counts 0-9 over flat and nested schemas; each accepted relation against the message and columns computed from the arguments, written, read and written again; every builder call with argument lists of 4-300 parts over inputs as wide, sound or with one flaw at the start, middle or end, and chains of up to 65 calls",
		Assume: []string{"any int64 is a valid count or offset (existing tests)", "table names, and schemas of scans and writes, are taken as given", "the written form of a write has no output mode (finding of C01)"}}
}

type bin struct {
	id  string
	rel plan.Rel // nil: missing
	msg *pb.Rel
}
type bexpr struct {
	id   string
	e    expr.Expression // nil: missing
	msg  *pb.Expression
	bool bool
}

type c04env struct {
	b    plan.Builder
	reg  expr.ExtensionRegistry
	ins  []bin
	exps func(in bin) []bexpr
}

func newC04(t *T) *c04env {
	e := &c04env{b: plan.NewBuilder(defColl()), reg: relReg()}
	add := func(id string, m *pb.Rel) {
		r, err := plan.RelFromProto(m, e.reg)
		if err != nil {
			t.Failf("rejected: %v %s", err, show(m))
			return
		}
		e.ins = append(e.ins, bin{id, r, m})
	}
	e.ins = append(e.ins, bin{id: "missing"})
	add("A", relNamed("a", relColsA()...))
	add("B", relNamed("b", relColsB()...))
	add("zero", relNamed("z"))
	add("proj", relProject(relNamed("a", relColsA()...), relEmit(3, 0), xLit(lI32(1))))
	m := relNamed("m", relColsA()...)
	m.GetRead().Common = relEmit(2, 2)
	add("mapped", m)
	e.exps = func(in bin) []bexpr {
		lit := func(id string, l *pb.Expression_Literal, b bool) bexpr {
			return bexpr{id, expr.LiteralFromProto(l), xLit(l), b}
		}
		nb := lBool(true)
		nb.Nullable = true
		r := []bexpr{{id: "missing"}, lit("true", lBool(true), true), lit("nullable", nb, true), lit("null", lNull(leafT("boolean", nNul, 0)), true), lit("i32", lI32(3), false), lit("str", lStr("x"), false)}
		if in.rel != nil {
			for i, c := range refRelCols(in.msg) {
				f, err := e.b.RootFieldRef(in.rel, int32(i))
				if err != nil {
					t.Failf("reference to column %d of %s: %v", i, in.id, err)
					continue
				}
				r = append(r, bexpr{fmt.Sprint("col", i), f, f.ToProto(), c.GetBool() != nil})
			}
		}
		return r
	}
	return e
}

// verdict compares what a call gives with what it must give; want nil: an error.
func (e *c04env) verdict(t *T, what string, got plan.Rel, isNil bool, err error, want *pb.Rel) {
	t.Trans(1)
	t.State(what)
	if want == nil {
		if err == nil {
			t.Failf("%s is accepted: %s", what, show(got.ToProto()))
		}
		return
	}
	if err != nil {
		t.Failf("%s is rejected: %v", what, err)
		return
	}
	if isNil {
		t.Failf("%s gives neither a relation nor an error", what)
		return
	}
	q := got.ToProto()
	g, w := normRel(q, true), normRel(want, false)
	if mtext(g) != mtext(w) {
		t.Failf("%s gives\n  %s\n want\n  %s", what, show(g), show(w))
		return
	}
	if !hasOutputMode(want) && want.GetWrite() == nil {
		if s, ws := schemaText(got), colsTextOf(refRelCols(want)); s != ws {
			t.Failf("%s has columns %q, want %q", what, s, ws)
		}
	}
	if want.GetWrite() != nil && commonOf(want).GetEmit() != nil {
		return // cannot be read again without the output mode
	}
	if op := want.GetWrite().GetOp(); want.GetWrite() != nil && op != pb.WriteRel_WRITE_OP_INSERT && op != pb.WriteRel_WRITE_OP_DELETE && op != pb.WriteRel_WRITE_OP_CTAS {
		return // operations without a reading
	}
	reg := e.reg
	if len(want.GetAggregate().GetMeasures()) > 0 {
		// functions are declared by the plan around the relation
		p, err := e.b.Plan(got, rootNamesOf(refRelCols(want)))
		if err != nil {
			t.Failf("%s cannot be made the root of a plan: %v", what, err)
			return
		}
		reg = p.ExtensionRegistry()
	}
	r2, err := plan.RelFromProto(q, reg)
	if err != nil {
		t.Failf("%s cannot be read again: %v %s", what, err, show(q))
		return
	}
	if mtext(r2.ToProto()) != mtext(q) {
		t.Failf("%s changes when written and read again: %s / %s", what, show(q), show(r2.ToProto()))
	}
}

// try runs a call and its verdict; a panic is a failure of its own.
func (e *c04env) try(t *T, what string, want *pb.Rel, call func() (plan.Rel, bool, error)) {
	var r plan.Rel
	var n bool
	var err error
	if msg := catch(func() { r, n, err = call() }); msg != "" {
		t.Failf("%s panics: %s", what, msg)
		return
	}
	e.verdict(t, what, r, n, err, want)
}

func res[R interface {
	plan.Rel
	comparable
}](r R, err error) (plan.Rel, bool, error) {
	var zero R
	if r == zero {
		return nil, true, err
	}
	return r, false, err
}

type bmap struct {
	id    string
	m     []int32
	valid bool
}

func bmaps(n int) []bmap {
	r := []bmap{{"nil", nil, true}, {"empty", []int32{}, true}, {"end", []int32{int32(n)}, false}, {"neg", []int32{-1}, false}}
	if n > 0 {
		r = append(r, bmap{"first", []int32{0}, true}, bmap{"lastfirstlast", []int32{int32(n - 1), 0, int32(n - 1)}, true}, bmap{"okend", []int32{0, int32(n)}, false}, bmap{"okneg", []int32{0, math.MinInt32}, false})
	}
	return r
}

func commonFor(m []int32) *pb.RelCommon {
	if m == nil {
		return relDirect()
	}
	return relEmit(m...)
}

// withMap: the wanted message for a mapping, or nil.
func withMap(ok bool, w *pb.Rel, m bmap) *pb.Rel {
	if !ok || !m.valid {
		return nil
	}
	return setCommon(cloneRel(w), commonFor(m.m))
}

func runC04(c *Ctx) {
	unary := func(name string, f func(t *T, e *c04env, in bin)) {
		for i := 0; i < 6; i++ {
			c.Case(func(t *T) {
				e := newC04(t)
				f(t, e, e.ins[i])
				t.Validated()
			}, name, i)
		}
	}
	binary := func(name string, f func(t *T, e *c04env, l, r bin)) {
		for i := 0; i < 6; i++ {
			for j := 0; j < 6; j++ {
				c.Case(func(t *T) {
					e := newC04(t)
					f(t, e, e.ins[i], e.ins[j])
					t.Validated()
				}, name, i, j)
			}
		}
	}
	ncols := func(b bin) int {
		if b.rel == nil {
			return 2
		}
		return len(refRelCols(b.msg))
	}
	unary("filter", func(t *T, e *c04env, in bin) {
		for _, x := range e.exps(in) {
			ok := in.rel != nil && x.e != nil && x.bool
			w := relFilter(in.msg, x.msg)
			for _, m := range bmaps(ncols(in)) {
				e.try(t, fmt.Sprintf("FilterRemap(%s, %s, %s)", in.id, x.id, m.id), withMap(ok, w, m), func() (plan.Rel, bool, error) { return res(e.b.FilterRemap(in.rel, x.e, m.m)) })
			}
			e.try(t, fmt.Sprintf("Filter(%s, %s)", in.id, x.id), withMap(ok, w, bmap{valid: true}), func() (plan.Rel, bool, error) { return res(e.b.Filter(in.rel, x.e)) })
		}
	})
	unary("fetch", func(t *T, e *c04env, in bin) {
		vals := []int64{0, 1, -1, math.MaxInt64, math.MinInt64}
		for _, o := range vals {
			for _, n := range vals {
				w := &pb.Rel{RelType: &pb.Rel_Fetch{Fetch: &pb.FetchRel{Input: in.msg, OffsetMode: &pb.FetchRel_Offset{Offset: o}, CountMode: &pb.FetchRel_Count{Count: n}}}}
				for _, m := range bmaps(ncols(in)) {
					e.try(t, fmt.Sprintf("FetchRemap(%s, %d, %d, %s)", in.id, o, n, m.id), withMap(in.rel != nil, w, m), func() (plan.Rel, bool, error) { return res(e.b.FetchRemap(in.rel, o, n, m.m)) })
				}
				e.try(t, fmt.Sprintf("Fetch(%s, %d, %d)", in.id, o, n), withMap(in.rel != nil, w, bmap{valid: true}), func() (plan.Rel, bool, error) { return res(e.b.Fetch(in.rel, o, n)) })
			}
		}
	})
	unary("project", func(t *T, e *c04env, in bin) {
		xs := e.exps(in)
		var lists [][]bexpr
		lists = append(lists, nil)
		for i, a := range xs {
			lists = append(lists, []bexpr{a})
			for j, b := range xs {
				lists = append(lists, []bexpr{a, b})
				if (i+j)%3 == 0 {
					lists = append(lists, []bexpr{a, b, xs[(i+2*j)%len(xs)]})
				}
			}
		}
		for _, l := range lists {
			ok := in.rel != nil && len(l) > 0
			var ex []expr.Expression
			var ms []*pb.Expression
			id := ""
			for _, x := range l {
				ok = ok && x.e != nil
				ex, ms, id = append(ex, x.e), append(ms, x.msg), id+x.id+" "
			}
			w := relProject(in.msg, relDirect(), ms...)
			for _, m := range bmaps(ncols(in) + len(l)) {
				e.try(t, fmt.Sprintf("ProjectRemap(%s, %s, %s)", in.id, m.id, id), withMap(ok, w, m), func() (plan.Rel, bool, error) { return res(e.b.ProjectRemap(in.rel, m.m, ex...)) })
			}
			e.try(t, fmt.Sprintf("Project(%s, %s)", in.id, id), withMap(ok, w, bmap{valid: true}), func() (plan.Rel, bool, error) { return res(e.b.Project(in.rel, ex...)) })
		}
	})
	unary("sort", func(t *T, e *c04env, in bin) {
		xs := e.exps(in)
		type sf struct {
			s  expr.SortField
			m  *pb.SortField
			ok bool
			id string
		}
		var fs []sf
		for _, x := range xs {
			fs = append(fs, sf{expr.SortField{Expr: x.e}, nil, false, x.id + "/nokind"})
			for d := int32(1); d <= 5; d++ {
				fs = append(fs, sf{expr.SortField{Expr: x.e, Kind: types.SortDirection(d)}, sortDir(x.msg, pb.SortField_SortDirection(d)), x.e != nil, fmt.Sprint(x.id, "/", d)})
			}
			fs = append(fs, sf{expr.SortField{Expr: x.e, Kind: types.FunctionRef(fnCmp)}, sortCmp(x.msg, fnCmp), x.e != nil, x.id + "/cmp"})
		}
		lists := [][]sf{nil}
		for i, a := range fs {
			lists = append(lists, []sf{a}, []sf{a, fs[(i*7+3)%len(fs)]}, []sf{fs[1], a, fs[8]})
		}
		for _, l := range lists {
			ok := in.rel != nil && len(l) > 0
			var ss []expr.SortField
			var ms []*pb.SortField
			id := ""
			for _, x := range l {
				ok = ok && x.ok
				ss, ms, id = append(ss, x.s), append(ms, x.m), id+x.id+" "
			}
			w := &pb.Rel{RelType: &pb.Rel_Sort{Sort: &pb.SortRel{Input: in.msg, Sorts: ms}}}
			for _, m := range bmaps(ncols(in)) {
				e.try(t, fmt.Sprintf("SortRemap(%s, %s, %s)", in.id, m.id, id), withMap(ok, w, m), func() (plan.Rel, bool, error) { return res(e.b.SortRemap(in.rel, m.m, ss...)) })
			}
			e.try(t, fmt.Sprintf("Sort(%s, %s)", in.id, id), withMap(ok, w, bmap{valid: true}), func() (plan.Rel, bool, error) { return res(e.b.Sort(in.rel, ss...)) })
		}
		// sort fields and references by index
		n := ncols(in)
		for _, ix := range [][]int32{{}, {0}, {int32(n)}, {-1}, {int32(n - 1), 0}, {0, int32(n)}, {math.MaxInt32}, {math.MinInt32}} {
			ok := in.rel != nil || len(ix) == 0
			for _, i := range ix {
				ok = ok && i >= 0 && int(i) < n
			}
			var fs []expr.SortField
			var err error
			if msg := catch(func() { fs, err = e.b.SortFields(in.rel, ix...) }); msg != "" {
				t.Failf("SortFields(%s, %v) panics: %s", in.id, ix, msg)
				continue
			}
			if ok != (err == nil) {
				t.Failf("SortFields(%s, %v): error is %v", in.id, ix, err)
			}
			if err == nil {
				for k, f := range fs {
					if mtext(f.ToProto()) != mtext(normSort(xCol(ix[k]), pb.SortField_SORT_DIRECTION_ASC_NULLS_LAST)) {
						t.Failf("SortFields(%s, %v) gives %s", in.id, ix, show(f.ToProto()))
					}
				}
			}
			for _, i := range ix {
				var f *expr.FieldReference
				if msg := catch(func() { f, err = e.b.RootFieldRef(in.rel, i) }); msg != "" {
					t.Failf("RootFieldRef(%s, %d) panics: %s", in.id, i, msg)
					continue
				}
				if ok := in.rel != nil && i >= 0 && int(i) < n; ok != (err == nil) {
					t.Failf("RootFieldRef(%s, %d): error is %v", in.id, i, err)
				} else if ok && (mtext(types.TypeToProto(f.GetType())) != mtext(refRelCols(in.msg)[i]) || mtext(normExpr(f.ToProto())) != mtext(normExpr(xCol(i)))) {
					t.Failf("RootFieldRef(%s, %d) is %s of type %s", in.id, i, show(f.ToProto()), f.GetType())
				}
			}
			t.Trans(2)
		}
	})
	binary("cross", func(t *T, e *c04env, l, r bin) {
		ok := l.rel != nil && r.rel != nil
		w := &pb.Rel{RelType: &pb.Rel_Cross{Cross: &pb.CrossRel{Left: l.msg, Right: r.msg}}}
		n := ncols(l) + ncols(r)
		for _, m := range bmaps(n) {
			e.try(t, fmt.Sprintf("CrossRemap(%s, %s, %s)", l.id, r.id, m.id), withMap(ok, w, m), func() (plan.Rel, bool, error) { return res(e.b.CrossRemap(l.rel, r.rel, m.m)) })
		}
		e.try(t, fmt.Sprintf("Cross(%s, %s)", l.id, r.id), withMap(ok, w, bmap{valid: true}), func() (plan.Rel, bool, error) { return res(e.b.Cross(l.rel, r.rel)) })
		for _, i := range []int32{0, int32(n) - 1, int32(n), -1, int32(ncols(l)), math.MaxInt32} {
			var f *expr.FieldReference
			var err error
			if msg := catch(func() { f, err = e.b.JoinedRecordFieldRef(l.rel, r.rel, i) }); msg != "" {
				t.Failf("JoinedRecordFieldRef(%s, %s, %d) panics: %s", l.id, r.id, i, msg)
				continue
			}
			if ok := ok && i >= 0 && int(i) < n; ok != (err == nil) {
				t.Failf("JoinedRecordFieldRef(%s, %s, %d): error is %v", l.id, r.id, i, err)
			} else if ok {
				cols := append(append([]*pb.Type{}, refRelCols(l.msg)...), refRelCols(r.msg)...)
				if mtext(types.TypeToProto(f.GetType())) != mtext(cols[i]) || mtext(normExpr(f.ToProto())) != mtext(normExpr(xCol(i))) {
					t.Failf("JoinedRecordFieldRef(%s, %s, %d) is %s of type %s", l.id, r.id, i, show(f.ToProto()), f.GetType())
				}
			}
			t.Trans(1)
		}
	})
	binary("join", func(t *T, e *c04env, l, r bin) {
		in := l
		if in.rel == nil {
			in = r
		}
		xs := e.exps(in)
		for ty := int32(-1); ty <= 14; ty++ {
			_, known := pb.JoinRel_JoinType_name[ty]
			known = known && ty != 0
			for _, x := range xs {
				for _, y := range xs {
					ok := l.rel != nil && r.rel != nil && known && x.e != nil && x.bool && (y.e == nil || y.bool)
					w := &pb.Rel{RelType: &pb.Rel_Join{Join: &pb.JoinRel{Left: l.msg, Right: r.msg, Expression: x.msg, PostJoinFilter: y.msg, Type: pb.JoinRel_JoinType(ty)}}}
					n := 2
					if l.rel != nil && r.rel != nil && known {
						n = len(refRelCols(w))
					}
					id := fmt.Sprintf("Join(%s, %s, %s, %s, type %d)", l.id, r.id, x.id, y.id, ty)
					for _, m := range bmaps(n) {
						e.try(t, id+" mapping "+m.id, withMap(ok, w, m), func() (plan.Rel, bool, error) {
							return res(e.b.JoinAndFilterRemap(l.rel, r.rel, x.e, y.e, plan.JoinType(ty), m.m))
						})
						if y.e == nil {
							e.try(t, id+" mapping "+m.id+" without filter", withMap(ok, w, m), func() (plan.Rel, bool, error) {
								return res(e.b.JoinRemap(l.rel, r.rel, x.e, plan.JoinType(ty), m.m))
							})
						}
					}
					e.try(t, id, withMap(ok, w, bmap{valid: true}), func() (plan.Rel, bool, error) {
						return res(e.b.JoinAndFilter(l.rel, r.rel, x.e, y.e, plan.JoinType(ty)))
					})
					if y.e == nil {
						e.try(t, id+" without filter", withMap(ok, w, bmap{valid: true}), func() (plan.Rel, bool, error) {
							return res(e.b.Join(l.rel, r.rel, x.e, plan.JoinType(ty)))
						})
					}
				}
			}
		}
	})
	binary("set", func(t *T, e *c04env, l, r bin) {
		for op := int32(-1); op <= 9; op++ {
			_, known := pb.SetRel_SetOp_name[op]
			known = known && op != 0
			lists := [][]bin{nil, {l}, {l, r}, {l, r, l}, {l, l, r}}
			for _, ins := range lists {
				ok := known && len(ins) >= 2
				var rs []plan.Rel
				var ms []*pb.Rel
				id := ""
				for _, x := range ins {
					ok = ok && x.rel != nil && ins[0].rel != nil && colsTextOf(refRelCols(x.msg)) == colsTextOf(refRelCols(ins[0].msg))
					rs, ms, id = append(rs, x.rel), append(ms, x.msg), id+x.id+" "
				}
				n := 2
				if len(ins) > 0 {
					n = ncols(ins[0])
				}
				w := &pb.Rel{RelType: &pb.Rel_Set{Set: &pb.SetRel{Inputs: ms, Op: pb.SetRel_SetOp(op)}}}
				for _, m := range bmaps(n) {
					e.try(t, fmt.Sprintf("SetRemap(%d, %s, %s)", op, m.id, id), withMap(ok, w, m), func() (plan.Rel, bool, error) { return res(e.b.SetRemap(plan.SetOp(op), m.m, rs...)) })
				}
				e.try(t, fmt.Sprintf("Set(%d, %s)", op, id), withMap(ok, w, bmap{valid: true}), func() (plan.Rel, bool, error) { return res(e.b.Set(plan.SetOp(op), rs...)) })
			}
		}
	})
	unary("write", func(t *T, e *c04env, in bin) { c04Write(t, e, in) })
	unary("aggregate", func(t *T, e *c04env, in bin) { c04Agg(t, e, in) })
	unary("plan", func(t *T, e *c04env, in bin) { c04Plan(t, e, in) })
	binary("extension", func(t *T, e *c04env, l, r bin) { c04Ext(t, e, l, r) })
	c04Tables(c)
	c04sized(c)
}

func normSort(e *pb.Expression, d pb.SortField_SortDirection) *pb.SortField {
	return sortDir(normExpr(e), d)
}

func nsGo(names []string, cols []*pb.Type) types.NamedStruct {
	s := types.NamedStruct{Names: names, Struct: types.StructType{Nullability: types.NullabilityRequired}}
	for _, c := range cols {
		s.Struct.Types = append(s.Struct.Types, types.TypeFromProto(c))
	}
	return s
}

func c04Write(t *T, e *c04env, in bin) {
	// the kind of output is part of the relation but not of what it writes out
	out := func(r *plan.NamedTableWriteRel, err error, what string, mode plan.OutputMode, cols []*pb.Type, m []int32) (plan.Rel, bool, error) {
		if err == nil && r != nil && (r.OutputMode() != mode || r.CreateMode() != pb.WriteRel_CREATE_MODE_UNSPECIFIED) {
			t.Failf("%s has output mode %v and create mode %v, want %v and none", what, r.OutputMode(), r.CreateMode(), mode)
		}
		if err == nil && r != nil {
			want := cols
			if m != nil {
				want = nil
				for _, i := range m {
					want = append(want, cols[i])
				}
			}
			if s := schemaText(r); s != colsTextOf(want) {
				t.Failf("%s with mapping %v has columns %s", what, m, s)
			}
		}
		return res(r, err)
	}
	for si, cols := range [][]*pb.Type{nil, relColsA(), relColsB()} {
		ns := nsOf(cols)
		schema := nsGo(ns.Names, cols)
		for _, name := range [][]string{nil, {"t"}, {"db", "t"}} {
			w := &pb.Rel{RelType: &pb.Rel_Write{Write: &pb.WriteRel{Input: in.msg, TableSchema: ns, WriteType: &pb.WriteRel_NamedTable{NamedTable: &pb.NamedObjectWrite{Names: name}}}}}
			with := func(op pb.WriteRel_WriteOp) *pb.Rel { c := cloneRel(w); c.GetWrite().Op = op; return c }
			id := fmt.Sprint(in.id, si, name)
			for op := int32(0); op <= 4; op++ {
				for _, m := range bmaps(0) { // such a write has no output columns
					e.try(t, fmt.Sprintf("NamedWriteRemap(%s, %d, %s)", id, op, m.id), withMap(in.rel != nil, with(pb.WriteRel_WriteOp(op)), m), func() (plan.Rel, bool, error) {
						r, err := e.b.NamedWriteRemap(in.rel, plan.WriteOp(op), name, schema, m.m)
						return out(r, err, "NamedWriteRemap "+id, plan.OutputModeNoOutput, nil, nil)
					})
				}
				e.try(t, fmt.Sprintf("NamedWrite(%s, %d)", id, op), withMap(in.rel != nil, with(pb.WriteRel_WriteOp(op)), bmap{valid: true}), func() (plan.Rel, bool, error) {
					r, err := e.b.NamedWrite(in.rel, plan.WriteOp(op), name, schema)
					return out(r, err, "NamedWrite "+id, plan.OutputModeNoOutput, nil, nil)
				})
			}
			e.try(t, "NamedInsert "+id, withMap(in.rel != nil, with(pb.WriteRel_WRITE_OP_INSERT), bmap{valid: true}), func() (plan.Rel, bool, error) {
				r, err := e.b.NamedInsert(in.rel, name, schema)
				return out(r, err, "NamedInsert "+id, plan.OutputModeNoOutput, nil, nil)
			})
			e.try(t, "NamedDelete "+id, withMap(in.rel != nil, with(pb.WriteRel_WRITE_OP_DELETE), bmap{valid: true}), func() (plan.Rel, bool, error) {
				r, err := e.b.NamedDelete(in.rel, name, schema)
				return out(r, err, "NamedDelete "+id, plan.OutputModeNoOutput, nil, nil)
			})
			ct := with(pb.WriteRel_WRITE_OP_CTAS)
			for _, m := range bmaps(len(cols)) {
				e.try(t, fmt.Sprintf("CreateTableAsSelectRemap(%s, %s)", id, m.id), withMap(in.rel != nil, ct, m), func() (plan.Rel, bool, error) {
					r, err := e.b.CreateTableAsSelectRemap(in.rel, m.m, name, schema)
					return out(r, err, "CreateTableAsSelectRemap "+id, plan.OutputModeModifiedRecords, cols, m.m)
				})
			}
			e.try(t, "CreateTableAsSelect "+id, withMap(in.rel != nil, ct, bmap{valid: true}), func() (plan.Rel, bool, error) {
				r, err := e.b.CreateTableAsSelect(in.rel, name, schema)
				return out(r, err, "CreateTableAsSelect "+id, plan.OutputModeModifiedRecords, cols, nil)
			})
		}
	}
}

func c04Agg(t *T, e *c04env, in bin) {
	n := 2
	if in.rel != nil {
		n = len(refRelCols(in.msg))
	}
	arg := expr.NewPrimitiveLiteral(int32(1), false)
	fn, err := e.b.AggregateFn(urnArith, "sum:i32", nil, arg)
	if err != nil {
		t.Failf("%v", err)
		return
	}
	flt := expr.NewPrimitiveLiteral(true, false)
	type ms struct {
		id string
		m  []plan.AggRelMeasure
		ok bool
	}
	mlists := []ms{{"none", nil, true}, {"one", []plan.AggRelMeasure{e.b.Measure(fn, nil)}, true}, {"filtered", []plan.AggRelMeasure{e.b.Measure(fn, flt), e.b.Measure(fn, nil)}, true}, {"missing", []plan.AggRelMeasure{e.b.Measure(fn, nil), e.b.Measure(nil, nil)}, false}}
	msgs := func(l ms) []*pb.AggregateRel_Measure {
		var r []*pb.AggregateRel_Measure
		for _, m := range l.m {
			r = append(r, m.ToProto())
		}
		return r
	}
	for _, l := range mlists {
		for _, cols := range [][]int32{nil, {0}, {int32(n - 1), 0}, {0, 0}, {int32(n)}, {-1}, {0, math.MaxInt32}} {
			ok := in.rel != nil && l.ok && (len(l.m) > 0 || len(cols) > 0)
			var ex []*pb.Expression
			var set []uint32
			for _, k := range cols {
				ok = ok && k >= 0 && int(k) < n
				ex, set = append(ex, normExpr(xCol(k))), append(set, uint32(len(set)))
			}
			var w *pb.Rel
			if ok {
				var sets [][]uint32
				if len(cols) > 0 {
					sets = append(sets, set)
				}
				w = relAgg(in.msg, ex, sets, msgs(l)...)
			}
			e.try(t, fmt.Sprintf("AggregateColumns(%s, %s, %v)", in.id, l.id, cols), w, func() (plan.Rel, bool, error) { return res(e.b.AggregateColumns(in.rel, l.m, cols...)) })
		}
		xs := e.exps(in)
		var groups [][]bexpr
		groups = append(groups, nil)
		for i, x := range xs {
			groups = append(groups, []bexpr{x}, []bexpr{x, xs[(i+1)%len(xs)]})
		}
		var lists [][][]bexpr
		lists = append(lists, nil)
		for i, g := range groups {
			lists = append(lists, [][]bexpr{g}, [][]bexpr{g, groups[(i*3+2)%len(groups)]}, [][]bexpr{g, g})
		}
		for _, gs := range lists {
			ok := in.rel != nil && l.ok
			var go_ [][]expr.Expression
			var ex []*pb.Expression
			var seen []expr.Expression
			sets := [][]uint32{}
			id := ""
			for _, g := range gs {
				var r []expr.Expression
				set := []uint32{}
				for _, x := range g {
					r = append(r, x.e)
					id += x.id + " "
					if x.e == nil {
						ok = false
						continue
					}
					at := -1
					for k, s := range seen {
						if s == x.e {
							at = k
						}
					}
					if at < 0 {
						at = len(seen)
						seen, ex = append(seen, x.e), append(ex, normExpr(x.msg))
					}
					set = append(set, uint32(at))
				}
				id += "; "
				go_, sets = append(go_, r), append(sets, set)
			}
			ok = ok && (len(l.m) > 0 || len(gs) > 0 && len(ex) > 0)
			var w *pb.Rel
			if ok {
				w = relAgg(in.msg, ex, sets, msgs(l)...)
			}
			e.try(t, fmt.Sprintf("AggregateExprs(%s, %s, %s)", in.id, l.id, id), w, func() (plan.Rel, bool, error) { return res(e.b.AggregateExprs(in.rel, l.m, go_...)) })
		}
	}
}

func c04Plan(t *T, e *c04env, in bin) {
	need := 0
	if in.rel != nil {
		for _, c := range refRelCols(in.msg) {
			need += 1 + len(nestedNames(c, "x"))
		}
	}
	a := e.ins[1]
	for n := 0; n <= 9; n++ {
		var names []string
		for i := 0; i < n; i++ {
			names = append(names, fmt.Sprint("n", i))
		}
		others := []struct {
			id string
			r  []plan.Rel
			m  []*pb.Rel
			ok bool
		}{{"none", nil, nil, true}, {"A", []plan.Rel{a.rel}, []*pb.Rel{a.msg}, true}, {"A missing", []plan.Rel{a.rel, nil}, nil, false}, {"two", []plan.Rel{a.rel, e.ins[2].rel}, []*pb.Rel{a.msg, e.ins[2].msg}, true}}
		for _, o := range others {
			for _, urls := range [][]string{nil, {"u1", "u0"}} {
				ok := in.rel != nil && n == need && o.ok
				var pl *plan.Plan
				var err error
				if msg := catch(func() {
					if urls == nil {
						pl, err = e.b.Plan(in.rel, names, o.r...)
					} else {
						pl, err = e.b.PlanWithTypes(in.rel, names, urls, o.r...)
					}
				}); msg != "" {
					t.Failf("Plan(%s, %d names, %s) panics: %s", in.id, n, o.id, msg)
					continue
				}
				t.Trans(1)
				t.State(fmt.Sprint("plan", in.id, n, o.id, urls))
				if ok != (err == nil) {
					t.Failf("Plan(%s, %d names of %d, %s): error is %v", in.id, n, need, o.id, err)
					continue
				}
				if err != nil {
					continue
				}
				p, err := pl.ToProto()
				if err != nil {
					t.Failf("plan cannot be written: %v", err)
					continue
				}
				if fmt.Sprint(p.ExpectedTypeUrls) != fmt.Sprint(urls) || len(p.Relations) != 1+len(o.m) || fmt.Sprint(p.Relations[0].GetRoot().GetNames()) != fmt.Sprint(names) ||
					mtext(normRel(p.Relations[0].GetRoot().GetInput(), true)) != mtext(normRel(in.msg, false)) {
					t.Failf("Plan(%s, %d names, %s) is %s", in.id, n, o.id, show(p))
					continue
				}
				for i, m := range o.m {
					if mtext(normRel(p.Relations[i+1].GetRel(), true)) != mtext(normRel(m, false)) {
						t.Failf("relation %d of Plan(%s, %d names, %s) is %s", i+1, in.id, n, o.id, show(p.Relations[i+1]))
					}
				}
				if p.Version.GetMinorNumber() == 0 && p.Version.GetMajorNumber() == 0 && p.Version.GetPatchNumber() == 0 {
					t.Failf("a built plan has no version: %s", show(p))
				}
				if pl2, err := plan.FromProto(p, defColl()); err != nil {
					t.Failf("a built plan cannot be read: %v %s", err, show(p))
				} else if q, err := pl2.ToProto(); err != nil || mtext(q) != mtext(p) {
					t.Failf("a built plan changes in a round trip: %s / %s", show(p), show(q))
				}
			}
		}
	}
}

func c04Ext(t *T, e *c04env, l, r bin) {
	det := knownExt(leafT("date", nNul, 0))
	raw, err := extDec{}.DecodeExtensionRel(det)
	if err != nil {
		t.Failf("%v", err)
		return
	}
	def := raw.(plan.ExtensionRelDefinition)
	for _, d := range []plan.ExtensionRelDefinition{def, nil} {
		id := fmt.Sprintf("(%s, %s, definition %v)", l.id, r.id, d != nil)
		var w, wm, wl *pb.Rel
		if d != nil {
			wl = &pb.Rel{RelType: &pb.Rel_ExtensionLeaf{ExtensionLeaf: &pb.ExtensionLeafRel{Common: relDirect(), Detail: det}}}
			if l.rel != nil {
				w = &pb.Rel{RelType: &pb.Rel_ExtensionSingle{ExtensionSingle: &pb.ExtensionSingleRel{Common: relDirect(), Input: l.msg, Detail: det}}}
				if r.rel != nil {
					wm = &pb.Rel{RelType: &pb.Rel_ExtensionMulti{ExtensionMulti: &pb.ExtensionMultiRel{Common: relDirect(), Inputs: []*pb.Rel{l.msg, r.msg}, Detail: det}}}
				}
			}
		}
		e.try(t, "ExtensionSingle"+id, w, func() (plan.Rel, bool, error) { return res(e.b.ExtensionSingle(l.rel, d)) })
		e.try(t, "ExtensionMulti"+id, wm, func() (plan.Rel, bool, error) { return res(e.b.ExtensionMulti([]plan.Rel{l.rel, r.rel}, d)) })
		e.try(t, "ExtensionMulti() "+id, nil, func() (plan.Rel, bool, error) { return res(e.b.ExtensionMulti(nil, d)) })
		e.try(t, "ExtensionLeaf"+id, wl, func() (plan.Rel, bool, error) { return res(e.b.ExtensionLeaf(d)) })
	}
}

func c04Tables(c *Ctx) {
	read := func(cols []*pb.Type, f func(*pb.ReadRel)) *pb.Rel {
		r := &pb.ReadRel{BaseSchema: nsOf(cols)}
		f(r)
		return relRead(r)
	}
	for si, cols := range [][]*pb.Type{nil, relColsA(), relColsB()} {
		c.Case(func(t *T) {
			e := newC04(t)
			ns := nsOf(cols)
			schema := nsGo(ns.Names, cols)
			for _, name := range [][]string{nil, {"t"}, {"db", "", "t"}} {
				w := read(cols, func(r *pb.ReadRel) {
					r.ReadType = &pb.ReadRel_NamedTable_{NamedTable: &pb.ReadRel_NamedTable{Names: name}}
				})
				for _, m := range bmaps(len(cols)) {
					e.try(t, fmt.Sprint("NamedScanRemap ", name, m.id), withMap(true, w, m), func() (plan.Rel, bool, error) { return res(e.b.NamedScanRemap(name, schema, m.m)) })
				}
				e.try(t, fmt.Sprint("NamedScan ", name), withMap(true, w, bmap{valid: true}), func() (plan.Rel, bool, error) { return res(e.b.NamedScan(name, schema), nil) })
			}
			for i, d := range []*anypb.Any{nil, anyOf("x"), {}} {
				w := read(cols, func(r *pb.ReadRel) {
					r.ReadType = &pb.ReadRel_ExtensionTable_{ExtensionTable: &pb.ReadRel_ExtensionTable{Detail: d}}
				})
				e.try(t, fmt.Sprint("ExtensionTable ", i), withMap(true, w, bmap{valid: true}), func() (plan.Rel, bool, error) { return res(e.b.ExtensionTable(d, schema), nil) })
			}
			for _, uri := range []string{"", "s3://b/m.json"} {
				md := func(f func(m *pb.ReadRel_IcebergTable_MetadataFileRead)) *pb.Rel {
					m := &pb.ReadRel_IcebergTable_MetadataFileRead{MetadataUri: uri}
					f(m)
					return withMap(true, read(cols, func(r *pb.ReadRel) {
						r.ReadType = &pb.ReadRel_IcebergTable_{IcebergTable: &pb.ReadRel_IcebergTable{TableType: &pb.ReadRel_IcebergTable_Direct{Direct: m}}}
					}), bmap{valid: true})
				}
				e.try(t, "Iceberg "+uri, md(func(m *pb.ReadRel_IcebergTable_MetadataFileRead) {}), func() (plan.Rel, bool, error) { return res(e.b.IcebergTableFromMetadataFile(uri, nil, schema)) })
				e.try(t, "Iceberg id "+uri, md(func(m *pb.ReadRel_IcebergTable_MetadataFileRead) {
					m.Snapshot = &pb.ReadRel_IcebergTable_MetadataFileRead_SnapshotId{SnapshotId: "sn1"}
				}), func() (plan.Rel, bool, error) {
					return res(e.b.IcebergTableFromMetadataFile(uri, plan.SnapshotId("sn1"), schema))
				})
				for _, ts := range []int64{1, -5, math.MaxInt64} {
					e.try(t, fmt.Sprint("Iceberg at ", ts, uri), md(func(m *pb.ReadRel_IcebergTable_MetadataFileRead) {
						m.Snapshot = &pb.ReadRel_IcebergTable_MetadataFileRead_SnapshotTimestamp{SnapshotTimestamp: ts}
					}), func() (plan.Rel, bool, error) {
						return res(e.b.IcebergTableFromMetadataFile(uri, plan.SnapshotTimestamp(ts), schema))
					})
				}
			}
			t.Validated()
		}, "table", si)
	}
	// virtual tables: all rows over a pool of cells
	nul := lI32(5)
	nul.Nullable = true
	pool := []*pb.Expression_Literal{nil, lI32(1), lI32(2), lStr("s"), nul, lNull(leafT("i32", nNul, 0))}
	var rows [][]int
	rows = append(rows, []int{})
	for i := range pool {
		rows = append(rows, []int{i})
		for j := range pool {
			rows = append(rows, []int{i, j})
		}
	}
	rows = append(rows, []int{1, 3, 4}, []int{2, 3, 5}, []int{1, 0, 2})
	tyOf := func(k int) string {
		if pool[k] == nil {
			return "missing"
		}
		return mtext(types.TypeToProto(expr.LiteralFromProto(pool[k]).GetType()))
	}
	for nf := 0; nf <= 3; nf++ {
		for ri, r0 := range rows {
			c.Case(func(t *T) {
				e := newC04(t)
				tables := [][][]int{{r0}}
				for _, r1 := range rows {
					tables = append(tables, [][]int{r0, r1})
				}
				tables = append(tables, [][]int{r0, r0, r0})
				if ri == 0 {
					tables = append(tables, nil)
				}
				names := []string{"x", "y", "z"}[:nf]
				for ti, tb := range tables {
					ok := len(tb) > 0
					var cols []*pb.Type
					vt := &pb.ReadRel_VirtualTable{}
					var lits []expr.StructLiteralValue
					var exs []expr.VirtualTableExpressionValue
					for _, row := range tb {
						ok = ok && len(row) == nf
						st := &pb.Expression_Nested_Struct{}
						lv := expr.StructLiteralValue{}
						ev := expr.VirtualTableExpressionValue{}
						for k, cell := range row {
							if pool[cell] == nil {
								ok = false
								lv, ev = append(lv, nil), append(ev, nil)
								continue
							}
							ok = ok && k < len(tb[0]) && tyOf(cell) == tyOf(tb[0][k])
							lt := expr.LiteralFromProto(pool[cell])
							lv, ev = append(lv, lt), append(ev, lt)
							st.Fields = append(st.Fields, xLit(pool[cell]))
						}
						vt.Expressions = append(vt.Expressions, st)
						lits, exs = append(lits, lv), append(exs, ev)
					}
					var w *pb.Rel
					if ok {
						for _, cell := range tb[0] {
							cols = append(cols, types.TypeToProto(expr.LiteralFromProto(pool[cell]).GetType()))
						}
						ns := nsOf(cols)
						ns.Names = names
						w = relRead(&pb.ReadRel{BaseSchema: ns, ReadType: &pb.ReadRel_VirtualTable_{VirtualTable: vt}})
					}
					for mi, m := range bmaps(nf) {
						if mi > 1 && (ti+mi)%4 != 0 {
							continue
						}
						id := fmt.Sprint(nf, tb, m.id)
						e.try(t, "VirtualTableRemap "+id, withMap(ok, w, m), func() (plan.Rel, bool, error) { return res(e.b.VirtualTableRemap(names, m.m, lits...)) })
						e.try(t, "VirtualTableFromExprRemap "+id, withMap(ok, w, m), func() (plan.Rel, bool, error) { return res(e.b.VirtualTableFromExprRemap(names, m.m, exs...)) })
					}
					id := fmt.Sprint(nf, tb)
					e.try(t, "VirtualTable "+id, withMap(ok, w, bmap{valid: true}), func() (plan.Rel, bool, error) { return res(e.b.VirtualTable(names, lits...)) })
					e.try(t, "VirtualTableFromExpr "+id, withMap(ok, w, bmap{valid: true}), func() (plan.Rel, bool, error) { return res(e.b.VirtualTableFromExpr(names, exs...)) })
				}
				t.Validated()
			}, "virtual", nf, ri)
		}
	}
	for si, cols := range [][]*pb.Type{nil, relColsA(), relColsB()} {
		c.Case(func(t *T) {
			e := newC04(t)
			ns := nsOf(cols)
			var tys []types.Type
			for _, c := range cols {
				tys = append(tys, types.TypeFromProto(c))
			}
			w := relRead(&pb.ReadRel{BaseSchema: ns, ReadType: &pb.ReadRel_VirtualTable_{VirtualTable: &pb.ReadRel_VirtualTable{}}})
			e.try(t, "EmptyVirtualTable", withMap(true, w, bmap{valid: true}), func() (plan.Rel, bool, error) { return res(e.b.EmptyVirtualTable(ns.Names, tys)) })
			t.Validated()
		}, "emptyvirtual", si)
	}
}

// rootNamesOf gives a root's names for columns of these types.
func rootNamesOf(cols []*pb.Type) (out []string) {
	for i, c := range cols {
		out = append(out, fmt.Sprint("n", i))
		out = append(out, nestedNames(c, fmt.Sprint("n", i))...)
	}
	return out
}
