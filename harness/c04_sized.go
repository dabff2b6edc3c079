package main

import (
	"fmt"

	"github.com/substrait-io/substrait-go/v8/expr"
	"github.com/substrait-io/substrait-go/v8/plan"
	"github.com/substrait-io/substrait-go/v8/types"
	pb "github.com/substrait-io/substrait-protobuf/go/substraitpb"
)

// c04sized: builder calls with long argument lists over wide inputs, sound or with one flaw.
func c04sized(c *Ctx) {
	good := bmap{valid: true}
	for _, n := range []int{4, 5, 8, 9, 16, 17, 33, 65, 129, 300} {
		run := func(name string, f func(t *T, e *c04env, w, v bin)) {
			c.Case(func(t *T) {
				e := newC04(t)
				in := func(id string, m *pb.Rel) bin {
					r, err := plan.RelFromProto(m, e.reg)
					if err != nil {
						t.Failf("rejected: %v", err)
					}
					return bin{id, r, m}
				}
				w := in("wide", relNamed("w", manyCols(n)...))
				v := in("other", relNamed("v", append([]*pb.Type{leafT("uuid", nReq, 0)}, manyCols(n)...)...))
				if !t.Failed() {
					f(t, e, w, v)
				}
				t.Validated()
			}, "sized", name, n)
		}
		cols := manyCols(n)
		vcols := append([]*pb.Type{leafT("uuid", nReq, 0)}, cols...)
		places := []int{-1, 0, 1, n / 2, n - 2, n - 1}
		lit := func(i int) (expr.Expression, *pb.Expression) {
			l := lI32(int32(i))
			return expr.LiteralFromProto(l), xLit(l)
		}
		col := func(t *T, e *c04env, in bin, i int) (expr.Expression, *pb.Expression) {
			f, err := e.b.RootFieldRef(in.rel, int32(i))
			if err != nil {
				t.Failf("column %d of %d: %v", i, n, err)
				return lit(i)
			}
			if mtext(types.TypeToProto(f.GetType())) != mtext(refRelCols(in.msg)[i]) {
				t.Failf("column %d of %d has type %s", i, n, f.GetType())
			}
			return f, f.ToProto()
		}
		maps := func(k int) []bmap {
			back := make([]int32, k)
			for i := range back {
				back[i] = int32(k - 1 - i)
			}
			off := identity(k)
			off[k-1] = int32(k)
			neg := identity(k)
			neg[k/2] = -1
			return []bmap{{"nil", nil, true}, {"all", identity(k), true}, {"back", back, true}, {"twice", append(identity(k), back...), true}, {"one off", off, false}, {"one negative", neg, false}, {"all but the last", identity(k - 1), true}, {"then off", append(identity(k), int32(k)), false}}
		}
		run("unary", func(t *T, e *c04env, w, v bin) {
			for i := -2; i <= n+1; i++ {
				f, err := e.b.RootFieldRef(w.rel, int32(i))
				if ok := i >= 0 && i < n; ok != (err == nil) {
					t.Failf("RootFieldRef %d of %d columns: %v", i, n, err)
				} else if ok && mtext(types.TypeToProto(f.GetType())) != mtext(cols[i]) {
					t.Failf("RootFieldRef %d of %d columns has type %s", i, n, f.GetType())
				}
			}
			for i := -2; i <= 2*n+3; i++ {
				f, err := e.b.JoinedRecordFieldRef(w.rel, v.rel, int32(i))
				if ok := i >= 0 && i < 2*n+1; ok != (err == nil) {
					t.Failf("JoinedRecordFieldRef %d of %d columns: %v", i, 2*n+1, err)
				} else if ok && mtext(types.TypeToProto(f.GetType())) != mtext(append(append([]*pb.Type{}, cols...), vcols...)[i]) {
					t.Failf("JoinedRecordFieldRef %d of %d columns has type %s", i, 2*n+1, f.GetType())
				}
			}
			for i, ct := range cols {
				if i < n-8 && i > 8 || ct.GetBool().GetTypeVariationReference() != 0 {
					continue
				}
				x, p := col(t, e, w, i)
				for _, m := range maps(n) {
					e.try(t, fmt.Sprintf("FilterRemap(%d columns, %d, %s)", n, i, m.id), withMap(ct.GetBool() != nil, relFilter(w.msg, p), m), func() (plan.Rel, bool, error) { return res(e.b.FilterRemap(w.rel, x, m.m)) })
				}
			}
			for _, m := range maps(n) {
				fe := &pb.Rel{RelType: &pb.Rel_Fetch{Fetch: &pb.FetchRel{Input: w.msg, OffsetMode: &pb.FetchRel_Offset{Offset: 3}, CountMode: &pb.FetchRel_Count{Count: int64(n)}}}}
				e.try(t, fmt.Sprintf("FetchRemap(%d columns, %s)", n, m.id), withMap(true, fe, m), func() (plan.Rel, bool, error) { return res(e.b.FetchRemap(w.rel, 3, int64(n), m.m)) })
				sc := relRead(&pb.ReadRel{BaseSchema: nsOf(cols), ReadType: &pb.ReadRel_NamedTable_{NamedTable: &pb.ReadRel_NamedTable{Names: []string{"t"}}}})
				e.try(t, fmt.Sprintf("NamedScanRemap(%d columns, %s)", n, m.id), withMap(true, sc, m), func() (plan.Rel, bool, error) {
					return res(e.b.NamedScanRemap([]string{"t"}, nsGo(nsOf(cols).Names, cols), m.m))
				})
			}
			for _, bad := range places {
				for _, short := range []bool{false, true} {
					var ex []expr.Expression
					var px []*pb.Expression
					var ss []expr.SortField
					var ps []*pb.SortField
					var ix []int32
					for i := 0; i < n; i++ {
						x, p := lit(i)
						if i%2 == 1 {
							x, p = col(t, e, w, n-1-i)
						}
						s := expr.SortField{Expr: x, Kind: types.SortDirection(i%4 + 1)}
						k := int32(n - 1 - i)
						if i == bad {
							if short {
								x, k = nil, int32(n)
								s.Expr = nil
							} else {
								k = -1
								s.Kind = nil
							}
						}
						ex, px = append(ex, x), append(px, p)
						ss, ps = append(ss, s), append(ps, sortDir(p, pb.SortField_SortDirection(i%4+1)))
						ix = append(ix, k)
					}
					ok := bad < 0 || !short
					for _, m := range maps(n + n)[:2+6*min(1, bad+1)] {
						e.try(t, fmt.Sprintf("ProjectRemap(%d, %s, bad %d)", n, m.id, bad), withMap(ok, relProject(w.msg, relDirect(), px...), m), func() (plan.Rel, bool, error) { return res(e.b.ProjectRemap(w.rel, m.m, ex...)) })
					}
					e.try(t, fmt.Sprintf("Sort(%d, bad %d, %v)", n, bad, short), withMap(bad < 0, &pb.Rel{RelType: &pb.Rel_Sort{Sort: &pb.SortRel{Input: w.msg, Sorts: ps}}}, good), func() (plan.Rel, bool, error) { return res(e.b.Sort(w.rel, ss...)) })
					fs, err := e.b.SortFields(w.rel, ix...)
					if (err == nil) != (bad < 0) {
						t.Failf("SortFields of %d with bad %d: %v", n, bad, err)
					}
					for k, f := range fs {
						if err == nil && (len(fs) != n || mtext(f.ToProto()) != mtext(normSort(xCol(ix[k]), pb.SortField_SORT_DIRECTION_ASC_NULLS_LAST))) {
							t.Failf("SortFields of %d gives %s at %d", n, show(f.ToProto()), k)
						}
					}
				}
			}
		})
		run("binary", func(t *T, e *c04env, w, v bin) {
			for _, m := range maps(2*n + 1) {
				e.try(t, fmt.Sprintf("CrossRemap(%d, %s)", n, m.id), withMap(true, &pb.Rel{RelType: &pb.Rel_Cross{Cross: &pb.CrossRel{Left: w.msg, Right: v.msg}}}, m), func() (plan.Rel, bool, error) { return res(e.b.CrossRemap(w.rel, v.rel, m.m)) })
			}
			bl := -1
			for i, x := range append(append([]*pb.Type{}, cols...), vcols...) {
				if x.GetBool() != nil && x.GetBool().TypeVariationReference == 0 {
					bl = i
				}
			}
			f, err := e.b.JoinedRecordFieldRef(w.rel, v.rel, int32(bl))
			if err != nil {
				t.Failf("joined reference %d: %v", bl, err)
				return
			}
			for ty := int32(1); ty <= 12; ty++ {
				j := &pb.Rel{RelType: &pb.Rel_Join{Join: &pb.JoinRel{Left: w.msg, Right: v.msg, Expression: f.ToProto(), Type: pb.JoinRel_JoinType(ty)}}}
				for _, m := range maps(len(refRelCols(j))) {
					e.try(t, fmt.Sprintf("JoinRemap(%d, %d, %s)", n, ty, m.id), withMap(true, j, m), func() (plan.Rel, bool, error) { return res(e.b.JoinRemap(w.rel, v.rel, f, plan.JoinType(ty), m.m)) })
				}
			}
		})
		run("sets", func(t *T, e *c04env, w, v bin) {
			// wide inputs, the second of which has one column of another type or one more
			for _, at := range append(places, n) {
				for _, kind := range []int{0, 1} {
					cs := append([]*pb.Type(nil), cols...)
					switch {
					case at == n:
						cs = append(cs, leafT("i32", nReq, 0))
					case at >= 0 && kind == 0:
						cs[at] = leafT("uuid", nReq, 0)
					case at >= 0:
						cs[at] = pbWithNull(cs[at], !pbNull(cs[at]))
					}
					x := bin{"x", nil, relNamed("x", cs...)}
					var err error
					if x.rel, err = plan.RelFromProto(x.msg, e.reg); err != nil {
						t.Failf("%v", err)
						return
					}
					for _, ins := range [][]bin{{w, x}, {x, w}, {w, w, x}, {w, x, w}} {
						var rs []plan.Rel
						var ms []*pb.Rel
						for _, i := range ins {
							rs, ms = append(rs, i.rel), append(ms, i.msg)
						}
						for _, m := range maps(n) {
							e.try(t, fmt.Sprintf("Set(%d wide inputs, column %d differs %d)", len(ins), at, kind), withMap(at < 0, &pb.Rel{RelType: &pb.Rel_Set{Set: &pb.SetRel{Inputs: ms, Op: 4}}}, m), func() (plan.Rel, bool, error) {
								return res(e.b.SetRemap(plan.SetOp(4), m.m, rs...))
							})
						}
					}
				}
			}
		})
		run("lists", func(t *T, e *c04env, w, v bin) {
			a, b := e.ins[1], e.ins[2]
			det := knownExt(leafT("date", nNul, 0))
			raw, err := extDec{}.DecodeExtensionRel(det)
			if err != nil {
				t.Failf("%v", err)
				return
			}
			for _, bad := range places {
				for _, missing := range []bool{false, true} {
					var rs []plan.Rel
					var ms []*pb.Rel
					for i := 0; i < n; i++ {
						x := a
						if i%2 == 1 {
							x.msg = relNamed(fmt.Sprint("t", i), relColsA()...)
							if x.rel, err = plan.RelFromProto(x.msg, e.reg); err != nil {
								t.Failf("%v", err)
							}
						}
						if i == bad {
							x = b
							if missing {
								x.rel = nil
							}
						}
						rs, ms = append(rs, x.rel), append(ms, x.msg)
					}
					e.try(t, fmt.Sprintf("Set(%d inputs, bad %d)", n, bad), withMap(bad < 0, &pb.Rel{RelType: &pb.Rel_Set{Set: &pb.SetRel{Inputs: ms, Op: 4}}}, good), func() (plan.Rel, bool, error) { return res(e.b.Set(plan.SetOp(4), rs...)) })
					ok := bad < 0 || !missing
					e.try(t, fmt.Sprintf("ExtensionMulti(%d inputs, bad %d)", n, bad), withMap(ok, &pb.Rel{RelType: &pb.Rel_ExtensionMulti{ExtensionMulti: &pb.ExtensionMultiRel{Inputs: ms, Detail: det}}}, good), func() (plan.Rel, bool, error) {
						return res(e.b.ExtensionMulti(rs, raw.(plan.ExtensionRelDefinition)))
					})
					names := rootNamesOf(cols)
					for _, d := range []int{0, 1, -1} {
						nm := append([]string{}, names...)
						if d > 0 {
							nm = append(nm, "more")
						} else if d < 0 {
							nm = nm[:len(nm)-1]
						}
						var pl *plan.Plan
						if msg := catch(func() { pl, err = e.b.Plan(w.rel, nm, rs...) }); msg != "" {
							t.Failf("Plan over %d columns and %d relations panics: %s", n, n, msg)
							continue
						}
						if want := ok && d == 0; want != (err == nil) {
							t.Failf("Plan with %d names for %d and %d relations (bad %d): %v", len(nm), len(names), n, bad, err)
							continue
						}
						if err != nil {
							continue
						}
						p, err := pl.ToProto()
						if err != nil || len(p.Relations) != 1+n || fmt.Sprint(p.Relations[0].GetRoot().GetNames()) != fmt.Sprint(nm) {
							t.Failf("Plan over %d relations is written as %s (%v)", n, show(p), err)
							continue
						}
						for i, m := range ms {
							if mtext(normRel(p.Relations[i+1].GetRel(), true)) != mtext(normRel(m, false)) {
								t.Failf("relation %d of %d is %s", i+1, n, show(p.Relations[i+1]))
							}
						}
						if pl2, err := plan.FromProto(p, defColl()); err != nil {
							t.Failf("a built plan cannot be read: %v", err)
						} else if q, err := pl2.ToProto(); err != nil || mtext(q) != mtext(p) {
							t.Failf("a built plan changes in a round trip: %s / %s", show(p), show(q))
						}
					}
				}
			}
		})
		run("aggregate", func(t *T, e *c04env, w, v bin) {
			var ml []plan.AggRelMeasure
			var mm []*pb.AggregateRel_Measure
			for i := 0; i < n; i++ {
				x, _ := lit(i)
				fn, err := e.b.AggregateFn(urnArith, "sum:i32", nil, x)
				if err != nil {
					t.Failf("%v", err)
					return
				}
				var f expr.Expression
				if i%3 == 2 {
					f = expr.NewPrimitiveLiteral(i%2 == 0, false)
				}
				ml = append(ml, e.b.Measure(fn, f))
				mm = append(mm, ml[i].ToProto())
			}
			for _, bad := range places {
				var ix []int32
				var ex []*pb.Expression
				var set []uint32
				var gs [][]expr.Expression
				var one []expr.Expression
				var sets [][]uint32
				for i := 0; i < n; i++ {
					k := int32(n - 1 - i)
					x, p := col(t, e, w, int(k))
					if i == bad {
						k, x = int32(n), nil
					}
					ix, ex, set = append(ix, k), append(ex, normExpr(p)), append(set, uint32(i))
					gs, one, sets = append(gs, []expr.Expression{x}), append(one, x), append(sets, []uint32{uint32(i)})
				}
				mk := func(sets [][]uint32) *pb.Rel {
					if bad >= 0 {
						return nil
					}
					return relAgg(w.msg, ex, sets, mm...)
				}
				e.try(t, fmt.Sprintf("AggregateColumns(%d, bad %d)", n, bad), mk([][]uint32{set}), func() (plan.Rel, bool, error) { return res(e.b.AggregateColumns(w.rel, ml, ix...)) })
				e.try(t, fmt.Sprintf("AggregateExprs(%d singles, bad %d)", n, bad), mk(sets), func() (plan.Rel, bool, error) { return res(e.b.AggregateExprs(w.rel, ml, gs...)) })
				e.try(t, fmt.Sprintf("AggregateExprs(one of %d, bad %d)", n, bad), mk([][]uint32{set}), func() (plan.Rel, bool, error) { return res(e.b.AggregateExprs(w.rel, ml, one)) })
				e.try(t, fmt.Sprintf("AggregateExprs(repeated %d, bad %d)", n, bad), mk([][]uint32{set, {0}, {uint32(n - 1), 0}}), func() (plan.Rel, bool, error) {
					return res(e.b.AggregateExprs(w.rel, ml, one, one[:1], []expr.Expression{one[n-1], one[0]}))
				})
			}
			for _, bad := range places[1:] {
				x := append([]plan.AggRelMeasure{}, ml...)
				x[bad] = e.b.Measure(nil, nil)
				e.try(t, fmt.Sprintf("AggregateColumns(measure %d of %d missing)", bad, n), nil, func() (plan.Rel, bool, error) { return res(e.b.AggregateColumns(w.rel, x, 0)) })
			}
		})
		run("virtual", func(t *T, e *c04env, w, v bin) {
			for _, bad := range places {
				for flaw := 0; flaw < 4; flaw++ {
					for _, wide := range []bool{false, true} {
						nr, nc := n, 2
						if wide {
							nr, nc = 3, n
						}
						var lits []expr.StructLiteralValue
						var exs []expr.VirtualTableExpressionValue
						vt := &pb.ReadRel_VirtualTable{}
						var names []string
						var tys []*pb.Type
						for k := 0; k < nc; k++ {
							names = append(names, fmt.Sprint("n", k))
							tys = append(tys, leafT([]string{"i32", "string"}[k%2], nReq, 0))
						}
						for i := 0; i < nr; i++ {
							var lv expr.StructLiteralValue
							var ev expr.VirtualTableExpressionValue
							st := &pb.Expression_Nested_Struct{}
							for k := 0; k < nc; k++ {
								p := []*pb.Expression_Literal{lI32(int32(i)), lStr(fmt.Sprint(i))}[k%2]
								x := expr.LiteralFromProto(p)
								if bad >= 0 && (!wide && i == bad && k == 1 || wide && i == 2 && k == bad) {
									switch flaw {
									case 0:
										x = nil
									case 1:
										x = expr.NewPrimitiveLiteral(int64(3), false)
									case 2:
										x = expr.NewPrimitiveLiteral(float32(3), true)
									case 3:
										continue
									}
								}
								if x == nil {
									lv, ev = append(lv, nil), append(ev, nil)
								} else {
									lv, ev = append(lv, x), append(ev, x)
								}
								st.Fields = append(st.Fields, xLit(p))
							}
							vt.Expressions = append(vt.Expressions, st)
							lits, exs = append(lits, lv), append(exs, ev)
						}
						ns := nsOf(tys)
						ns.Names = names
						wm := withMap(bad < 0, relRead(&pb.ReadRel{BaseSchema: ns, ReadType: &pb.ReadRel_VirtualTable_{VirtualTable: vt}}), good)
						id := fmt.Sprint(n, bad, flaw, wide)
						e.try(t, "VirtualTable "+id, wm, func() (plan.Rel, bool, error) { return res(e.b.VirtualTable(names, lits...)) })
						e.try(t, "VirtualTableFromExpr "+id, wm, func() (plan.Rel, bool, error) { return res(e.b.VirtualTableFromExpr(names, exs...)) })
					}
				}
			}
		})
		if n <= 65 {
			run("deep", func(t *T, e *c04env, w, v bin) {
				x := e.ins[1]
				for i := 0; i < n && !t.Failed(); i++ {
					var err error
					var r plan.Rel
					k := len(refRelCols(x.msg))
					l, p := lit(i)
					switch i % 4 {
					case 0:
						r, err = e.b.ProjectRemap(x.rel, []int32{int32(k), 0, int32(k - 1)}, l)
						x.msg = relProject(x.msg, relEmit(int32(k), 0, int32(k-1)), p)
					case 1:
						r, err = e.b.Filter(x.rel, expr.NewPrimitiveLiteral(true, false))
						x.msg = withMap(true, relFilter(x.msg, xLit(lBool(true))), good)
					case 2:
						r, err = e.b.Cross(x.rel, e.ins[2].rel)
						x.msg = withMap(true, &pb.Rel{RelType: &pb.Rel_Cross{Cross: &pb.CrossRel{Left: x.msg, Right: e.ins[2].msg}}}, good)
					case 3:
						r, err = e.b.ProjectRemap(x.rel, []int32{int32(k - 1), 1, int32(k)}, l)
						x.msg = relProject(x.msg, relEmit(int32(k-1), 1, int32(k)), p)
					}
					e.try(t, fmt.Sprintf("level %d", i), x.msg, func() (plan.Rel, bool, error) { return r, r == nil, err })
					x.rel = r
				}
			})
		}
	}
}
