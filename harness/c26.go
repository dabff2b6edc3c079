// C26: subqueries and set predicates keep their relation and report their type.
package main

import (
	"fmt"

	"github.com/substrait-io/substrait-go/v8/expr"
	"github.com/substrait-io/substrait-go/v8/plan"
	"github.com/substrait-io/substrait-go/v8/types"
	pb "github.com/substrait-io/substrait-protobuf/go/substraitpb"
	"google.golang.org/protobuf/proto"
)

func init() {
	checks["C26"] = &Check{Run: runC26, Quick: 200, Thorough: 800,
		Bounds: "all four subquery kinds x every operation (also unspecified) x needle lists of length 0..3 x relations (tables of 0..3 columns over mixed types, filtered, projected with emit mapping, containing subqueries with outer references, nesting depth 3) x one missing or emptied part at a time; by builder, by constructor and by message, then written, read, rewritten and compared; tables and needle lists of up to 300",
		Assume: []string{"a scalar subquery has the declared type of its column (pinned by an existing test)", "a message may have a different number of needles than columns (pinned by existing tests); the builder may not"}}
}

type subRel struct {
	id   string
	rel  *pb.Rel
	cols []*pb.Type // output columns
}

func relFilter(in *pb.Rel, cond *pb.Expression) *pb.Rel {
	return &pb.Rel{RelType: &pb.Rel_Filter{Filter: &pb.FilterRel{Common: relDirect(), Input: in, Condition: cond}}}
}
func relEmit(cols ...int32) *pb.RelCommon {
	return &pb.RelCommon{EmitKind: &pb.RelCommon_Emit_{Emit: &pb.RelCommon_Emit{OutputMapping: cols}}}
}
func relProject(in *pb.Rel, common *pb.RelCommon, es ...*pb.Expression) *pb.Rel {
	return &pb.Rel{RelType: &pb.Rel_Project{Project: &pb.ProjectRel{Common: common, Input: in, Expressions: es}}}
}

func subRels(depth int) []subRel {
	i32, str, bl := leafT("i32", nReq, 0), leafT("string", nNul, 0), leafT("boolean", nReq, 0)
	pools := [][]*pb.Type{{}, {i32}, {str}, {leafT("i64", nNul, 7)}, {pbStruct(nReq, 0, i32, str)}, {i32, str}, {bl, i32, str}}
	var r []subRel
	for i, p := range pools {
		r = append(r, subRel{fmt.Sprintf("table%d", i), relNamed("t", p...), p})
	}
	b := func() *pb.Expression { return xLit(lBool(true)) }
	for i, p := range pools {
		r = append(r, subRel{fmt.Sprintf("filter%d", i), relFilter(relNamed("u", p...), b()), p})
		r = append(r, subRel{fmt.Sprintf("project%d", i), relProject(relNamed("u", p...), relEmit(int32(len(p))), xLit(lI64(1))), []*pb.Type{leafT("i64", nReq, 0)}})
		r = append(r, subRel{fmt.Sprintf("projectall%d", i), relProject(relNamed("u", p...), relDirect(), xLit(lI32(1))), append(append([]*pb.Type{}, p...), i32)})
		if len(p) > 1 {
			rp := relNamed("u", p...)
			rp.GetRead().Common = relEmit(1)
			r = append(r, subRel{fmt.Sprintf("emit%d", i), rp, p[1:2]})
			r = append(r, subRel{fmt.Sprintf("outer%d", i), relFilter(relNamed("u", p...), xScalar(fnFoo, bl, nil, argV(xCol(1)), argV(xOuter(1, segField(0, nil))))), p})
		}
	}
	if depth > 0 {
		for i, s := range subRels(depth - 1) {
			if i%4 != depth%4 || len(s.cols) != 1 {
				continue
			}
			r = append(r, subRel{"nest-exists(" + s.id + ")", relFilter(relNamed("v", i32), xSubSet(s.rel, 1)), []*pb.Type{i32}})
			r = append(r, subRel{"nest-in(" + s.id + ")", relFilter(relNamed("v", i32), xSubIn(s.rel, xOuter(uint32(depth), segField(0, nil)))), []*pb.Type{i32}})
			r = append(r, subRel{"nest-scalar(" + s.id + ")", relProject(relNamed("v", i32), relEmit(1), xSubScalar(s.rel)), s.cols})
		}
	}
	return r
}

func runC26(c *Ctx) {
	cols := baseCols()
	base := recordOf(cols)
	reg := stdReg()
	bt := leafT("boolean", nReq, 0)
	var needles []px
	for _, x := range leafExprs() {
		needles = append(needles, x)
	}
	depth := 2
	if c.Thorough {
		depth = 3
	}
	judge := func(t *T, e expr.Expression, p *pb.Expression, want *pb.Type) {
		if mtext(e.ToProto()) != mtext(p) {
			t.Failf("subquery is written as %s, want %s", show(e.ToProto()), show(p))
		}
		if g := e.GetType(); g == nil || mtext(types.TypeToProto(g)) != mtext(want) {
			t.Failf("type of %s is %v, want %s", show(p), g, show(want))
		}
		if !e.Equals(e) {
			t.Failf("subquery is not equal to itself: %s", show(p))
		}
		e2, err := expr.ExprFromProto(p, base, reg)
		if err != nil {
			t.Failf("the written message is rejected: %v %s", err, show(p))
			return
		}
		if mtext(e2.ToProto()) != mtext(p) {
			t.Failf("subquery changes in a round trip: %s / %s", show(p), show(e2.ToProto()))
		}
		if g := e2.GetType(); g == nil || mtext(types.TypeToProto(g)) != mtext(want) {
			t.Failf("type after reading %s is %v, want %s", show(p), g, show(want))
		}
		same := e.Visit(func(x expr.Expression) expr.Expression { return x })
		if !same.Equals(e) || mtext(same.ToProto()) != mtext(p) {
			t.Failf("rewriting with the identity changes %s", show(p))
		}
		judgeVisit(t, e, p, []expr.Expression{expr.NewPrimitiveLiteral(int32(77), false), expr.NewPrimitiveLiteral("r", true)}, 4)
		t.StateBytes([]byte(mtext(p)))
		t.Trans(3)
	}
	c26sized(c, judge)
	type rejects struct {
		what string
		p    *pb.Expression
	}
	for _, s := range subRels(depth) {
		mkRel := func(t *T) plan.Rel {
			r, err := plan.RelFromProto(s.rel, reg)
			if err != nil {
				t.Failf("relation rejected: %v %s", err, show(s.rel))
				return nil
			}
			return r
		}
		c.Case(func(t *T) {
			r := mkRel(t)
			if r == nil {
				return
			}
			b := plan.NewBuilderDefault()
			// scalar
			p := xSubScalar(s.rel)
			e, err := b.ScalarSubquery(r)
			_, err2 := expr.ExprFromProto(p, base, reg)
			if ok := len(s.cols) == 1; (err == nil) != ok || (err2 == nil) != ok {
				t.Failf("scalar subquery over %d columns: builder says %v, message says %v", len(s.cols), err, err2)
			}
			if err == nil {
				judge(t, e, p, s.cols[0])
			}
			// exists / unique
			for op := plan.SetPredicateOp(0); op <= 2; op++ {
				p := xSubSet(s.rel, op)
				e, err := b.SetPredicateSubquery(r, op)
				_, err2 := expr.ExprFromProto(p, base, reg)
				if ok := op != 0; (err == nil) != ok || (err2 == nil) != ok {
					t.Failf("set predicate operation %v: builder says %v, message says %v", op, err, err2)
				}
				if err == nil {
					judge(t, e, p, bt)
				}
			}
		}, "scalar+set", s.id)
		c.Case(func(t *T) {
			r := mkRel(t)
			if r == nil {
				return
			}
			b := plan.NewBuilderDefault()
			for n := 0; n <= 3; n++ {
				for k := 0; k < len(needles); k += 1 + n*2 {
					var es []expr.Expression
					var ps []*pb.Expression
					for j := 0; j < n; j++ {
						x := needles[(k+j*5)%len(needles)]
						g, err := expr.ExprFromProto(x.e, base, reg)
						if err != nil {
							t.Failf("needle: %v", err)
							return
						}
						es, ps = append(es, g), append(ps, g.ToProto())
					}
					e, err := b.InPredicateSubquery(es, r)
					if ok := n > 0 && n == len(s.cols); (err == nil) != ok {
						t.Failf("builder with %d needles and %d columns: %v", n, len(s.cols), err)
					}
					if err == nil {
						judge(t, e, xSubIn(s.rel, ps...), bt)
					}
					judge(t, plan.NewInPredicateSubquery(es, r), xSubIn(s.rel, ps...), bt)
					if n > 0 {
						es2 := append([]expr.Expression{}, es...)
						es2[n-1] = nil
						if _, err := b.InPredicateSubquery(es2, r); err == nil {
							t.Failf("a nil needle is accepted")
						}
					}
				}
			}
		}, "in", s.id)
		c.Case(func(t *T) {
			r := mkRel(t)
			if r == nil {
				return
			}
			b := plan.NewBuilderDefault()
			for k, x := range needles {
				if k%4 != 0 && !c.Thorough {
					continue
				}
				g, err := expr.ExprFromProto(x.e, base, reg)
				if err != nil {
					t.Failf("left: %v", err)
					return
				}
				for red := plan.SetComparisonReductionOp(0); red <= 2; red++ {
					for cmp := plan.SetComparisonComparisonOp(0); cmp <= 6; cmp++ {
						p := xSubCmp(s.rel, g.ToProto(), red, cmp)
						e, err := b.SetComparisonSubquery(g, r, red, cmp)
						_, err2 := expr.ExprFromProto(p, base, reg)
						if ok := red != 0 && cmp != 0; (err == nil) != ok || (err2 == nil) != ok {
							t.Failf("set comparison %v %v: builder says %v, message says %v", red, cmp, err, err2)
						}
						if err == nil {
							judge(t, e, p, bt)
						}
					}
				}
			}
		}, "cmp", s.id)
	}
	// missing parts
	b := plan.NewBuilderDefault()
	one := relNamed("t", tI32(nReq))
	badRel := []*pb.Rel{nil, {}, {RelType: &pb.Rel_Read{Read: &pb.ReadRel{Common: relDirect(), BaseSchema: nsOf([]*pb.Type{tI32(nReq)})}}}, relFilter(nil, xLit(lBool(true)))}
	badX := []*pb.Expression{nil, {}, xSel(&pb.Expression_FieldReference{}), xCol(99)}
	var rs []rejects
	for i, r := range badRel {
		rs = append(rs, rejects{fmt.Sprintf("scalar rel%d", i), xSubScalar(r)}, rejects{fmt.Sprintf("set rel%d", i), xSubSet(r, 1)},
			rejects{fmt.Sprintf("in rel%d", i), xSubIn(r, xCol(0))}, rejects{fmt.Sprintf("cmp rel%d", i), xSubCmp(r, xCol(0), 1, 1)})
	}
	for i, x := range badX {
		rs = append(rs, rejects{fmt.Sprintf("in x%d", i), xSubIn(one, x)}, rejects{fmt.Sprintf("in 2nd x%d", i), xSubIn(one, xCol(0), x)}, rejects{fmt.Sprintf("cmp x%d", i), xSubCmp(one, x, 1, 1)})
	}
	rs = append(rs, rejects{"no kind", xSub(&pb.Expression_Subquery{})})
	for _, q := range rs {
		c.Case(func(t *T) {
			before := proto.Clone(q.p)
			e, err := expr.ExprFromProto(q.p, base, reg)
			if err == nil {
				t.Failf("malformed subquery accepted as %v: %s", e, show(before))
			}
			// inside other expressions and relations, too
			if _, err := expr.ExprFromProto(xNestList(false, 0, xCol(0), q.p), base, reg); err == nil {
				t.Failf("malformed subquery accepted inside a list: %s", show(before))
			}
			if _, err := plan.RelFromProto(relFilter(relNamed("t", tI32(nReq)), q.p), reg); err == nil {
				t.Failf("malformed subquery accepted inside a filter: %s", show(before))
			}
			t.Trans(3)
		}, "malformed", q.what)
	}
	c.Case(func(t *T) {
		r, err := plan.RelFromProto(one, reg)
		if err != nil {
			t.Failf("%v", err)
			return
		}
		lit := expr.NewPrimitiveLiteral(int32(1), false)
		for what, err := range map[string]error{
			"scalar nil": func() error { _, e := b.ScalarSubquery(nil); return e }(),
			"in nil rel": func() error { _, e := b.InPredicateSubquery([]expr.Expression{lit}, nil); return e }(),
			"in none":    func() error { _, e := b.InPredicateSubquery(nil, r); return e }(),
			"set nil":    func() error { _, e := b.SetPredicateSubquery(nil, 1); return e }(),
			"cmp nil":    func() error { _, e := b.SetComparisonSubquery(lit, nil, 1, 1); return e }(),
			"cmp left":   func() error { _, e := b.SetComparisonSubquery(nil, r, 1, 1); return e }(),
		} {
			if err == nil {
				t.Failf("builder accepts %s", what)
			}
		}
	}, "builder nil")
	// a registry without a converter reports subqueries
	c.Case(func(t *T) {
		reg2 := emptyReg()
		if _, err := expr.ExprFromProto(xSubScalar(one), base, reg2); err == nil {
			t.Failf("subquery read without converter")
		}
	}, "no converter")
}
