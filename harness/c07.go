// C07: expression equality is an equivalence that agrees with the serialized form.
package main

import (
	"fmt"

	"github.com/substrait-io/substrait-go/v8/expr"
	"github.com/substrait-io/substrait-go/v8/plan"
	"github.com/substrait-io/substrait-go/v8/types"
	pb "github.com/substrait-io/substrait-protobuf/go/substraitpb"
	"google.golang.org/protobuf/proto"
)

func init() {
	checks["C07"] = &Check{Run: runC07, Quick: 250, Thorough: 850,
		Bounds: "all ordered pairs of the depth-1 expression universe, of all literals (kind x value x nullable x variation), of reference segment chains to depth 3, of masks and of function arguments; every one-step edit of every message of the depth-1 (thorough: depth-2) universe that is still a valid message: two expressions are equal exactly when their canonical messages are; one-step edits of expressions with lists of up to 33 parts",
		Assume: []string{"whether positive and negative zero are equal is not prescribed", "subqueries compare their relation by identity (pinned by an existing test): only their own attributes are judged, on a shared relation"}}
}

type eqItem struct {
	id  string
	e   expr.Expression
	key string
}

func runC07(c *Ctx) {
	cols := baseCols()
	base := recordOf(cols)
	reg := stdReg()
	var items []eqItem
	bad := map[string]string{}
	seen := map[string]bool{}
	addItem := func(id string, p *pb.Expression) {
		k := mtext(normExpr(p))
		if hasSubquery(p) {
			return
		}
		// one duplicate of each message is kept so that equal pairs exist
		if seen[k] && seen[k+"#2"] {
			return
		}
		if seen[k] {
			seen[k+"#2"] = true
		}
		seen[k] = true
		e, err := expr.ExprFromProto(p, base, reg)
		if err != nil {
			bad[id] = err.Error()
			return
		}
		items = append(items, eqItem{id, e, mtext(normExpr(e.ToProto()))})
	}
	// depth 1: every maker with every leaf in the first slot and rotating others
	for i, x := range exprUniverse(1) {
		if c.Thorough || i%2 == 0 || i < 400 {
			addItem(x.id, x.e)
		}
	}
	for _, x := range leafExprs() {
		addItem("again "+x.id, proto.Clone(x.e).(*pb.Expression))
	}
	for i, m := range maskSelects(2) {
		for _, s := range []bool{false, true} {
			addItem(fmt.Sprintf("mask%d %v", i, s), xMask(&pb.Expression_MaskExpression{Select: mStruct(mItem(2, m)), MaintainSingularStruct: s}))
		}
	}
	for i, s := range segChains(3) {
		addItem(fmt.Sprintf("outer seg%d", i), xOuter(1, s))
		if i%3 == 0 {
			addItem(fmt.Sprintf("outer2 seg%d", i), xOuter(2, s))
			addItem(fmt.Sprintf("lambda seg%d", i), xLambdaRef(0, s))
		}
	}
	for id, e := range bad {
		c.Case(func(t *T) { t.Failf("a valid expression is rejected: %s", e) }, "rejected", id)
	}
	pairs(c, "expr", items)
	var lits []eqItem
	for _, l := range leafLits() {
		if l.name == "fp32:-0" || l.name == "fp64:-0" {
			continue // whether the two zeros are equal is not prescribed
		}
		for _, nb := range []bool{false, true} {
			for _, v := range []uint32{0, 7} {
				p := flags(l.mk(), nb, v)
				e, err := expr.ExprFromProto(xLit(p), base, reg)
				if err != nil {
					c.Case(func(t *T) { t.Failf("valid literal rejected: %v", err) }, "lit", l.name)
					continue
				}
				lits = append(lits, eqItem{fmt.Sprintf("%s/%s %v %d", l.kind, l.name, nb, v), e, mtext(normExpr(e.ToProto()))})
			}
		}
	}
	pairs(c, "literal", lits)
	// an expression never equals one of another class
	c.Case(func(t *T) {
		for i, a := range items {
			b := lits[i%len(lits)]
			if a.key != b.key && (a.e.Equals(b.e) || b.e.Equals(a.e)) {
				t.Failf("%s equals %s", a.id, b.id)
			}
			t.Trans(2)
		}
	}, "cross")
	c07Args(c, reg, base)
	c07Subqueries(c, reg, base)
	// every one-step edit
	lvl := 1
	if c.Thorough {
		lvl = 2
	}
	done := map[string]bool{}
	for _, x := range append(exprUniverse(lvl), sizedExprs(33)...) {
		if hasSubquery(x.e) {
			continue
		}
		k := mtext(x.e)
		if done[k] {
			continue
		}
		done[k] = true
		c.Case(func(t *T) {
			e, err := expr.ExprFromProto(x.e, base, reg)
			if err != nil {
				t.Failf("valid expression rejected: %v", err)
				return
			}
			key := mtext(normExpr(e.ToProto()))
			if !e.Equals(e) {
				t.Failf("not equal to itself: %s", show(x.e))
			}
			for _, ed := range edits(x.e, nil) {
				m := ed.apply(x.e).(*pb.Expression)
				var e2 expr.Expression
				var err error
				if pn := catch(func() { e2, err = expr.ExprFromProto(m, base, reg) }); pn != "" {
					t.Note("edit panics on read (judged by C27)")
					continue
				}
				if err != nil {
					t.Note("edit rejected")
					continue
				}
				if hasSubquery(m) {
					continue
				}
				var k2 string
				if pn := catch(func() { k2 = mtext(normExpr(e2.ToProto())) }); pn != "" {
					t.Note("edit cannot be written (judged by C27)")
					continue
				}
				want := k2 == key
				t.Trans(2)
				t.State(k2)
				if g := e.Equals(e2); g != want {
					t.Failf("Equals is %v after %s, the messages are equal: %v\n  %s\n  %s", g, ed, want, show(x.e), show(m))
				}
				if g := e2.Equals(e); g != want {
					t.Failf("reversed Equals is %v after %s, the messages are equal: %v\n  %s\n  %s", g, ed, want, show(m), show(x.e))
				}
			}
			t.Validated()
		}, "edit", x.id)
	}
}

func pairs(c *Ctx, kind string, items []eqItem) {
	for i, a := range items {
		c.Case(func(t *T) {
			t.State(a.key)
			for _, b := range items {
				if g := a.e.Equals(b.e); g != (a.key == b.key) {
					t.Failf("Equals(%s, %s) is %v, their messages are equal: %v\n  %s\n  %s", a.id, b.id, g, a.key == b.key, show(a.e.ToProto()), show(b.e.ToProto()))
					if len(t.fails) > 5 {
						return
					}
				}
			}
			t.Trans(len(items))
			t.Validated()
		}, "pairs", kind, i, a.id)
	}
}

// segChains: all reference segment chains to the given length over a small alphabet.
func segChains(depth int) []*pb.Expression_ReferenceSegment {
	if depth == 0 {
		return nil
	}
	kids := append([]*pb.Expression_ReferenceSegment{nil}, segChains(depth-1)...)
	var r []*pb.Expression_ReferenceSegment
	for _, k := range kids {
		cl := func() *pb.Expression_ReferenceSegment {
			if k == nil {
				return nil
			}
			return proto.Clone(k).(*pb.Expression_ReferenceSegment)
		}
		r = append(r, segField(0, cl()), segField(2, cl()), segElem(0, cl()), segElem(-1, cl()),
			segKey(lStr("a"), cl()), segKey(lStr("b"), cl()), segKey(lI32(0), cl()))
	}
	return r
}

func c07Args(c *Ctx, reg expr.ExtensionRegistry, base *types.RecordType) {
	var args []*pb.FunctionArgument
	for _, x := range leafExprs() {
		args = append(args, argV(x.e))
	}
	for _, s := range []string{"", "a", "b", "i32"} {
		args = append(args, argE(s))
	}
	for _, pt := range typeUniverse(false) {
		if len(pt.id) < 60 {
			args = append(args, argT(pt.p))
		}
	}
	var got []types.FuncArg
	for _, a := range args {
		f, err := expr.FuncArgFromProto(a, base, reg)
		if err != nil {
			c.Case(func(t *T) { t.Failf("argument rejected: %v %s", err, show(a)) }, "arg", show(a))
			return
		}
		got = append(got, f)
	}
	key := func(f types.FuncArg) string {
		p := proto.Clone(f.ToProtoFuncArg()).(*pb.FunctionArgument)
		return mtext(normLits(p))
	}
	for i, a := range got {
		c.Case(func(t *T) {
			for j, b := range got {
				if g := expr.FuncArgsEqual(a, b); g != (key(a) == key(b)) {
					t.Failf("FuncArgsEqual is %v for %s and %s", g, show(args[i]), show(args[j]))
				}
			}
			t.Trans(len(got))
		}, "args", i)
	}
}

// c07Subqueries: subqueries over the same or over two different relations.
func c07Subqueries(c *Ctx, reg expr.ExtensionRegistry, base *types.RecordType) {
	mkRel := func(cols ...*pb.Type) plan.Rel {
		r, err := plan.RelFromProto(relNamed("s", cols...), reg)
		if err != nil {
			panic(err)
		}
		return r
	}
	var rels []plan.Rel
	for i := 0; i < 2; i++ {
		rels = append(rels, mkRel(tI32(nReq)), mkRel(tI32(nNul)), mkRel(tI32(nReq), leafT("string", nReq, 0)))
	}
	var xs []expr.Expression
	for _, l := range leafExprs()[:12] {
		e, err := expr.ExprFromProto(l.e, base, reg)
		if err != nil {
			panic(err)
		}
		xs = append(xs, e)
	}
	var items []eqItem
	add := func(e expr.Expression, key string) { items = append(items, eqItem{key, e, key}) }
	for dup := 0; dup < 2; dup++ {
		for i, r := range rels {
			add(plan.NewScalarSubquery(r), fmt.Sprintf("scalar %d", i))
			for op := plan.SetPredicateOp(0); op <= 2; op++ {
				add(plan.NewSetPredicateSubquery(op, r), fmt.Sprintf("set %d %d", i, op))
			}
			for j, x := range xs {
				add(plan.NewInPredicateSubquery([]expr.Expression{x}, r), fmt.Sprintf("in %d %d", i, j))
				add(plan.NewInPredicateSubquery([]expr.Expression{x, xs[0]}, r), fmt.Sprintf("in %d %d 0", i, j))
				if j > 0 {
					add(plan.NewInPredicateSubquery([]expr.Expression{xs[0], x}, r), fmt.Sprintf("in %d 0 %d", i, j))
				}
				for red := plan.SetComparisonReductionOp(1); red <= 2; red++ {
					for cmp := plan.SetComparisonComparisonOp(1); cmp <= 6; cmp++ {
						if j < 3 || cmp == 1 {
							add(plan.NewSetComparisonSubquery(red, cmp, x, r), fmt.Sprintf("cmp %d %d %d %d", i, j, red, cmp))
						}
					}
				}
			}
		}
		for j, x := range xs {
			add(x, fmt.Sprintf("plain %d", j))
		}
	}
	pairs(c, "subquery", items)
}
