// C05: expression rewriting visits every child and leaves the original intact.
package main

import (
	"fmt"

	"github.com/substrait-io/substrait-go/v8/expr"
	"github.com/substrait-io/substrait-go/v8/types"
	pb "github.com/substrait-io/substrait-protobuf/go/substraitpb"
	"google.golang.org/protobuf/proto"
)

func init() {
	checks["C05"] = &Check{Run: runC05, Quick: 200, Thorough: 800,
		Bounds: "every expression of the C06 universe (all kinds, all attributes, nesting depth 3): Visit with the identity, with every single child replaced, with every pair of children replaced (quick: at most 5 children) and with all replaced; recursive rewriting of every subset of one expression kind; every base relation of the C01 universe, each also with every part removed (thorough: edited), and relations with lists of up to 9 (33) parts and all lists of 3-4 grouping sets over two expressions: rewriting with the identity, with each distinct expression it holds replaced, with all replaced, with an error at each expression, with each input and all inputs replaced and both together, copying with new inputs, wrong numbers of inputs; expressions with lists of up to 17 parts and nested up to 17 deep",
		Assume: []string{"the order in which the children of one expression are visited is not prescribed", "a literal root of a field reference is part of the reference (pinned by an existing example)", "replacements in a literal slot are literals", "join keys are replaced by field references only", "the expressions inside an extension relation are not rewritten (they belong to its definition)", "the rewrite function may be called with nil for an absent optional expression (existing tests pin it)"}}
}

// visitKids are the children Visit must reach.
func visitKids(e *pb.Expression) []kid {
	ks := exprKids(e)
	if s := e.GetSelection(); s != nil && len(ks) == 1 && ks[0].e.GetLiteral() != nil {
		return nil
	}
	return ks
}

func replaceKids(e *pb.Expression, idx map[int]*pb.Expression) *pb.Expression {
	c := proto.Clone(e).(*pb.Expression)
	for i, k := range visitKids(c) {
		if r, ok := idx[i]; ok {
			k.set(r)
		}
	}
	return c
}

func judgeVisit(t *T, e expr.Expression, p *pb.Expression, repl []expr.Expression, pairs int) {
	orig := mtext(e.ToProto())
	var seen []string
	same := e.Visit(func(x expr.Expression) expr.Expression {
		seen = append(seen, mtext(x.ToProto()))
		return x
	})
	kids := visitKids(p)
	left := map[string]int{}
	for _, k := range kids {
		left[mtext(k.e)]++
	}
	for _, s := range seen {
		left[s]--
	}
	for k, n := range left {
		if n != 0 {
			x := &pb.Expression{}
			_ = proto.Unmarshal([]byte(k), x)
			t.Failf("Visit reaches child %s %+d times too few (of %d children, %d visits) in %s", show(x), n, len(kids), len(seen), show(p))
			return
		}
	}
	if mtext(same.ToProto()) != orig {
		t.Failf("Visit with the identity changes %s into %s", show(p), show(same.ToProto()))
	}
	if !hasSubquery(p) && !same.Equals(e) {
		t.Failf("Visit with the identity gives an unequal expression for %s", show(p))
	}
	t.Trans(1)
	// single replacement: visit number i replaces one distinct child
	slot := make([]int, len(seen))
	used := map[int]bool{}
	for i := range seen {
		out := visitReplacing(e, map[int]expr.Expression{i: repl[0]})
		got := mtext(out.ToProto())
		found := -1
		for j, k := range kids {
			if !used[j] && mtext(k.e) == seen[i] && mtext(replaceKids(p, map[int]*pb.Expression{j: repl[0].ToProto()})) == got {
				found = j
				break
			}
		}
		if found < 0 {
			t.Failf("replacing child %d of %s by %s gives %s", i, show(p), repl[0], show(out.ToProto()))
			return
		}
		used[found] = true
		slot[i] = found
		if mtext(e.ToProto()) != orig {
			t.Failf("replacing child %d changed the original %s into %s", i, show(p), show(e.ToProto()))
			return
		}
		t.Trans(1)
		t.State(got)
	}
	check := func(m map[int]int) {
		a, b := map[int]expr.Expression{}, map[int]*pb.Expression{}
		for i, r := range m {
			a[i], b[slot[i]] = repl[r], repl[r].ToProto()
		}
		out := visitReplacing(e, a)
		if mtext(out.ToProto()) != mtext(replaceKids(p, b)) {
			t.Failf("replacing children %v of %s gives %s", m, show(p), show(out.ToProto()))
		}
		if mtext(e.ToProto()) != orig {
			t.Failf("replacing children %v changed the original %s into %s", m, show(p), show(e.ToProto()))
		}
		t.Trans(1)
	}
	n := len(seen)
	if n <= pairs {
		for i := 0; i < n; i++ {
			for j := i + 1; j < n; j++ {
				check(map[int]int{i: 0, j: 1})
			}
		}
	}
	if n > 2 {
		all := map[int]int{}
		for i := 0; i < n; i++ {
			all[i] = i % len(repl)
		}
		check(all)
	}
	t.Validated()
}

func visitReplacing(e expr.Expression, m map[int]expr.Expression) expr.Expression {
	i := -1
	return e.Visit(func(x expr.Expression) expr.Expression {
		i++
		if r, ok := m[i]; ok {
			return r
		}
		return x
	})
}

// rewriteAll applies a message level rewriting to every expression below p, bottom up.
func rewriteAll(p *pb.Expression, f func(*pb.Expression) *pb.Expression) *pb.Expression {
	c := proto.Clone(p).(*pb.Expression)
	for _, k := range visitKids(c) {
		k.set(rewriteAll(k.e, f))
	}
	return f(c)
}

func rewriteExpr(e expr.Expression, f func(expr.Expression) expr.Expression) expr.Expression {
	return f(e.Visit(func(x expr.Expression) expr.Expression { return rewriteExpr(x, f) }))
}

func runC05(c *Ctx) {
	cols := baseCols()
	base := recordOf(cols)
	reg := stdReg()
	repl := []expr.Expression{expr.NewPrimitiveLiteral(int32(77), false), expr.NewPrimitiveLiteral("other", true), expr.NewPrimitiveLiteral(int32(78), false)}
	lvl := 2
	pairs := 5
	if c.Thorough {
		lvl, pairs = 3, 12
	}
	for _, x := range append(exprUniverse(lvl), sizedExprs(17)...) {
		c.Case(func(t *T) {
			c.Dim("root", fmt.Sprintf("%T", x.e.RexType))
			p := normExpr(x.e)
			e, err := expr.ExprFromProto(p, base, reg)
			if err != nil {
				t.Failf("valid expression rejected: %v %s", err, show(p))
				return
			}
			judgeVisit(t, e, p, repl, pairs)
			// deep rewriting, bottom up: literals, column references, casts
			orig := mtext(e.ToProto())
			for k := 0; k < 3; k++ {
				got := rewriteExpr(e, func(x expr.Expression) expr.Expression { return deepGo(k, x) })
				want := rewriteAll(p, func(x *pb.Expression) *pb.Expression { return deepPB(k, x) })
				if mtext(got.ToProto()) != mtext(want) {
					t.Failf("rewriting %d of %s gives %s, want %s", k, show(p), show(got.ToProto()), show(want))
				}
				if mtext(e.ToProto()) != orig {
					t.Failf("rewriting %d changed the original %s", k, show(p))
				}
				t.Trans(1)
			}
		}, "expr", x.id)
	}
	for _, l := range leafLits() {
		c.Case(func(t *T) {
			lit := normLit(flags(l.mk(), false, 0))
			p := xSwitch(xLit(lit), xLit(lit), []*pb.Expression_Literal{lit, lit}, xLit(lit), xOr(xLit(lit), xLit(lit)))
			e, err := expr.ExprFromProto(p, base, reg)
			if err != nil {
				t.Failf("valid expression rejected: %v %s", err, show(p))
				return
			}
			p = normExpr(e.ToProto())
			if mtext(p) != mtext(e.ToProto()) {
				p = e.ToProto()
			}
			judgeVisit(t, e, p, repl, 6)
		}, "lit", l.name)
	}
	c05Rels(c)
}

// deepGo and deepPB are the same rewriting on expressions and on messages.
func deepGo(k int, x expr.Expression) expr.Expression {
	switch k {
	case 0:
		if l, ok := x.(*expr.PrimitiveLiteral[int32]); ok {
			return expr.NewPrimitiveLiteral(l.Value+1000, false)
		}
	case 1:
		if f, ok := x.(*expr.FieldReference); ok && f.Root == expr.RootReference {
			if r, ok := f.Reference.(*expr.StructFieldRef); ok && r.Child == nil {
				return expr.NewPrimitiveLiteral(r.Field, true)
			}
		}
	case 2:
		if ca, ok := x.(*expr.Cast); ok {
			return &expr.Cast{Type: &types.StringType{Nullability: types.NullabilityNullable}, Input: ca.Input, FailureBehavior: ca.FailureBehavior}
		}
	}
	return x
}

func deepPB(k int, x *pb.Expression) *pb.Expression {
	switch k {
	case 0:
		if l := x.GetLiteral(); l != nil {
			if v, ok := l.LiteralType.(*pb.Expression_Literal_I32); ok {
				return xLit(lI32(v.I32 + 1000))
			}
		}
	case 1:
		if s := x.GetSelection(); s != nil && s.GetRootReference() != nil {
			if f := s.GetDirectReference().GetStructField(); f != nil && f.Child == nil {
				l := lI32(f.Field)
				l.Nullable = true
				return xLit(l)
			}
		}
	case 2:
		if ca := x.GetCast(); ca != nil {
			return xCast(ca.Input, leafT("string", nNul, 0), ca.FailureBehavior)
		}
	}
	return x
}
