// C22: dynamic parameters are checked wherever they occur in a plan.
package main

import (
	"fmt"
	"strings"

	"github.com/substrait-io/substrait-go/v8/expr"
	"github.com/substrait-io/substrait-go/v8/plan"
	"github.com/substrait-io/substrait-go/v8/types"
	pb "github.com/substrait-io/substrait-protobuf/go/substraitpb"
	"google.golang.org/protobuf/proto"
)

func init() {
	checks["C22"] = &Check{Run: runC22, Quick: 250, Thorough: 850, Shards: 8,
		Bounds: "a parameter in every expression place of every base relation of the C01 universe (filters, conditions, projections, sort fields, grouping expressions, measure arguments, sorts and filters, virtual table rows, join key roots), with every subset of the other places made constant, in every child place of every expression kind (thorough: two levels deep), in the relation of every subquery kind (nested twice), in every place of relations with lists of up to 9 (33) parts and of the 256 lists of four grouping sets, next to every removal (thorough: every edit) of another part of the relation, beside every expression as needle or left side, in every input of every relation kind and in relations of the plan that are not roots; each with no, right, differently nullable, wrong-type, wrong-anchor, missing-value bindings and up to three further uses of the same or another type in four arrangements; up to 129 (300) parameters with a binding each in five arrangements, one binding missing or wrong, and parameters used as often with one use of another type; all ordered pairs of the literal kinds as parameter and binding type; by the check function, by the builder's plan and through the message",
		Assume: []string{"a parameter without a binding is accepted, as documented", "several bindings of one parameter are not prescribed", "the types inside a composite type have to agree in nullability or the verdict is not prescribed"}}
}

const paramRef = 9

func xParamRef(ref uint32, t *pb.Type) *pb.Expression {
	return &pb.Expression{RexType: &pb.Expression_DynamicParameter{DynamicParameter: &pb.DynamicParameter{Type: t, ParameterReference: ref}}}
}

// paramPlaces lists the relations made from r by putting e in one place of it,
// with the other places as they are and with constants in them (each subset of
// up to three other places, otherwise each one and all).
func paramPlaces(r *pb.Rel, e *pb.Expression) []*pb.Rel {
	var out []*pb.Rel
	ex, keys, _ := relSlots(normRel(r, false))
	for i := range ex {
		for _, sub := range otherPlaces(len(ex), i) {
			for k, lit := range []*pb.Expression{xLit(lBool(true)), xLit(lBool(false)), xCol(1), xLit(lNull(leafT("boolean", nNul, 0)))} {
				if len(sub) == 0 && k > 0 {
					break
				}
				c := normRel(r, false)
				s, _, _ := relSlots(c)
				for _, j := range sub {
					s[j].set(lit)
				}
				s[i].set(e)
				out = append(out, c)
			}
		}
	}
	for i := range keys {
		c := normRel(r, false)
		_, s, _ := relSlots(c)
		k := proto.Clone(s[i].m).(*pb.Expression_FieldReference)
		k.RootType = &pb.Expression_FieldReference_Expression{Expression: &pb.Expression{RexType: &pb.Expression_Nested_{Nested: &pb.Expression_Nested{NestedType: &pb.Expression_Nested_Struct_{Struct: &pb.Expression_Nested_Struct{Fields: []*pb.Expression{e, e, e}}}}}}}
		s[i].set(k)
		out = append(out, c)
	}
	return out
}

func otherPlaces(n, i int) [][]int {
	var o []int
	for j := 0; j < n; j++ {
		if j != i {
			o = append(o, j)
		}
	}
	out := [][]int{nil}
	if len(o) > 3 {
		for _, j := range o {
			out = append(out, []int{j})
		}
		return append(out, o)
	}
	for m := 1; m < 1<<len(o); m++ {
		var s []int
		for b, j := range o {
			if m>>b&1 == 1 {
				s = append(s, j)
			}
		}
		out = append(out, s)
	}
	return out
}

// aside lists the one-step edits outside of expressions and types.
func aside(p proto.Message) (r []medit) {
	for _, e := range edits(p, nil) {
		inside := false
		for _, s := range e.path {
			if s.fd.Message() != nil {
				switch s.fd.Message().FullName() {
				case "substrait.Expression", "substrait.Type", "substrait.Expression.Literal", "substrait.Expression.FieldReference":
					inside = true
				}
			}
		}
		if !inside {
			r = append(r, e)
		}
	}
	return
}

func paramBool() *pb.Expression { return xParamRef(paramRef, tBool()) }

func litOf(l *pb.Expression_Literal) expr.Literal { return expr.LiteralFromProto(l) }

// judgeParams: the relation uses parameter paramRef with type boolean.
func judgeParams(t *T, reg expr.ExtensionRegistry, p *pb.Rel, note string) {
	rel, err := plan.RelFromProto(p, reg)
	if err != nil {
		t.Note("rejected")
		return
	}
	used := false
	walkPB(p, func(m proto.Message) {
		d, ok := m.(*pb.DynamicParameter)
		used = used || ok && d.ParameterReference == paramRef
	})
	if !used {
		return
	}
	t.Note("accepted")
	t.StateBytes([]byte(mtext(p)))
	ok := litOf(lBool(true))
	nullable := lBool(false)
	nullable.Nullable = true
	type bs = []plan.DynamicParameterBinding
	one := func(a uint32, l expr.Literal) bs { return bs{{ParameterAnchor: a, Value: l}} }
	cases := []struct {
		what  string
		b     bs
		valid bool
	}{
		{"no binding", nil, true},
		{"the right binding", one(paramRef, ok), true},
		{"a nullable binding", one(paramRef, litOf(nullable)), true},
		{"a null binding", one(paramRef, litOf(lNull(leafT("boolean", nNul, 0)))), true},
		{"a binding of another type", one(paramRef, litOf(lI32(1))), false},
		{"a binding of another variation", one(paramRef, litOf(flags(lBool(true), false, 5))), false},
		{"a binding of an unknown anchor", one(paramRef+1, ok), false},
		{"a right and a surplus binding", append(one(paramRef, ok), one(0, ok)...), false},
		{"a surplus and a right binding", append(one(0, ok), one(paramRef, ok)...), false},
		{"a binding without value", one(paramRef, nil), false},
	}
	for _, c := range cases {
		err := plan.ValidateParameterBindings(rel, c.b)
		if (err == nil) != c.valid {
			t.Failf("%s: %s: error is %v for %s", note, c.what, err, show(p))
		}
		t.Trans(1)
	}
	// as a plan of the builder, as root or beside another root
	b := plan.NewBuilder(defColl())
	tbl, err := plan.RelFromProto(relNamed("o", relColsA()...), reg)
	if err != nil {
		t.Failf("%v", err)
		return
	}
	if unreportable(p) {
		return
	}
	var rootNames []string
	for _, c := range rel.RecordType().Types() {
		if c == nil || catch(func() { types.TypeToProto(c) }) != "" {
			return // the type of an outer or lambda reference read from a message is not known
		}
		rootNames = append(rootNames, "n")
		rootNames = append(rootNames, nestedNames(types.TypeToProto(c), "n")...)
	}
	for i, c := range cases {
		_, e1 := b.PlanWithBindings(rel, rootNames, nil, c.b)
		if (e1 == nil) != c.valid {
			t.Failf("%s as a root with %s: error is %v for %s", note, c.what, e1, show(p))
		}
		pl, e2 := b.PlanWithBindings(tbl, []string{"x", "y", "z"}, nil, c.b, rel)
		if (e2 == nil) != c.valid {
			t.Failf("%s beside the root with %s: error is %v for %s", note, c.what, e2, show(p))
		}
		t.Trans(2)
		if i == 1 && e2 == nil {
			if g := pl.ParameterBindings(); len(g) != 1 || g[0].ParameterAnchor != paramRef || g[0].Value.String() != ok.String() {
				t.Failf("%s: the plan has bindings %v", note, g)
			}
		}
	}
	t.Validated()
}

func runC22(c *Ctx) {
	c22Sized(c)
	reg := relReg()
	// places of relations
	for i, x := range baseRels() {
		if strings.HasPrefix(x.id, "files-") && i%9 != 0 {
			continue
		}
		c.Case(func(t *T) {
			for k, p := range paramPlaces(x.r, paramBool()) {
				judgeParams(t, reg, p, fmt.Sprintf("place %d of %s", k, x.id))
			}
		}, "place", x.id)
		// with one of the other parts of the relation missing or different
		c.Case(func(t *T) {
			for k, p := range paramPlaces(x.r, paramBool()) {
				for _, e := range aside(p) {
					if !c.Thorough && !strings.HasPrefix(e.desc, "remove") && !strings.HasPrefix(e.desc, "clear") {
						continue
					}
					judgeParams(t, reg, e.apply(p).(*pb.Rel), fmt.Sprintf("place %d of %s after %s", k, x.id, e))
				}
			}
		}, "place-aside", x.id)
	}
	for _, x := range sizedRels(false) {
		if n := sizeOf(x.id); n > 9 && !(c.Thorough && n <= 33) || strings.HasPrefix(x.id, "sized-sets") || strings.HasPrefix(x.id, "sized-emit") {
			continue
		}
		c.Case(func(t *T) {
			for k, p := range paramPlaces(x.r, paramBool()) {
				judgeParams(t, reg, p, fmt.Sprintf("place %d of %s", k, x.id))
			}
		}, "place", x.id)
	}
	// inputs of relations
	b := relNamed("b", relColsB()...)
	src := relFilter(relNamed("a", relColsA()...), paramBool())
	for _, m := range relMakers() {
		for j := 0; j < m.arity; j++ {
			c.Case(func(t *T) {
				ins := []*pb.Rel{b, b}[:m.arity]
				ins = append([]*pb.Rel{}, ins...)
				ins[j] = src
				for i, v := range applyMaker(m, ins...) {
					if i > 3 && !c.Thorough {
						break
					}
					judgeParams(t, reg, v.r, fmt.Sprintf("input %d of %s", j, v.id))
				}
			}, "input", m.kind, j)
		}
	}
	// children of expressions, put in a projection
	wrap := func(e *pb.Expression) *pb.Rel { return relProject(relNamed("t", baseCols()...), relDirect(), e) }
	for _, x := range exprUniverse(1) {
		c.Case(func(t *T) {
			p := normExpr(x.e)
			for i, k := range visitKids(p) {
				if k.lit {
					continue
				}
				q := replaceKids(p, map[int]*pb.Expression{i: paramBool()})
				judgeParams(t, reg, wrap(q), fmt.Sprintf("child %d of %s", i, x.id))
				if c.Thorough {
					for j, y := range exprUniverse(1) {
						yp := normExpr(y.e)
						for l, k := range visitKids(yp) {
							if k.lit || (j+l+i)%5 != 0 {
								continue
							}
							judgeParams(t, reg, wrap(replaceKids(p, map[int]*pb.Expression{i: replaceKids(yp, map[int]*pb.Expression{l: paramBool()})})), fmt.Sprintf("child %d of %s in child %d of %s", l, y.id, i, x.id))
						}
					}
				}
			}
		}, "child", x.id)
	}
	// relations of subqueries
	one := relProject(relNamed("s", leafT("i32", nReq, 0)), relEmit(1), xLit(lI32(1)))
	inside := []prel{{"filter", relFilter(one, paramBool())},
		{"project", relProject(relNamed("s", leafT("i32", nReq, 0)), relEmit(1), paramBool())},
		{"deep", relFilter(relFilter(one, paramBool()), xLit(lBool(true)))}}
	subs := func(r *pb.Rel) []*pb.Expression {
		return []*pb.Expression{xSubScalar(r), xSubIn(r, xLit(lI32(1))), xSubSet(r, 1), xSubCmp(r, xLit(lI32(1)), 1, 1)}
	}
	for _, in := range inside {
		for k := 0; k < 4; k++ {
			c.Case(func(t *T) {
				e := subs(in.r)[k]
				judgeParams(t, reg, wrap(e), fmt.Sprintf("subquery %d over %s", k, in.id))
				nested := relProject(relNamed("s", leafT("i32", nReq, 0)), relEmit(1), e)
				for l, e2 := range subs(nested) {
					judgeParams(t, reg, wrap(e2), fmt.Sprintf("subquery %d in subquery %d over %s", k, l, in.id))
				}
			}, "subquery", in.id, k)
		}
	}
	for k := 0; k < 2; k++ { // needles and left sides
		c.Case(func(t *T) {
			judgeParams(t, reg, wrap([]*pb.Expression{xSubIn(one, paramBool()), xSubCmp(one, paramBool(), 1, 1)}[k]), "needle")
		}, "needle", k)
	}
	for i, x := range exprUniverse(1) { // parameters beside any needle or left side
		c.Case(func(t *T) {
			for k, in := range inside {
				judgeParams(t, reg, wrap(xSubIn(in.r, x.e)), fmt.Sprintf("haystack %d beside %s", k, x.id))
				judgeParams(t, reg, wrap(xSubCmp(in.r, x.e, 1, 1)), fmt.Sprintf("right side %d beside %s", k, x.id))
				judgeParams(t, reg, wrap(xSubIn(one, x.e, paramBool())), "second needle beside "+x.id)
			}
		}, "beside", i)
	}
	// types of parameter and binding
	lits := map[string]*pb.Expression_Literal{}
	var names []string
	for _, l := range leafLits() {
		m := flags(l.mk(), false, 0)
		g := litOf(m)
		if g == nil {
			continue
		}
		ty := mtext(types.TypeToProto(g.GetType()))
		if lits[ty] == nil {
			lits[ty] = m
			names = append(names, ty)
		}
	}
	for i, a := range names {
		c.Case(func(t *T) {
			at := types.TypeToProto(litOf(lits[a]).GetType())
			for _, pn := range []pb.Type_Nullability{nReq, nNul} {
				p := wrap(xParamRef(paramRef, withNullability(at, pn)))
				rel, err := plan.RelFromProto(p, reg)
				if err != nil {
					t.Failf("rejected: %v %s", err, show(p))
					return
				}
				for _, b := range names {
					for _, nul := range []bool{false, true} {
						v := litOf(flags(proto.Clone(lits[b]).(*pb.Expression_Literal), nul, 0))
						err := plan.ValidateParameterBindings(rel, []plan.DynamicParameterBinding{{ParameterAnchor: paramRef, Value: v}})
						if (err == nil) != (a == b) {
							t.Failf("parameter of type %s bound to %s: error is %v", show(at), v, err)
						}
						t.Trans(1)
						t.State(fmt.Sprint(i, b, nul, pn))
					}
				}
			}
			t.Validated()
		}, "types", i)
	}
	// two uses of one parameter
	tys := []*pb.Type{tBool(), leafT("i32", nReq, 0), leafT("boolean", nNul, 0), leafT("boolean", nReq, 5)}
	vals := []*pb.Expression_Literal{lBool(true), lI32(1), lBool(false), flags(lBool(true), false, 5)}
	agree := func(i, k int) bool { return i == k || i+k == 2 && i != 1 }
	for i := range tys {
		for j := range tys {
			c.Case(func(t *T) {
				ps := []*pb.Rel{relProject(relNamed("t", baseCols()...), relDirect(), xParamRef(paramRef, tys[i]), xParamRef(paramRef, tys[j])),
					relProject(wrap(xParamRef(paramRef, tys[i])), relDirect(), xParamRef(paramRef, tys[j])),
					relProject(wrap(xSubScalar(relProject(relNamed("s", leafT("i32", nReq, 0)), relEmit(1), xParamRef(paramRef, tys[i])))), relDirect(), xParamRef(paramRef, tys[j]))}
				for n, p := range ps {
					rel, err := plan.RelFromProto(p, reg)
					if err != nil {
						t.Failf("rejected: %v %s", err, show(p))
						continue
					}
					for k, v := range vals {
						err := plan.ValidateParameterBindings(rel, []plan.DynamicParameterBinding{{ParameterAnchor: paramRef, Value: litOf(v)}})
						if want := agree(i, k) && agree(j, k); (err == nil) != want {
							t.Failf("uses %d and %d (arrangement %d) bound to %d: error is %v", i, j, n, k, err)
						}
						t.Trans(1)
						t.State(fmt.Sprint("two", i, j, n, k))
					}
				}
				t.Validated()
			}, "two", i, j)
			c.Case(func(t *T) {
				for k := range tys {
					for l := -1; l < len(tys); l++ {
						uses := []*pb.Expression{xParamRef(paramRef, tys[i]), xParamRef(paramRef, tys[j]), xParamRef(paramRef, tys[k])}
						all := []int{i, j, k}
						if l >= 0 {
							uses, all = append(uses, xParamRef(paramRef, tys[l])), append(all, l)
						}
						n := len(uses)
						stacked := wrap(uses[0])
						for _, u := range uses[1:] {
							stacked = relProject(stacked, relDirect(), u)
						}
						for a, p := range []*pb.Rel{relProject(relNamed("t", baseCols()...), relDirect(), uses...), stacked, relProject(wrap(uses[0]), relDirect(), uses[1:]...), relProject(wrap(xNestList(false, 0, uses[1:]...)), relDirect(), uses[0])} {
							rel, err := plan.RelFromProto(p, reg)
							if err != nil {
								t.Failf("rejected: %v %s", err, show(p))
								continue
							}
							for v, val := range vals {
								err := plan.ValidateParameterBindings(rel, []plan.DynamicParameterBinding{{ParameterAnchor: paramRef, Value: litOf(val)}})
								want := true
								for _, u := range all {
									want = want && agree(u, v)
								}
								if (err == nil) != want {
									t.Failf("%d uses %v (arrangement %d) bound to %d: error is %v", n, all, a, v, err)
								}
								t.Trans(1)
							}
						}
					}
				}
				t.Validated()
			}, "several", i, j)
		}
	}
	// two parameters, two bindings
	for i := 0; i < 2; i++ {
		for j := 0; j < 2; j++ {
			c.Case(func(t *T) {
				p := relProject(relNamed("t", baseCols()...), relDirect(), xParamRef(1, tys[0]), xParamRef(2, tys[1]))
				rel, err := plan.RelFromProto(p, reg)
				if err != nil {
					t.Failf("rejected: %v", err)
					return
				}
				for _, sw := range []bool{false, true} {
					bs := []plan.DynamicParameterBinding{{ParameterAnchor: 1, Value: litOf(vals[i])}, {ParameterAnchor: 2, Value: litOf(vals[j])}}
					if sw {
						bs[0], bs[1] = bs[1], bs[0]
					}
					err := plan.ValidateParameterBindings(rel, bs)
					if (err == nil) != (i == 0 && j == 1) {
						t.Failf("two parameters bound to %d and %d: error is %v", i, j, err)
					}
					t.Trans(1)
				}
				t.Validated()
			}, "pair", i, j)
		}
	}
	c22Trip(c)
}

// c22Trip: bindings of every literal kind survive the message.
func c22Trip(c *Ctx) {
	for _, l := range leafLits() {
		c.Case(func(t *T) {
			for _, nul := range []bool{false, true} {
				v := flags(l.mk(), nul, 0)
				g := litOf(v)
				if g == nil {
					continue
				}
				p := basePlan(planRoot(relProject(relNamed("t", relColsA()...), relDirect(), xParamRef(3, types.TypeToProto(g.GetType())))))
				p.ParameterBindings = []*pb.DynamicParameterBinding{{ParameterAnchor: 3, Value: v}, {ParameterAnchor: 1 << 31, Value: lI32(4)}, {ParameterAnchor: 0, Value: v}}
				judgePlan(t, p, true)
			}
		}, "trip", l.name)
	}
}
