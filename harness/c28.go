// C28: expression builders and constructors build exactly what was asked for.
package main

import (
	"errors"
	"fmt"
	"strings"

	"github.com/substrait-io/substrait-go/v8/expr"
	"github.com/substrait-io/substrait-go/v8/extensions"
	"github.com/substrait-io/substrait-go/v8/types"
	pb "github.com/substrait-io/substrait-protobuf/go/substraitpb"
	"google.golang.org/protobuf/proto"
)

func init() {
	checks["C28"] = &Check{Run: runC28, Quick: 200, Thorough: 850, Shards: 8,
		Bounds: "all if-then requests of 1-3 (thorough: 4) pairs and all switch requests of 0-2 (thorough: 3) cases over missing, unknown-typed, required, nullable, varied, other-typed and nested parts; all builder terms of depth 3 (thorough: casts and lambdas to depth 4) over literals, wrapped errors, references (right, out of range), parameters, lambda parameters (fields -1..2, 0-2 steps out), casts, scalar and window functions, lambdas over 6 parameter shapes, each built three times, and all ordered pairs of depth 2 terms with one builder; all histories of up to 4 (thorough: 5) setter and build calls on one cast, scalar, aggregate and window builder; list constructors, field reference constructors and expression references over every leaf; if-then and switch requests of up to 300 pairs, one of them flawed",
		Assume: []string{"conditions are not required to be boolean (documented)", "nil expressions given as present are not prescribed"}}
}

// part is an argument of a constructor: an expression with its message and type.
type part28 struct {
	id string
	e  expr.Expression
	p  *pb.Expression
	t  *pb.Type
}

func parts28(reg expr.ExtensionRegistry, base *types.RecordType, cols []*pb.Type) []part28 {
	r := []part28{{id: "nil"}}
	add := func(id string, p *pb.Expression) {
		e, err := expr.ExprFromProto(p, base, reg)
		if err != nil {
			panic(err)
		}
		r = append(r, part28{id, e, p, refExprType(p, cols)})
	}
	add("unknown", xOuter(1, segField(0, nil)))
	add("i32", xCol(0))
	add("i32 lit", xLit(lI32(4)))
	add("i32?", xLit(flags(lI32(5), true, 0)))
	add("i32[7]", xCol(7))
	add("string?", xCol(1))
	add("list?", xCol(3))
	add("list", xNestList(false, 0, xLit(flags(lI32(5), true, 0))))
	return r
}

// sameButNullability: equal types apart from the outermost nullability.
func sameBut(a, b *pb.Type) bool {
	return mtext(withNullability(a, nReq)) == mtext(withNullability(b, nReq))
}

func judge28(t *T, what string, reg expr.ExtensionRegistry, base *types.RecordType, e expr.Expression, err error, want *pb.Expression, typ *pb.Type) {
	t.Trans(1)
	if want == nil {
		if err == nil {
			t.Failf("%s is accepted", what)
		} else if !strings.HasPrefix(what, "term") && len(err.Error()) == 0 {
			t.Failf("%s: an error without text", what)
		}
		return
	}
	if err != nil {
		t.Failf("%s is rejected: %v", what, err)
		return
	}
	q := e.ToProto()
	t.StateBytes([]byte(mtext(want)))
	if mtext(normExpr(q)) != mtext(normExpr(want)) {
		t.Failf("%s is\n  %s, want\n  %s", what, show(q), show(want))
		return
	}
	if typ != nil {
		if g := e.GetType(); g == nil || mtext(types.TypeToProto(g)) != mtext(typ) {
			t.Failf("%s has type %v, want %s", what, g, show(typ))
		}
	}
	if len(e.String()) == 0 {
		t.Failf("%s prints as nothing", what)
	}
	if !e.Equals(e) {
		t.Failf("%s is not equal to itself", what)
	}
	e2, err := expr.ExprFromProto(q, base, reg)
	if err != nil {
		t.Failf("%s: the written message is rejected: %v %s", what, err, show(q))
	} else if mtext(e2.ToProto()) != mtext(q) {
		t.Failf("%s changes in a round trip: %s / %s", what, show(q), show(e2.ToProto()))
	}
	t.Trans(2)
}

func runC28(c *Ctx) {
	c28sized(c)
	c28If(c)
	c28Switch(c)
	c28Terms(c)
	c28Histories(c)
	c28Lists(c)
}

func c28If(c *Ctx) {
	cols := baseCols()
	base := recordOf(cols)
	reg := stdReg()
	ps := parts28(reg, base, cols)
	var conds []part28
	cond := func(id string, p *pb.Expression) {
		e, err := expr.ExprFromProto(p, base, reg)
		if err != nil {
			panic(err)
		}
		conds = append(conds, part28{id, e, p, refExprType(p, cols)})
	}
	conds = append(conds, part28{id: "nil"})
	cond("bool", xCol(5))
	cond("lit", xLit(lBool(true)))
	max := 3
	if c.Thorough {
		max = 4
	}
	for _, els := range ps {
		for _, f := range ps {
			c.Case(func(t *T) {
				var rec func(cs, ts []part28)
				rec = func(cs, ts []part28) {
					if len(cs) > 0 {
						valid := els.e != nil && els.t != nil
						var what strings.Builder
						var kids []*pb.Expression
						var pairs []expr.IfThenPair
						for i := range cs {
							fmt.Fprintf(&what, "if %s then %s ", cs[i].id, ts[i].id)
							pairs = append(pairs, expr.IfThenPair{If: cs[i].e, Then: ts[i].e})
							valid = valid && cs[i].e != nil && ts[i].e != nil && ts[i].t != nil && mtext(ts[i].t) == mtext(els.t)
							kids = append(kids, cs[i].p, ts[i].p)
						}
						what.WriteString("else " + els.id)
						var want *pb.Expression
						if valid {
							want = xIf(append(kids, els.p)...)
						}
						rest := append([]expr.IfThenPair{}, pairs[1:]...)
						var x *expr.IfThen
						var err error
						if msg := catch(func() { x, err = expr.NewIfThen(pairs[0], els.e, rest...) }); msg != "" {
							t.Failf("%s panics: %s", what.String(), clip(msg, 200))
							return
						}
						for i := range rest { // the caller goes on using its slice
							rest[i] = expr.IfThenPair{}
						}
						judge28(t, what.String(), reg, base, x, err, want, els.t)
						if valid && err == nil {
							ok := x.NIfs() == len(pairs) && x.Else() == els.e
							for i := range pairs {
								ok = ok && x.IfPair(i) == pairs[i]
							}
							if !ok {
								t.Failf("%s: other parts are given back", what.String())
							}
							t.Validated()
						}
					}
					if len(cs) == max {
						return
					}
					for _, k := range conds {
						for _, v := range ps {
							if len(cs) == 0 && v.id != f.id {
								continue
							}
							// a bad pair may be followed by any one pair, longer ones add nothing but positions
							if len(cs) >= 2 && (k.id == "lit" || v.id == "list" || v.id == "i32 lit") {
								continue
							}
							rec(append(cs[:len(cs):len(cs)], k), append(ts[:len(ts):len(ts)], v))
						}
					}
				}
				rec(nil, nil)
			}, "if", els.id, f.id)
		}
	}
}

func c28Switch(c *Ctx) {
	cols := baseCols()
	base := recordOf(cols)
	reg := stdReg()
	ps := parts28(reg, base, cols)
	type lit28 struct {
		id string
		l  expr.Literal
		p  *pb.Expression_Literal
	}
	lits := []lit28{{id: "nil"}}
	for _, l := range []struct {
		id string
		p  *pb.Expression_Literal
	}{{"i32", lI32(1)}, {"i32?", flags(lI32(2), true, 0)}, {"null i32", lNull(tI32(nNul))}, {"i32[7]", flags(lI32(1), false, 7)}, {"i64", lI64(1)},
		{"list", lList(flags(lI32(1), true, 0))}, {"list of required", lList(lI32(1))}} {
		lits = append(lits, lit28{l.id, expr.LiteralFromProto(l.p), l.p})
	}
	type swcase = struct {
		If   expr.Literal
		Then expr.Expression
	}
	max := 2
	if c.Thorough {
		max = 3
	}
	for _, m := range ps {
		for _, els := range ps {
			c.Case(func(t *T) {
				var rec func(ls []lit28, ts []part28)
				rec = func(ls []lit28, ts []part28) {
					what := fmt.Sprintf("switch %s else %s", m.id, els.id)
					valid := m.e != nil && m.t != nil && len(ls) > 0 && (els.e == nil || els.t != nil)
					var cases []swcase
					var pls []*pb.Expression_Literal
					var thens []*pb.Expression
					for i := range ls {
						what += fmt.Sprintf(" case %s then %s", ls[i].id, ts[i].id)
						cases = append(cases, swcase{ls[i].l, ts[i].e})
						pls, thens = append(pls, ls[i].p), append(thens, ts[i].p)
						valid = valid && ls[i].l != nil && ts[i].e != nil && ts[i].t != nil
						if !valid {
							continue
						}
						first := ts[0].t
						if els.e != nil {
							first = els.t
						}
						valid = sameBut(m.t, refLitType(ls[i].p)) && sameBut(first, ts[i].t)
					}
					var want *pb.Expression
					var typ *pb.Type
					if valid {
						want = xSwitch(m.p, els.p, pls, thens...)
						typ = refExprType(want, cols)
					}
					var x *expr.SwitchExpr
					var err error
					if msg := catch(func() { x, err = expr.NewSwitch(m.e, els.e, cases...) }); msg != "" {
						t.Failf("%s panics: %s", what, clip(msg, 200))
						return
					}
					judge28(t, what, reg, base, x, err, want, typ)
					if valid && err == nil {
						ok := x.NCases() == len(cases) && x.Else() == els.e && x.MatchExpr() == m.e
						for i := range cases {
							ok = ok && x.Case(i) == cases[i]
						}
						if !ok {
							t.Failf("%s: other parts are given back", what)
						}
						t.Validated()
					}
					if len(ls) == max {
						return
					}
					for _, l := range lits {
						for _, v := range ps {
							if len(ls) >= 2 && (v.id == "i32 lit" || v.id == "list" || l.id == "list of required") {
								continue
							}
							rec(append(ls[:len(ls):len(ls)], l), append(ts[:len(ts):len(ts)], v))
						}
					}
				}
				rec(nil, nil)
			}, "switch", m.id, els.id)
		}
	}
}

// ---- builder terms ----

type term28 struct {
	kind string
	a, b int
	kids []*term28
}

func (x *term28) String() string {
	s := x.kind
	if x.a != 0 || x.b != 0 {
		s += fmt.Sprintf("<%d,%d>", x.a, x.b)
	}
	if len(x.kids) > 0 {
		var k []string
		for _, y := range x.kids {
			k = append(k, y.String())
		}
		s += "(" + strings.Join(k, ", ") + ")"
	}
	return s
}

var errWrapped = errors.New("wrapped")

type anyBuilder interface {
	expr.Builder
	expr.FuncArgBuilder
}

// castTypes and lambdaParams are what a and b of a term select; nil is missing.
func castType28(i int) *pb.Type {
	return []*pb.Type{leafT("i64", nNul, 0), tI32(nReq), nil}[i]
}

type lamParams struct {
	p     *pb.Type_Struct
	valid bool
	nils  bool
}

func lambdaParams28(i int) *types.StructType {
	i32, str := &types.Int32Type{Nullability: types.NullabilityRequired}, &types.StringType{Nullability: types.NullabilityNullable}
	switch i {
	case 0:
		return &types.StructType{Nullability: types.NullabilityRequired}
	case 1:
		return &types.StructType{Nullability: types.NullabilityRequired, Types: []types.Type{i32}}
	case 2:
		return &types.StructType{Nullability: types.NullabilityRequired, Types: []types.Type{str, i32}}
	case 3:
		return nil
	case 4:
		return &types.StructType{Nullability: types.NullabilityNullable, Types: []types.Type{i32}}
	}
	return &types.StructType{Nullability: types.NullabilityRequired, Types: []types.Type{i32, nil}}
}

func lambdaTypes28(i int) ([]*pb.Type, bool) {
	switch i {
	case 0:
		return nil, true
	case 1:
		return []*pb.Type{tI32(nReq)}, true
	case 2:
		return []*pb.Type{leafT("string", nNul, 0), tI32(nReq)}, true
	}
	return nil, false
}

func fnIDOf(ref uint32) extensions.FunctionID {
	return extensions.FunctionID{URN: fnNames[ref][0], Name: fnNames[ref][1]}
}

func build28(b *expr.ExprBuilder, x *term28) anyBuilder {
	kid := func(i int) anyBuilder { return build28(b, x.kids[i]) }
	switch x.kind {
	case "lit":
		return b.Literal(expr.NewPrimitiveLiteral(int32(5), x.a == 1))
	case "wrap":
		l, err := expr.NewLiteral("s", false)
		return b.Wrap(l, err)
	case "wraperr":
		return b.Wrap(nil, errWrapped)
	case "ref":
		return b.RootRef(expr.NewStructFieldRef(int32(x.a)))
	case "expr":
		r, err := expr.NewRootFieldRef(expr.NewStructFieldRef(0), b.BaseSchema)
		if err != nil {
			panic(err)
		}
		return b.Expression(r)
	case "dyn":
		t := castType28(x.a)
		if t == nil {
			return b.DynamicParam(nil, uint32(x.b))
		}
		return b.DynamicParam(types.TypeFromProto(t), uint32(x.b))
	case "param":
		return b.LambdaParamRef(*expr.NewStructFieldRef(int32(x.a)), uint32(x.b))
	case "cast":
		var to types.Type
		if t := castType28(x.a); t != nil {
			to = types.TypeFromProto(t)
		}
		r := b.Cast(kid(0), to)
		if x.b > 0 {
			r = r.FailBehavior(types.CastFailBehavior(x.b))
		}
		return r
	case "castnil":
		return b.Cast(nil, &types.Int64Type{})
	case "add":
		return b.ScalarFunc(fnIDOf(fnAdd)).Args(kid(0), kid(1))
	case "neg": // a function with one argument that is not declared
		return b.ScalarFunc(extensions.FunctionID{URN: urnArith, Name: "no_such:i32"}).Args(kid(0))
	case "rownum":
		return b.WindowFunc(fnIDOf(fnRowNum)).Phase(types.AggPhaseInitialToResult).Partitions(kid(0))
	case "lambda":
		return b.Lambda(lambdaParams28(x.a), kid(0))
	case "lambdanil":
		return b.Lambda(lambdaParams28(1), nil)
	}
	panic(x.kind)
}

// model28: the message and type of a term, nil when it has to be rejected.
func model28(x *term28, cols []*pb.Type, scopes [][]*pb.Type) (*pb.Expression, *pb.Type) {
	kid := func(i int) (*pb.Expression, *pb.Type) { return model28(x.kids[i], cols, scopes) }
	switch x.kind {
	case "lit":
		l := flags(lI32(5), x.a == 1, 0)
		return xLit(l), refLitType(l)
	case "wrap":
		l := &pb.Expression_Literal{LiteralType: &pb.Expression_Literal_String_{String_: "s"}}
		return xLit(l), refLitType(l)
	case "ref":
		if x.a < 0 || x.a >= len(cols) {
			return nil, nil
		}
		return xCol(int32(x.a)), cols[x.a]
	case "expr":
		return xCol(0), cols[0]
	case "dyn":
		t := castType28(x.a)
		if t == nil {
			return nil, nil
		}
		return xDyn(t, uint32(x.b)), t
	case "param":
		if x.b >= len(scopes) {
			return nil, nil
		}
		s := scopes[len(scopes)-1-x.b]
		if x.a < 0 || x.a >= len(s) {
			return nil, nil
		}
		return xLambdaRef(uint32(x.b), segField(int32(x.a), nil)), s[x.a]
	case "cast":
		p, _ := kid(0)
		t := castType28(x.a)
		if p == nil || t == nil {
			return nil, nil
		}
		return xCast(p, t, pb.Expression_Cast_FailureBehavior(x.b)), t
	case "add":
		p, pt := kid(0)
		q, qt := kid(1)
		if p == nil || q == nil || !sameBut(pt, tI32(nReq)) || !sameBut(qt, tI32(nReq)) {
			return nil, nil
		}
		n := nReq
		if pbNullability(pt) == nNul || pbNullability(qt) == nNul {
			n = nNul
		}
		return xScalar(fnAdd, tI32(n), nil, argV(p), argV(q)), tI32(n)
	case "rownum":
		p, _ := kid(0)
		if p == nil {
			return nil, nil
		}
		e := xWindow(fnRowNum, leafT("i64", nNul, 0), 0, 1, []*pb.Expression{p}, func(w *pb.Expression_WindowFunction) {
			w.LowerBound, w.UpperBound, w.Invocation = nil, nil, 0
		})
		return e, leafT("i64", nNul, 0)
	case "lambda":
		ts, ok := lambdaTypes28(x.a)
		if !ok {
			return nil, nil
		}
		p, t := model28(x.kids[0], cols, append(scopes[:len(scopes):len(scopes)], ts))
		if p == nil {
			return nil, nil
		}
		return xLambda(p, 0, ts...), pbFunc(nReq, t, ts...)
	}
	return nil, nil
}

func terms28(depth int, thorough bool) [][]*term28 {
	t := func(kind string, a, b int, kids ...*term28) *term28 { return &term28{kind, a, b, kids} }
	leaves := []*term28{t("lit", 0, 0), t("lit", 1, 0), t("wrap", 0, 0), t("wraperr", 0, 0), t("ref", 0, 0), t("ref", 1, 0), t("ref", 99, 0), t("ref", -1, 0),
		t("expr", 0, 0), t("dyn", 0, 0), t("dyn", 1, 7), t("dyn", 2, 1), t("castnil", 0, 0), t("lambdanil", 0, 0)}
	for f := -1; f <= 2; f++ {
		for s := 0; s <= 2; s++ {
			leaves = append(leaves, t("param", f, s))
		}
	}
	levels := [][]*term28{leaves}
	prev := leaves
	for d := 2; d <= depth; d++ {
		var l []*term28
		for _, k := range prev {
			for i := 0; i < 3; i++ {
				l = append(l, t("cast", i, (i+d)%3, k))
			}
			for i := 0; i < 6; i++ {
				l = append(l, t("lambda", i, 0, k))
			}
			if d > 3 {
				continue
			}
			l = append(l, t("neg", 0, 0, k), t("rownum", 0, 0, k), t("cast", 0, d%3, k), t("cast", 0, (d+1)%3, k))
			for _, y := range leaves {
				l = append(l, t("add", 0, 0, k, y))
				if d > 2 {
					l = append(l, t("add", 0, 0, y, k))
				}
			}
		}
		levels = append(levels, l)
		prev = l
	}
	return levels
}

func c28Terms(c *Ctx) {
	cols := baseCols()
	base := recordOf(cols)
	depth := 3
	if c.Thorough {
		depth = 4
	}
	levels := terms28(depth, c.Thorough)
	judge := func(t *T, reg expr.ExtensionRegistry, b *expr.ExprBuilder, x *term28, note string) {
		want, typ := model28(x, cols, nil)
		what := "term " + x.String() + note
		bl := build28(b, x)
		for i := 0; i < 2; i++ {
			var e expr.Expression
			var err error
			if msg := catch(func() { e, err = bl.BuildExpr() }); msg != "" {
				t.Failf("%s panics: %s", what, clip(msg, 300))
				return
			}
			judge28(t, what, reg, base, e, err, want, typ)
		}
		a, err := bl.BuildFuncArg()
		if (err == nil) != (want != nil) {
			t.Failf("%s as an argument gives error %v", what, err)
		} else if err == nil && mtext(a.ToProtoFuncArg()) != mtext(argV(want)) {
			t.Failf("%s as an argument is %s, want %s", what, show(a.ToProtoFuncArg()), show(want))
		}
		if strings.Contains(what, "wraperr") && want == nil && err == nil {
			t.Failf("%s: the wrapped error is lost", what)
		}
		t.Validated()
	}
	const chunk = 200
	for li, l := range levels {
		for lo := 0; lo < len(l); lo += chunk {
			c.Case(func(t *T) {
				reg := stdReg()
				b := &expr.ExprBuilder{Reg: reg, BaseSchema: base}
				for _, x := range l[lo:min(lo+chunk, len(l))] {
					judge(t, reg, b, x, "")
				}
			}, "term", li, lo)
		}
	}
	// a term is not affected by what the same builder built, or failed to build, before
	var two []*term28
	for _, x := range append(append([]*term28{}, levels[0]...), levels[1]...) {
		if x.kind != "add" && (c.Thorough || len(x.kids) == 0 || x.kids[0].kind != "dyn" && x.kids[0].kind != "wrap") {
			two = append(two, x)
		}
	}
	for i, x := range two {
		c.Case(func(t *T) {
			reg := stdReg()
			for _, y := range two {
				b := &expr.ExprBuilder{Reg: reg, BaseSchema: base}
				catch(func() { build28(b, x).BuildExpr() })
				judge(t, reg, b, y, " after "+x.String())
			}
		}, "pair", i)
	}
}

// ---- histories of one builder ----

type hist28 struct {
	name string
	ops  []string
	// start gives a fresh builder: apply an operation, and build
	start func(t *T) (apply func(op string), build func() (proto.Message, error))
	model func(h []string) proto.Message
}

func c28Histories(c *Ctx) {
	cols := baseCols()
	base := recordOf(cols)
	reg := stdReg()
	b := &expr.ExprBuilder{Reg: reg, BaseSchema: base}
	col := func(i int32) anyBuilder { return b.RootRef(expr.NewStructFieldRef(i)) }
	xcol := func(i int32) expr.Expression {
		e, err := col(i).BuildExpr()
		if err != nil {
			panic(err)
		}
		return e
	}
	pbSort := func(s string) []*pb.SortField {
		switch s {
		case "1":
			return []*pb.SortField{sortDir(xCol(0), 1)}
		case "2":
			return []*pb.SortField{sortDir(xCol(1), 4), sortCmp(xCol(0), fnCmp)}
		}
		return nil
	}
	goSort := func(s string) []expr.SortField {
		switch s {
		case "1":
			return []expr.SortField{{Expr: xcol(0), Kind: types.SortDirection(1)}}
		case "2":
			return []expr.SortField{{Expr: xcol(1), Kind: types.SortDirection(4)}, {Expr: xcol(0), Kind: types.FunctionRef(fnCmp)}}
		}
		return nil
	}
	// last returns the argument of the last operation of a kind before the end
	last := func(h []string, kind, def string) string {
		r := def
		for _, o := range h {
			if k, v, _ := strings.Cut(o, "="); k == kind {
				r = v
			}
		}
		return r
	}
	args := func(v string) (r []expr.FuncArgBuilder, p []*pb.FunctionArgument) {
		for _, x := range v {
			switch x {
			case 'a':
				r, p = append(r, col(0)), append(p, argV(xCol(0)))
			case 'b':
				r, p = append(r, b.Literal(expr.NewPrimitiveLiteral(int32(5), true))), append(p, argV(xLit(flags(lI32(5), true, 0))))
			case 's':
				r, p = append(r, col(1)), append(p, argV(xCol(1)))
			case 'e':
				r, p = append(r, b.Enum("X")), append(p, &pb.FunctionArgument{ArgType: &pb.FunctionArgument_Enum{Enum: "X"}})
			case '!':
				r, p = append(r, b.Wrap(nil, errWrapped)), append(p, nil)
			}
		}
		return
	}
	ntile := extensions.FunctionID{URN: urnArith, Name: "ntile:i32"}
	opt := &types.FunctionOption{Name: "o", Preference: []string{"p", "q"}}
	popt := []*pb.FunctionOption{{Name: "o", Preference: []string{"p", "q"}}}
	num := func(s string) int32 { return int32(s[0] - '0') }
	hs := []hist28{
		{"cast", []string{"fail=0", "fail=1", "fail=2", "build"}, func(t *T) (func(string), func() (proto.Message, error)) {
			x := b.Cast(col(0), &types.Int64Type{Nullability: types.NullabilityNullable})
			return func(op string) { x.FailBehavior(types.CastFailBehavior(num(op[5:]))) },
				func() (proto.Message, error) {
					e, err := x.Build()
					if err != nil {
						return nil, err
					}
					if e.Type.String() != "i64?" || mtext(e.Input.ToProto()) != mtext(xCol(0)) {
						t.Failf("cast has other parts: %v", e)
					}
					return e.ToProto(), nil
				}
		}, func(h []string) proto.Message {
			return xCast(xCol(0), leafT("i64", nNul, 0), pb.Expression_Cast_FailureBehavior(num(last(h, "fail", "0"))))
		}},
		{"scalar", []string{"args=", "args=a", "args=ab", "args=aa", "args=as", "args=a!", "args=ae", "args=bab", "build"}, func(t *T) (func(string), func() (proto.Message, error)) {
			x := b.ScalarFunc(fnIDOf(fnAdd), opt)
			return func(op string) { a, _ := args(op[5:]); x.Args(a...) },
				func() (proto.Message, error) {
					e, err := x.Build()
					if err != nil {
						return nil, err
					}
					return e.ToProto(), nil
				}
		}, func(h []string) proto.Message {
			v := last(h, "args", "")
			_, p := args(v)
			switch v {
			case "ab":
				return xScalar(fnAdd, tI32(nNul), popt, p...)
			case "aa":
				return xScalar(fnAdd, tI32(nReq), popt, p...)
			}
			return nil
		}},
		{"aggregate", []string{"args=a", "args=b", "args=s", "args=", "args=aa", "args=!", "phase=1", "phase=3", "inv=1", "inv=2", "sort=0", "sort=1", "sort=2", "build"}, func(t *T) (func(string), func() (proto.Message, error)) {
			x := b.AggFunc(fnIDOf(fnSum), opt)
			return func(op string) {
					k, v, _ := strings.Cut(op, "=")
					switch k {
					case "args":
						a, _ := args(v)
						x.Args(a...)
					case "phase":
						x.Phase(types.AggregationPhase(num(v)))
					case "inv":
						x.Invocation(types.AggregationInvocation(num(v)))
					case "sort":
						x.Sorts(goSort(v)...)
					}
				}, func() (proto.Message, error) {
					e, err := x.Build()
					if err != nil {
						return nil, err
					}
					return e.ToProto(), nil
				}
		}, func(h []string) proto.Message {
			v := last(h, "args", "")
			if v != "a" && v != "b" {
				return nil
			}
			_, p := args(v)
			return &pb.AggregateFunction{FunctionReference: fnSum, OutputType: leafT("i64", nNul, 0), Arguments: p, Options: popt, Sorts: pbSort(last(h, "sort", "0")),
				Phase: pb.AggregationPhase(num(last(h, "phase", "0"))), Invocation: pb.AggregateFunction_AggregationInvocation(num(last(h, "inv", "0")))}
		}},
		{"window", []string{"args=a", "args=b", "args=s", "args=", "args=!", "phase=1", "phase=3", "inv=1", "inv=2", "sort=0", "sort=1", "sort=2", "part=", "part=a", "part=as", "part=!",
			"bounds=03", "bounds=12", "bounds=-2", "bounds=--", "type=1", "type=2", "build"}, func(t *T) (func(string), func() (proto.Message, error)) {
			x := b.WindowFunc(ntile, opt).Phase(types.AggPhaseInitialToResult).Args(col(0))
			return func(op string) {
					k, v, _ := strings.Cut(op, "=")
					switch k {
					case "args":
						a, _ := args(v)
						x.Args(a...)
					case "phase":
						x.Phase(types.AggregationPhase(num(v)))
					case "inv":
						x.Invocation(types.AggregationInvocation(num(v)))
					case "sort":
						x.Sort(goSort(v)...)
					case "part":
						a, _ := args(v)
						var ps []expr.Builder
						for _, y := range a {
							ps = append(ps, y.(expr.Builder))
						}
						x.Partitions(ps...)
					case "bounds":
						x.Bounds(goBound28(v[0]), goBound28(v[1]))
					case "type":
						x.BoundsType(types.BoundsType(num(v)))
					}
				}, func() (proto.Message, error) {
					e, err := x.Build()
					if err != nil {
						return nil, err
					}
					return e.ToProto(), nil
				}
		}, func(h []string) proto.Message {
			v, ty, so, pa, bo := last(h, "args", "a"), last(h, "type", "0"), last(h, "sort", "0"), last(h, "part", ""), last(h, "bounds", "--")
			if v != "a" && v != "b" || last(h, "phase", "3") != "3" || ty == "2" && so != "1" || pa == "!" {
				return nil
			}
			_, p := args(v)
			_, pp := args(pa)
			w := &pb.Expression_WindowFunction{FunctionReference: reg.GetFuncAnchor(ntile), OutputType: tI32(nNul), Arguments: p, Options: popt, Sorts: pbSort(so),
				Phase: pb.AggregationPhase(3), Invocation: pb.AggregateFunction_AggregationInvocation(num(last(h, "inv", "0"))),
				BoundsType: pb.Expression_WindowFunction_BoundsType(num(ty)), LowerBound: pbBound28(bo[0]), UpperBound: pbBound28(bo[1])}
			for _, y := range pp {
				w.Partitions = append(w.Partitions, y.GetValue())
			}
			return &pb.Expression{RexType: &pb.Expression_WindowFunction_{WindowFunction: w}}
		}},
	}
	max := 4
	for _, x := range hs {
		depth := max
		if len(x.ops) < 10 {
			depth = 5
		}
		if c.Thorough {
			depth++
		}
		for i := range x.ops {
			for j := range x.ops {
				c.Case(func(t *T) {
					var rec func(h []string)
					rec = func(h []string) {
						apply, build := x.start(t)
						type made struct {
							m    proto.Message
							text string
						}
						check := func(n int) {
							m, err := build()
							want := x.model(h[:n])
							t.Trans(1)
							if (err == nil) != (want != nil) {
								t.Failf("%s after %v: error is %v, want success: %v", x.name, h[:n], err, want != nil)
							} else if err == nil && mtext(m) != mtext(want) {
								t.Failf("%s after %v is\n  %s, want\n  %s", x.name, h[:n], show(m), show(want))
							} else if err == nil {
								t.StateBytes([]byte(mtext(m)))
							}
						}
						for n, op := range h {
							if op == "build" {
								check(n)
							} else {
								apply(op)
							}
						}
						check(len(h))
						if len(h) == depth {
							return
						}
						for _, op := range x.ops {
							rec(append(h[:len(h):len(h)], op))
						}
					}
					if j == 0 {
						rec2 := depth
						depth = 1
						rec([]string{x.ops[i]})
						depth = rec2
					}
					rec([]string{x.ops[i], x.ops[j]})
					t.Validated()
				}, "history", x.name, x.ops[i], x.ops[j])
			}
		}
	}
}

func goBound28(k byte) expr.Bound {
	switch k {
	case '0':
		return expr.Unbounded{}
	case '1':
		return expr.PrecedingBound(4)
	case '2':
		return expr.FollowingBound(0)
	case '3':
		return expr.CurrentRow{}
	}
	return nil
}

func pbBound28(k byte) *pb.Expression_WindowFunction_Bound {
	switch k {
	case '0', '3':
		return bnd(int(k-'0'), 0)
	case '1':
		return bnd(1, 4)
	case '2':
		return bnd(2, 0)
	}
	return nil
}

func c28Lists(c *Ctx) {
	cols := baseCols()
	base := recordOf(cols)
	reg := stdReg()
	leaves := leafExprs()
	for i, x := range leaves {
		if hasSubquery(x.e) {
			continue
		}
		c.Case(func(t *T) {
			p := normExpr(x.e)
			e, err := expr.ExprFromProto(p, base, reg)
			if err != nil {
				t.Failf("rejected: %v", err)
				return
			}
			typ := refExprType(p, cols)
			for _, nb := range []bool{false, true} {
				for n := 1; n <= 3; n++ {
					var es []expr.Expression
					var ps []*pb.Expression
					for k := 0; k < n; k++ {
						es, ps = append(es, e), append(ps, p)
					}
					want := xNestList(nb, 0, ps...)
					l := expr.NewListExpr(nb, es...)
					var lt *pb.Type
					if typ != nil {
						lt = refExprType(want, cols)
					}
					judge28(t, fmt.Sprintf("list of %d %s", n, x.id), reg, base, l, nil, want, lt)
					if l.IsNullable() != nb || l.TypeVariation() != 0 {
						t.Failf("list of %s is nullable: %v", x.id, l.IsNullable())
					}
				}
			}
			for _, names := range [][]string{nil, {"a"}, {"a", "b"}} {
				r := expr.NewExpressionReference(names, e)
				want := &pb.ExpressionReference{OutputNames: names, ExprType: &pb.ExpressionReference_Expression{Expression: p}}
				same := func(what string, w *pb.ExpressionReference) {
					if g := r.ToProto(); mtext(normLits(g)) != mtext(normLits(w)) {
						t.Failf("%s: expression reference is %s, want %s", what, show(g), show(w))
					}
					t.Trans(1)
				}
				same("new", want)
				if r.GetExpr() != e || r.GetMeasure() != nil {
					t.Failf("expression reference gives back other parts")
				}
				for j, a := range aggUniverse() {
					if j%7 != i%7 {
						continue
					}
					f, err := expr.NewAggregateFunctionFromProto(a, base, reg)
					if err != nil {
						t.Failf("%v", err)
						continue
					}
					r.SetMeasure(f)
					wm := &pb.ExpressionReference{OutputNames: names, ExprType: &pb.ExpressionReference_Measure{Measure: a}}
					same("set measure", wm)
					if r.GetMeasure() != f || r.GetExpr() != nil {
						t.Failf("a measure reference gives back other parts")
					}
					n := expr.NewMeasureReference(names, f)
					if mtext(n.ToProto()) != mtext(wm) || n.GetMeasure() != f || n.GetExpr() != nil {
						t.Failf("measure reference is %s, want %s", show(n.ToProto()), show(wm))
					}
					r.SetExpr(e)
					same("set expression", want)
				}
			}
			t.Validated()
		}, "list", x.id)
	}
	// field references: every root with every segment of a row
	segs := []*pb.Expression_ReferenceSegment{segField(0, nil), segField(2, segField(0, nil)), segField(2, segField(2, segField(0, nil))), segField(99, nil), segField(-1, nil),
		segField(0, segField(0, nil)), segElem(1, nil), segField(3, segElem(-1, nil)), segField(4, segKey(lStr("k"), segField(0, nil)))}
	roots := []part28{{id: "root"}}
	for i, p := range []*pb.Expression{xNestStruct(false, 0, xCol(0), xCol(1), xCol(2), xCol(3), xCol(4)), xCol(2), xCol(3), xLit(lI32(1)), xOuter(1, segField(0, nil))} {
		e, err := expr.ExprFromProto(p, base, reg)
		if err != nil {
			panic(err)
		}
		roots = append(roots, part28{fmt.Sprint("expr", i), e, p, refExprType(p, cols)})
	}
	for ri, r := range roots {
		for si, s := range segs {
			c.Case(func(t *T) {
				x := xRef(s)
				rowT := pbStruct(nReq, 0, cols...)
				if r.e != nil {
					x = xExprRef(r.p, s)
					rowT = r.t
				}
				var typ *pb.Type
				if rowT != nil {
					typ = refSegType(rowT, s)
				}
				seg := expr.RefSegmentFromProto(s)
				var root expr.RootRefType = expr.RootReference
				if r.e != nil {
					root = r.e.(expr.RootRefType)
				}
				var want *pb.Expression
				if typ != nil {
					want = x
				}
				f, err := expr.NewFieldRef(root, seg, base)
				judge28(t, fmt.Sprintf("reference %s of %s", show(s), r.id), reg, base, f, err, want, typ)
				if r.e == nil {
					f, err := expr.NewRootFieldRef(seg, base)
					judge28(t, fmt.Sprintf("root reference %s", show(s)), reg, base, f, err, want, typ)
				}
				given := leafT("date", nNul, 0)
				f, err = expr.NewFieldRefFromType(root, seg, types.TypeFromProto(given))
				if err != nil || mtext(f.ToProto()) != mtext(x) || mtext(types.TypeToProto(f.GetType())) != mtext(given) {
					t.Failf("reference of a given type: %v, want %s", err, show(x))
				}
				t.Validated()
			}, "ref", ri, si)
		}
	}
	c.Case(func(t *T) {
		if f, err := expr.NewRootFieldRef(expr.NewStructFieldRef(0), nil); err == nil {
			t.Failf("a root reference without schema is accepted: %v", f)
		}
		if f, err := expr.NewFieldRef(expr.RootReference, nil, base); err == nil {
			t.Failf("a reference to nothing is accepted: %v", f)
		}
		t.Trans(2)
	}, "ref nothing")
}

func lList(vs ...*pb.Expression_Literal) *pb.Expression_Literal {
	return &pb.Expression_Literal{LiteralType: &pb.Expression_Literal_List_{List: &pb.Expression_Literal_List{Values: vs}}}
}
