// C27: malformed messages give errors, never crashes.
package main

import (
	"fmt"
	"strings"

	"github.com/substrait-io/substrait-go/v8/expr"
	ext "github.com/substrait-io/substrait-go/v8/extensions"
	"github.com/substrait-io/substrait-go/v8/plan"
	"github.com/substrait-io/substrait-go/v8/types"
	pb "github.com/substrait-io/substrait-protobuf/go/substraitpb"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
)

func init() {
	checks["C27"] = &Check{Run: runC27, Quick: 500, Thorough: 850, Shards: 64,
		Bounds: "every type of the type universe, every leaf literal alone and in a list, struct and map, every expression and relation of depth 1, every aggregate function, argument, extended expression and (a third of the) plans: every single edit (each field at each depth cleared, emptied, set to each enum value, an unknown enum value, boundary numbers, empty text; list elements removed, doubled, swapped, added empty; each oneof member chosen) and every replacement of a nested type, expression, literal, relation or reference by each of a pool of 80 degenerate ones; every pair of edits for messages with at most 60 edits (thorough: every pair for all messages with at most 250 edits, and every single edit of a third of the messages of depth 2); types, expressions and relations with lists of up to 17 parts: up to 400 (1600) single edits spread over each; what is read without error is printed, typed, compared, written, passed to six functions, rewritten, copied, remapped and built upon",
		Assume: []string{"messages are those that decoding bytes can give: no nil inside a chosen oneof member or a list"}}
}

// c27stage names what is done with a message, for the report.
type c27stage struct{ s string }

func (g *c27stage) at(s string) { g.s = s }

func (g *c27stage) useType(ty types.Type, where string) {
	if ty == nil {
		return
	}
	g.at(where + ": printing the type")
	_ = ty.String() + ty.ShortString() + fmt.Sprint(ty)
	g.at(where + ": the type's properties")
	ty.GetNullability()
	ty.GetTypeVariationReference()
	ty.GetParameters()
	ty.GetType()
	ty.Equals(ty)
	g.at(where + ": changing the type's nullability")
	for _, n := range []types.Nullability{types.NullabilityUnspecified, types.NullabilityNullable, types.NullabilityRequired} {
		_ = ty.WithNullability(n).String()
	}
	g.at(where + ": writing the type")
	_ = mtext(types.TypeToProto(ty)) + mtext(ty.ToProtoFuncArg())
}

func (g *c27stage) useSchema(rt types.RecordType, where string) {
	g.at(where + ": printing the schema")
	_ = rt.String()
	for i := range rt.Types() {
		g.useType(rt.GetFieldRef(int32(i)), where)
	}
	g.at(where + ": the schema as a struct type")
	_ = rt.AsStructType().String()
	rt.Equals(&rt)
	_ = rt.Concat(rt)
}

func (g *c27stage) useExpr(x expr.Expression, where string) {
	if x == nil {
		return
	}
	g.at(where + ": printing the expression")
	_ = x.String() + fmt.Sprint(x)
	g.at(where + ": the expression's type")
	x.IsScalar()
	ty := x.GetType()
	g.useType(ty, where)
	g.at(where + ": writing the expression")
	_ = mtext(x.ToProto()) + mtext(x.ToProtoFuncArg())
	g.at(where + ": calling functions on the expression")
	reg := stdReg()
	for _, f := range []string{"functions_comparison/equal:any_any", "functions_comparison/is_null:any", "functions_comparison/coalesce:any", "functions_arithmetic/add:i32_i32", "functions_set/index_in:any_list", "functions_list/transform:list_func"} {
		u, n, _ := strings.Cut(f, "/")
		id := ext.FunctionID{URN: ext.SubstraitDefaultURNPrefix + u, Name: n}
		for _, as := range [][]types.FuncArg{{x}, {x, x}, {expr.NewPrimitiveLiteral(int32(1), false), x}} {
			if s, err := expr.NewScalarFunc(reg, id, nil, as...); err == nil {
				_ = s.String() + mtext(s.ToProto())
				if o := s.GetType(); o != nil {
					_ = o.String() + mtext(types.TypeToProto(o))
				}
			}
		}
	}
	g.at(where + ": comparing the expression")
	x.Equals(x)
	x.Equals(expr.NewPrimitiveLiteral(true, false))
	g.at(where + ": rewriting the expression")
	var v expr.VisitFunc
	v = func(y expr.Expression) expr.Expression {
		if y == nil {
			return nil
		}
		if _, ok := y.(*expr.PrimitiveLiteral[int32]); ok {
			return expr.NewPrimitiveLiteral(int32(4), true)
		}
		return y.Visit(v)
	}
	y := v(x)
	_ = mtext(y.ToProto()) + y.String()
	if l, ok := x.(expr.Literal); ok {
		g.at(where + ": printing the literal")
		_ = l.ValueString()
		_ = mtext(l.ToProtoLiteral())
		if i, ok := x.(types.IsoValuePrinter); ok {
			_ = i.IsoValueString()
		}
		if w, ok := x.(expr.WithTypeLiteral); ok && ty != nil {
			g.at(where + ": changing the literal's type")
			if z, err := w.WithType(ty.WithNullability(types.NullabilityNullable)); err == nil {
				_ = z.String() + mtext(z.ToProtoLiteral())
			}
		}
	}
}

func (g *c27stage) useRel(r plan.Rel, where string) {
	if r == nil {
		return
	}
	where += fmt.Sprintf("%T", r)
	for _, in := range r.GetInputs() {
		g.useRel(in, where+"/")
	}
	g.at(where + ": writing the relation")
	_ = mtext(r.ToProto()) + mtext(r.ToProtoPlanRel())
	g.at(where + ": the relation's properties")
	r.Hint()
	r.GetAdvancedExtension()
	r.OutputMapping()
	g.at(where + ": the relation's schema")
	rt := r.RecordType()
	g.useSchema(rt, where)
	g.at(where + ": copying the relation")
	if c, err := r.Copy(r.GetInputs()...); err == nil {
		_ = mtext(c.ToProto())
	}
	g.at(where + ": rewriting the relation")
	var xs []expr.Expression
	c, err := r.CopyWithExpressionRewrite(func(x expr.Expression) (expr.Expression, error) {
		if x == nil {
			return nil, nil
		}
		xs = append(xs, x)
		if _, ok := x.(*expr.PrimitiveLiteral[bool]); ok {
			return expr.NewPrimitiveLiteral(true, true), nil
		}
		return x, nil
	}, r.GetInputs()...)
	if err == nil {
		_ = mtext(c.ToProto())
		crt := c.RecordType()
		_ = crt.String()
	}
	for _, x := range xs {
		g.useExpr(x, where)
	}
	g.at(where + ": remapping the relation")
	for _, m := range [][]int32{{0}, {-1}, {1 << 30}, {}, {1, 0}} {
		if c, err := r.Remap(m...); err == nil {
			crt := c.RecordType()
			_ = crt.String() + mtext(c.ToProto())
		}
	}
	g.at(where + ": building on the relation")
	b := plan.NewBuilder(defColl())
	if f, err := b.Fetch(r, 0, 1); err == nil {
		frt := f.RecordType()
		_ = frt.String()
	}
	if x, err := b.RootFieldRef(r, 0); err == nil {
		if p, err := b.Project(r, x); err == nil {
			prt := p.RecordType()
			_ = prt.String() + mtext(p.ToProto())
		}
	}
}

func (g *c27stage) usePlan(p *plan.Plan) {
	g.at("writing the plan")
	if q, err := p.ToProto(); err == nil {
		_ = mtext(q)
	}
	g.at("the plan's properties")
	p.Version()
	p.ExpectedTypeURLs()
	p.AdvancedExtension()
	p.ParameterBindings()
	reg := p.ExtensionRegistry()
	for i := uint32(0); i < 12; i++ {
		reg.LookupScalarFunction(i)
		reg.LookupAggregateFunction(i)
		reg.LookupWindowFunction(i)
		reg.LookupType(i)
		reg.LookupTypeVariation(i)
	}
	g.at("the plan's relations")
	for _, r := range p.GetNonRootRelations() {
		g.useRel(r, "relation ")
	}
	for _, r := range p.Relations() {
		r.IsRoot()
		r.Rel()
		if x := r.Root(); x != nil {
			g.useRel(x.Input(), "root ")
			g.at("root schema")
			x.Names()
			rt := x.RecordType()
			_ = fmt.Sprint(rt)
		}
		g.at("writing a plan relation")
		_ = mtext(r.ToProto())
	}
	p.GetRoots()
}

func (g *c27stage) use(m proto.Message) {
	g.at("reading")
	switch m := m.(type) {
	case *pb.Type:
		g.useType(types.TypeFromProto(m), "")
	case *pb.NamedStruct:
		n := types.NewNamedStructFromProto(m)
		g.at("printing the named struct")
		_ = n.String() + mtext(n.ToProto())
		g.useType(&n.Struct, "")
	case *pb.Expression_Literal:
		l := expr.LiteralFromProto(m)
		if l != nil {
			g.useExpr(l, "")
		}
	case *pb.Expression:
		for i, base := range []*types.RecordType{c27base(), nil} {
			g.at("reading")
			if x, err := expr.ExprFromProto(m, base, stdReg()); err == nil {
				g.useExpr(x, []string{"", "without a schema "}[i])
			}
		}
	case *pb.FunctionArgument:
		if x, err := expr.FuncArgFromProto(m, c27base(), stdReg()); err == nil && x != nil {
			g.at("using the argument")
			_ = fmt.Sprint(x) + mtext(x.ToProtoFuncArg())
		}
	case *pb.AggregateFunction:
		f, err := expr.NewAggregateFunctionFromProto(m, c27base(), stdReg())
		if err == nil {
			g.at("using the aggregate function")
			_ = f.String() + mtext(f.ToProto())
			g.useType(f.GetType(), "")
		}
	case *pb.Rel:
		if r, err := plan.RelFromProto(m, relReg()); err == nil {
			g.useRel(r, "")
		}
	case *pb.ExtendedExpression:
		if x, err := expr.ExtendedFromProto(m, defColl()); err == nil {
			g.at("using the extended expression")
			for _, r := range x.ReferredExpr {
				g.useExpr(r.GetExpr(), "")
				if a := r.GetMeasure(); a != nil {
					g.at("using the measure")
					_ = a.String() + mtext(a.ToProto())
					g.useType(a.GetType(), "")
				}
			}
			g.at("writing the extended expression")
			_ = mtext(x.ToProto())
		}
	case *pb.Plan:
		if p, err := plan.FromProtoWithDecoder(m, defColl(), map[string]expr.ExtensionRelDecoder{urlKnownExt: extDec{}}); err == nil {
			g.usePlan(p)
		}
		g.at("reading without a decoder")
		if p, err := plan.FromProto(m, defColl()); err == nil {
			g.usePlan(p)
		}
		g.at("reading the declarations")
		if s, err := ext.GetExtensionSet(m, defColl()); err == nil {
			_, _ = s.ToProto(defColl())
		}
	default:
		panic(fmt.Sprintf("harness: %T", m))
	}
}

var c27baseRec *types.RecordType

func c27base() *types.RecordType {
	if c27baseRec == nil {
		c27baseRec = recordOf(baseCols())
	}
	return c27baseRec
}

func c27judge(t *T, m proto.Message, what string) {
	b, err := proto.MarshalOptions{Deterministic: true}.Marshal(m)
	if err != nil {
		return
	}
	c := m.ProtoReflect().New().Interface()
	if proto.Unmarshal(b, c) != nil {
		return
	}
	t.Trans(1)
	t.StateBytes(append([]byte(m.ProtoReflect().Descriptor().Name()), b...))
	g := &c27stage{}
	if p := catch(func() { g.use(c) }); p != "" {
		if strings.HasPrefix(p, "panic: runtime error: index out of range") && !strings.HasPrefix(g.s, "reading") && c27undecodedEmit(c) {
			t.FailKey("undecoded-extension-emit", "an extension relation nobody decodes has unknown columns, and asking for its emitted ones panics: %s", show(m))
			return
		}
		t.Failf("%s: %s: %s\n  %s", what, g.s, clip(p, 300), show(m))
		return
	}
	t.Validated()
	t.Outcome(g.s)
}

// c27undecodedEmit tells whether the columns of an emit are unknown.
func c27undecodedEmit(m proto.Message) (found bool) {
	walkPB(m, func(x proto.Message) {
		if r, ok := x.(*pb.Rel); ok && undecoded(r) && commonOf(r).GetEmit() != nil {
			found = true
		}
	})
	return
}

type c27root struct {
	id string
	m  proto.Message
}

// c27pool are messages that may stand wherever their kind may.
func c27pool() map[protoreflect.FullName][]proto.Message {
	r := map[protoreflect.FullName][]proto.Message{}
	add := func(ms ...proto.Message) {
		for _, m := range ms {
			n := m.ProtoReflect().Descriptor().FullName()
			r[n] = append(r[n], m)
		}
	}
	i32 := tI32(nReq)
	add(&pb.Type{}, pbStruct(nReq, 0), pbStruct(nReq, 0, &pb.Type{}), pbList(nReq, 0, nil), pbMap(nReq, 0, nil, nil), pbFunc(nReq, nil), pbUDT(nReq, 0, 99), pbUDT(nReq, 0, 1, &pb.Type_Parameter{}), leafT("string", nNul, 0), pbList(nNul, 0, i32))
	add(&pb.Expression{}, xCol(0), xCol(99), xCol(-1), xLit(lI32(1)), xLit(lBool(true)), xLit(&pb.Expression_Literal{}), xLit(lNull(nil)), xOuter(1, segField(0, nil)), xOuter(0, segField(0, nil)), xOuter(1<<31, nil), xLambdaRef(0, segField(0, nil)), xLambdaRef(9, nil), xLambda(xLambdaRef(0, segField(0, nil)), 0, i32),
		xLambda(nil, 0), xSubScalar(&pb.Rel{}), xSubScalar(relNamed("b", relColsB()...)), xSel(&pb.Expression_FieldReference{}), xNestList(false, 0), xNestMap(false, 0), xNestStruct(false, 0), xNested(false, 0, &pb.Expression_Nested{}), xCast(nil, nil, 0), xCast(xCol(0), &pb.Type{}, 0), xScalar(99, nil, nil), xScalar(1, nil, nil), xDyn(nil, 0), xMask(nil), xMask(&pb.Expression_MaskExpression{}), xIf(xCol(0)), &pb.Expression{RexType: &pb.Expression_IfThen_{IfThen: &pb.Expression_IfThen{}}}, &pb.Expression{RexType: &pb.Expression_SwitchExpression_{SwitchExpression: &pb.Expression_SwitchExpression{}}}, xOr(nil), &pb.Expression{RexType: &pb.Expression_MultiOrList_{MultiOrList: &pb.Expression_MultiOrList{}}}, xExprRef(nil, nil), xExprRef(xLit(lI32(1)), nil))
	add(&pb.Expression_Literal{}, lI32(1), lStr("s"), lNull(nil), lNull(&pb.Type{}), litList(), litList(lI32(1), &pb.Expression_Literal{}), litMap(), litStruct(), litStruct(&pb.Expression_Literal{}))
	add(&pb.Rel{}, relNamed("b", relColsB()...), relNamed("none"), relRead(&pb.ReadRel{}), relRead(&pb.ReadRel{ReadType: &pb.ReadRel_VirtualTable_{VirtualTable: &pb.ReadRel_VirtualTable{}}}),
		&pb.Rel{RelType: &pb.Rel_ExtensionLeaf{ExtensionLeaf: &pb.ExtensionLeafRel{}}}, &pb.Rel{RelType: &pb.Rel_ExtensionLeaf{ExtensionLeaf: &pb.ExtensionLeafRel{Detail: knownExt(i32)}}}, &pb.Rel{RelType: &pb.Rel_ExtensionMulti{ExtensionMulti: &pb.ExtensionMultiRel{Inputs: []*pb.Rel{relNamed("b", i32)}}}}, &pb.Rel{RelType: &pb.Rel_Set{Set: &pb.SetRel{}}})
	add(&pb.Expression_ReferenceSegment{}, segField(0, nil), segField(99, segElem(-5, nil)), segElem(0, nil), segKey(nil, nil), segKey(lStr("k"), segField(0, nil)))
	return r
}

// c27subst lists the replacements of messages inside a message by the pool's.
func c27subst(root proto.Message, pool map[protoreflect.FullName][]proto.Message) []medit {
	var r []medit
	var rec func(m protoreflect.Message, path []pstep)
	rec = func(m protoreflect.Message, path []pstep) {
		fds := m.Descriptor().Fields()
		for i := 0; i < fds.Len(); i++ {
			fd := fds.Get(i)
			if fd.Kind() != protoreflect.MessageKind || fd.IsMap() {
				continue
			}
			alts := pool[fd.Message().FullName()]
			p := append([]pstep(nil), path...)
			if fd.IsList() {
				l := m.Get(fd).List()
				for k := 0; k < l.Len(); k++ {
					for ai, a := range alts {
						r = append(r, medit{p, fmt.Sprintf("%s[%d] := pool %d", fd.Name(), k, ai), func(m protoreflect.Message) {
							m.Mutable(fd).List().Set(k, protoreflect.ValueOfMessage(proto.Clone(a).ProtoReflect()))
						}})
					}
					rec(l.Get(k).Message(), append(p, pstep{fd, k}))
				}
				continue
			}
			if fd.ContainingOneof() == nil || m.Has(fd) || len(path) == 0 {
				for ai, a := range alts {
					r = append(r, medit{p, fmt.Sprintf("%s := pool %d", fd.Name(), ai), func(m protoreflect.Message) {
						m.Set(fd, protoreflect.ValueOfMessage(proto.Clone(a).ProtoReflect()))
					}})
				}
			}
			if m.Has(fd) {
				rec(m.Get(fd).Message(), append(p, pstep{fd, -1}))
			}
		}
	}
	rec(root.ProtoReflect(), nil)
	return r
}

func c27roots(level int) (r []c27root) {
	add := func(kind, id string, m proto.Message) { r = append(r, c27root{kind + " " + id, m}) }
	for _, p := range typeUniverse(level > 1) {
		add("type", p.id, p.p)
	}
	add("named struct", "a", nsOf(relColsA()))
	add("named struct", "nested", nsOf([]*pb.Type{pbStruct(nReq, 0, relColsA()...), pbList(nReq, 0, pbStruct(nNul, 0, relColsB()...))}))
	for _, l := range leafLits() {
		add("literal", l.name, l.mk())
		add("literal", "list of "+l.name, litList(l.mk()))
		add("literal", "struct of "+l.name, litStruct(l.mk(), lI32(1)))
		add("literal", "map of "+l.name, litMap(lI32(1), l.mk()))
	}
	for _, p := range exprUniverse(level) {
		add("expression", p.id, p.e)
	}
	for i, a := range aggUniverse() {
		add("aggregate", fmt.Sprint(i), a)
	}
	for _, a := range []*pb.FunctionArgument{argV(xCol(0)), argT(tI32(nReq)), argE("x"), {}} {
		add("argument", mtext(a), a)
	}
	for _, p := range relUniverse(level) {
		add("relation", p.id, p.r)
	}
	for i, x := range extendedUniverse(level > 1) {
		add("extended", fmt.Sprint(i), x)
	}
	for i, p := range planUniverse() {
		if i < 31 || i%5 == 0 || level > 1 {
			add("plan", p.id, p.p)
		}
	}
	return
}

func runC27(c *Ctx) {
	pool := c27pool()
	for _, ms := range pool {
		for i, m := range ms {
			switch m.(type) {
			case *pb.Expression_ReferenceSegment:
				continue
			}
			c.Case(func(t *T) { c27judge(t, m, "pool") }, "pool", string(m.ProtoReflect().Descriptor().Name()), i)
		}
	}
	for _, x := range c27roots(1) {
		c.Case(func(t *T) {
			c27judge(t, x.m, x.id)
			es := append(edits(x.m, nil), c27subst(x.m, pool)...)
			for _, e := range es {
				c27judge(t, e.apply(x.m), x.id+" "+e.String())
			}
			if len(es) > 60 && !c.Thorough || len(es) > 250 {
				return
			}
			for _, e := range es {
				y := e.apply(x.m)
				fs := edits(y, nil)
				if len(fs) > 400 {
					continue
				}
				for _, f := range fs {
					c27judge(t, f.apply(y), x.id+" "+e.String()+" then "+f.String())
				}
			}
		}, "edit", x.id)
	}
	// long lists: every single edit
	var long []c27root
	for _, x := range sizedExprs(17) {
		long = append(long, c27root{x.id, x.e})
	}
	for _, x := range sizedRels(false) {
		long = append(long, c27root{x.id, x.r})
	}
	for _, x := range sizedTypes(false) {
		long = append(long, c27root{x.id, x.p})
	}
	for _, x := range long {
		if size := proto.Size(x.m); size > 350 && !c.Thorough || size > 1000 {
			continue
		}
		c.Case(func(t *T) {
			c27judge(t, x.m, x.id)
			es := edits(x.m, nil)
			step := 1 // at most 400 (1600) of them, spread over the message
			for max := 400; len(es)/step > max && !c.Thorough || len(es)/step > 4*max; {
				step++
			}
			for i := 0; i < len(es); i += step {
				c27judge(t, es[i].apply(x.m), x.id+" "+es[i].String())
			}
		}, "long", x.id)
	}
	if !c.Thorough {
		return
	}
	for i, x := range c27roots(2) {
		if i%3 != 0 {
			continue
		}
		c.Case(func(t *T) {
			for _, e := range append(edits(x.m, nil), c27subst(x.m, pool)...) {
				c27judge(t, e.apply(x.m), x.id+" "+e.String())
			}
		}, "deep", x.id)
	}
}
