// C06: expressions survive a protobuf round trip with the same meaning.
package main

import (
	"fmt"

	"github.com/substrait-io/substrait-go/v8/expr"
	"github.com/substrait-io/substrait-go/v8/types"
	pb "github.com/substrait-io/substrait-protobuf/go/substraitpb"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
)

func init() {
	checks["C06"] = &Check{Run: runC06, Quick: 200, Thorough: 800,
		Bounds: "every expression kind of the Substrait message with each attribute varied on its own (function options, phases, invocations, bounds, sort kinds, failure behaviours, nullability, variation, subquery operations, mask shapes), every leaf in every slot, every construct in every slot of every construct (nesting depth 2; thorough: every maker in every slot and a fixed stride of depth 3); aggregates and extended expressions; every literal kind and every type of the type universe inside expressions; one fixed row type with nested structs, lists and maps and an extension set with known and unknown functions; every one-step edit (field cleared, set, changed, oneof member chosen, list element removed, doubled, swapped, added) of every expression with each leaf in each slot and of every aggregate, which has to be kept or rejected; expressions with lists of up to 300 parts and nested up to 33 deep",
		Assume: []string{"messages in deprecated spellings are judged as the equivalent current message", "the type of outer, lambda and masked references read from a message is not known (documented) and not judged"}}
}

// normExpr rewrites an expression message to the canonical form: deprecated
// literal spellings are the current ones.
func normExpr(e *pb.Expression) *pb.Expression { return normLits(e).(*pb.Expression) }

// normLits replaces every outermost literal inside a message by its canonical form.
func normLits(e proto.Message) proto.Message {
	c := proto.Clone(e)
	var rec func(m protoreflect.Message)
	rec = func(m protoreflect.Message) {
		m.Range(func(fd protoreflect.FieldDescriptor, v protoreflect.Value) bool {
			if fd.Kind() != protoreflect.MessageKind || fd.IsMap() {
				return true
			}
			if fd.IsList() {
				l := v.List()
				for i := 0; i < l.Len(); i++ {
					if lit, ok := l.Get(i).Message().Interface().(*pb.Expression_Literal); ok {
						l.Set(i, protoreflect.ValueOfMessage(normLit(lit).ProtoReflect()))
					} else {
						rec(l.Get(i).Message())
					}
				}
			} else if lit, ok := v.Message().Interface().(*pb.Expression_Literal); ok {
				m.Set(fd, protoreflect.ValueOfMessage(normLit(lit).ProtoReflect()))
			} else {
				rec(v.Message())
			}
			return true
		})
	}
	rec(c.ProtoReflect())
	return c
}

func judgeExpr(t *T, reg expr.ExtensionRegistry, base *types.RecordType, cols []*pb.Type, p, want *pb.Expression) expr.Expression {
	before := mtext(p)
	e, err := expr.ExprFromProto(p, base, reg)
	if err != nil {
		t.Failf("a valid expression is rejected: %v\n  %s", err, show(p))
		return nil
	}
	if e == nil {
		t.Failf("no expression and no error\n  %s", show(p))
		return nil
	}
	t.StateBytes([]byte(before))
	q := e.ToProto()
	if want = normExpr(want); mtext(normExpr(q)) != mtext(want) {
		t.Failf("expression changes in a round trip:\n  in:  %s\n  out: %s", show(want), show(q))
	}
	if mtext(p) != before {
		t.Failf("reading or writing modified the input message %s", show(p))
	}
	if mtext(e.ToProto()) != mtext(q) {
		t.Failf("writing twice gives different messages for %s", show(want))
	}
	// as a function argument
	fa := e.ToProtoFuncArg()
	if mtext(fa) != mtext(argV(q)) {
		t.Failf("as a function argument the expression is %s, not the value %s", show(fa), show(q))
	}
	e2, err := expr.ExprFromProto(q, base, reg)
	if err != nil {
		t.Failf("the written message is rejected: %v\n  %s", err, show(q))
		return e
	}
	t.Trans(4)
	if mtext(e2.ToProto()) != mtext(q) {
		t.Failf("second round trip differs from the first: %s / %s", show(q), show(e2.ToProto()))
	}
	if !hasSubquery(p) && !(e.Equals(e2) && e2.Equals(e)) {
		t.Failf("expression is not equal to its round trip: %s", show(q))
	}
	ref := refExprType(want, cols)
	got := e.GetType()
	if ref != nil {
		if got == nil {
			t.Failf("expression has no type, want %s: %s", show(ref), show(p))
		} else if g := types.TypeToProto(got); mtext(g) != mtext(ref) {
			t.Failf("type of expression is %s, want %s\n  %s", show(g), show(ref), show(p))
		}
		if got2 := e2.GetType(); got2 == nil || !got2.Equals(got) {
			t.Failf("type changes in a round trip: %v / %v", got, got2)
		}
		if len(e.String()) == 0 {
			t.Failf("expression prints as nothing: %s", show(p))
		}
		t.Validated()
	}
	return e
}

func runC06(c *Ctx) {
	cols := baseCols()
	base := recordOf(cols)
	reg := stdReg()
	lvl := 2
	if c.Thorough {
		lvl = 3
	}
	for _, x := range append(exprUniverse(lvl), sizedExprs(300)...) {
		c.Case(func(t *T) {
			c.Dim("root", fmt.Sprintf("%T", x.e.RexType))
			judgeExpr(t, reg, base, cols, x.e, normExpr(x.e))
		}, "expr", x.id)
	}
	// every literal kind as an expression and as a switch case
	for _, l := range leafLits() {
		for _, nb := range []bool{false, true} {
			c.Case(func(t *T) {
				lit := flags(l.mk(), nb, 0)
				judgeExpr(t, reg, base, cols, xLit(lit), xLit(normLit(lit)))
				sw := xSwitch(xLit(lit), xCol(0), []*pb.Expression_Literal{lit}, xCol(0))
				want := xSwitch(xLit(normLit(lit)), xCol(0), []*pb.Expression_Literal{normLit(lit)}, xCol(0))
				judgeExpr(t, reg, base, cols, sw, want)
			}, "lit", l.name, nb)
		}
	}
	// every type as cast target, parameter type, output type, function type argument
	for _, pt := range typeUniverse(false) {
		if !usableType(pt.p) {
			continue
		}
		c.Case(func(t *T) {
			for _, e := range []*pb.Expression{xCast(xCol(0), pt.p, 1), xDyn(pt.p, 1), xScalar(fnFoo, pt.p, nil, argT(pt.p)), xScalar(fnAdd, pt.p, nil, argT(pt.p)),
				xWindow(fnBaz, pt.p, 1, 0, []*pb.Expression{xCol(0)}), xLambda(xCol(0), 0, pt.p), xLit(&pb.Expression_Literal{LiteralType: &pb.Expression_Literal_Null{Null: withNullability(pt.p, nNul)}, Nullable: true})} {
				judgeExpr(t, reg, base, cols, e, normExpr(e))
			}
		}, "type", pt.id)
	}
	// masks
	depth := 2
	if c.Thorough {
		depth = 3
	}
	for i, m := range maskSelects(depth) {
		for _, single := range []bool{false, true} {
			c.Case(func(t *T) {
				e := xMask(&pb.Expression_MaskExpression{Select: mStruct(mItem(2, m), mItem(int32(i%3), nil)), MaintainSingularStruct: single})
				judgeExpr(t, reg, base, cols, e, e)
			}, "mask", i, single)
		}
	}
	// messages of old producers: arguments in the deprecated args field
	for n := 1; n <= 3; n++ {
		c.Case(func(t *T) {
			es := []*pb.Expression{xCol(0), xLit(lI32(4)), xCol(1)}[:n]
			for _, ref := range []uint32{fnAdd, fnFoo} {
				p := &pb.Expression{RexType: &pb.Expression_ScalarFunction_{ScalarFunction: &pb.Expression_ScalarFunction{FunctionReference: ref, OutputType: tI32(nReq), Args: es}}}
				judgeExpr(t, reg, base, cols, p, xScalar(ref, tI32(nReq), nil, argsV(es)...))
			}
			for _, ref := range []uint32{fnRowNum, fnBaz} {
				want := xWindow(ref, tI32(nReq), n, 0, es)
				p := proto.Clone(want).(*pb.Expression)
				p.GetWindowFunction().Arguments, p.GetWindowFunction().Args = nil, es
				judgeExpr(t, reg, base, cols, p, want)
			}
		}, "deprecated args", n)
	}
	c06Aggs(c, reg, base, cols)
	c06Edits(c, reg, base, cols)
}

// c06Edits: every one-step edit of every base expression, aggregate and extended
// expression is kept or rejected.
func c06Edits(c *Ctx, reg expr.ExtensionRegistry, base *types.RecordType, cols []*pb.Type) {
	for _, x := range exprUniverse(0) {
		c.Case(func(t *T) {
			editAll(t, x.e, func(m proto.Message) (func() proto.Message, error) {
				e, err := expr.ExprFromProto(m.(*pb.Expression), base, reg)
				if err != nil {
					return nil, err
				}
				return func() proto.Message { return e.ToProto() }, nil
			})
		}, "edit", x.id)
	}
	for i, a := range aggUniverse() {
		c.Case(func(t *T) {
			editAll(t, a, func(m proto.Message) (func() proto.Message, error) {
				e, err := expr.NewAggregateFunctionFromProto(m.(*pb.AggregateFunction), base, reg)
				if err != nil {
					return nil, err
				}
				return func() proto.Message { return e.ToProto() }, nil
			})
		}, "edit agg", i)
	}
}

// editAll: an edited message is rejected, or reading and writing it keeps it.
func editAll(t *T, root proto.Message, read func(proto.Message) (func() proto.Message, error)) {
	for _, ed := range edits(root, nil) {
		inRel := false // edits of relations are made by C01
		for _, s := range ed.path {
			inRel = inRel || s.fd.Message() != nil && s.fd.Message().FullName() == "substrait.Rel"
		}
		if inRel {
			continue
		}
		p := ed.apply(root)
		before := mtext(p)
		t.Trans(1)
		var q, q2 proto.Message
		if msg := catch(func() {
			write, err := read(p)
			if err != nil {
				return
			}
			if q = write(); mtext(write()) != mtext(q) {
				t.Failf("writing twice gives different messages after %s: %s", ed, show(p))
			}
		}); msg != "" {
			t.Note("edit panics (judged by C27)")
			continue
		}
		if mtext(p) != before {
			t.Failf("reading or writing modified the input message %s", show(p))
		}
		if q == nil {
			t.Note("edit rejected")
			continue
		}
		t.StateBytes([]byte(before))
		t.Note("edit accepted")
		if mtext(normEdited(q)) != mtext(normEdited(p)) {
			t.Failf("the message changes in a round trip after %s:\n  in:  %s\n  out: %s", ed, show(p), show(q))
			continue
		}
		write, err := read(q)
		if err != nil {
			t.Failf("the written message is rejected after %s: %v\n  %s", ed, err, show(q))
			continue
		}
		if q2 = write(); mtext(q2) != mtext(q) {
			t.Failf("second round trip differs from the first after %s: %s / %s", ed, show(q), show(q2))
		}
		t.Trans(1)
	}
	t.Validated()
}

// aggregates and extended expressions are read by their own entry points
func c06Aggs(c *Ctx, reg expr.ExtensionRegistry, base *types.RecordType, cols []*pb.Type) {
	for i, a := range aggUniverse() {
		c.Case(func(t *T) {
			before := mtext(a)
			f, err := expr.NewAggregateFunctionFromProto(a, base, reg)
			if err != nil {
				t.Failf("valid aggregate rejected: %v %s", err, show(a))
				return
			}
			q := f.ToProto()
			t.State(before)
			t.Trans(2)
			if mtext(q) != before || mtext(a) != before {
				t.Failf("aggregate changes in a round trip: %s / %s", show(a), show(q))
			}
			if g := types.TypeToProto(f.GetType()); mtext(g) != mtext(a.OutputType) {
				t.Failf("aggregate type %s, want %s", show(g), show(a.OutputType))
			}
			if n := fnNames[a.FunctionReference]; f.CompoundName() != n[1] || f.ID().URN != n[0] {
				t.Failf("aggregate is %v, want %v", f.ID(), n)
			}
			cl := f.Clone()
			if mtext(cl.ToProto()) != before {
				t.Failf("clone of an aggregate differs: %s / %s", show(a), show(cl.ToProto()))
			}
			if f.NArgs() > 0 {
				cl.SetArg(0, types.Enum("other"))
				if mtext(f.ToProto()) != before {
					t.Failf("changing an argument of a clone changes the original: %s / %s", show(a), show(f.ToProto()))
				}
			}
			t.Validated()
		}, "agg", i)
	}
	for i, x := range extendedUniverse(c.Thorough) {
		c.Case(func(t *T) {
			before := mtext(x)
			ex, err := expr.ExtendedFromProto(x, defColl())
			if err != nil {
				t.Failf("valid extended expression rejected: %v %s", err, show(x))
				return
			}
			t.State(before)
			q := ex.ToProto()
			t.Trans(2)
			if mtext(x) != before {
				t.Failf("reading modified the message %s", show(x))
			}
			if d := sameExtended(x, q); d != "" {
				t.Failf("extended expression changes in a round trip (%s): %s / %s", d, show(x), show(q))
			}
			ex2, err := expr.ExtendedFromProto(q, defColl())
			if err != nil {
				t.Failf("the written message is rejected: %v %s", err, show(q))
			} else if d := sameExtended(q, ex2.ToProto()); d != "" {
				t.Failf("second round trip differs (%s): %s / %s", d, show(q), show(ex2.ToProto()))
			}
			t.Validated()
		}, "extended", i)
	}
}

// normEdited also writes what a missing or older part of a message means.
func normEdited(e proto.Message) proto.Message {
	c := normLits(e)
	args := func(a *[]*pb.FunctionArgument, old *[]*pb.Expression) {
		if len(*a) == 0 {
			*a = argsV(*old)
		}
		*old = nil
	}
	walkPB(c, func(m proto.Message) {
		switch x := m.(type) {
		case *pb.Expression_FieldReference:
			if x.RootType == nil {
				x.RootType = &pb.Expression_FieldReference_RootReference_{RootReference: &pb.Expression_FieldReference_RootReference{}}
			}
		case *pb.Type_IntervalDay:
			if x.Precision == nil {
				x.Precision = proto.Int32(6)
			}
		case *pb.Expression_ScalarFunction:
			args(&x.Arguments, &x.Args)
		case *pb.Expression_WindowFunction:
			if x.LowerBound != nil && x.LowerBound.Kind == nil { // a bound without kind says nothing
				x.LowerBound = nil
			}
			if x.UpperBound != nil && x.UpperBound.Kind == nil {
				x.UpperBound = nil
			}
			args(&x.Arguments, &x.Args)
		case *pb.AggregateFunction:
			args(&x.Arguments, &x.Args)
		}
	})
	return c
}
