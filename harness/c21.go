// C21: field and lambda references have the type of what they point at.
package main

import (
	"fmt"
	"math"

	"github.com/substrait-io/substrait-go/v8/expr"
	"github.com/substrait-io/substrait-go/v8/types"
	pb "github.com/substrait-io/substrait-protobuf/go/substraitpb"
	"google.golang.org/protobuf/proto"
)

func init() {
	checks["C21"] = &Check{Run: runC21, Quick: 200, Thorough: 800,
		Bounds: "row types: all rows of 1..2 columns over a pool of nested types to depth 3; segment chains: every chain of struct field, list element and map key segments to length 5 (thorough 7) over indices {-1,0,1,2,7} and keys of four types, valid and invalid; roots: row, expression, through the constructors, the builder and messages; rows of up to 300 fields (every position, also inside structs and lists) and rows nested 40 deep (chains of every length); lambda nests to depth 3 with every steps-out and field, built repeatedly and after failed builds",
		Assume: []string{"outer and lambda references read from a message have no known type (documented); masks have no type"}}
}

// chainAlphabet is every single segment of the exploration.
func chainAlphabet() []func(c *pb.Expression_ReferenceSegment) *pb.Expression_ReferenceSegment {
	var r []func(c *pb.Expression_ReferenceSegment) *pb.Expression_ReferenceSegment
	type seg = *pb.Expression_ReferenceSegment
	for _, f := range []int32{0, 1, -1, 2, 7} {
		r = append(r, func(c seg) seg { return segField(f, c) })
	}
	for _, o := range []int32{0, -1, 5} {
		r = append(r, func(c seg) seg { return segElem(o, c) })
	}
	nstr := lStr("k")
	nstr.Nullable = true
	for _, k := range []*pb.Expression_Literal{lStr("k"), lI32(3), lI64(3), nstr} {
		r = append(r, func(c seg) seg { return segKey(k, c) })
	}
	return r
}

// goSeg builds the reference with the Go constructors.
func goSeg(s *pb.Expression_ReferenceSegment) expr.ReferenceSegment {
	if s == nil {
		return nil
	}
	switch x := s.ReferenceType.(type) {
	case *pb.Expression_ReferenceSegment_StructField_:
		return &expr.StructFieldRef{Field: x.StructField.Field, Child: goSeg(x.StructField.Child)}
	case *pb.Expression_ReferenceSegment_ListElement_:
		return &expr.ListElementRef{Offset: x.ListElement.Offset, Child: goSeg(x.ListElement.Child)}
	case *pb.Expression_ReferenceSegment_MapKey_:
		return &expr.MapKeyRef{MapKey: expr.LiteralFromProto(x.MapKey.MapKey), Child: goSeg(x.MapKey.Child)}
	}
	return nil
}

// flatSegs lists the segments of a chain, each without its child.
func flatSegs(s *pb.Expression_ReferenceSegment) []expr.ReferenceSegment {
	var r []expr.ReferenceSegment
	for s != nil {
		switch x := s.ReferenceType.(type) {
		case *pb.Expression_ReferenceSegment_StructField_:
			r, s = append(r, expr.NewStructFieldRef(x.StructField.Field)), x.StructField.Child
		case *pb.Expression_ReferenceSegment_ListElement_:
			r, s = append(r, expr.NewListElemRef(x.ListElement.Offset)), x.ListElement.Child
		case *pb.Expression_ReferenceSegment_MapKey_:
			r, s = append(r, expr.NewMapKeyRef(expr.LiteralFromProto(x.MapKey.MapKey))), x.MapKey.Child
		}
	}
	return r
}

func judgeRef(t *T, what string, f *expr.FieldReference, err error, want *pb.Type, chain *pb.Expression_ReferenceSegment, root func(*pb.Expression_ReferenceSegment) *pb.Expression) {
	t.Trans(1)
	if want == nil {
		if err == nil {
			t.Failf("%s: reference %s points at nothing but is accepted with type %v", what, show(chain), f.GetType())
		}
		return
	}
	if err != nil {
		t.Failf("%s: reference %s to a %s is rejected: %v", what, show(chain), show(want), err)
		return
	}
	ty := f.GetType()
	if ty == nil {
		t.Failf("%s: reference %s has no type, want %s", what, show(chain), show(want))
		return
	}
	if g := types.TypeToProto(ty); mtext(g) != mtext(want) {
		t.Failf("%s: reference %s has type %s, want %s", what, show(chain), show(g), show(want))
	}
	if root != nil {
		if w := root(chain); mtext(normLits(f.ToProto())) != mtext(normLits(w)) {
			t.Failf("%s: reference %s is written as %s, want %s", what, show(chain), show(f.ToProto()), show(w))
		}
	}
	t.State(mtext(chain) + "|" + mtext(want))
	t.Validated()
}

func runC21(c *Ctx) {
	reg := stdReg()
	i32, str := leafT("i32", nReq, 0), leafT("string", nReq, 0)
	pool := []*pb.Type{
		i32, leafT("string", nNul, 7),
		pbStruct(nNul, 0, i32, leafT("date", nNul, 0)),
		pbList(nReq, 0, leafT("fp64", nNul, 0)),
		pbMap(nReq, 0, str, leafT("boolean", nReq, 0)),
		pbMap(nNul, 3, i32, pbList(nReq, 0, str)),
		pbMap(nReq, 0, leafT("string", nNul, 0), i32),
		pbMap(nReq, 0, leafT("i64", nReq, 0), pbStruct(nReq, 0, str)),
		pbList(nNul, 0, pbStruct(nReq, 0, i32, pbMap(nReq, 0, str, pbList(nReq, 0, i32)))),
		pbStruct(nReq, 0, pbList(nReq, 0, pbList(nNul, 0, pbStruct(nReq, 0, leafT("decimal<10,2>", nNul, 0))))),
		pbStruct(nReq, 0),
		pbUDT(nReq, 0, 2),
	}
	depth := 5
	if c.Thorough {
		depth = 7
	}
	alpha := chainAlphabet()
	rows := [][]*pb.Type{nil}
	for _, a := range pool {
		rows = append(rows, []*pb.Type{a})
		for j, b := range pool {
			if j >= 0 {
				rows = append(rows, []*pb.Type{a, b})
			}
		}
	}
	// chains: all chains of length <= 2, and every extension of a valid prefix
	// beyond that (an invalid prefix stays invalid, which length 2 shows)
	rowChains := func(row *pb.Type) []*pb.Expression_ReferenceSegment {
		var out []*pb.Expression_ReferenceSegment
		type st = []func(c *pb.Expression_ReferenceSegment) *pb.Expression_ReferenceSegment
		mk := func(s st) *pb.Expression_ReferenceSegment {
			var r *pb.Expression_ReferenceSegment
			for i := len(s) - 1; i >= 0; i-- {
				r = s[i](r)
			}
			return r
		}
		var rec func(s st)
		rec = func(s st) {
			for _, a := range alpha {
				n := append(append(st{}, s...), a)
				ch := mk(n)
				out = append(out, ch)
				if len(n) < depth && (len(n) < 2 || refSegType(row, ch) != nil) {
					rec(n)
				}
			}
		}
		rec(nil)
		return out
	}
	check := func(t *T, row []*pb.Type, chains []*pb.Expression_ReferenceSegment) {
		rt := pbStruct(nReq, 0, row...)
		base := recordOf(row)
		dyn, err := (&expr.ExprBuilder{Reg: reg}).DynamicParam(types.TypeFromProto(rt), 4).Build()
		if err != nil {
			t.Failf("dynamic parameter: %v", err)
			return
		}
		b := &expr.ExprBuilder{Reg: reg, BaseSchema: base}
		xdyn := xDyn(rt, 4)
		exRoot := func(s *pb.Expression_ReferenceSegment) *pb.Expression { return xExprRef(xdyn, s) }
		for _, ch := range chains {
			want := refSegType(rt, ch)
			f, err := expr.NewRootFieldRef(goSeg(ch), base)
			judgeRef(t, "NewRootFieldRef", f, err, want, ch, xRef)
			f, err = expr.NewFieldRef(expr.RootReference, expr.FlattenRefSegments(flatSegs(ch)...), base)
			judgeRef(t, "flattened", f, err, want, ch, xRef)
			f, err = expr.NewFieldRef(dyn, goSeg(ch), nil)
			judgeRef(t, "expression root", f, err, want, ch, exRoot)
			f, err = b.RootRef(goSeg(ch)).Build()
			judgeRef(t, "builder", f, err, want, ch, xRef)
			f, err = b.Ref(dyn, goSeg(ch)).Build()
			judgeRef(t, "builder expression root", f, err, want, ch, exRoot)
			e, err := expr.ExprFromProto(xRef(ch), base, reg)
			f, _ = e.(*expr.FieldReference)
			judgeRef(t, "message", f, err, want, ch, xRef)
			e, err = expr.ExprFromProto(exRoot(ch), nil, reg)
			f, _ = e.(*expr.FieldReference)
			judgeRef(t, "message expression root", f, err, want, ch, exRoot)
			seg := expr.RefSegmentFromProto(ch)
			ty, err := seg.GetType(types.TypeFromProto(rt))
			if (err == nil) != (want != nil) || err == nil && mtext(types.TypeToProto(ty)) != mtext(want) {
				t.Failf("segment %s of %s has type %v (%v), want %s", show(ch), show(rt), ty, err, show(want))
			}
			if len(t.fails) > 6 {
				return
			}
		}
	}
	for ri, row := range rows {
		c.Case(func(t *T) { check(t, row, rowChains(pbStruct(nReq, 0, row...))) }, "row", ri)
	}
	// wide rows: every position and those around the end; deep rows: chains of every length
	for _, n := range []int{9, 17, 65, 129, 257, 300} {
		c.Case(func(t *T) {
			var ch []*pb.Expression_ReferenceSegment
			for i := int32(-2); i <= int32(n)+2; i++ {
				ch = append(ch, segField(i, nil), segField(i, segField(0, nil)))
			}
			for _, i := range []int32{255, 256, 65535, 65536, math.MaxInt32, math.MinInt32} {
				ch = append(ch, segField(i, nil))
			}
			check(t, manyCols(n), ch)
		}, "wide", n)
		c.Case(func(t *T) {
			in := pbStruct(nNul, 0, manyCols(n)...)
			var ch []*pb.Expression_ReferenceSegment
			for i := int32(-1); i <= int32(n); i++ {
				ch = append(ch, segField(1, segField(i, nil)), segField(2, segElem(i, segField(i, nil))))
			}
			check(t, []*pb.Type{i32, in, pbList(nReq, 0, in)}, ch)
		}, "wide-inner", n)
	}
	for shape := 0; shape < 4; shape++ {
		c.Case(func(t *T) {
			p := leafT("date", nNul, 0)
			var segs []func(c *pb.Expression_ReferenceSegment) *pb.Expression_ReferenceSegment
			for i := 0; i < 40; i++ {
				switch (i*shape + shape) % 3 {
				case 0:
					p, segs = pbStruct(nReq, 0, i32, p), append(segs, func(c *pb.Expression_ReferenceSegment) *pb.Expression_ReferenceSegment { return segField(1, c) })
				case 1:
					p, segs = pbList(nNul, 0, p), append(segs, func(c *pb.Expression_ReferenceSegment) *pb.Expression_ReferenceSegment { return segElem(int32(i), c) })
				default:
					p, segs = pbMap(nReq, 0, str, p), append(segs, func(c *pb.Expression_ReferenceSegment) *pb.Expression_ReferenceSegment { return segKey(lStr("k"), c) })
				}
			}
			var ch []*pb.Expression_ReferenceSegment
			for n := 0; n <= len(segs); n++ {
				for _, tail := range []*pb.Expression_ReferenceSegment{nil, segField(0, nil), segElem(0, nil)} {
					x := tail
					for i := len(segs) - n; i < len(segs); i++ {
						x = segs[i](x)
					}
					ch = append(ch, segField(0, x))
				}
			}
			check(t, []*pb.Type{p}, ch)
		}, "deep", shape)
	}
	c21Lambda(c, reg)
}

// a lambda nest: parameter structs outermost first; a reference steps out of the innermost.
func c21Lambda(c *Ctx, reg expr.ExtensionRegistry) {
	i32 := leafT("i32", nReq, 0)
	params := [][]*pb.Type{nil, {i32}, {leafT("string", nNul, 0), pbStruct(nReq, 0, i32, leafT("date", nNul, 0))}, {pbList(nReq, 0, i32), leafT("i64", nReq, 7), i32}}
	var nests [][]int
	for a := range params {
		nests = append(nests, []int{a})
		for b := range params {
			nests = append(nests, []int{a, b})
			for d := range params {
				nests = append(nests, []int{a, b, d})
			}
		}
	}
	goParams := func(i int) *types.StructType {
		s := &types.StructType{Nullability: types.NullabilityRequired, Types: []types.Type{}}
		for _, p := range params[i] {
			s.Types = append(s.Types, types.TypeFromProto(p))
		}
		return s
	}
	base := recordOf(baseCols())
	for _, nest := range nests {
		for wrap := 0; wrap < 4; wrap++ {
			c.Case(func(t *T) {
				b := &expr.ExprBuilder{Reg: reg, BaseSchema: base}
				for level := 0; level < len(nest); level++ { // the reference sits in the body of nest[level]
					for steps := uint32(0); steps <= uint32(len(nest)); steps++ {
						for _, fl := range []int32{-1, 0, 1, 2, 3} {
							for _, sub := range []*pb.Expression_ReferenceSegment{nil, segField(0, nil), segElem(1, nil)} {
								var want *pb.Type
								if int(steps) <= level {
									want = refSegType(pbStruct(nReq, 0, params[nest[level-int(steps)]]...), segField(fl, sub))
								}
								// build the whole nest around the reference
								var body expr.Builder = b.LambdaParamRef(expr.StructFieldRef{Field: fl, Child: goSeg(sub)}, steps)
								switch wrap {
								case 1:
									body = b.Cast(body, &types.StringType{Nullability: types.NullabilityNullable})
								case 2:
									bb := b.LambdaParamRef(expr.StructFieldRef{Field: fl, Child: goSeg(sub)}, steps)
									body = b.Cast(b.Cast(bb, &types.BooleanType{}), &types.Int64Type{})
								}
								for l := level; l >= 0; l-- {
									if wrap == 3 && l < level {
										body = b.Cast(body, &types.BooleanType{Nullability: types.NullabilityRequired})
									}
									body = b.Lambda(goParams(nest[l]), body)
								}
								for rep := 0; rep < 2; rep++ { // the same builder again: no context may be left behind
									e, err := body.BuildExpr()
									t.Trans(1)
									if (err == nil) != (want != nil) {
										t.Failf("lambdas %v: reference at level %d, %d steps out, field %d%s: error %v, expected type %s", nest, level, steps, fl, show(sub), err, show(want))
										return
									}
									if err != nil {
										continue
									}
									for l := 0; l <= level; l++ {
										lam, ok := e.(*expr.Lambda)
										if !ok {
											if ca, isCast := e.(*expr.Cast); isCast && wrap == 3 {
												lam = ca.Input.(*expr.Lambda)
											} else {
												t.Failf("lambda %d of %v is a %T", l, nest, e)
												return
											}
										}
										for k, p := range params[nest[l]] {
											if mtext(types.TypeToProto(lam.Parameters.Types[k])) != mtext(p) {
												t.Failf("lambda %d has parameters %v", l, lam.Parameters.Types)
											}
										}
										e = lam.Body
									}
									for {
										if ca, ok := e.(*expr.Cast); ok {
											e = ca.Input
											continue
										}
										break
									}
									f, ok := e.(*expr.FieldReference)
									if !ok {
										t.Failf("body is a %T", e)
										return
									}
									judgeRef(t, fmt.Sprintf("lambdas %v level %d steps %d", nest, level, steps), f, nil, want, segField(fl, sub),
										func(s *pb.Expression_ReferenceSegment) *pb.Expression { return xLambdaRef(steps, s) })
								}
							}
						}
					}
				}
				// outside of any lambda nothing can be referred to
				if _, err := b.LambdaParamRef(expr.StructFieldRef{Field: 0}, 0).Build(); err == nil {
					t.Failf("a lambda reference outside any lambda is accepted after building %v", nest)
				}
			}, "lambda", fmt.Sprint(nest), wrap)
		}
	}
	// messages: the type of a lambda over a reference of known type, the distance is kept
	for steps := uint32(0); steps <= 3; steps++ {
		c.Case(func(t *T) {
			p := xLambda(xLambda(xLambdaRef(steps, segField(0, nil)), 0, i32), 0, i32)
			e, err := expr.ExprFromProto(p, base, reg)
			if err != nil {
				t.Note("message with lambda reference rejected")
				if steps < 2 {
					t.Failf("valid lambda reference rejected: %v", err)
				}
				return
			}
			if mtext(e.ToProto()) != mtext(p) {
				t.Failf("lambda reference changes: %s / %s", show(p), show(e.ToProto()))
			}
		}, "lambda message", steps)
	}
	// outer references keep their distance and need no base schema
	for _, steps := range []uint32{0, 1, 2, 1<<32 - 1} {
		c.Case(func(t *T) {
			p := xOuter(steps, segField(3, segElem(1, nil)))
			e, err := expr.ExprFromProto(p, base, reg)
			if err != nil {
				t.Failf("outer reference rejected: %v", err)
				return
			}
			if mtext(e.ToProto()) != mtext(p) {
				t.Failf("outer reference changes: %s / %s", show(p), show(e.ToProto()))
			}
		}, "outer", steps)
	}
	// masks keep the selected parts in order
	for i, m := range maskSelects(3) {
		c.Case(func(t *T) {
			for _, s := range []bool{false, true} {
				p := &pb.Expression_MaskExpression{Select: mStruct(mItem(3, m), mItem(1, nil)), MaintainSingularStruct: s}
				w := proto.Clone(p)
				me := expr.MaskExpressionFromProto(p)
				if me == nil {
					t.Failf("valid mask rejected %s", show(p))
					return
				}
				if mtext(me.ToProto()) != mtext(w) || me.MaintainSingularStruct() != s {
					t.Failf("mask changes: %s / %s", show(w), show(me.ToProto()))
				}
				if n := len(me.Select()); n != 2 || me.Select()[0].Field() != 3 || me.Select()[1].Field() != 1 {
					t.Failf("mask selects %v, want fields 3 and 1", me.Select())
				}
				t.Trans(1)
			}
		}, "mask", i)
	}
}
