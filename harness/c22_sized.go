package main

import (
	"fmt"

	"github.com/substrait-io/substrait-go/v8/plan"
	pb "github.com/substrait-io/substrait-protobuf/go/substraitpb"
	"google.golang.org/protobuf/proto"
)

// c22Sized: many parameters, each with a binding of its own, in wide, deep and many relations.
func c22Sized(c *Ctx) {
	reg := relReg()
	type val struct {
		t           *pb.Type
		good, good2 *pb.Expression_Literal
	}
	vals := []val{
		{leafT("i32", nReq, 0), lI32(1), lI32(2)},
		{tBool(), lBool(true), lBool(false)},
		{leafT("string", nReq, 0), &pb.Expression_Literal{LiteralType: &pb.Expression_Literal_String_{String_: "x"}}, &pb.Expression_Literal{LiteralType: &pb.Expression_Literal_String_{String_: ""}}},
		{leafT("i64", nReq, 0), &pb.Expression_Literal{LiteralType: &pb.Expression_Literal_I64{I64: 5}}, &pb.Expression_Literal{LiteralType: &pb.Expression_Literal_I64{I64: 0}}},
	}
	sizes := []int{2, 3, 4, 5, 8, 9, 16, 17, 33, 65, 129}
	if c.Thorough {
		sizes = append(sizes, 6, 7, 31, 32, 64, 128, 256, 300)
	}
	anchor := func(i int) uint32 { return uint32(3 + i*5%1009) }
	tbl := func() *pb.Rel { return relNamed("t", relColsA()...) }
	// one parameter used often, once with another type
	for _, n := range sizes {
		c.Case(func(t *T) {
			for odd := -1; odd < n; odd++ {
				var es []*pb.Expression
				deep := tbl()
				for i := range n {
					e := xParamRef(paramRef, vals[0].t)
					if i == odd {
						e = xParamRef(paramRef, vals[3].t)
					}
					es = append(es, e)
					deep = relProject(deep, nil, e)
				}
				for k, m := range []*pb.Rel{relProject(tbl(), nil, es...), deep} {
					r, err := plan.RelFromProto(m, reg)
					if err != nil {
						t.Failf("%d uses: %v", n, err)
						return
					}
					for v, l := range []*pb.Expression_Literal{vals[0].good, vals[3].good} {
						err := plan.ValidateParameterBindings(r, []plan.DynamicParameterBinding{{ParameterAnchor: paramRef, Value: litOf(l)}})
						if want := odd < 0 && v == 0; (err == nil) != want {
							t.Failf("%d uses (arrangement %d), use %d of another type, bound to value %d: error is %v", n, k, odd, v, err)
						}
						t.Trans(1)
					}
				}
				if n > 40 && odd >= 0 {
					odd += n / 13
				}
			}
			t.State(fmt.Sprint("uses", n))
			t.Validated()
		}, "uses", n)
	}
	for _, n := range sizes {
		for _, shape := range []string{"wide", "split", "deep", "left-deep", "roots"} {
			c.Case(func(t *T) {
				kind := func(i int) val {
					if shape == "deep" {
						return vals[1] // conditions
					}
					return vals[i%len(vals)]
				}
				ref := func(i int) *pb.Expression { return xParamRef(anchor(i), kind(i).t) }
				var msgs []*pb.Rel
				switch shape {
				case "wide":
					var es []*pb.Expression
					for i := range n {
						es = append(es, ref(i))
					}
					msgs = []*pb.Rel{relProject(tbl(), nil, es...)}
				case "split": // each used once in each of two projections, in opposite orders
					var a, b []*pb.Expression
					for i := range n {
						a, b = append(a, ref(i)), append(b, ref(n-1-i))
					}
					msgs = []*pb.Rel{relProject(relProject(tbl(), nil, a...), nil, b...)}
				case "deep":
					r := tbl()
					for i := range n {
						r = relFilter(r, ref(i))
					}
					msgs = []*pb.Rel{r}
				case "left-deep":
					r := tbl()
					for i := range n {
						r = &pb.Rel{RelType: &pb.Rel_Cross{Cross: &pb.CrossRel{Left: r, Right: relProject(relNamed("u", tBool()), nil, ref(i))}}}
					}
					msgs = []*pb.Rel{r}
				case "roots":
					for i := range n {
						msgs = append(msgs, relProject(tbl(), nil, ref(i)))
					}
				}
				var rels []plan.Rel
				for _, m := range msgs {
					r, err := plan.RelFromProto(m, reg)
					if err != nil {
						t.Failf("%s of %d: %v", shape, n, err)
						return
					}
					rels = append(rels, r)
				}
				type bs = []plan.DynamicParameterBinding
				good := func() bs {
					var b bs
					for i := range n {
						b = append(b, plan.DynamicParameterBinding{ParameterAnchor: anchor(i), Value: litOf(kind(i).good)})
					}
					return b
				}
				judge := func(what string, b bs, valid bool) {
					for r := range 3 { // as listed, reversed, rotated
						x := append(bs(nil), b...)
						for i := range x {
							switch r {
							case 1:
								x[i] = b[len(b)-1-i]
							case 2:
								x[i] = b[(i+len(b)/2)%len(b)]
							}
						}
						if len(rels) == 1 {
							if err := plan.ValidateParameterBindings(rels[0], x); (err == nil) != valid {
								t.Failf("%s of %d, order %d: %s: error is %v", shape, n, r, what, err)
							}
						}
						root, err := plan.RelFromProto(tbl(), reg)
						if err != nil {
							t.Failf("%v", err)
							return
						}
						p, err := plan.NewBuilder(defColl()).PlanWithBindings(root, []string{"x", "y", "z"}, nil, x, rels...)
						if (err == nil) != valid {
							t.Failf("%s of %d, order %d, as a plan: %s: error is %v", shape, n, r, what, err)
						}
						if err == nil {
							g := p.ParameterBindings()
							if len(g) != len(x) {
								t.Failf("%s of %d: %d bindings instead of %d", shape, n, len(g), len(x))
								return
							}
							for i := range g {
								if g[i].ParameterAnchor != x[i].ParameterAnchor || !g[i].Value.Equals(x[i].Value) {
									t.Failf("%s of %d: binding %d is %v instead of %v", shape, n, i, g[i], x[i])
								}
							}
						}
						t.Trans(2)
					}
				}
				judge("all bound", good(), true)
				all2 := good()
				for i := range all2 {
					all2[i].Value = litOf(kind(i).good2)
				}
				judge("all bound to other values", all2, true)
				few := n
				if n > 33 && !c.Thorough {
					few = 33
				}
				for j := range few {
					i := j * (n - 1) / (max(few, 2) - 1)
					b := good()
					judge(fmt.Sprint("without binding ", i), append(b[:i:i], b[i+1:]...), true)
					b = good()
					b[i].Value = litOf(flags(proto.Clone(kind(i).good).(*pb.Expression_Literal), false, 5))
					judge(fmt.Sprint("another variation in binding ", i), b, false)
					b = good()
					b[i].Value = litOf(&pb.Expression_Literal{LiteralType: &pb.Expression_Literal_Fp32{Fp32: 1}})
					judge(fmt.Sprint("another type in binding ", i), b, false)
					b = good()
					b[i].ParameterAnchor = 2
					judge(fmt.Sprint("an unknown anchor in binding ", i), b, false)
					b = good()
					b[i].Value = nil
					judge(fmt.Sprint("no value in binding ", i), b, false)
					b = good()
					b[i].Value = litOf(lNull(pbWithNull(kind(i).t, true)))
					judge(fmt.Sprint("null in binding ", i), b, true)
				}
				t.State(fmt.Sprint(shape, n))
				t.Validated()
			}, "sized", shape, n)
		}
	}
}
