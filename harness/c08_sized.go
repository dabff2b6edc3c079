package main

import (
	"fmt"

	"github.com/substrait-io/substrait-go/v8/expr"
	"github.com/substrait-io/substrait-go/v8/plan"
	pb "github.com/substrait-io/substrait-protobuf/go/substraitpb"
)

// Long literals (C08), subqueries with many needles (C26), long if-then and
// switch requests (C28).

func c08sized(c *Ctx) {
	leaves := leafLits()
	sizes := []int{3, 4, 5, 8, 9, 16, 17, 33, 65, 129, 257, 300}
	byKind := map[string][]lmaker{}
	var kinds []string
	for _, m := range leaves {
		if byKind[m.kind] == nil {
			kinds = append(kinds, m.kind)
		}
		byKind[m.kind] = append(byKind[m.kind], m)
	}
	for _, n := range sizes {
		c.Case(func(t *T) {
			// a struct of all leaves in rotation, with flags
			for start := 0; start < len(leaves); start += 7 {
				var fs []*pb.Expression_Literal
				for i := 0; i < n; i++ {
					fs = append(fs, flags(leaves[(start+i)%len(leaves)].mk(), i%3 == 1, uint32(i%2)*uint32(i)))
				}
				judgeProtoLit(t, litStruct(fs...))
				judgeProtoLit(t, flags(litList(litStruct(fs...), litStruct(fs...)), true, 3))
			}
		}, "long struct", n)
		for _, k := range kinds {
			c.Case(func(t *T) {
				ms := byKind[k]
				var es, kv []*pb.Expression_Literal
				for i := 0; i < n; i++ {
					es = append(es, ms[0].mk())
					kv = append(kv, lI32(int32(i)), ms[0].mk())
				}
				for _, nul := range []bool{false, true} {
					judgeProtoLit(t, flags(litList(es...), nul, 0))
					judgeProtoLit(t, flags(litMap(kv...), nul, 7))
				}
				judgeProtoLit(t, litStruct(es...))
			}, "long list", n, k)
		}
		c.Case(func(t *T) {
			for bi, b := range badLits() {
				for _, at := range []int{0, n / 2, n - 1} {
					if bi%5 != at%5 && !c.Thorough {
						continue
					}
					var es, kv []*pb.Expression_Literal
					for i := 0; i < n; i++ {
						x := lI32(int32(i))
						if i == at {
							x = b.mk()
						}
						es, kv = append(es, x), append(kv, lStr(fmt.Sprint(i)), x)
					}
					judgeBad(t, litList(es...))
					judgeBad(t, litStruct(es...))
					judgeBad(t, litMap(kv...))
				}
			}
		}, "long bad", n)
	}
	for _, n := range []int{4, 5, 8, 9, 17, 33, 40} {
		for shape := 0; shape < 4; shape++ {
			c.Case(func(t *T) {
				for li := 0; li < len(leaves); li += 5 {
					l := leaves[li].mk()
					for i := 0; i < n; i++ {
						switch (i*shape + shape) % 3 {
						case 0:
							l = litList(l)
						case 1:
							l = litStruct(lI32(int32(i)), l)
						default:
							l = litMap(lStr("k"), l)
						}
						l = flags(l, i%3 == 1, uint32(i%2)*7)
					}
					judgeProtoLit(t, l)
				}
				for bi, b := range badLits() {
					if bi%3 != shape%3 {
						continue
					}
					l := b.mk()
					for i := 0; i < n; i++ {
						if (i+shape)%2 == 0 {
							l = litStruct(lI32(int32(i)), l)
						} else {
							l = litList(l)
						}
					}
					judgeBad(t, l)
				}
			}, "deep", n, shape)
		}
	}
}

func c26sized(c *Ctx, judge func(t *T, e expr.Expression, p *pb.Expression, want *pb.Type)) {
	base := recordOf(baseCols())
	reg := stdReg()
	bt := leafT("boolean", nReq, 0)
	for _, n := range []int{4, 5, 8, 9, 16, 17, 33, 65, 129, 300} {
		c.Case(func(t *T) {
			rel := relNamed("w", manyCols(n)...)
			r, err := plan.RelFromProto(rel, reg)
			if err != nil {
				t.Failf("%v", err)
				return
			}
			b := plan.NewBuilderDefault()
			for _, k := range []int{1, 2, n - 1, n, n + 1} {
				var es []expr.Expression
				var ps []*pb.Expression
				for i := 0; i < k; i++ {
					p := xLit(lI32(int32(i)))
					switch i % 4 {
					case 1:
						p = xCol(int32(i % 8))
					case 2:
						p = xScalar(fnFoo, leafT("i64", nNul, 0), nil, argV(xLit(lStr(fmt.Sprint(i)))))
					}
					e, err := expr.ExprFromProto(p, base, reg)
					if err != nil {
						t.Failf("needle: %v", err)
						return
					}
					es, ps = append(es, e), append(ps, e.ToProto())
				}
				e, err := b.InPredicateSubquery(es, r)
				if ok := k == n; (err == nil) != ok {
					t.Failf("builder with %d needles and %d columns: %v", k, n, err)
				}
				if k > 65 && k != n {
					continue
				}
				if err == nil {
					judge(t, e, xSubIn(rel, ps...), bt)
				}
				if n <= 33 {
					judge(t, plan.NewInPredicateSubquery(es, r), xSubIn(rel, ps...), bt)
				}
				for _, at := range []int{0, k / 2, k - 1} {
					bad := append([]expr.Expression{}, es...)
					bad[at] = nil
					if _, err := b.InPredicateSubquery(bad, r); err == nil {
						t.Failf("a nil needle at %d of %d is accepted", at, k)
					}
				}
			}
			if _, err := b.ScalarSubquery(r); err == nil {
				t.Failf("scalar subquery over %d columns accepted", n)
			}
			t.Validated()
		}, "long", n)
	}
}

func c28sized(c *Ctx) {
	cols := baseCols()
	base := recordOf(cols)
	reg := stdReg()
	ps := parts28(reg, base, cols)
	part := func(id string) part28 {
		for _, p := range ps {
			if p.id == id {
				return p
			}
		}
		panic(id)
	}
	good, other := part("i32"), part("i32[7]")
	mk := func(p *pb.Expression) part28 {
		e, err := expr.ExprFromProto(p, base, reg)
		if err != nil {
			panic(err)
		}
		return part28{"", e, p, refExprType(p, cols)}
	}
	sizes := []int{4, 5, 8, 9, 16, 17, 33, 65, 129, 300}
	for _, n := range sizes {
		for kind := 0; kind < 2; kind++ {
			c.Case(func(t *T) {
				// flaw < 0: none; otherwise the value at that place is of another type, missing or unknown
				try := func(at int, bad part28, els part28, elseBad bool) {
					what := fmt.Sprintf("%d pairs, %q at %d, else %s", n, bad.id, at, els.id)
					var kids, thens []*pb.Expression
					var pls []*pb.Expression_Literal
					var pairs []expr.IfThenPair
					type swcase = struct {
						If   expr.Literal
						Then expr.Expression
					}
					var cases []swcase
					ok := !elseBad
					for i := 0; i < n; i++ {
						v := mk(xLit(lI32(int32(i))))
						if i%3 == 0 {
							v = good
						}
						if i == at {
							v = bad
							ok = ok && bad.e != nil && bad.t != nil && mtext(bad.t) == mtext(good.t)
						}
						if kind == 0 {
							k := mk(xScalar(fnFoo, leafT("boolean", nReq, 0), nil, argV(xLit(lI32(int32(i))))))
							pairs = append(pairs, expr.IfThenPair{If: k.e, Then: v.e})
							kids = append(kids, k.p, v.p)
						} else {
							l := lI32(int32(i))
							cases = append(cases, swcase{expr.LiteralFromProto(l), v.e})
							pls, thens = append(pls, l), append(thens, v.p)
						}
					}
					var want *pb.Expression
					var typ *pb.Type
					var e expr.Expression
					var err error
					if kind == 0 {
						if ok {
							want = xIf(append(kids, els.p)...)
							typ = els.t
						}
						var x *expr.IfThen
						if msg := catch(func() { x, err = expr.NewIfThen(pairs[0], els.e, pairs[1:]...) }); msg != "" {
							t.Failf("%s panics: %s", what, clip(msg, 200))
							return
						}
						if err == nil {
							e = x
							for i := range pairs {
								if x.NIfs() != n || x.IfPair(i) != pairs[i] {
									t.Failf("%s: other parts are given back at %d", what, i)
								}
							}
						}
					} else {
						if ok {
							want = xSwitch(good.p, els.p, pls, thens...)
							typ = refExprType(want, cols)
						}
						var x *expr.SwitchExpr
						if msg := catch(func() { x, err = expr.NewSwitch(good.e, els.e, cases...) }); msg != "" {
							t.Failf("%s panics: %s", what, clip(msg, 200))
							return
						}
						if err == nil {
							e = x
							for i := range cases {
								if x.NCases() != n || x.Case(i) != cases[i] {
									t.Failf("%s: other parts are given back at %d", what, i)
								}
							}
						}
					}
					judge28(t, what, reg, base, e, err, want, typ)
				}
				try(-1, good, good, false)
				try(n-1, good, good, false)
				places := []int{1, n / 2, n - 2, n - 1}
				if n <= 17 {
					places = places[:0]
					for i := 0; i < n; i++ {
						places = append(places, i)
					}
				}
				for _, at := range places {
					for _, bad := range []part28{other, {id: "nil"}, part("unknown"), part("string?")} {
						try(at, bad, good, false)
					}
				}
				try(-1, good, part("string?"), true)
				t.Validated()
			}, "long", n, kind)
		}
	}
}
