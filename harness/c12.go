package main

import (
	"fmt"

	ext "github.com/substrait-io/substrait-go/v8/extensions"
	"github.com/substrait-io/substrait-go/v8/types"
	pb "github.com/substrait-io/substrait-protobuf/go/substraitpb"
	"strconv"
)

// c12match judges a resolved type against the declared return type; the result is
// "" when it is as declared, with reg giving the expected anchors.
type c12 struct {
	s   *sig
	b   *bind
	reg ext.Set
	urn string
}

// errs tells whether the return type mentions names that nothing binds.
func (x *c12) errs(r *pn) int {
	res := yes
	r.each(func(p *pn) {
		if p.k == "any" {
			if n := len(x.b.any[p.s]); n == 0 {
				res = worse(res, no)
			} else if p.s == "any" && n > 1 {
				res = worse(res, unjudged)
			}
		}
		for _, s := range p.ints {
			if _, err := strconv.Atoi(s); err != nil && len(x.b.ints[s]) == 0 {
				res = worse(res, no)
			}
		}
	})
	return res
}

func (x *c12) diff(r *pn, g *pb.Type, top bool) string {
	judgeNull := !top || x.s.rule == "DECLARED_OUTPUT" || x.s.rule == "DISCRETE"
	if r.k == "any" {
		ts := x.b.any[r.s]
		if mtext(pbReq(g)) != mtext(pbReq(ts[0])) {
			return fmt.Sprintf("%s is %s, bound to %s", r.s, show(g), show(ts[0]))
		}
		if !judgeNull {
			return ""
		}
		if r.null {
			if !pbNull(g) {
				return r.s + "? is not nullable"
			}
			return ""
		}
		if top {
			return ""
		}
		for _, t := range ts {
			if pbNull(t) == pbNull(g) {
				return ""
			}
		}
		return r.s + " has the wrong nullability"
	}
	if judgeNull && pbNull(g) != r.null {
		return fmt.Sprintf("%s: nullability is %v", r.text(), pbNull(g))
	}
	if v, ok := typeField(g, "nullability"); !ok || pb.Type_Nullability(v.Enum()) == nUns {
		return r.text() + ": no nullability"
	}
	if v, ok := typeField(g, "type_variation_reference"); ok && v.Uint() != 0 {
		return r.text() + ": has a type variation"
	}
	if r.k == "udt" {
		u := g.GetUserDefined()
		if u == nil || len(u.TypeParameters) != len(r.kids) {
			return r.text() + " is " + show(g)
		}
		if id, ok := x.reg.DecodeType(u.TypeReference); !ok || id.URN != x.urn || id.Name != r.s {
			return fmt.Sprintf("%s: type reference %d stands for %v", r.text(), u.TypeReference, id)
		}
		for i, k := range r.kids {
			tp := u.TypeParameters[i]
			switch k.k {
			case "int":
				if v, ok := tp.Parameter.(*pb.Type_Parameter_Integer); !ok || strconv.FormatInt(v.Integer, 10) != k.s {
					return r.text() + " is " + show(g)
				}
			case "str":
				if v, ok := tp.Parameter.(*pb.Type_Parameter_String_); !ok || v.String_ != k.s {
					return r.text() + " is " + show(g)
				}
			default:
				v, ok := tp.Parameter.(*pb.Type_Parameter_DataType)
				if !ok {
					return r.text() + " is " + show(g)
				}
				if d := x.diff(k, v.DataType, false); d != "" {
					return d
				}
			}
		}
		return ""
	}
	kind := pbKind(g)
	if n, ok := pbKindName[kind]; ok {
		kind = n
	}
	if kind != r.k {
		return fmt.Sprintf("%s is %s", r.text(), show(g))
	}
	if len(r.ints) > 0 {
		vs := pbInts(g)
		for i, s := range r.ints {
			n, err := strconv.ParseInt(s, 10, 64)
			if err != nil {
				n = x.b.ints[s][0]
			}
			if vs[i] != n {
				return fmt.Sprintf("%s is %s, %s is %d", r.text(), show(g), s, n)
			}
		}
		return ""
	}
	kids := pbKids(g)
	if len(kids) != len(r.kids) {
		return fmt.Sprintf("%s is %s", r.text(), show(g))
	}
	for i, k := range r.kids {
		if d := x.diff(k, kids[i], false); d != "" {
			return d
		}
	}
	return ""
}

func c12judge(t *T, s *sig, vs []matcher, args []*carg) {
	w, b := s.want(args)
	ts := make([]types.Type, len(args))
	anyNull := false
	for i, a := range args {
		ts[i] = a.t
		if a.p != nil && s.at2(i) && pbNull(a.p) {
			anyNull = true
		}
	}
	for k, v := range vs {
		t.Trans(1)
		x := &c12{s: s, b: b, reg: ext.NewSet(), urn: v.URN()}
		x.reg.GetTypeAnchor(ext.TypeID{URN: "extension:mc:other", Name: "t"})
		var got types.Type
		var err error
		if msg := catch(func() { got, err = v.ResolveType(ts, x.reg) }); msg != "" {
			t.Failf("%s (variant %d) with %s: resolving the return type panics: %s", s, k, showArgs(args), msg)
			continue
		}
		if err == nil && got == nil {
			t.Failf("%s (variant %d) with %s: neither type nor error", s, k, showArgs(args))
			continue
		}
		if w == unjudged {
			t.Outcome("unjudged")
			continue
		}
		if w == no {
			t.Outcome("arguments rejected")
			if err == nil {
				t.Failf("%s (variant %d) with %s: resolves to %s for arguments that do not match", s, k, showArgs(args), got)
			}
			continue
		}
		switch x.errs(s.ret) {
		case no:
			t.Outcome("unbound name rejected")
			if err == nil {
				t.Failf("%s (variant %d) with %s: resolves to %s with an unbound name", s, k, showArgs(args), got)
			}
			continue
		case unjudged:
			t.Outcome("unjudged")
			continue
		}
		if err != nil {
			t.Failf("%s (variant %d) with %s: cannot be resolved: %v", s, k, showArgs(args), err)
			continue
		}
		var g *pb.Type
		if msg := catch(func() { g = types.TypeToProto(got) }); msg != "" {
			t.Failf("%s with %s: resolved type %s cannot be written: %s", s, showArgs(args), got, msg)
			continue
		}
		t.Outcome("resolved")
		if (s.rule == "MIRROR" || s.rule == "") && pbNull(g) != anyNull {
			t.Failf("%s (variant %d) with %s: resolves to %s under the mirror rule", s, k, showArgs(args), got)
		}
		if d := x.diff(s.ret, g, true); d != "" {
			t.Failf("%s (variant %d) with %s: resolves to %s: %s", s, k, showArgs(args), got, d)
		}
	}
	t.Validated()
}

// at2: the argument is for a value parameter.
func (s *sig) at2(i int) bool { return len(s.params) > 0 && s.at(i).k != "enum" }

func c12sig(t *T, s *sig, all bool, pool []*carg, gen func(f func([]*carg))) {
	vs := c11load(t, s, all)
	if len(vs) == 0 {
		return
	}
	before := make([]string, len(vs))
	rt := func(v matcher) string {
		return sigText(v) + fmt.Sprint(retOf(v))
	}
	for i, v := range vs {
		before[i] = rt(v)
	}
	gen(func(args []*carg) { c12judge(t, s, vs, args) })
	for i, v := range vs {
		if y := rt(v); y != before[i] {
			t.Failf("resolving changes the signature %s from %s to %s", s, before[i], y)
		}
	}
	argsSame(t, s, pool)
	t.State(s.String())
}

func retOf(v matcher) string {
	switch f := v.(type) {
	case *ext.ScalarFunctionVariant:
		return fmt.Sprint(f.Nullability())
	case *ext.AggregateFunctionVariant:
		return fmt.Sprint(f.Nullability())
	case *ext.WindowFunctionVariant:
		return fmt.Sprint(f.Nullability())
	}
	return ""
}

// c12returns: return types for a signature mentioning the given parameters.
func c12returns(ps []*pn) (r []*pn) {
	r = append(r, pl("i32"), pl("string").opt(), pl("decimal", "38", "5"), pu("w"), pu("t", pi(7)).opt(), pc("list", pu("t")), pc("func", pl("i32"), pu("w", pc("list", pl("i8").opt()))))
	anys, ints := map[string]bool{}, map[string]bool{}
	var ao, io []string
	for _, p := range ps {
		p.each(func(q *pn) {
			if q.k == "any" && !anys[q.s] {
				anys[q.s] = true
				ao = append(ao, q.s)
			}
			for _, s := range q.ints {
				if _, err := strconv.Atoi(s); err != nil && !ints[s] {
					ints[s] = true
					io = append(io, s)
				}
			}
		})
	}
	for _, n := range append(ao, "any3") {
		r = append(r, pa(n), pa(n).opt(), pc("list", pa(n)), pc("list", pa(n).opt()).opt(), pc("struct", pa(n), pl("i32").opt()), pu("w", pa(n)))
	}
	for i, a := range ao {
		b := ao[(i+1)%len(ao)]
		r = append(r, pc("map", pa(a), pa(b)), pc("func", pa(a), pa(b), pc("list", pa(a))), pc("list", pc("list", pa(a)).opt()))
	}
	for _, n := range append(io, "Z") {
		r = append(r, pl("varchar", n), pl("decimal", "38", n).opt(), pl("precision_timestamp", n), pl("interval_day", n), pc("list", pl("fixedchar", n).opt()), pu("w", pl("varchar", n)))
	}
	for i, a := range io {
		b := io[(i+1)%len(io)]
		r = append(r, pl("decimal", a, b), pc("struct", pl("decimal", b, a), pl("varchar", a)))
	}
	if len(io) > 0 { // parts of another nullability than the whole, and many parts
		n := io[len(io)-1]
		r = append(r, pc("map", pl("varchar", n).opt(), pl("i32")), pc("map", pl("i8"), pl("varchar", n).opt()), pc("map", pl("varchar", n), pl("i32")).opt(),
			pc("struct", pl("varchar", n).opt(), pl("i32")), pc("struct", pl("varchar", n), pl("i32")).opt(), pc("func", pl("i32"), pl("varchar", n)).opt(),
			pu("w", pl("i8"), pl("varchar", n), pl("string").opt(), pi(3), pl("fixedchar", io[0]).opt(), pl("i64")).opt())
	}
	if len(ao) > 0 && len(io) > 0 {
		r = append(r, pc("map", pa(ao[0]), pl("fixedbinary", io[0])), pc("struct", pl("varchar", io[len(io)-1]), pa(ao[len(ao)-1]).opt()))
	}
	return r
}

func runC12(c *Ctx) {
	c12sized(c)
	params := pnParams()
	args := cargs()
	one := append([]*pn(nil), params...)
	for _, k := range []string{"fixedchar", "varchar", "fixedbinary", "precision_time", "precision_timestamp", "precision_timestamp_tz", "interval_day"} {
		one = append(one, pl(k, "N"))
	}
	for _, rule := range append(c11rules, "") {
		for _, p := range one {
			for ri, r := range c12returns([]*pn{p}) {
				c.Case(func(t *T) {
					s := &sig{params: []*pn{p}, rule: rule, ret: r}
					c12sig(t, &sig{params: []*pn{p}, rule: rule, ret: r, prog: true}, ri%5 == 0, args, func(f func([]*carg)) {
						for _, a := range args {
							f([]*carg{a})
						}
						f(nil)
					})
					u := c11universe()
					c12sig(t, s, true, args, func(f func([]*carg)) {
						for _, a := range args {
							f([]*carg{a})
						}
						// the universe: every third type, all of them when thorough
						for i, a := range u {
							if c.Thorough || i%3 == 0 {
								f([]*carg{a})
							}
						}
						f(nil)
					})
					t.Dim("one parameter", s.String())
				}, "one", rule, p.text(), r.text())
			}
		}
	}
	for _, rule := range c11rules {
		for i, p := range params {
			for j, q := range params {
				rs := c12returns([]*pn{p, q})
				c.Case(func(t *T) {
					for ri, r := range rs {
						s := &sig{params: []*pn{p, q}, rule: rule, ret: r, prog: (i+j+ri)%4 == 3}
						c12sig(t, s, c.Thorough && (i+j+ri)%5 == 0, args, func(f func([]*carg)) {
							var la, lb []*carg
							// arguments that conform alone, and one that does not
							for _, a := range args {
								if conformArg(p, a, rule == "DISCRETE", newBind()) != no {
									la = append(la, a)
								}
								if conformArg(q, a, rule == "DISCRETE", newBind()) != no {
									lb = append(lb, a)
								}
							}
							if c.Thorough || ri%4 == 0 {
								la = append(la, args[(i+ri)%len(args)])
								lb = append(lb, args[(j+ri)%len(args)])
							}
							for ai, a := range la {
								for bi, b := range lb {
									if !c.Thorough && len(la)*len(lb) > 300 && (ai+bi+ri)%5 != 0 {
										continue
									}
									f([]*carg{a, b})
								}
							}
						})
						t.Dim("two parameters", s.String())
					}
				}, "two", rule, p.text(), q.text())
			}
		}
	}
	sp, sa := c11small()
	for _, rule := range c11rules {
		for _, mm := range [][2]int{{0, 0}, {1, 0}, {1, 3}, {2, 2}} {
			for _, cons := range []string{"CONSISTENT", "INCONSISTENT"} {
				for n := 1; n <= 2; n++ {
					tuples(sp, n, func(x []*pn) {
						ps := append([]*pn(nil), x...)
						c.Case(func(t *T) {
							for ri, r := range c12returns(ps) {
								if !c.Thorough && n == 2 && ri%3 != 0 {
									continue
								}
								s := &sig{params: ps, rule: rule, variadic: true, min: mm[0], max: mm[1], cons: cons, ret: r, prog: ri%6 == 3}
								c12sig(t, s, n == 1, sa, func(f func([]*carg)) {
									for l := 0; l <= 3; l++ {
										tuples(sa[:9], l, f)
									}
									tuples(sa[:4], 4, f)
								})
								t.Dim("variadic", s.String())
							}
						}, "variadic", rule, fmt.Sprint(mm), cons, (&sig{params: ps}).String())
					})
				}
			}
		}
	}
}
