package main

import (
	"fmt"

	pb "github.com/substrait-io/substrait-protobuf/go/substraitpb"
)

// Long signatures and long argument lists for C11 and C12.

type longSig struct {
	id     string
	params []*pn
	args   []*pb.Type // conforming
	wrong  []*pb.Type // per position: a type that may not conform alone or together
	more   []*pb.Type // further types for the first position
}

func longSigs(n int) []longSig {
	i32, i64 := leafT("i32", nReq, 0), leafT("i64", nReq, 0)
	var r []longSig
	mk := func(id string, f func(i int) (*pn, *pb.Type, *pb.Type)) {
		l := longSig{id: fmt.Sprint(id, n)}
		for i := range n {
			p, a, w := f(i)
			l.params, l.args, l.wrong = append(l.params, p), append(l.args, a), append(l.wrong, w)
		}
		r = append(r, l)
	}
	leaf := func(i int) string { return c11leafs[i%len(c11leafs)] }
	mk("leaves", func(i int) (*pn, *pb.Type, *pb.Type) {
		return pl(leaf(i)), leafT(leaf(i), nReq, 0), leafT(leaf(i+1), nReq, 0)
	})
	mk("same-any", func(i int) (*pn, *pb.Type, *pb.Type) { return pa("any1"), i32, i64 })
	mk("many-any", func(i int) (*pn, *pb.Type, *pb.Type) {
		return pa(fmt.Sprint("any", i%9+1)), leafT(leaf(i%9), nReq, 0), leafT(leaf(i%9+1), nReq, 0)
	})
	mk("nested-any", func(i int) (*pn, *pb.Type, *pb.Type) {
		switch i % 3 {
		case 0:
			return pc("list", pa("any2")), pbList(nReq, 0, i32), pbList(nReq, 0, i64)
		case 1:
			return pc("map", pa("any1"), pa("any2")), pbMap(nReq, 0, i64, i32), pbMap(nReq, 0, i32, i64)
		}
		return pa("any1"), i64, i32
	})
	mk("ints", func(i int) (*pn, *pb.Type, *pb.Type) {
		p, s := int32(i%20+10), int32(i%10)
		return pl("decimal", fmt.Sprint("P", i), fmt.Sprint("S", i)), pbDec(nReq, p, s), leafT("fp64", nReq, 0)
	})
	mk("same-int", func(i int) (*pn, *pb.Type, *pb.Type) {
		if i%2 == 0 {
			return pl("varchar", "L"), pbVarchar(nReq, 7), pbVarchar(nReq, 8)
		}
		return pl("fixedchar", "L"), pbFchar(nReq, 7), pbFchar(nReq, 8)
	})
	mk("mixed", func(i int) (*pn, *pb.Type, *pb.Type) {
		switch i % 4 {
		case 0:
			return pl("i32"), i32, i64
		case 1:
			return pl("string"), leafT("string", nReq, 0), i64
		case 2:
			return pa("any"), leafT(leaf(i), nReq, 0), nil
		}
		return pl("varchar", fmt.Sprint("L", i)), pbVarchar(nReq, int32(i)), pbFchar(nReq, 3)
	})
	return append(r, wideSigs(n)...)
}

// wideSigs are signatures whose first parameter is a composite of n parts,
// some of which share a name with each other and with the second parameter.
func wideSigs(n int) []longSig {
	i32, i64 := leafT("i32", nReq, 0), leafT("i64", nReq, 0)
	var r []longSig
	add := func(id, kind string, second *pn, good, bad *pb.Type, part func(i int) (*pn, *pb.Type, *pb.Type)) {
		var kids []*pn
		good0 := make([]*pb.Type, n)
		bad0 := make([]*pb.Type, n)
		for i := range n {
			k, g, b := part(i)
			kids = append(kids, k)
			good0[i], bad0[i] = g, b
		}
		l := longSig{id: fmt.Sprint(id, n), params: []*pn{pc(kind, kids...), second},
			args: []*pb.Type{pbStruct(nReq, 0, good0...), good}, wrong: []*pb.Type{pbStruct(nReq, 0, bad0...), bad}}
		for i := range n {
			x := append([]*pb.Type(nil), good0...)
			x[i] = bad0[i]
			l.more = append(l.more, pbStruct(nReq, 0, x...))
			x = append([]*pb.Type(nil), good0...)
			x[i] = pbWithNull(x[i], true)
			l.more = append(l.more, pbStruct(nReq, 0, x...))
		}
		l.more = append(l.more, pbStruct(nReq, 0, good0[:n-1]...), pbStruct(nReq, 0, append(append([]*pb.Type(nil), good0...), good0[0])...))
		r = append(r, l)
	}
	add("wide-same-int", "struct", pl("varchar", "L"), pbVarchar(nReq, 7), pbVarchar(nReq, 8), func(i int) (*pn, *pb.Type, *pb.Type) {
		if i%2 == 0 {
			return pl("varchar", "L"), pbVarchar(nReq, 7), pbVarchar(nReq, 8)
		}
		return pl("fixedchar", "L"), pbFchar(nReq, 7), pbFchar(nReq, 8)
	})
	add("wide-ints", "struct", pl("decimal", "P0", fmt.Sprint("S", n-1)), pbDec(nReq, 10, int32((n-1)%10)), pbDec(nReq, 9, int32(n%10)), func(i int) (*pn, *pb.Type, *pb.Type) {
		return pl("decimal", fmt.Sprint("P", i), fmt.Sprint("S", i)), pbDec(nReq, int32(i%20+10), int32(i%10)), pbDec(nReq, 38, 0)
	})
	add("wide-any", "struct", pa("any1"), i32, i64, func(i int) (*pn, *pb.Type, *pb.Type) { return pa("any1"), i32, i64 })
	add("wide-many-any", "struct", pa(fmt.Sprint("any", (n-1)%9+1)), leafT(c11leafs[(n-1)%9], nReq, 0), leafT(c11leafs[(n-1)%9+1], nReq, 0), func(i int) (*pn, *pb.Type, *pb.Type) {
		return pa(fmt.Sprint("any", i%9+1)), leafT(c11leafs[i%9], nReq, 0), leafT(c11leafs[i%9+1], nReq, 0)
	})
	// n lists around one another
	deep := func(t *pb.Type) *pb.Type {
		for range n {
			t = pbList(nReq, 0, t)
		}
		return t
	}
	for _, d := range []struct {
		id   string
		leaf *pn
		a, b *pb.Type
	}{{"deep-int", pl("varchar", "L"), pbVarchar(nReq, 7), pbVarchar(nReq, 8)}, {"deep-any", pa("any1"), i32, i64}} {
		k := d.leaf
		for range n {
			k = pc("list", k)
		}
		r = append(r, longSig{id: fmt.Sprint(d.id, n), params: []*pn{k, d.leaf}, args: []*pb.Type{deep(d.a), d.a}, wrong: []*pb.Type{deep(d.b), d.b},
			more: []*pb.Type{pbList(nReq, 0, deep(d.a)), deep(pbWithNull(d.a, true)), d.a}})
	}
	return r
}

// lists calls f with the conforming arguments and every one-position change of them.
func (l *longSig) lists(sizes []int, f func([]*carg)) {
	n := len(l.args)
	base := make([]*carg, n)
	for i, a := range l.args {
		base[i] = mkArg(a)
	}
	edit := func(i int, a *carg) {
		x := append([]*carg(nil), base...)
		x[i] = a
		f(x)
	}
	f(base)
	for i := range base {
		if l.wrong[i] != nil {
			edit(i, mkArg(l.wrong[i]))
		}
		edit(i, mkArg(pbWithNull(l.args[i], true)))
		if i > 0 {
			x := append([]*carg(nil), base...)
			x[i], x[i-1] = x[i-1], x[i]
			f(x)
		}
	}
	for _, m := range l.more {
		edit(0, mkArg(m))
		if n > 1 && l.wrong[1] != nil {
			x := append([]*carg(nil), base...)
			x[0], x[1] = mkArg(m), mkArg(l.wrong[1])
			f(x)
		}
	}
	for _, k := range sizes {
		if k < 0 {
			continue
		}
		for _, tail := range []*carg{base[n-1], mkArg(leafT("i8", nReq, 0))} {
			x := append([]*carg(nil), base...)
			for len(x) < k {
				x = append(x, base[n-1])
			}
			x = x[:k]
			f(x)
			if k > n {
				y := append([]*carg(nil), x...)
				y[k-1] = tail
				f(y)
				y = append([]*carg(nil), x...)
				y[n] = tail
				f(y)
			}
		}
	}
}

func longSizes(thorough bool) []int {
	if thorough {
		return []int{4, 5, 8, 9, 16, 17, 33, 65}
	}
	return []int{4, 5, 9, 17, 33}
}

func c11sized(c *Ctx) {
	for _, n := range longSizes(c.Thorough) {
		for _, l := range longSigs(n) {
			n := len(l.params)
			for _, rule := range c11rules {
				c.Case(func(t *T) {
					s := &sig{params: l.params, rule: rule}
					at := []*carg{mkArg(l.args[n-1]), mkArg(leafT("i64", nReq, 0))}
					c11sig(t, s, true, at, n+2, func(f func([]*carg)) { l.lists([]int{0, 1, n - 1, n, n + 1, 2 * n}, f) })
				}, "long", rule, l.id)
				for _, cons := range []string{"CONSISTENT", "INCONSISTENT"} {
					for _, mm := range [][2]int{{0, 0}, {1, 0}, {0, 2}, {n, 0}, {1, n}, {n, n + 1}} {
						c.Case(func(t *T) {
							s := &sig{params: l.params, rule: rule, variadic: true, min: mm[0], max: mm[1], cons: cons}
							at := []*carg{mkArg(l.args[n-1]), mkArg(leafT("i64", nReq, 0))}
							c11sig(t, s, true, at, 2*n+2, func(f func([]*carg)) {
								l.lists([]int{0, n - 1, n, n + 1, n + 2, n + 3, 2*n - 2, 2*n - 1, 2 * n, 2*n + 1, 3 * n}, f)
							})
						}, "long-variadic", rule, l.id, cons, mm[0], mm[1])
					}
				}
			}
		}
	}
}

func c12sized(c *Ctx) {
	for _, n := range longSizes(c.Thorough) {
		for _, l := range longSigs(n) {
			n := len(l.params)
			rs := c12returns(l.params)
			if step := len(rs) / 20; !c.Thorough && n > 5 && step > 1 { // spread over the names, the last one included
				var few []*pn
				for i := len(rs) - 1; i >= 0; i -= step {
					few = append(few, rs[i])
				}
				rs = few
			}
			wide := pc("struct")
			for _, p := range l.params {
				p.each(func(q *pn) {
					if q.k == "any" && q.s != "any" {
						wide.kids = append(wide.kids, q)
					}
					if q.k == "varchar" || q.k == "decimal" {
						wide.kids = append(wide.kids, q)
					}
				})
			}
			if len(wide.kids) > 0 {
				rs = append(rs, wide)
			}
			for _, rule := range c11rules {
				for _, variadic := range []bool{false, true} {
					c.Case(func(t *T) {
						for _, r := range rs {
							s := &sig{params: l.params, rule: rule, ret: r}
							sizes := []int{n - 1, n + 1}
							if variadic {
								s.variadic, s.min, s.cons = true, 1, "CONSISTENT"
								sizes = []int{n + 1, 2 * n}
							}
							c12sig(t, s, false, nil, func(f func([]*carg)) { l.lists(sizes, f) })
							if n <= 5 {
								s.prog = true
								c12sig(t, s, false, nil, func(f func([]*carg)) { l.lists(sizes, f) })
							}
							if t.Failed() {
								return
							}
						}
					}, "long", rule, l.id, variadic)
				}
			}
		}
	}
}
