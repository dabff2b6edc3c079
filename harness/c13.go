// C13: return-type programs compute what their text says.
package main

import (
	"fmt"
	"math"
	"math/big"
	"regexp"
	"slices"
	"strings"

	ext "github.com/substrait-io/substrait-go/v8/extensions"
	"github.com/substrait-io/substrait-go/v8/types"
	"github.com/substrait-io/substrait-go/v8/types/parser"
	pb "github.com/substrait-io/substrait-protobuf/go/substraitpb"
)

func init() {
	checks["C13"] = &Check{Run: runC13, Quick: 250, Thorough: 850, Shards: 16,
		Bounds: "expressions: every tree of depth 1 over 9 leaves (parameters, numbers, an undefined name), 12 binary operators, !, if, ?:, min/max/abs with 0..3 arguments; depth 2 with one compound operand (thorough: two), written with parentheses and, for chains of up to 3 operators, without; programs: all sequences of up to 3 assignments over 4 names (including reassigned parameters) x 13 right-hand sides x final types; 6 argument lists; through the parser and through loaded scalar, aggregate and window variants; programs of up to 33 statements and expressions of up to 33 operators in 3 shapes",
		Assume: []string{"without parentheses operators group as the specification's grammar says: all binary operators have equal rank and group to the left, ! and else extend over them", "results beyond 64 bits in between are not judged", "the right operand of and/or may be left out when the left one decides"}}
}

// ev is a value of the reference evaluator: an integer, a boolean or an error.
type ev struct {
	n   *big.Int
	b   bool
	isB bool
	err bool
	unj bool // not judged
}

var evErr = ev{err: true}

type ex struct {
	op   string // n, v, +, -, ..., !, if, ?, call
	s    string
	kids []*ex
}

func xn(v int64) *ex               { return &ex{op: "n", s: fmt.Sprint(v)} }
func xv(s string) *ex              { return &ex{op: "v", s: s} }
func xb(op string, a, b *ex) *ex   { return &ex{op: op, kids: []*ex{a, b}} }
func xcall(f string, a ...*ex) *ex { return &ex{op: "call", s: f, kids: a} }

// c13paren: the grammar reads an expression that starts with "name =" as a further
// assignment, such a comparison needs parentheses.
func c13paren(s string) string {
	x := strings.TrimLeft(s, "PSLUab \t")
	if strings.HasPrefix(x, "=") && len(x) < len(s) {
		return "(" + s + ")"
	}
	return s
}

// text with every compound operand in parentheses.
func (e *ex) text() string {
	sub := func(k *ex) string {
		if k.op == "n" || k.op == "v" || k.op == "call" {
			return k.text()
		}
		return "(" + k.text() + ")"
	}
	switch e.op {
	case "n", "v":
		return e.s
	case "!":
		return "!" + sub(e.kids[0])
	case "if":
		return "if " + sub(e.kids[0]) + " then " + sub(e.kids[1]) + " else " + sub(e.kids[2])
	case "?":
		return sub(e.kids[0]) + " ? " + sub(e.kids[1]) + " : " + sub(e.kids[2])
	case "call":
		var a []string
		for _, k := range e.kids {
			a = append(a, c13paren(k.text()))
		}
		return e.s + "(" + strings.Join(a, ", ") + ")"
	}
	return sub(e.kids[0]) + " " + e.op + " " + sub(e.kids[1])
}

func (e *ex) eval(env map[string]ev) ev {
	switch e.op {
	case "n":
		n, _ := new(big.Int).SetString(e.s, 10)
		return ev{n: n}
	case "v":
		if v, ok := env[e.s]; ok {
			return v
		}
		return evErr
	case "if", "?":
		c := e.kids[0].eval(env)
		if c.unj || c.err {
			return c
		}
		if !c.isB {
			return evErr
		}
		if c.b {
			return e.kids[1].eval(env)
		}
		return e.kids[2].eval(env)
	}
	var vs []ev
	unj, bad := false, false
	for _, k := range e.kids {
		v := k.eval(env)
		vs = append(vs, v)
		unj, bad = unj || v.unj, bad || v.err
	}
	if unj {
		return ev{unj: true}
	}
	if bad {
		if (e.op == "and" || e.op == "or") && vs[0].isB && !vs[0].err && vs[0].b == (e.op == "or") {
			return ev{unj: true}
		}
		return evErr
	}
	wantB := e.op == "!" || e.op == "and" || e.op == "or"
	for i, v := range vs {
		if v.isB != wantB {
			if i == 1 && wantB && vs[0].isB && vs[0].b == (e.op == "or") {
				return ev{unj: true}
			}
			return evErr
		}
	}
	num := func(n *big.Int) ev {
		if !n.IsInt64() {
			return ev{unj: true}
		}
		return ev{n: n}
	}
	boo := func(b bool) ev { return ev{isB: true, b: b} }
	switch e.op {
	case "!":
		return boo(!vs[0].b)
	case "and":
		return boo(vs[0].b && vs[1].b)
	case "or":
		return boo(vs[0].b || vs[1].b)
	case "call":
		if len(vs) == 0 {
			return evErr
		}
		r := vs[0].n
		switch strings.ToLower(e.s) {
		case "abs":
			if len(vs) != 1 {
				return evErr
			}
			return num(new(big.Int).Abs(r))
		case "max", "min":
			for _, v := range vs {
				if c := v.n.Cmp(r); c > 0 && strings.ToLower(e.s) == "max" || c < 0 && strings.ToLower(e.s) == "min" {
					r = v.n
				}
			}
			return num(r)
		}
		return evErr
	}
	a, b := vs[0].n, vs[1].n
	c := a.Cmp(b)
	switch e.op {
	case "+":
		return num(new(big.Int).Add(a, b))
	case "-":
		return num(new(big.Int).Sub(a, b))
	case "*":
		return num(new(big.Int).Mul(a, b))
	case "/":
		if b.Sign() == 0 {
			return evErr
		}
		return num(new(big.Int).Quo(a, b))
	case "<":
		return boo(c < 0)
	case "<=":
		return boo(c <= 0)
	case ">":
		return boo(c > 0)
	case ">=":
		return boo(c >= 0)
	case "=":
		return boo(c == 0)
	case "!=":
		return boo(c != 0)
	}
	panic(e.op)
}

type asg struct {
	name string
	e    *ex
	text string
}

// prog: assignments and a final type whose integer parameters are names or numbers.
type prog struct {
	as  []asg
	ret *pn
	crl bool // lines end in \r\n
	gap bool // blank lines between
}

func (p *prog) text() string {
	nl := "\n"
	if p.crl {
		nl = "\r\n"
	}
	if p.gap {
		nl += nl
	}
	var s strings.Builder
	for _, a := range p.as {
		x := a.text
		if x == "" {
			x = a.e.text()
		}
		s.WriteString(a.name + " = " + c13paren(x) + nl)
	}
	s.WriteString(p.ret.text())
	return s.String()
}

// domain tells whether a value is one the type may have as parameter i.
func c13domain(k string, i int, v *big.Int) bool {
	if !v.IsInt64() {
		return false
	}
	n := v.Int64()
	switch k {
	case "decimal":
		return n >= int64(1-i) && n <= 38
	case "varchar", "fixedchar", "fixedbinary":
		return n >= 1 && n <= math.MaxInt32
	}
	return n >= 0 && n <= 9
}

// c13env: the values that arguments give to the parameter names.
type c13ctx struct {
	params []*pn
	args   []*carg
}

func (p *prog) want(x *c13ctx) (env map[string]ev, state int, fits bool) {
	env = map[string]ev{}
	b := newBind()
	for i, q := range x.params {
		if conform(q, x.args[i].p, false, false, b) == no {
			return nil, no, false
		}
	}
	for n, vs := range b.ints {
		env[n] = ev{n: big.NewInt(vs[0])}
	}
	for _, a := range p.as {
		v := a.e.eval(env)
		if v.unj {
			return nil, unjudged, false
		}
		if v.err {
			return nil, no, false
		}
		env[a.name] = v
	}
	state, fits = yes, true
	p.ret.each(func(q *pn) {
		for i, s := range q.ints {
			n, ok := new(big.Int).SetString(s, 10)
			if !ok {
				v, ok := env[s]
				if !ok || v.isB || !v.n.IsInt64() || int64(int32(v.n.Int64())) != v.n.Int64() {
					state = no
					return
				}
				n = v.n
			}
			if !c13domain(q.k, i, n) {
				fits = false
			}
		}
		if q.k == "decimal" {
			val := func(s string) *big.Int {
				if n, ok := new(big.Int).SetString(s, 10); ok {
					return n
				}
				if v, ok := env[s]; ok && v.n != nil {
					return v.n
				}
				return big.NewInt(0)
			}
			if val(q.ints[1]).Cmp(val(q.ints[0])) > 0 {
				fits = false
			}
		}
	})
	return env, state, fits
}

// c13same: the resolved type has the shape and values of the program's final type.
func c13same(r *pn, g *pb.Type, env map[string]ev, b *bind) bool {
	if r.k == "any" {
		return mtext(pbReq(g)) == mtext(pbReq(b.any[r.s][0]))
	}
	kind := pbKind(g)
	if n, ok := pbKindName[kind]; ok {
		kind = n
	}
	if kind != r.k || pbNull(g) != r.null {
		return false
	}
	vs := pbInts(g)
	for i, s := range r.ints {
		n, ok := new(big.Int).SetString(s, 10)
		if !ok {
			n = env[s].n
		}
		if !n.IsInt64() || n.Int64() != vs[i] {
			return false
		}
	}
	kids := pbKids(g)
	if len(kids) != len(r.kids) {
		return false
	}
	for i, k := range r.kids {
		if !c13same(k, kids[i], env, b) {
			return false
		}
	}
	return true
}

func (x *c13ctx) types() (r []types.Type) {
	for _, a := range x.args {
		r = append(r, a.t)
	}
	return
}

// judge compares one outcome with the reference.
func (p *prog) judge(t *T, x *c13ctx, how string, got types.Type, err error, panicked string) {
	t.Trans(1)
	what := func() string {
		return fmt.Sprintf("%s %s for %s", how, strings.ReplaceAll(p.text(), "\n", "; "), showArgs(x.args))
	}
	if panicked != "" {
		t.Failf("%s panics: %s", what(), panicked)
		return
	}
	env, st, fits := p.want(x)
	switch st {
	case unjudged:
		t.Outcome("unjudged")
		return
	case no:
		t.Outcome("error")
		if err == nil {
			t.Failf("%s gives %s, an error is due", what(), got)
		}
		return
	}
	if err != nil {
		t.Outcome("out of domain")
		if fits {
			t.Failf("%s gives the error %v", what(), err)
		}
		return
	}
	t.Outcome("value")
	var g *pb.Type
	if msg := catch(func() { g = types.TypeToProto(got) }); msg != "" {
		t.Failf("%s: cannot be written: %s", what(), msg)
		return
	}
	b := newBind()
	for i, q := range x.params {
		conform(q, x.args[i].p, false, false, b)
	}
	if !c13same(p.ret, g, env, b) {
		v := []string{}
		for n, e := range env {
			if e.isB {
				v = append(v, fmt.Sprint(n, "=", e.b))
			} else {
				v = append(v, n+"="+e.n.String())
			}
		}
		t.Failf("%s gives %s (%s), the text says %v", what(), got, show(g), v)
	}
}

func c13ctxs() (r []*c13ctx) {
	dec, vc := pl("decimal", "P", "S"), pl("varchar", "L")
	for _, d := range [][3]int32{{10, 2, 5}, {38, 0, 1}, {5, 5, 100}, {1, 0, 2147483647}} {
		r = append(r, &c13ctx{[]*pn{dec, vc}, []*carg{mkArg(pbDec(nReq, d[0], d[1])), mkArg(pbVarchar(nReq, d[2]))}})
	}
	r = append(r, &c13ctx{[]*pn{pc("list", dec), pl("precision_timestamp", "L")}, []*carg{mkArg(pbList(nReq, 0, pbDec(nReq, 7, 3))), mkArg(pbPts(nReq, 6))}})
	r = append(r, &c13ctx{[]*pn{pc("struct", pl("fixedchar", "P"), pl("interval_day", "S")), pl("fixedbinary", "L")}, []*carg{mkArg(pbStruct(nReq, 0, pbFchar(nReq, 12), pbIday(nReq, 0))), mkArg(pbFbin(nReq, 3))}})
	return
}

func c13parse(t *T, text string) (r types.FuncDefArgType, err error, ok bool) {
	if msg := catch(func() { r, err = parser.ParseType(text) }); msg != "" {
		t.Failf("parsing %q panics: %s", text, msg)
		return nil, nil, false
	}
	return r, err, true
}

// c13run evaluates a program for every argument list; direct through the parser.
func c13run(t *T, p *prog, xs []*c13ctx, variants bool) {
	text := p.text()
	if !variants {
		f, err, ok := c13parse(t, text)
		if !ok {
			return
		}
		if err != nil {
			t.Failf("program %q is not accepted: %v", text, err)
			return
		}
		before := f.String()
		run := func(how string, f types.FuncDefArgType) {
			for _, x := range xs {
				var fp []types.FuncDefArgType
				for _, q := range x.params {
					ft, err := parser.ParseType(q.text())
					if err != nil {
						t.Failf("parameter %s: %v", q.text(), err)
						return
					}
					fp = append(fp, ft)
				}
				var got types.Type
				var err error
				msg := catch(func() { got, err = f.ReturnType(fp, x.types()) })
				p.judge(t, x, how, got, err, msg)
			}
		}
		run("program", f)
		if f.String() != before {
			t.Failf("evaluating changes the program from %q to %q", before, f.String())
		}
		// the printed form is a program too, and the same one
		g, err, ok := c13parse(t, before)
		if !ok {
			return
		}
		if err != nil {
			t.Failf("program %q prints as %q, which is not accepted: %v", text, before, err)
			return
		}
		run(fmt.Sprintf("printed form %q of", before), g)
		if g.String() != before {
			t.Failf("program %q prints as %q, which prints as %q", text, before, g.String())
		}
	} else {
		for _, x := range xs {
			s := &sig{params: x.params, rule: "DECLARED_OUTPUT", ret: &pn{k: "any", s: text}}
			for k, v := range c11load(t, s, true) {
				var got types.Type
				var err error
				msg := catch(func() { got, err = v.ResolveType(x.types(), ext.NewSet()) })
				p.judge(t, x, fmt.Sprint("variant ", k), got, err, msg)
				argsSame(t, s, x.args)
			}
		}
	}
	t.State(text)
	t.Validated()
}

var c13asgn = regexp.MustCompile(`[PS]\s*=`)
var c13ops = []string{"+", "-", "*", "/", "<", "<=", ">", ">=", "=", "!=", "and", "or"}

func c13leaves() []*ex {
	return []*ex{xv("P"), xv("S"), xn(0), xn(1), xn(38), xn(-3), xv("L"), xn(3000000000), xv("U")}
}

func c13depth1(lv []*ex) (r []*ex) {
	for _, op := range c13ops {
		for _, a := range lv {
			for _, b := range lv {
				r = append(r, xb(op, a, b))
			}
		}
	}
	for _, f := range []string{"abs", "max", "min", "MAX", "Min", "foo"} {
		r = append(r, xcall(f))
		for _, a := range lv {
			r = append(r, xcall(f, a))
			for _, b := range lv {
				r = append(r, xcall(f, a, b))
			}
			r = append(r, xcall(f, a, lv[1], lv[3]), xcall(f, lv[4], a, lv[0]), xcall(f, lv[3], lv[0], a))
		}
	}
	for _, a := range lv {
		r = append(r, &ex{op: "!", kids: []*ex{a}})
	}
	return
}

// program whose result shows the value of the expression, integer or boolean.
func c13show(e *ex, text string) []*prog {
	a := asg{name: "a", e: e, text: text}
	b := asg{name: "r", e: &ex{op: "if", kids: []*ex{xv("a"), xn(1), xn(2)}}}
	return []*prog{{as: []asg{a}, ret: pl("varchar", "a")}, {as: []asg{a, b}, ret: pl("varchar", "r")}}
}

// c13compound lists the conditionals and the expressions of depth 2.
func c13compound(d1 []*ex, thorough bool) (ifs, d2 []*ex) {
	// conditionals over conditions and small branches
	var conds []*ex
	for _, e := range d1 {
		switch e.op {
		case "<", "<=", ">", ">=", "=", "!=":
			if e.kids[0].op == "v" && (e.kids[1].op == "v" || e.kids[1].s == "1") {
				conds = append(conds, e)
			}
		}
	}
	conds = append(conds, xb("and", xb("<", xv("S"), xv("P")), xb(">", xv("P"), xn(5))), xb("or", xb("=", xv("S"), xn(0)), xb(">", xv("P"), xn(9))), &ex{op: "!", kids: []*ex{xb("=", xv("S"), xn(0))}}, xv("P"), xn(1), xv("U"))
	branches := []*ex{xv("P"), xv("S"), xn(7), xb("/", xv("P"), xv("S")), xb("-", xv("P"), xv("S")), xv("U"), xb("<", xv("S"), xn(1)), xcall("max", xv("P"), xn(3))}
	for _, op := range []string{"if", "?"} {
		for _, k := range conds {
			for _, a := range branches {
				for _, b := range branches {
					ifs = append(ifs, &ex{op: op, kids: []*ex{k, a, b}})
				}
			}
		}
	}
	// depth 2
	sl := []*ex{xv("P"), xv("S"), xn(0), xn(2), xv("U")}
	var small []*ex
	for _, op := range c13ops {
		for _, p := range [][2]*ex{{xv("P"), xv("S")}, {xv("S"), xn(0)}, {xn(7), xv("P")}} {
			small = append(small, xb(op, p[0], p[1]))
		}
	}
	small = append(small, xcall("abs", xb("-", xv("S"), xv("P"))), xcall("min", xv("P"), xv("S")), xcall("max", xv("S"), xn(4), xv("P")), &ex{op: "!", kids: []*ex{xb("<", xv("P"), xv("S"))}}, &ex{op: "if", kids: []*ex{xb(">", xv("S"), xn(1)), xv("P"), xn(3)}}, &ex{op: "?", kids: []*ex{xb(">", xv("S"), xn(1)), xv("P"), xn(3)}})
	for _, op := range c13ops {
		for _, a := range small {
			for _, b := range sl {
				d2 = append(d2, xb(op, a, b), xb(op, b, a))
			}
			for j, b := range small {
				if thorough || j%3 == 0 {
					d2 = append(d2, xb(op, a, b))
				}
			}
		}
	}
	for _, f := range []string{"abs", "min", "max"} {
		for _, a := range small {
			d2 = append(d2, xcall(f, a))
			for _, b := range append(sl, small...) {
				d2 = append(d2, xcall(f, a, b), xcall(f, b, xn(2), a))
			}
		}
	}
	for _, a := range small {
		d2 = append(d2, &ex{op: "!", kids: []*ex{a}})
		for _, b := range small {
			d2 = append(d2, &ex{op: "if", kids: []*ex{a, b, xn(9)}}, &ex{op: "?", kids: []*ex{a, xn(9), b}}, &ex{op: "?", kids: []*ex{a, b, xv("S")}}, &ex{op: "if", kids: []*ex{a, xv("P"), b}})
		}
	}
	if thorough {
		var more []*ex
		for _, op := range c13ops {
			for i, a := range d2 {
				if i%7 == 0 {
					more = append(more, xb(op, a, xn(3)), xb(op, xv("P"), a))
				}
			}
		}
		d2 = append(d2, more...)
	}
	return
}

// c13long: programs of many statements and expressions of many operators.
func c13long(c *Ctx, xs []*c13ctx) {
	v := func(i int) *ex { return xv(fmt.Sprint("v", i)) }
	links := []struct {
		id string
		f  func(i int) *ex
	}{
		{"count", func(i int) *ex { return xb("+", v(i-1), xn(1)) }},
		{"from the first", func(i int) *ex { return xb("+", v(0), xn(int64(i))) }},
		{"from two", func(i int) *ex { return xb("-", v(i-1), v(max(0, i-2))) }},
		{"parameter", func(i int) *ex { return xb("+", xv([]string{"P", "S", "L"}[i%3]), xn(int64(i%4))) }},
		{"choice", func(i int) *ex {
			return &ex{op: "?", kids: []*ex{xb(">", v(i-1), xn(int64(i))), xn(int64(i)), xb("+", v(i-1), xn(2))}}
		}},
		{"conditional", func(i int) *ex {
			return &ex{op: "if", kids: []*ex{xb("<=", v(i/2), v(i-1)), v(i / 2), xn(int64(i))}}
		}},
		{"function", func(i int) *ex { return xcall([]string{"min", "max"}[i%2], v(i-1), xn(int64(i))) }},
		{"shadowed", func(i int) *ex { return xb("+", xv("P"), v(i-1)) }},
	}
	for _, n := range []int{3, 4, 5, 8, 9, 16, 17, 33} {
		for _, l := range links {
			c.Case(func(t *T) {
				as := []asg{{name: "v0", e: xb("+", xv("S"), xn(1))}}
				for i := 1; i < n; i++ {
					as = append(as, asg{name: fmt.Sprint("v", i), e: l.f(i)})
					if l.id == "shadowed" && i%3 == 0 {
						as = append(as, asg{name: "P", e: xn(int64(i))}, asg{name: fmt.Sprint("v", i), e: xb("-", xv("P"), xn(1))})
					}
				}
				last := fmt.Sprint("v", n-1)
				for ri, r := range []*pn{pl("varchar", last), pl("decimal", "38", "v0"), pc("struct", pl("fixedchar", last), pl("fixedbinary", fmt.Sprint("v", n/2)), pl("varchar", "L")), pl("varchar", fmt.Sprint("v", n))} {
					c13run(t, &prog{as: as, ret: r, crl: ri == 1, gap: ri == 2}, xs, false)
					c13run(t, &prog{as: as, ret: r}, xs[:1], true)
				}
			}, "long", n, l.id)
		}
		for _, op := range []string{"+", "-", "*", "/", "and", "or", "min", "?", "if", "!", ">"} {
			for side := 0; side < 3; side++ {
				c.Case(func(t *T) {
					var tree func(k int) *ex
					leaf := func(k int) *ex {
						if k%3 == 0 {
							return xv("P")
						}
						return xn(int64(k%4 + 1))
					}
					mk := func(k int, a, b *ex) *ex {
						switch op {
						case "and", "or":
							if a.op == "n" || a.op == "v" {
								a = xb(">", a, xn(int64(k)))
							}
							if b.op == "n" || b.op == "v" {
								b = xb(">", b, xn(int64(k)))
							}
							return xb(op, a, b)
						case "min":
							return xcall([]string{"min", "max"}[k%2], a, b)
						case "?":
							return &ex{op: "?", kids: []*ex{xb(">", a, xn(int64(k))), b, xn(int64(k))}}
						case "if":
							return &ex{op: "if", kids: []*ex{xb("<", a, xn(int64(k))), xn(int64(k)), b}}
						case "!":
							return &ex{op: "?", kids: []*ex{{op: "!", kids: []*ex{xb(">", a, xn(int64(k)))}}, b, xn(int64(k))}}
						}
						if op == ">" && (a.op == ">" || b.op == ">") {
							return xb("and", a, b)
						}
						return xb(op, a, b)
					}
					tree = func(k int) *ex {
						if k == 0 {
							return leaf(k)
						}
						switch side {
						case 0:
							return mk(k, tree(k-1), leaf(k))
						case 1:
							return mk(k, leaf(k), tree(k-1))
						}
						return mk(k, tree(k/2), tree((k-1)/2))
					}
					e := tree(n)
					switch op {
					case "and", "or", ">":
						e = &ex{op: "?", kids: []*ex{e, xn(5), xn(6)}}
					}
					for _, p := range c13show(e, "") {
						c13run(t, p, xs, false)
					}
				}, "long expression", n, op, side)
			}
		}
	}
}

func runC13(c *Ctx) {
	xs := c13ctxs()
	c13long(c, xs)
	lv := c13leaves()
	d1 := c13depth1(lv)
	group := func(name string, es []*ex, ctxs []*c13ctx) {
		const n = 60
		for i := 0; i < len(es); i += n {
			chunk := es[i:min(i+n, len(es))]
			c.Case(func(t *T) {
				for _, e := range chunk {
					for _, p := range c13show(e, "") {
						c13run(t, p, ctxs, false)
					}
					t.Dim(name, e.op)
				}
			}, name, i)
		}
	}
	group("leaves", lv, xs)
	group("depth 1", d1, xs)
	ifs, d2 := c13compound(d1, c.Thorough)
	group("conditionals", ifs, xs)
	group("depth 2", d2, xs[:3])
	// chains without parentheses: a op b op c (op d), grouped to the left
	var chains []asg
	tok := []*ex{xv("P"), xn(3), xv("S"), xn(2)}
	for _, o1 := range c13ops {
		for _, o2 := range c13ops {
			e := xb(o2, xb(o1, tok[0], tok[1]), tok[2])
			chains = append(chains, asg{e: e, text: fmt.Sprintf("P %s 3 %s S", o1, o2)})
			for _, o3 := range c13ops {
				chains = append(chains, asg{e: xb(o3, e, tok[3]), text: fmt.Sprintf("P %s 3 %s S %s 2", o1, o2, o3)})
			}
			// ! extends over the chain, else too, ?: does not
			chains = append(chains, asg{e: &ex{op: "!", kids: []*ex{e}}, text: fmt.Sprintf("!P %s 3 %s S", o1, o2)})
			chains = append(chains, asg{e: &ex{op: "if", kids: []*ex{xb(">", xv("P"), xn(7)), xn(4), xb(o1, xn(8), xb(o2, xv("S"), xn(2)))}}, text: fmt.Sprintf("if P > 7 then 4 else 8 %s (S %s 2)", o1, o2)})
			chains = append(chains, asg{e: &ex{op: "?", kids: []*ex{xb(o1, xv("P"), xn(7)), xb(o2, xv("S"), xn(4)), xn(5)}}, text: fmt.Sprintf("P %s 7 ? S %s 4 : 5", o1, o2)})
			chains = append(chains, asg{e: &ex{op: "?", kids: []*ex{xb(o1, xv("P"), xn(7)), xn(5), xb(o2, xv("S"), xn(4))}}, text: fmt.Sprintf("P %s 7 ? 5 : S %s 4", o1, o2)})
		}
		for _, sp := range []string{"P%sS", "P%s S", " P  %s\tS"} {
			if o1 == "and" || o1 == "or" {
				sp = strings.ReplaceAll(sp, "%s", " %s ")
			}
			chains = append(chains, asg{e: xb(o1, xv("P"), xv("S")), text: fmt.Sprintf(sp, o1)})
			chains = append(chains, asg{e: xb(o1, xv("P"), xv("S")), text: "(" + fmt.Sprintf(sp, o1) + ")"})
		}
	}
	// "name =" is read as an assignment
	chains = slices.DeleteFunc(chains, func(a asg) bool { return !strings.HasPrefix(a.text, "(") && c13asgn.MatchString(a.text) })
	for i := 0; i < len(chains); i += 60 {
		chunk := chains[i:min(i+60, len(chains))]
		c.Case(func(t *T) {
			for _, a := range chunk {
				for _, p := range c13show(a.e, a.text) {
					c13run(t, p, xs[:3], false)
				}
			}
			t.Dim("chains", fmt.Sprint(i))
		}, "chains", i)
	}
	// programs
	names := []string{"a", "b", "P", "S"}
	rhs := []*ex{xn(4), xv("P"), xv("S"), xv("a"), xv("b"), xb("+", xv("P"), xv("S")), xb("-", xv("P"), xn(1)), xb("*", xv("a"), xn(2)), xb("/", xv("P"), xv("S")), xb(">", xv("P"), xv("S")), &ex{op: "?", kids: []*ex{xv("b"), xn(6), xv("a")}}, &ex{op: "if", kids: []*ex{xb(">", xv("a"), xv("b")), xv("b"), xv("P")}}, xcall("min", xv("a"), xn(9))}
	rets := []*pn{pl("decimal", "P", "S"), pl("decimal", "a", "b"), pl("varchar", "a"), pl("fixedchar", "b").opt(), pc("list", pl("decimal", "a", "S")), pc("struct", pl("varchar", "P"), pl("fixedbinary", "a").opt(), pl("i32")), pl("precision_timestamp", "a"), pl("interval_day", "S"), pl("precision_time", "b"), pl("precision_timestamp_tz", "a").opt(), pc("map", pl("fixedchar", "S"), pl("decimal", "38", "a")), pl("string"), pl("decimal", "a", "2"), pc("func", pl("varchar", "a"), pl("varchar", "b"))}
	var as []asg
	for _, n := range names {
		for _, e := range rhs {
			as = append(as, asg{name: n, e: e})
		}
	}
	for i, a := range as {
		c.Case(func(t *T) {
			for ri, r := range rets {
				c13run(t, &prog{as: []asg{a}, ret: r}, xs, true)
				c13run(t, &prog{as: []asg{a}, ret: r, crl: ri%2 == 0, gap: ri%3 == 0}, xs, false)
			}
			t.Dim("programs", a.name+a.e.text())
		}, "prog1", i)
		for j, b := range as {
			c.Case(func(t *T) {
				for ri, r := range rets {
					if c.Thorough || (i+j+ri)%2 == 0 {
						c13run(t, &prog{as: []asg{a, b}, ret: r}, xs[:3], false)
					}
				}
				if (i+j)%11 == 0 || c.Thorough {
					c13run(t, &prog{as: []asg{a, b}, ret: rets[(i+j)%len(rets)]}, xs[:1], true)
				}
				for k, d := range as {
					if c.Thorough || (i+j+k)%7 == 0 {
						c13run(t, &prog{as: []asg{a, b, d}, ret: rets[(i+j+k)%2]}, xs[:1], false)
					}
				}
			}, "prog2", i, j)
		}
	}
	// return types without assignments but with names and with expressions for numbers
	c.Case(func(t *T) {
		for _, r := range rets {
			if strings.Contains(r.text(), "a") && strings.ContainsAny(r.text(), "<") {
				// names nothing defines
			}
			f, err, ok := c13parse(t, r.text())
			if !ok || err != nil {
				t.Failf("%s: %v", r.text(), err)
				continue
			}
			for _, x := range xs {
				var fp []types.FuncDefArgType
				for _, q := range x.params {
					ft, _ := parser.ParseType(q.text())
					fp = append(fp, ft)
				}
				var got types.Type
				var err error
				msg := catch(func() { got, err = f.ReturnType(fp, x.types()) })
				(&prog{ret: r}).judge(t, x, "type", got, err, msg)
			}
		}
		t.State("plain")
	}, "plain")
	numeric := []struct {
		text string
		e    *ex
	}{{"P + 1", xb("+", xv("P"), xn(1))}, {"(P)", xv("P")}, {"max(P, S)", xcall("max", xv("P"), xv("S"))}, {"P - S", xb("-", xv("P"), xv("S"))}, {"if P > S then P else S", &ex{op: "if", kids: []*ex{xb(">", xv("P"), xv("S")), xv("P"), xv("S")}}}}
	for _, q := range numeric {
		for _, form := range []string{"varchar<%s>", "decimal<%s,0>", "list<fixedchar<%s>>", "precision_timestamp<%s>"} {
			c.Case(func(t *T) {
				text := fmt.Sprintf(form, q.text)
				f, err, ok := c13parse(t, text)
				t.Trans(1)
				if !ok || err != nil {
					t.Outcome("expression as parameter rejected")
					t.State(text)
					return
				}
				x := xs[0]
				var fp []types.FuncDefArgType
				for _, q := range x.params {
					ft, _ := parser.ParseType(q.text())
					fp = append(fp, ft)
				}
				var got types.Type
				msg := catch(func() { got, err = f.ReturnType(fp, x.types()) })
				ret := pl("varchar", "r")
				switch form {
				case "decimal<%s,0>":
					ret = pl("decimal", "r", "0")
				case "list<fixedchar<%s>>":
					ret = pc("list", pl("fixedchar", "r"))
				case "precision_timestamp<%s>":
					ret = pl("precision_timestamp", "r")
				}
				if err == nil || msg != "" {
					(&prog{as: []asg{{name: "r", e: q.e}}, ret: ret}).judge(t, x, text, got, err, msg)
				}
				t.State(text)
			}, "numeric", form, q.text)
		}
	}
}
