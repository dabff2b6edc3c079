// C20: aggregation builders produce exactly the requested grouping sets.
package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/substrait-io/substrait-go/v8/expr"
	"github.com/substrait-io/substrait-go/v8/plan"
	pb "github.com/substrait-io/substrait-protobuf/go/substraitpb"
)

func init() {
	checks["C20"] = &Check{Run: runC20, Quick: 250, Thorough: 850, Shards: 8,
		Bounds: "all histories of 5 (thorough, without measures: 6) builder operations over two builders (add one of 3 expressions, grouping sets of 0-3 references incl. repeated and dangling ones, cubes and rollups over 0-3 references, replace the input, clear grouping or measures, build, start a builder from the last relation, switch builder) from builders with 0-2 measures (with and without filter), and of 4 (thorough: 5) over two builders made from one relation whose slices have spare capacity; after every history both builders are built twice and every relation built on the way is compared with a model; cubes and rollups over 0-8 (thorough: 12) references, and the size limit; all lists of up to 2 grouping sets of up to 2 (thorough: 3) references over 3 expressions read in the current and the older form",
		Assume: []string{"a cube is the non-empty subsets and a rollup the non-empty prefixes, as documented by the existing tests; the order within one cube or rollup is only required to be the same every time", "a builder made from a relation takes over its input, measures and grouping, not its mapping or extensions"}}
}

// aggModel is what a builder must hold: groups are added by one call each.
type aggModel struct {
	input    int
	measures int
	exprs    []int
	groups   []aggGroup
}
type aggGroup struct {
	kind string // set, cube, rollup
	refs []uint32
}

func (m aggModel) clone() aggModel {
	m.exprs = append([]int{}, m.exprs...)
	m.groups = append([]aggGroup{}, m.groups...)
	return m
}

// sets lists the grouping sets by group: canonical text per set; exact says whether order matters.
func (g aggGroup) sets() (r [][]uint32, ordered bool) {
	switch g.kind {
	case "set":
		return [][]uint32{g.refs}, true
	case "cube":
		for b := 1; b < 1<<len(g.refs); b++ {
			var s []uint32
			for i, x := range g.refs {
				if b>>i&1 == 1 {
					s = append(s, x)
				}
			}
			r = append(r, s)
		}
	case "rollup":
		for i := len(g.refs); i > 0; i-- {
			r = append(r, g.refs[:i])
		}
	}
	return r, false
}

func setsText(ss [][]uint32, ordered, inner bool) string {
	var r []string
	for _, s := range ss {
		c := append([]uint32{}, s...)
		if !inner {
			sort.Slice(c, func(i, j int) bool { return c[i] < c[j] })
		}
		r = append(r, fmt.Sprint(c))
	}
	if !ordered {
		sort.Strings(r)
	}
	return strings.Join(r, " ")
}

func (m aggModel) valid() bool {
	n := 0
	for _, g := range m.groups {
		ss, _ := g.sets()
		n += len(ss)
		for _, s := range ss {
			for _, x := range s {
				if int(x) >= len(m.exprs) {
					return false
				}
			}
		}
	}
	return !(m.measures == 0 && (n == 0 || len(m.exprs) == 0))
}

type aggEnv struct {
	b      plan.Builder
	inputs []plan.Rel
	exprs  []expr.Expression
	meas   []plan.AggRelMeasure
}

func newAggEnv(t *T) *aggEnv {
	e := &aggEnv{b: plan.NewBuilder(defColl())}
	reg := relReg()
	for _, n := range []string{"a", "z"} {
		r, err := plan.RelFromProto(relNamed(n, relColsA()...), reg)
		if err != nil {
			t.Failf("%v", err)
			return nil
		}
		e.inputs = append(e.inputs, r)
	}
	for i := 0; i < 3; i++ {
		f, err := e.b.RootFieldRef(e.inputs[0], int32(i))
		if err != nil {
			t.Failf("%v", err)
			return nil
		}
		e.exprs = append(e.exprs, f)
	}
	for i := 0; i < 2; i++ {
		f, err := e.b.AggregateFn(urnArith, "sum:i32", nil, e.exprs[0].(*expr.FieldReference))
		if err != nil {
			t.Failf("%v", err)
			return nil
		}
		var filter expr.Expression
		if i == 1 {
			filter = e.exprs[2]
		}
		e.meas = append(e.meas, e.b.Measure(f, filter))
	}
	return e
}

// agrees compares a relation with the model it was built from.
func (e *aggEnv) agrees(r *plan.AggregateRel, m aggModel) string {
	if r.Input() != e.inputs[m.input] {
		return "input"
	}
	if len(r.Measures()) != m.measures {
		return fmt.Sprintf("%d measures, want %d", len(r.Measures()), m.measures)
	}
	for i, x := range r.Measures() {
		if x.Measure() != e.meas[i].Measure() || x.Filter() != e.meas[i].Filter() {
			return fmt.Sprintf("measure %d", i)
		}
	}
	ge := r.GroupingExpressions()
	if len(ge) != len(m.exprs) {
		return fmt.Sprintf("%d grouping expressions, want %d", len(ge), len(m.exprs))
	}
	for i, x := range ge {
		if x != e.exprs[m.exprs[i]] {
			return fmt.Sprintf("grouping expression %d", i)
		}
	}
	got := r.GroupingReferences()
	for _, g := range m.groups {
		want, ordered := g.sets()
		if len(got) < len(want) {
			return fmt.Sprintf("grouping sets %v, want %v", r.GroupingReferences(), m.groups)
		}
		inner := g.kind != "cube"
		if setsText(got[:len(want)], ordered, inner) != setsText(want, ordered, inner) {
			return fmt.Sprintf("grouping sets %v, want %v", r.GroupingReferences(), m.groups)
		}
		got = got[len(want):]
	}
	if len(got) > 0 {
		return fmt.Sprintf("grouping sets %v, want %v", r.GroupingReferences(), m.groups)
	}
	// the message says the same
	a := r.ToProto().GetAggregate()
	if len(a.Measures) != m.measures || len(a.GroupingExpressions) != len(m.exprs) || len(a.Groupings) != len(r.GroupingReferences()) {
		return "message"
	}
	for i, g := range a.Groupings {
		if fmt.Sprint(g.ExpressionReferences) != fmt.Sprint(r.GroupingReferences()[i]) {
			return "grouping in message"
		}
	}
	for i, x := range a.GroupingExpressions {
		if mtext(x) != mtext(e.exprs[m.exprs[i]].ToProto()) {
			return "grouping expression in message"
		}
	}
	for i, x := range a.Measures {
		if mtext(x) != mtext(e.meas[i].ToProto()) {
			return "measure in message"
		}
	}
	return ""
}

type aggOp struct {
	name string
	kind string
	arg  int
	refs []uint32
}

func aggOps() []aggOp {
	var r []aggOp
	for i := 0; i < 3; i++ {
		r = append(r, aggOp{fmt.Sprint("expr", i), "expr", i, nil})
	}
	for _, s := range [][]uint32{{}, {0}, {1, 0}, {0, 2, 1}, {0, 0}, {7}} {
		r = append(r, aggOp{fmt.Sprint("set", s), "set", 0, s})
	}
	for _, s := range [][]uint32{{}, {0, 1}, {1, 2, 0}} {
		r = append(r, aggOp{fmt.Sprint("cube", s), "cube", 0, s}, aggOp{fmt.Sprint("rollup", s), "rollup", 0, s})
	}
	return append(r, aggOp{"input", "input", 1, nil}, aggOp{"clearg", "clearg", 0, nil}, aggOp{"clearm", "clearm", 0, nil},
		aggOp{"build", "build", 0, nil}, aggOp{"fork", "fork", 0, nil}, aggOp{"switch", "switch", 0, nil})
}

func runC20(c *Ctx) {
	ops := aggOps()
	// the first two operations make a case, the rest is explored inside it
	for start := 0; start <= 4; start++ {
		nm, roomy := start, false
		if start > 2 { // two builders of one relation whose slices have spare capacity
			nm, roomy = start-3, true
		}
		for i := range ops {
			for j := range ops {
				c.Case(func(t *T) {
					env := newAggEnv(t)
					if env == nil {
						return
					}
					if i == 0 && j == 0 {
						playAgg(t, env, nm, roomy, ops, nil)
					}
					if j == 0 {
						playAgg(t, env, nm, roomy, ops, []int{i})
					}
					depth := 5
					if roomy && !c.Thorough {
						depth = 4
					}
					if c.Thorough && start == 0 {
						depth = 6
					}
					var rec func(h []int)
					rec = func(h []int) {
						playAgg(t, env, nm, roomy, ops, h)
						if len(h) == depth {
							return
						}
						for k := range ops {
							rec(append(h[:len(h):len(h)], k))
						}
					}
					rec([]int{i, j})
					t.Validated()
				}, "history", start, ops[i].name, ops[j].name)
			}
		}
	}
	max := 8
	if c.Thorough {
		max = 12
	}
	for n := 0; n <= max; n++ {
		for _, kind := range []string{"cube", "rollup", "set"} {
			c.Case(func(t *T) { bigGroup(t, kind, n) }, "size", kind, n)
		}
	}
	c.Case(func(t *T) {
		env := newAggEnv(t)
		b := env.b.GetRelBuilder().AggregateRel(env.inputs[0], env.meas[:1])
		refs := make([]uint32, 21)
		if err := b.AddCube(refs); err == nil {
			t.Failf("a cube over 21 references is accepted")
		}
		if r, err := b.Build(); err != nil || len(r.GroupingReferences()) != 0 {
			t.Failf("a rejected cube leaves grouping sets: %v", err)
		}
		t.Trans(2)
	}, "limit")
	c20Messages(c)
}

func playAgg(t *T, e *aggEnv, nm int, roomy bool, ops []aggOp, h []int) {
	type bm struct {
		b *plan.AggregateRelBuilder
		m aggModel
	}
	type rm struct {
		r *plan.AggregateRel
		m aggModel
	}
	cur := bm{e.b.GetRelBuilder().AggregateRel(e.inputs[0], e.meas[:nm:nm]), aggModel{measures: nm}}
	var other *bm
	var built []rm
	if roomy {
		r, err := e.b.GetRelBuilder().AggregateRel(e.inputs[0], e.meas[:nm:nm]).Build()
		m := aggModel{measures: nm, exprs: []int{0, 1}, groups: []aggGroup{{"set", []uint32{0}}, {"set", []uint32{1, 0}}}}
		if nm == 0 {
			b := e.b.GetRelBuilder().AggregateRel(e.inputs[0], nil)
			b.AddGroupingSet([]uint32{b.AddExpression(e.exprs[0])})
			r, err = b.Build()
		}
		if err != nil {
			t.Failf("%v", err)
			return
		}
		r.SetMeasures(append(make([]plan.AggRelMeasure, 0, 16), e.meas[:nm]...))
		r.SetGroupingExpressions(append(make([]expr.Expression, 0, 16), e.exprs[:2]...))
		r.SetGroupingReferences(append(make([][]uint32, 0, 16), []uint32{0}, []uint32{1, 0}))
		built = append(built, rm{r, m})
		cur = bm{r.ToBuilder(), m.clone()}
		other = &bm{r.ToBuilder(), m.clone()}
	}
	names := func() string {
		var s []string
		for _, k := range h {
			s = append(s, ops[k].name)
		}
		return strings.Join(s, ",")
	}
	build := func(x *bm) {
		r, err := x.b.Build()
		if x.m.valid() != (err == nil) {
			t.Failf("%d measures, %s: build gives error %v", nm, names(), err)
			return
		}
		if err == nil {
			built = append(built, rm{r, x.m.clone()})
		}
	}
	for _, k := range h {
		o := ops[k]
		refs := append([]uint32{}, o.refs...)
		switch o.kind {
		case "expr":
			at := len(cur.m.exprs)
			for i, x := range cur.m.exprs {
				if x == o.arg {
					at = i
				}
			}
			if at == len(cur.m.exprs) {
				cur.m.exprs = append(cur.m.exprs, o.arg)
			}
			if got := cur.b.AddExpression(e.exprs[o.arg]); int(got) != at {
				t.Failf("%s: expression gets reference %d, want %d", names(), got, at)
			}
		case "set":
			cur.b.AddGroupingSet(refs)
			cur.m.groups = append(cur.m.groups, aggGroup{"set", o.refs})
		case "cube":
			if err := cur.b.AddCube(refs); err != nil {
				t.Failf("%s: cube fails: %v", names(), err)
			}
			cur.m.groups = append(cur.m.groups, aggGroup{"cube", o.refs})
		case "rollup":
			cur.b.AddRollup(refs)
			cur.m.groups = append(cur.m.groups, aggGroup{"rollup", o.refs})
		case "input":
			cur.b.ReplaceInput(&e.inputs[1])
			cur.m.input = 1
		case "clearg":
			cur.b.ClearGrouping()
			cur.m.exprs, cur.m.groups = nil, nil
		case "clearm":
			cur.b.ClearMeasures()
			cur.m.measures = 0
		case "build":
			build(&cur)
		case "fork":
			if len(built) > 0 {
				l := built[len(built)-1]
				old := cur
				other = &old
				cur = bm{l.r.ToBuilder(), l.m.clone()}
			}
		case "switch":
			if other != nil {
				cur, *other = *other, cur
			}
		}
		for i := range refs { // the caller goes on using its slice
			refs[i] = 9
		}
	}
	t.Trans(len(h))
	build(&cur)
	if other != nil {
		build(other)
	}
	build(&cur)
	for _, b := range built {
		if d := e.agrees(b.r, b.m); d != "" {
			t.Failf("%d measures, %s: a built relation has wrong %s", nm, names(), d)
		}
	}
	if n := len(built); n > 1 && cur.m.valid() && other == nil {
		if mtext(built[n-1].r.ToProto()) != mtext(built[n-2].r.ToProto()) {
			t.Failf("%s: building twice gives different relations", names())
		}
	}
	t.State(fmt.Sprint(nm, cur.m, other != nil, len(built)))
}

func bigGroup(t *T, kind string, n int) {
	mk := func() *plan.AggregateRel {
		env := newAggEnv(t)
		b := env.b.GetRelBuilder().AggregateRel(env.inputs[0], env.meas[:1])
		m := aggModel{measures: 1}
		refs := []uint32{}
		for i := 0; i < n; i++ {
			x := expr.NewPrimitiveLiteral(int32(i), false)
			env.exprs = append(env.exprs, x)
			r := b.AddExpression(x)
			m.exprs = append(m.exprs, 3+i)
			refs = append(refs, r)
		}
		want := append([]uint32{}, refs...)
		switch kind {
		case "cube":
			if err := b.AddCube(refs); err != nil {
				t.Failf("cube of %d fails: %v", n, err)
				return nil
			}
		case "rollup":
			b.AddRollup(refs)
		default:
			b.AddGroupingSet(refs)
		}
		for i := range refs {
			refs[i] = 1000
		}
		m.groups = []aggGroup{{kind, want}}
		r, err := b.Build()
		if err != nil {
			t.Failf("%s of %d: %v", kind, n, err)
			return nil
		}
		if d := env.agrees(r, m); d != "" {
			t.Failf("%s of %d has wrong %s", kind, n, clip(d, 300))
		}
		return r
	}
	a, b := mk(), mk()
	if a != nil && b != nil && mtext(a.ToProto()) != mtext(b.ToProto()) {
		t.Failf("%s of %d differs between two builders", kind, n)
	}
	t.Trans(n + 2)
	t.Validated()
}

func c20Messages(c *Ctx) {
	max := 2
	if c.Thorough {
		max = 3
	}
	var sets [][]uint32
	var rec func(s []uint32)
	rec = func(s []uint32) {
		sets = append(sets, s)
		if len(s) < max {
			for i := uint32(0); i < 3; i++ {
				rec(append(s[:len(s):len(s)], i))
			}
		}
	}
	rec([]uint32{})
	ex := []*pb.Expression{xCol(0), xCol(1), xLit(lI32(7))}
	in := relNamed("a", relColsA()...)
	judge := func(t *T, ss [][]uint32, old bool) {
		ms := []*pb.AggregateRel_Measure{aggMeasure(fnSum, leafT("i64", nNul, 0), nil, xCol(0))}
		p := relAgg(in, ex, ss, ms...)
		if old {
			a := p.GetAggregate()
			a.GroupingExpressions = nil
			for i, g := range a.Groupings {
				g.ExpressionReferences = nil
				for _, k := range ss[i] {
					g.GroupingExpressions = append(g.GroupingExpressions, ex[k])
				}
			}
		}
		text := func(ex []*pb.Expression, ss [][]uint32) string {
			var r []string
			for _, s := range ss {
				var q []string
				for _, k := range s {
					if int(k) >= len(ex) {
						return "dangling"
					}
					q = append(q, mtext(normExpr(ex[k])))
				}
				r = append(r, "("+strings.Join(q, ",")+")")
			}
			return strings.Join(r, " ")
		}
		rel, err := plan.RelFromProto(p, relReg())
		if err != nil {
			t.Failf("valid aggregation rejected: %v %s", err, show(p))
			return
		}
		want := text(ex, ss)
		for step := 0; step < 2; step++ {
			a := rel.(*plan.AggregateRel)
			var ge []*pb.Expression
			for _, e := range a.GroupingExpressions() {
				ge = append(ge, e.ToProto())
			}
			if text(ge, a.GroupingReferences()) != want {
				t.Failf("grouping sets %v over %d expressions, want %v: %s", a.GroupingReferences(), len(ge), ss, show(p))
				return
			}
			b, err := a.ToBuilder().Build()
			if err != nil || fmt.Sprint(b.GroupingReferences()) != fmt.Sprint(a.GroupingReferences()) || len(b.GroupingExpressions()) != len(ge) {
				t.Failf("a builder made from the relation does not build it again: %v %s", err, show(p))
			}
			t.Trans(2)
			if rel, err = plan.RelFromProto(rel.ToProto(), relReg()); err != nil {
				t.Failf("written aggregation rejected: %v %s", err, show(p))
				return
			}
		}
		t.Validated()
	}
	for _, old := range []bool{false, true} {
		c.Case(func(t *T) { judge(t, nil, old) }, "message", old)
		for i, s := range sets {
			c.Case(func(t *T) {
				judge(t, [][]uint32{s}, old)
				for _, s2 := range sets {
					judge(t, [][]uint32{s, s2}, old)
					t.State(fmt.Sprint(s, s2, old))
				}
			}, "message", old, i)
		}
	}
}
