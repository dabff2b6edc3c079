// C25: function expressions carry the resolved signature, anchors and arguments.
package main

import (
	"fmt"
	"strings"

	"github.com/substrait-io/substrait-go/v8/expr"
	ext "github.com/substrait-io/substrait-go/v8/extensions"
	"github.com/substrait-io/substrait-go/v8/types"
	pb "github.com/substrait-io/substrait-protobuf/go/substraitpb"
	"google.golang.org/protobuf/proto"
)

func init() {
	checks["C25"] = &Check{Run: runC25, Quick: 200, Thorough: 850, Shards: 16,
		Bounds: "acceptance: 3 kinds x constructor and builder x 17 functions (20 signatures: fixed, overloaded, generic, variadic, enum, decimal, user-defined, list/lambda, no arguments, discrete, type parameter, unbound result) x every id form (simple, each compound name, wrong compound name, empty signature, other kind, other urn, unknown) x every argument list of length 0..3 (thorough 0..4) over 14 arguments incl. enums, types, nil and expressions of unknown type; settings: all options x invocations x phases x sorts x partitions x bounds x bounds types; histories: every sequence of 4 (thorough 5) constructions over 14 operations sharing one registry; argument lists of 4-33 with any one argument different",
		Assume: []string{"which simple names a collection resolves is C15's subject: the collection's own lookup is used",
			"enumeration arguments use listed options; nil builders are not passed", "the phase of aggregate functions is carried, not judged; a window function that is not decomposable needs the initial-to-result phase"}}
}

type c25fn struct {
	name string
	s    *sig
	typ  bool // has a type parameter: never matches
	dec  string
}

const c25urn = "extension:mc:f"

func c25sigs() []c25fn {
	i32, str := pl("i32"), pl("string")
	any1 := pa("any1")
	en := &pn{k: "enum"}
	f := func(name string, ret *pn, ps ...*pn) c25fn {
		return c25fn{name: name, s: &sig{params: ps, ret: ret}}
	}
	v := func(name string, ret *pn, min, max int, cons string, ps ...*pn) c25fn {
		return c25fn{name: name, s: &sig{params: ps, ret: ret, variadic: true, min: min, max: max, cons: cons}}
	}
	r := []c25fn{
		f("one", pl("i64"), i32),
		f("two", i32, i32), f("two", str, str), f("two", pl("boolean"), i32, i32), f("two", pl("date"), i32, str),
		f("gen", any1, any1, any1),
		v("var", str, 1, 0, "CONSISTENT", str), v("va2", pl("i64"), 0, 2, "INCONSISTENT", i32, pa("any")),
		f("enm", i32, en, i32), f("enm", pl("date"), en, str),
		f("dec", pl("decimal", "P", "S"), pl("decimal", "P", "S")),
		f("udt", pu("w"), pu("t")), f("udt", pc("list", pu("t")), i32),
		f("lam", pc("list", pa("any2")), pc("list", any1), pc("func", any1, pa("any2"))),
		f("non", pl("fp64")),
		f("dis", i32, i32.opt(), i32),
		f("bad", pa("any3"), i32),
		f("unb", pl("decimal", "Q", "2"), i32),
		f("typ", i32, i32, i32),
		f("dcl", pl("i64").opt(), i32),
	}
	for i := range r {
		switch r[i].name {
		case "dis":
			r[i].s.rule = "DISCRETE"
		case "dcl":
			r[i].s.rule = "DECLARED_OUTPUT"
		case "typ":
			r[i].typ = true
		}
	}
	return r
}

var c25kinds = []string{"s", "a", "w"}

// c25doc declares every signature as scalar s_..., aggregate a_... and window w_... function.
func c25doc() string {
	doc := M{"urn": c25urn, "types": L{M{"name": "t"}, M{"name": "w"}}}
	for _, k := range c25kinds {
		var fs L
		byName := map[string]int{}
		for _, f := range c25sigs() {
			im := f.s.impl()
			if f.typ {
				im["args"] = L{M{"name": "ty", "type": "i32"}, M{"value": "i32"}}
			}
			if k != "s" {
				im["intermediate"] = "i64"
				switch f.name {
				case "two":
					im["decomposable"] = "MANY"
				case "gen":
					im["decomposable"] = "ONE"
				case "var":
					im["decomposable"] = "NONE"
				}
			}
			n := k + "_" + f.name
			if i, ok := byName[n]; ok {
				m := fs[i].(M)
				m["impls"] = append(m["impls"].(L), im)
				continue
			}
			byName[n] = len(fs)
			fs = append(fs, c15fn(n, im))
		}
		doc[map[string]string{"s": "scalar_functions", "a": "aggregate_functions", "w": "window_functions"}[k]] = fs
	}
	return c15json(doc)
}

func c25short(p *pn, typ bool) string {
	switch p.k {
	case "string":
		return "str"
	case "decimal":
		return "dec"
	case "udt":
		return "u!" + p.s
	case "any":
		return "any"
	case "enum":
		return "req"
	}
	return p.k
}
func (f *c25fn) compound(kind string) string {
	var r []string
	for i, p := range f.s.params {
		if f.typ && i == 0 {
			r = append(r, "type")
			continue
		}
		r = append(r, c25short(p, false))
	}
	return kind + "_" + f.name + ":" + strings.Join(r, "_")
}

type c25env struct {
	coll  *ext.Collection
	fns   map[string]*c25fn // by kind/compound
	ids   []string          // names to try
	by    map[string]c15variant
	names []string
}

func newC25() *c25env {
	e := &c25env{coll: &ext.Collection{}, fns: map[string]*c25fn{}}
	if err := e.coll.Load(strings.NewReader(c25doc())); err != nil {
		panic(err)
	}
	seen := map[string]bool{}
	for _, f := range c25sigs() {
		f := f
		for _, k := range c25kinds {
			e.fns[f.compound(k)] = &f
		}
		for _, n := range []string{f.name, f.compound("")[1:]} {
			if !seen[n] {
				seen[n] = true
				e.ids = append(e.ids, n)
			}
		}
	}
	e.ids = append(e.ids, "two:", "two:i64", "two:i32_i32_i32", "gen:i32_i32", "non:i32", "missing", "missing:i32", "", ":")
	return e
}

// an argument of a function expression.
type c25arg struct {
	name  string
	arg   func(reg expr.ExtensionRegistry) types.FuncArg
	p     *pb.Type // type, nil for an enumeration argument
	short string   // name in a signature
	bad   bool     // never matches (type, nil, unknown type)
}

func c25cols(ref uint32) []*pb.Type {
	i32 := leafT("i32", nReq, 0)
	return []*pb.Type{i32, leafT("i32", nNul, 0), leafT("string", nNul, 0), pbDec(nReq, 10, 2), pbUDT(nReq, 0, ref), pbList(nNul, 0, i32), pbList(nReq, 0, leafT("string", nReq, 0))}
}

func (a *c25arg) carg() *carg {
	if a.p == nil {
		return enumArg
	}
	return mkArg(a.p)
}

const c25tref = 1 // the anchor of u!t in every registry of this check

func c25args() (r []c25arg) {
	cols := c25cols(c25tref)
	schema := recordOf(cols)
	read := func(reg expr.ExtensionRegistry, x *pb.Expression) types.FuncArg {
		e, err := expr.ExprFromProto(x, schema, reg)
		if err != nil {
			panic(err)
		}
		return e
	}
	add := func(name string, p *pb.Type, short string, x *pb.Expression) {
		r = append(r, c25arg{name: name, p: p, short: short, arg: func(reg expr.ExtensionRegistry) types.FuncArg { return read(reg, x) }})
	}
	add("5", cols[0], "i32", xLit(lI32(5)))
	add("i32?", cols[1], "i32", xCol(1))
	add("str", leafT("string", nReq, 0), "str", xLit(lStr("x")))
	add("str?", cols[2], "str", xCol(2))
	add("dec", cols[3], "dec", xCol(3))
	add("u!t", cols[4], "u!t", xCol(4))
	add("list<i32>?", cols[5], "list", xCol(5))
	add("lambda", pbFunc(nReq, leafT("string", nReq, 0), leafT("i32", nReq, 0)), "func", xLambda(xLit(lStr("b")), 0, leafT("i32", nReq, 0)))
	r = append(r, c25arg{name: "enum", arg: func(expr.ExtensionRegistry) types.FuncArg { return types.Enum("A") }, short: "req"})
	r = append(r, c25arg{name: "type i32", bad: true, arg: func(expr.ExtensionRegistry) types.FuncArg { return types.TypeFromProto(leafT("i32", nReq, 0)) }})
	r = append(r, c25arg{name: "nil", bad: true, arg: func(expr.ExtensionRegistry) types.FuncArg { return nil }})
	add("untyped", nil, "", xOuter(1, segField(0, nil)))
	r[len(r)-1].bad = true
	add("cast bool", leafT("boolean", nReq, 0), "bool", xCast(xCol(0), leafT("boolean", nReq, 0), 1))
	add("u!w", pbUDT(nReq, 0, c25tref+1), "u!w", xLit(lNull(pbUDT(nNul, 0, c25tref+1))))
	r[len(r)-1].p = pbUDT(nNul, 0, c25tref+1)
	return r
}

func c25reg(e *c25env) expr.ExtensionRegistry {
	reg := expr.NewEmptyExtensionRegistry(e.coll)
	if reg.GetTypeAnchor(ext.TypeID{URN: c25urn, Name: "t"}) != c25tref || reg.GetTypeAnchor(ext.TypeID{URN: c25urn, Name: "w"}) != c25tref+1 {
		panic("type anchors")
	}
	return reg
}

type c25set struct {
	opts   []*types.FunctionOption
	inv    types.AggregationInvocation
	phase  types.AggregationPhase
	sorts  []expr.SortField
	parts  []expr.Expression
	bt     types.BoundsType
	lo, hi expr.Bound
}

// what every function expression offers
type c25any interface {
	Name() string
	CompoundName() string
	ID() ext.FunctionID
	NArgs() int
	Arg(int) types.FuncArg
	GetOptions() []*types.FunctionOption
	GetArgTypes() []types.Type
	GetType() types.Type
	String() string
}

// c25make builds the function; ok is false when an error was given.
func c25make(reg expr.ExtensionRegistry, kind string, builder bool, id ext.FunctionID, st *c25set, args []types.FuncArg) (f c25any, err error) {
	wrap := func() (r []expr.FuncArgBuilder) {
		for _, a := range args {
			r = append(r, c25ab{a})
		}
		return
	}
	b := &expr.ExprBuilder{Reg: reg}
	switch kind {
	case "s":
		var x *expr.ScalarFunction
		if builder {
			x, err = b.ScalarFunc(id, st.opts...).Args(wrap()...).Build()
		} else {
			x, err = expr.NewScalarFunc(reg, id, st.opts, args...)
		}
		if x == nil {
			return nil, err
		}
		return x, err
	case "a":
		var x *expr.AggregateFunction
		if builder {
			x, err = b.AggFunc(id, st.opts...).Args(wrap()...).Invocation(st.inv).Phase(st.phase).Sorts(st.sorts...).Build()
		} else {
			x, err = expr.NewAggregateFunc(reg, id, st.opts, st.inv, st.phase, st.sorts, args...)
		}
		if x == nil {
			return nil, err
		}
		return x, err
	}
	var x *expr.WindowFunction
	if builder {
		var ps []expr.Builder
		for _, p := range st.parts {
			ps = append(ps, b.Expression(p))
		}
		x, err = b.WindowFunc(id, st.opts...).Args(wrap()...).Invocation(st.inv).Phase(st.phase).Sort(st.sorts...).
			Partitions(ps...).Bounds(st.lo, st.hi).BoundsType(st.bt).Build()
	} else {
		x, err = expr.NewWindowFunc(reg, id, st.opts, st.inv, st.phase, args...)
		if x != nil {
			x.Sorts, x.Partitions, x.BoundsType, x.LowerBound, x.UpperBound = st.sorts, st.parts, st.bt, st.lo, st.hi
		}
	}
	if x == nil {
		return nil, err
	}
	return x, err
}

type c25ab struct{ a types.FuncArg }

func (a c25ab) BuildFuncArg() (types.FuncArg, error) { return a.a, nil }

func (e *c25env) lookup(kind string, id ext.FunctionID) (string, bool) {
	v, ok := c15lookup(e.coll, map[string]string{"s": "scalar", "a": "aggregate", "w": "window"}[kind], id)
	if !ok {
		return "", false
	}
	return v.CompoundName(), true
}

// want is the reference decision for an id and arguments.
func (e *c25env) want(kind string, id ext.FunctionID, as []c25arg, st *c25set, builder bool) (int, *c25fn, string, *bind) {
	comp, ok := e.lookup(kind, id)
	bad := false
	sigs := make([]string, len(as))
	for i, a := range as {
		sigs[i] = a.short
		bad = bad || a.bad
	}
	if !ok {
		if strings.Contains(id.Name, ":") || bad {
			return no, nil, "", nil
		}
		if comp, ok = e.lookup(kind, ext.FunctionID{URN: id.URN, Name: id.Name + ":" + strings.Join(sigs, "_")}); !ok {
			return no, nil, "", nil
		}
	}
	f := e.fns[comp]
	if f == nil {
		panic(comp)
	}
	if bad || f.typ {
		return no, f, comp, nil
	}
	cs := make([]*carg, len(as))
	for i := range as {
		cs[i] = as[i].carg()
	}
	w, b := f.s.want(cs)
	if w == yes {
		w = (&c12{s: f.s, b: b}).errs(f.s.ret)
	}
	if kind == "w" && w == yes {
		if f.name != "two" && f.name != "gen" && st.phase != types.AggPhaseInitialToResult {
			w = no
		}
		if builder && st.bt == types.BoundsTypeRange && len(st.sorts) != 1 {
			w = no
		}
	}
	return w, f, comp, b
}

func c25same[X any](a, b []X, eq func(X, X) bool) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !eq(a[i], b[i]) {
			return false
		}
	}
	return true
}

func c25sortEq(a, b expr.SortField) bool { return a.Expr == b.Expr && a.Kind == b.Kind }

// c25judge checks an accepted function against what was asked for.
func (e *c25env) judge(t *T, at func() string, reg expr.ExtensionRegistry, kind string, got c25any, f *c25fn, comp string, b *bind, as []c25arg, args []types.FuncArg, st *c25set, custom types.Type) {
	id := ext.FunctionID{URN: c25urn, Name: comp}
	if got.ID() != id || got.CompoundName() != comp || got.Name() != comp[:strings.IndexByte(comp, 58)] {
		t.Failf("%s: is %v / %s / %s, not %s", at(), got.ID(), got.CompoundName(), got.Name(), comp)
	}
	if got.NArgs() != len(args) {
		t.Failf("%s: has %d arguments", at(), got.NArgs())
		return
	}
	at2 := got.GetArgTypes()
	for i, a := range args {
		if got.Arg(i) != a {
			t.Failf("%s: argument %d is %v", at(), i, got.Arg(i))
		}
		if as == nil {
			continue
		}
		if as[i].p == nil && at2[i] != types.CommonEnumType || as[i].p != nil && mtext(types.TypeToProto(at2[i])) != mtext(as[i].p) {
			t.Failf("%s: type of argument %d is %v", at(), i, at2[i])
		}
	}
	if !c25same(got.GetOptions(), st.opts, func(a, b *types.FunctionOption) bool { return a == b }) {
		t.Failf("%s: options are %v", at(), got.GetOptions())
	}
	pt := types.TypeToProto(got.GetType())
	if custom != nil {
		if got.GetType() != custom {
			t.Failf("%s: type is %s", at(), got.GetType())
		}
	} else {
		x := &c12{s: f.s, b: b, reg: reg.Set, urn: c25urn}
		if d := x.diff(f.s.ret, pt, true); d != "" {
			t.Failf("%s: type is %s: %s", at(), got.GetType(), d)
		}
		if f.s.rule == "" {
			anyNull := false
			for i, a := range as {
				if a.p != nil && f.s.at2(i) && pbNull(a.p) {
					anyNull = true
				}
			}
			if pbNull(pt) != anyNull {
				t.Failf("%s: type is %s", at(), got.GetType())
			}
		}
	}
	var wantArgs []*pb.FunctionArgument
	for _, a := range args {
		wantArgs = append(wantArgs, a.ToProtoFuncArg())
	}
	var ref uint32
	var w proto.Message
	var back c25any
	var err error
	var bounds []*pb.Expression_WindowFunction_Bound
	for _, x := range []expr.Bound{st.lo, st.hi} {
		if x == nil {
			bounds = append(bounds, nil)
		} else {
			bounds = append(bounds, x.ToProto())
		}
	}
	var sorts []*pb.SortField
	for _, s := range st.sorts {
		sorts = append(sorts, s.ToProto())
	}
	schema := recordOf(c25cols(c25tref))
	eq := false
	found := false
	var decl c15variant
	switch x := got.(type) {
	case *expr.ScalarFunction:
		ref = x.FuncRef()
		m := x.ToProto()
		w = &pb.Expression{RexType: &pb.Expression_ScalarFunction_{ScalarFunction: &pb.Expression_ScalarFunction{
			FunctionReference: ref, Arguments: wantArgs, Options: st.opts, OutputType: pt}}}
		if mtext(m) != mtext(w) {
			t.Failf("%s: written as %s", at(), show(m))
		}
		for _, o := range st.opts {
			if !c25same(x.GetOption(o.Name), firstOpt(st.opts, o.Name), func(a, b string) bool { return a == b }) {
				t.Failf("%s: option %s is %v", at(), o.Name, x.GetOption(o.Name))
			}
		}
		if x.GetOption("absent") != nil {
			t.Failf("%s: absent option found", at())
		}
		sc := true
		for _, a := range args {
			if ex, ok := a.(expr.Expression); ok {
				sc = sc && ex.IsScalar()
			}
		}
		if x.IsScalar() != sc {
			t.Failf("%s: scalar is %v", at(), x.IsScalar())
		}
		r, err2 := expr.ExprFromProto(m, schema, reg)
		if err = err2; err == nil {
			eq = x.Equals(r) && r.Equals(x)
			back, _ = r.(*expr.ScalarFunction)
		}
		v, ok := reg.LookupScalarFunction(ref)
		decl, found = v, ok
	case *expr.AggregateFunction:
		m := x.ToProto()
		ref = m.FunctionReference
		w = &pb.AggregateFunction{FunctionReference: ref, Arguments: wantArgs, Options: st.opts, OutputType: pt, Phase: st.phase, Sorts: sorts, Invocation: st.inv}
		if mtext(m) != mtext(w) {
			t.Failf("%s: written as %s", at(), show(m))
		}
		if x.Phase() != st.phase || x.Invocation() != st.inv || !c25same(x.Sorts, st.sorts, c25sortEq) {
			t.Failf("%s: phase %v invocation %v sorts %v", at(), x.Phase(), x.Invocation(), x.Sorts)
		}
		for _, o := range st.opts {
			if !c25same(x.GetOption(o.Name), firstOpt(st.opts, o.Name), func(a, b string) bool { return a == b }) {
				t.Failf("%s: option %s is %v", at(), o.Name, x.GetOption(o.Name))
			}
		}
		r, err2 := expr.NewAggregateFunctionFromProto(m, schema, reg)
		if err = err2; err == nil {
			back = r
			eq = mtext(r.ToProto()) == mtext(w)
		}
		v, ok := reg.LookupAggregateFunction(ref)
		decl, found = v, ok
		// a clone is independent
		c := x.Clone()
		if mtext(c.ToProto()) != mtext(w) {
			t.Failf("%s: clone is %s", at(), c)
		}
		for i := range args {
			c.SetArg(i, types.Enum("changed"))
			if c.Arg(i) != types.Enum("changed") {
				t.Failf("%s: argument %d of the clone is not set", at(), i)
			}
		}
		if len(c.Sorts) > 0 {
			c.Sorts[0].Kind = types.SortClustered
		}
		if mtext(x.ToProto()) != mtext(w) {
			t.Failf("%s: changing the clone changes the function to %s", at(), x)
		}
	case *expr.WindowFunction:
		m := x.ToProto()
		ref = m.GetWindowFunction().GetFunctionReference()
		var parts []*pb.Expression
		for _, p := range st.parts {
			parts = append(parts, p.ToProto())
		}
		w = &pb.Expression{RexType: &pb.Expression_WindowFunction_{WindowFunction: &pb.Expression_WindowFunction{
			FunctionReference: ref, Arguments: wantArgs, Options: st.opts, OutputType: pt, Phase: st.phase, Sorts: sorts, Invocation: st.inv,
			Partitions: parts, BoundsType: st.bt, LowerBound: bounds[0], UpperBound: bounds[1]}}}
		if mtext(m) != mtext(w) {
			t.Failf("%s: written as %s", at(), show(m))
		}
		if x.Phase() != st.phase || x.Invocation() != st.inv || !c25same(x.Sorts, st.sorts, c25sortEq) || x.BoundsType != st.bt || x.LowerBound != st.lo || x.UpperBound != st.hi ||
			!c25same(x.Partitions, st.parts, func(a, b expr.Expression) bool { return a == b }) {
			t.Failf("%s: carries %s", at(), x)
		}
		if x.IsScalar() {
			t.Failf("%s: is scalar", at())
		}
		if st.bt == types.BoundsTypeRange && len(st.sorts) != 1 {
			return // not re-readable
		}
		r, err2 := expr.ExprFromProto(m, schema, reg)
		if err = err2; err == nil {
			eq = x.Equals(r) && r.Equals(x)
			back, _ = r.(*expr.WindowFunction)
		}
		v, ok := reg.LookupWindowFunction(ref)
		decl, found = v, ok
	}
	if did, ok := reg.DecodeFunc(ref); !ok || did != id {
		t.Failf("%s: reference %d stands for %v", at(), ref, did)
	}
	if !found || decl.CompoundName() != comp || decl.URN() != c25urn {
		t.Failf("%s: reference %d does not resolve to the function", at(), ref)
	}
	if err != nil {
		t.Failf("%s: cannot be read back: %v", at(), err)
	} else if !eq || back == nil || back.ID() != id || back.NArgs() != len(args) {
		t.Failf("%s: reads back as %v", at(), back)
	}
	if s := catch(func() { _ = got.String() }); s != "" {
		t.Failf("%s: printing panics: %s", at(), s)
	}
	t.Validated()
}

func firstOpt(os []*types.FunctionOption, n string) []string {
	for _, o := range os {
		if o.Name == n {
			return o.Preference
		}
	}
	return nil
}

func runC25(c *Ctx) {
	e := newC25()
	pool := c25args()
	zero := &c25set{phase: types.AggPhaseInitialToResult, inv: types.AggInvocationAll}
	try := func(t *T, kind string, builder bool, id ext.FunctionID, as []c25arg, st *c25set) {
		reg := c25reg(e)
		args := make([]types.FuncArg, len(as))
		for i, a := range as {
			args[i] = a.arg(reg)
		}
		at := func() string {
			var n []string
			for _, a := range as {
				n = append(n, a.name)
			}
			how := "constructor"
			if builder {
				how = "builder"
			}
			return fmt.Sprintf("%s %s of %s(%s)", kind, how, id.Name, strings.Join(n, ", "))
		}
		w, f, comp, b := e.want(kind, id, as, st, builder)
		var got c25any
		var err error
		if msg := catch(func() { got, err = c25make(reg, kind, builder, id, st, args) }); msg != "" {
			t.Failf("%s: panics: %s", at(), msg)
			return
		}
		t.Trans(1)
		if (err == nil) != (got != nil) {
			t.Failf("%s: gives %v and error %v", at(), got, err)
			return
		}
		switch {
		case w == unjudged:
			t.Outcome("unjudged")
		case w == no:
			t.Outcome("rejected")
			if err == nil {
				t.Failf("%s: accepted as %s", at(), got)
				return
			}
			// the registry is still usable
			x, err := expr.NewScalarFunc(reg, ext.FunctionID{URN: c25urn, Name: "s_two:i32"}, nil, pool[0].arg(reg))
			if err != nil {
				t.Failf("%s: after the error a good function fails: %v", at(), err)
			} else if did, ok := reg.DecodeFunc(x.FuncRef()); !ok || did.Name != "s_two:i32" {
				t.Failf("%s: after the error a good function has a wrong reference", at())
			}
			if tid, ok := reg.DecodeType(c25tref); !ok || tid.Name != "t" {
				t.Failf("%s: after the error type anchors changed", at())
			}
			t.Validated()
		case err != nil:
			t.Failf("%s: %v", at(), err)
		default:
			t.Outcome("accepted")
			e.judge(t, at, reg, kind, got, f, comp, b, as, args, st, nil)
		}
	}
	maxLen := 3
	if c.Thorough {
		maxLen = 4
	}
	for _, kind := range c25kinds {
		for _, other := range c25kinds {
			for _, n := range e.ids {
				name := other + "_" + n
				if n == "" || n == ":" {
					name = n
				}
				for bi := 0; bi < 2; bi++ {
					max := maxLen
					if other != kind && !(kind == "w" && other == "a") {
						max = 1
					}
					for l := 0; l <= max; l++ {
						if bi == 1 && l > 2 {
							continue
						}
						first := 1
						if l >= 3 {
							first = len(pool)
						}
						for p0 := 0; p0 < first; p0++ {
							c.Case(func(t *T) {
								t.Dim("acceptance", "1")
								id := ext.FunctionID{URN: c25urn, Name: name}
								if l < 3 {
									tuples(pool, l, func(as []c25arg) { try(t, kind, bi == 1, id, as, zero) })
								} else {
									tuples(pool, l-1, func(as []c25arg) { try(t, kind, bi == 1, id, append([]c25arg{pool[p0]}, as...), zero) })
								}
								if l < 2 {
									for _, u := range []string{"", "extension:mc:g", "f", c25urn + ":"} {
										tuples(pool, l, func(as []c25arg) { try(t, kind, bi == 1, ext.FunctionID{URN: u, Name: name}, as, zero) })
									}
								}
							}, "accept", kind, name, "builder", bi, "len", l, "first", p0)
						}
					}
				}
			}
		}
	}
	// long argument lists
	for _, kind := range c25kinds {
		for _, n := range e.ids {
			if !strings.HasPrefix(n, "va") && !strings.HasPrefix(n, "two") {
				continue
			}
			for bi := 0; bi < 2; bi++ {
				c.Case(func(t *T) {
					id := ext.FunctionID{URN: c25urn, Name: kind + "_" + n}
					for _, l := range []int{4, 5, 9, 17, 33} {
						for _, p := range pool {
							for _, at := range []int{-1, 0, 1, 2, l / 2, l - 2, l - 1} {
								for qi, q := range pool {
									if at < 0 && qi > 0 || !c.Thorough && l > 9 && qi%3 != l%3 {
										continue
									}
									as := make([]c25arg, l)
									for i := range as {
										as[i] = p
									}
									if at >= 0 {
										as[at] = q
									}
									try(t, kind, bi == 1, id, as, zero)
								}
							}
						}
					}
				}, "long", kind, n, "builder", bi)
			}
		}
	}
	// settings
	optSets := [][]*types.FunctionOption{nil, {{Name: "o", Preference: []string{"A"}}}, {{Name: "o", Preference: []string{"B", "A"}}, {Name: "p"}}, {{Name: "d", Preference: []string{"1"}}, {Name: "d", Preference: []string{"2"}}}}
	i32 := func(i int) expr.Expression {
		return expr.MustExpr(expr.NewRootFieldRef(expr.NewStructFieldRef(int32(i)), recordOf(c25cols(c25tref))))
	}
	i0, i1 := i32(0), i32(1)
	sortSets := [][]expr.SortField{nil, {{Expr: i0, Kind: types.SortAscNullsFirst}}, {{Expr: i1, Kind: types.SortDescNullsLast}, {Expr: i0, Kind: types.FunctionRef(7)}}}
	partSets := [][]expr.Expression{nil, {i0}, {i1, i0}}
	bs := []expr.Bound{nil, expr.PrecedingBound(3), expr.FollowingBound(1 << 40), expr.CurrentRow{}, expr.Unbounded{}, expr.PrecedingBound(0), expr.FollowingBound(-1)}
	cases := []struct {
		n  string
		as []c25arg
	}{{"one", pool[:1]}, {"two", pool[1:2]}, {"two:i32_str", []c25arg{pool[0], pool[3]}}, {"var:str", pool[2:3]}, {"enm:req_i32", []c25arg{pool[8], pool[1]}}, {"non", nil}, {"udt:u!t", pool[5:6]}, {"bad", pool[:1]}}
	for _, kind := range c25kinds {
		for bi := 0; bi < 2; bi++ {
			for ci, cs := range cases {
				for oi, os := range optSets {
					c.Case(func(t *T) {
						t.Dim("settings", "1")
						id := ext.FunctionID{URN: c25urn, Name: kind + "_" + cs.n}
						if kind == "s" {
							try(t, kind, bi == 1, id, cs.as, &c25set{opts: os})
							return
						}
						for inv := types.AggregationInvocation(0); inv < 4; inv++ {
							for ph := types.AggregationPhase(0); ph < 6; ph++ {
								for _, so := range sortSets {
									if kind == "a" {
										try(t, kind, bi == 1, id, cs.as, &c25set{opts: os, inv: inv, phase: ph, sorts: so})
										continue
									}
									for _, pa := range partSets {
										for bt := types.BoundsType(0); bt < 4; bt++ {
											// every pair of bounds for one combination, pairwise otherwise
											full := inv == 1 && ph == 3
											for li, lo := range bs {
												for hi, h := range bs {
													if full || li == hi || c.Thorough && li == 0 {
														try(t, kind, bi == 1, id, cs.as, &c25set{opts: os, inv: inv, phase: ph, sorts: so, parts: pa, bt: bt, lo: lo, hi: h})
													}
												}
											}
										}
									}
								}
							}
						}
					}, "settings", kind, "builder", bi, "case", ci, "options", oi)
				}
			}
		}
	}
	// custom functions: no lookup, everything as given
	for _, kind := range c25kinds {
		for ri, ret := range []*pb.Type{nil, leafT("i32", nReq, 0), pbUDT(nNul, 0, c25tref), pbList(nReq, 0, leafT("string", nNul, 0))} {
			for vi, f := range c25sigs() {
				c.Case(func(t *T) {
					t.Dim("custom", "1")
					for l := 0; l <= 2; l++ {
						tuples(pool, l, func(as []c25arg) {
							for _, a := range as {
								if a.name == "nil" || a.name == "untyped" {
									return
								}
							}
							for oi, os := range optSets[:3] {
								reg := c25reg(e)
								args := make([]types.FuncArg, len(as))
								for i, a := range as {
									args[i] = a.arg(reg)
								}
								var rt types.Type
								if ret != nil {
									rt = types.TypeFromProto(ret)
								}
								st := &c25set{opts: os, inv: types.AggregationInvocation(oi), phase: types.AggregationPhase(oi + 1), sorts: sortSets[oi]}
								id := ext.FunctionID{URN: c25urn, Name: f.compound(kind)}
								var got c25any
								var err error
								at := func() string { return "custom " + id.Name }
								msg := catch(func() {
									switch kind {
									case "s":
										st.inv, st.phase, st.sorts = 0, 0, nil
										v, _ := e.coll.GetScalarFunc(id)
										var x *expr.ScalarFunction
										if x, err = expr.NewCustomScalarFunc(reg, v, rt, os, args...); x != nil {
											got = x
										}
									case "a":
										v, _ := e.coll.GetAggregateFunc(id)
										var x *expr.AggregateFunction
										if x, err = expr.NewCustomAggregateFunc(reg, v, rt, os, st.inv, st.phase, st.sorts, args...); x != nil {
											got = x
										}
									case "w":
										st.sorts = nil
										v, _ := e.coll.GetWindowFunc(id)
										var x *expr.WindowFunction
										if x, err = expr.NewCustomWindowFunc(reg, v, rt, os, st.inv, st.phase, args...); x != nil {
											got = x
										}
									}
								})
								t.Trans(1)
								if msg != "" {
									t.Failf("%s: panics: %s", at(), msg)
									return
								}
								if ret == nil {
									if err == nil {
										t.Failf("%s: accepted without a type", at())
									}
									continue
								}
								if err != nil || got == nil {
									t.Failf("%s: %v", at(), err)
									continue
								}
								f := f
								hasType := false
								for _, a := range as {
									hasType = hasType || a.bad
								}
								if hasType {
									as = nil
								}
								e.judge(t, at, reg, kind, got, &f, id.Name, nil, as, args, st, rt)
							}
						})
					}
				}, "custom", kind, "type", ri, "variant", vi)
			}
		}
	}
	c25histories(c, e, pool)
}

// c25histories shares one registry between a sequence of constructions.
func c25histories(c *Ctx, e *c25env, pool []c25arg) {
	type op struct {
		kind, name string
		as         []c25arg
		ok         bool
	}
	st := &c25set{phase: types.AggPhaseInitialToResult}
	ops := []op{
		{"s", "s_one", pool[:1], true}, {"s", "s_two", pool[1:2], true}, {"s", "s_two:str", pool[2:3], true}, {"s", "s_udt:u!t", pool[5:6], true}, {"s", "s_udt:i32", pool[:1], true},
		{"a", "a_one", pool[:1], true}, {"w", "a_one", pool[:1], true}, {"w", "w_udt:u!t", pool[5:6], true}, {"s", "s_non", nil, true},
		{"s", "s_one", pool[2:3], false}, {"s", "s_missing", nil, false}, {"a", "s_one", pool[:1], false}, {"s", "s_bad", pool[:1], false}, {"s", "s_one", pool[9:10], false},
	}
	depth := 4
	if c.Thorough {
		depth = 5
	}
	for i := range ops {
		for j := range ops {
			c.Case(func(t *T) {
				t.Dim("history", "1")
				tuples(ops, depth-2, func(rest []op) {
					reg := c25reg(e)
					type made struct {
						f    c25any
						text string
						comp string
						ref  uint32
					}
					var all []made
					refs := map[string]uint32{}
					for k, o := range append([]op{ops[i], ops[j]}, rest...) {
						args := make([]types.FuncArg, len(o.as))
						for i, a := range o.as {
							args[i] = a.arg(reg)
						}
						got, err := c25make(reg, o.kind, false, ext.FunctionID{URN: c25urn, Name: o.name}, st, args)
						t.Trans(1)
						if (err == nil) != o.ok {
							t.Failf("step %d: %s %s: %v", k, o.kind, o.name, err)
							return
						}
						if o.ok {
							comp := got.CompoundName()
							var ref uint32
							switch x := got.(type) {
							case *expr.ScalarFunction:
								ref = x.FuncRef()
							case *expr.AggregateFunction:
								ref = x.ToProto().FunctionReference
							case *expr.WindowFunction:
								ref = x.ToProto().GetWindowFunction().FunctionReference
							}
							if r, ok := refs[comp]; ok && r != ref {
								t.Failf("step %d: %s has references %d and %d", k, comp, r, ref)
							}
							refs[comp] = ref
							all = append(all, made{got, mtext(types.TypeToProto(got.GetType())), comp, ref})
						}
						t.State(fmt.Sprint(refs))
						for _, m := range all {
							if id, ok := reg.DecodeFunc(m.ref); !ok || id.Name != m.comp || id.URN != c25urn {
								t.Failf("step %d: reference %d of %s stands for %v", k, m.ref, m.comp, id)
							}
							if mtext(types.TypeToProto(m.f.GetType())) != m.text {
								t.Failf("step %d: the type of %s changes to %s", k, m.comp, m.f.GetType())
							}
						}
						for _, w := range []struct {
							a uint32
							n string
						}{{c25tref, "t"}, {c25tref + 1, "w"}} {
							if id, ok := reg.DecodeType(w.a); !ok || id.Name != w.n {
								t.Failf("step %d: type anchor %d stands for %v", k, w.a, id)
							}
						}
					}
					t.Validated()
				})
			}, "history", i, j)
		}
	}
}
