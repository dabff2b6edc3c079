// C24: shared collections, registries, dialects, types and plans are safe to share.
// Operations of users run in every order, preempted at every statement
// (instrumented build) and concurrently under the race detector.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"sort"
	"strings"

	"github.com/substrait-io/substrait-go/v8/expr"
	ext "github.com/substrait-io/substrait-go/v8/extensions"
	"github.com/substrait-io/substrait-go/v8/functions"
	"github.com/substrait-io/substrait-go/v8/literal"
	"github.com/substrait-io/substrait-go/v8/plan"
	tcparser "github.com/substrait-io/substrait-go/v8/testcases/parser"
	"github.com/substrait-io/substrait-go/v8/types"
	tparser "github.com/substrait-io/substrait-go/v8/types/parser"
	pb "github.com/substrait-io/substrait-protobuf/go/substraitpb"
	"google.golang.org/protobuf/proto"
)

func init() {
	checks["C24"] = &Check{Run: runC24, Quick: 500, Thorough: 850, Shards: 16,
		Bounds: "35 operation scripts (lookups, listing, matching, type resolution, localization, invocation checks, type, literal and expression reading, plan reading, writing, building, rewriting, remapping, function test parsing) over one shared collection, function registry, dialect, local registry, plan, expressions, literals and types, for a two-document collection and the process-wide default one: every order of two and one again (thorough: of three), one history of all of them there and back; every pair at once and 35 groups of five under the race detector; concurrent first use of the default collection in 8 processes; every script preempted at every statement of the library it executes (first two visits of each; thorough: every visit, plus two equal scripts both preempted, at every pair of first visits of statements for short scripts and of function entries for the others) by all other scripts in two orders, under a controlled scheduler; one shared instance of every relation, expression, literal and type of the universes of depth 1 (thorough: also inside a sixth of the kinds of relation and three kinds of expression), every ordered pair in turn and every pair at once under the race detector",
		Assume: []string{
			"operations between which the race detector sees no unordered conflicting accesses commute, so one execution of a pair stands for all its interleavings; the statement-level schedules need no such assumption",
			"setters (SetAdvancedExtension, SetExtensionRelDecoder, Collection.Load, ExtensionRegistry anchors) change their object and are for its owner only",
			"a user that has to wait for a lock longer than 60 ms continues unscheduled"}}
}

// c24env is what the users share.
type c24env struct {
	def   bool
	coll  *ext.Collection
	freg  functions.FunctionRegistry
	dial  functions.Dialect
	lreg  functions.LocalFunctionRegistry // of another dialect object
	ltr   functions.LocalTypeRegistry
	types []types.Type
	rec   *types.RecordType
	msg   *pb.Plan
	plan  *plan.Plan
	exprs []expr.Expression
	lits  []expr.Literal
}

const c24mc = "extension:mc:a"

var c24A = M{"urn": c24mc,
	"types":           L{M{"name": "point", "structure": M{"x": "i32", "y": "i32?"}}, M{"name": "pair", "parameters": L{M{"name": "T", "type": "dataType"}}}},
	"type_variations": L{M{"parent": "i32", "name": "tv", "functions": "INHERITS"}},
	"scalar_functions": L{
		c15fn("f", c24impl("i32", "", "i32", "i32"), c24impl("i64", "", "i64", "i64"), c24impl("any1", "", "any1", "any1"), c24impl("varchar<L1>", "", "varchar<L1>", "i32?")),
		c15fn("d", c24impl("init = max(S1,S2)\nprec = init + max(P1 - S1, P2 - S2) + 1\nmin = min(prec, 38)\nDECIMAL<min, init>", "", "decimal<P1,S1>", "decimal<P2,S2>"),
			c24impl("q = P + 1\ndecimal?<q,S>", "DECLARED_OUTPUT", "decimal?<P,S>"), c24impl("boolean?", "DISCRETE", "i32", "string?")),
		c15fn("v", c16var(c24impl("string", "", "string"), 1, 3), c16var(c24impl("list<any1>", "", "any1", "any1"), 2, 0)),
		c15fn("p", c24impl("u!point", "", "i32", "i32"), c24impl("i32", "", "u!point")),
		c15fn("n", c24impl("i64?", "DECLARED_OUTPUT"))},
	"aggregate_functions": L{c15fn("f", c16agg(c24impl("i64?", "DECLARED_OUTPUT", "i32"))), c15fn("s", c16agg(c24impl("any1", "", "any1")))},
	"window_functions":    L{c15fn("w", c16agg(c24impl("i32?", "DECLARED_OUTPUT", "i32")), c16agg(c24impl("i64", "DECLARED_OUTPUT")))}}

func c24impl(ret, null string, args ...string) M {
	var l L
	for i, a := range args {
		l = append(l, M{"name": fmt.Sprintf("a%d", i), "value": a})
	}
	m := M{"args": l, "return": ret, "options": M{"overflow": M{"values": L{"SILENT", "ERROR"}}}}
	if null != "" {
		m["nullability"] = null
	}
	return m
}

func c24dialect() string {
	fn := func(name string, kernels ...string) M {
		l := L{}
		for _, k := range kernels {
			l = append(l, k)
		}
		return M{"name": "da." + name, "local_name": "local_" + name, "supported_kernels": l, "infix": name == "f", "required_options": M{"overflow": "ERROR"}}
	}
	return c15json(M{"name": "d", "type": "sql", "dependencies": M{"da": c24mc},
		"supported_types":     M{"i32": M{"sql_type_name": "INT"}, "i64": M{"sql_type_name": "BIGINT", "supported_as_column": true}, "str": M{"sql_type_name": "TEXT"}, "dec": M{"sql_type_name": "NUMERIC"}, "vchar": M{"sql_type_name": "VARCHAR"}, "bool": M{"sql_type_name": "BOOL"}},
		"scalar_functions":    L{fn("f", "i32_i32", "i64_i64"), fn("d", "dec_dec", "dec"), fn("v", "str")},
		"aggregate_functions": L{fn("f", "i32")}, "window_functions": L{fn("w", "i32")}})
}

func c24must[V any](v V, err error) V {
	if err != nil {
		panic(err)
	}
	return v
}

func c24load(docs ...M) *ext.Collection {
	c := &ext.Collection{}
	for _, d := range docs {
		if err := c.Load(strings.NewReader(c15json(d))); err != nil {
			panic(err)
		}
	}
	return c
}

// c24types are types that users may share.
func c24types() []types.Type {
	r := []types.Type{types.CommonEnumType}
	for _, s := range []types.TypeName{types.TypeNameI32, types.TypeNameString, types.TypeNameDate, types.TypeNameIntervalYear} {
		r = append(r, c24must(types.SimpleTypeNameToType(s)))
	}
	n := types.NullabilityRequired
	i32 := &types.Int32Type{Nullability: n}
	return append(r, i32, &types.DecimalType{Precision: 10, Scale: 2, Nullability: n}, &types.VarCharType{Length: 5, Nullability: n}, &types.FixedCharType{Length: 3, Nullability: n},
		&types.IntervalDayType{Precision: 3, Nullability: n}, types.IntervalCompoundType{}.WithPrecision(3).WithNullability(n), &types.PrecisionTimestampType{Precision: 3, Nullability: n}, &types.PrecisionTimestampTzType{PrecisionTimestampType: types.PrecisionTimestampType{Precision: 3, Nullability: n}},
		&types.StructType{Types: []types.Type{i32, &types.StringType{}}, Nullability: n}, &types.ListType{Type: i32, Nullability: n}, &types.MapType{Key: i32, Value: i32, Nullability: n},
		&types.UserDefinedType{TypeReference: 3, Nullability: n, TypeParameters: []types.TypeParam{&types.DataTypeParameter{Type: i32}, types.IntegerParameter(5)}})
}

func c24build(coll *ext.Collection) *plan.Plan {
	b := plan.NewBuilder(coll)
	n := types.NullabilityRequired
	scan := b.NamedScan([]string{"t"}, types.NamedStruct{Names: []string{"a", "b", "c"}, Struct: types.StructType{Nullability: n, Types: []types.Type{&types.Int32Type{Nullability: n}, &types.Int32Type{Nullability: types.NullabilityNullable}, &types.DecimalType{Precision: 10, Scale: 2, Nullability: n}}}})
	a, c := c24must(b.RootFieldRef(scan, 0)), c24must(b.RootFieldRef(scan, 2))
	urn, f, d, agg, win := c24mc, "f:i32_i32", "d:dec_dec", "f:i32", "w:i32"
	if coll == defColl() {
		urn, f, d, agg, win = ext.SubstraitDefaultURNPrefix+"functions_arithmetic", "add:i32_i32", "", "sum:i32", "rank:"
	}
	sum := c24must(b.ScalarFn(urn, f, []*types.FunctionOption{{Name: "overflow", Preference: []string{"ERROR"}}}, a, expr.NewPrimitiveLiteral(int32(5), false)))
	es := []expr.Expression{sum}
	if d != "" {
		es = append(es, c24must(b.ScalarFn(urn, d, nil, c, c)))
	}
	id := ext.FunctionID{URN: urn, Name: win}
	if v, ok := coll.GetWindowFunc(id); ok && d != "" {
		es = append(es, c24must(expr.NewCustomWindowFunc(b.GetExprBuilder().Reg, v, &types.Int32Type{Nullability: n}, nil, types.AggInvocationAll, types.AggPhaseInitialToResult, a)))
	}
	proj := c24must(b.Project(scan, es...))
	x := c24must(b.RootFieldRef(proj, 3))
	flt := c24must(b.Filter(proj, expr.NewPrimitiveLiteral(true, false)))
	ag := c24must(b.AggregateColumns(flt, []plan.AggRelMeasure{b.Measure(c24must(b.AggregateFn(urn, agg, nil, x)), nil)}, 0))
	join := c24must(b.Join(ag, c24must(b.Fetch(scan, 1, 5)), expr.NewPrimitiveLiteral(true, false), plan.JoinTypeInner))
	srt := c24must(b.Sort(join, c24must(b.SortFields(join, 1, 0))...))
	set := c24must(b.Set(plan.SetOpUnionAll, srt, srt))
	return c24must(b.Plan(set, []string{"p", "q", "r", "s", "u"}))
}

// c24proto is the message of a plan, built once with private objects.
var c24proto = map[bool]*pb.Plan{}

func c24new(def bool) *c24env {
	e := &c24env{def: def}
	dial := c24dialect()
	if def {
		e.coll = defColl()
		dial = strings.ReplaceAll(dial, "local_v", "local_v")
		dial = c15json(M{"name": "d", "type": "sql", "dependencies": M{"da": ext.SubstraitDefaultURNPrefix + "functions_arithmetic"},
			"supported_types":  M{"i32": M{"sql_type_name": "INT"}, "i64": M{"sql_type_name": "BIGINT"}, "fp64": M{"sql_type_name": "DOUBLE"}},
			"scalar_functions": L{M{"name": "da.add", "local_name": "+", "infix": true, "supported_kernels": L{"i32_i32", "i64_i64"}}}})
	} else {
		e.coll = c24load(c24A, c16B)
	}
	if c24proto[def] == nil {
		c24proto[def] = c24must(c24build(e.coll).ToProto())
		if !def {
			e.coll = c24load(c24A, c16B)
		}
	}
	e.freg = functions.NewFunctionRegistry(e.coll)
	e.dial = c24must(functions.LoadDialect("d", strings.NewReader(dial)))
	d2 := c24must(functions.LoadDialect("d", strings.NewReader(dial)))
	e.lreg = c24must(d2.LocalizeFunctionRegistry(e.freg))
	e.ltr = c24must(d2.GetLocalTypeRegistry())
	e.types = c24types()
	e.rec = types.NewRecordTypeFromTypes(append(make([]types.Type, 0, 64), e.types[5:9]...))
	e.msg = proto.Clone(c24proto[def]).(*pb.Plan)
	e.plan = c24must(plan.FromProto(proto.Clone(c24proto[def]).(*pb.Plan), e.coll))
	rel := e.plan.GetRoots()[0].Input()
	c24walk(rel, func(r plan.Rel) {
		if p, ok := r.(*plan.ProjectRel); ok && e.exprs == nil {
			e.exprs = p.Expressions()
		}
	})
	e.lits = []expr.Literal{c24must(literal.NewDecimalFromString("1.5", false)), c24must(literal.NewFixedChar("abc", false)), c24must(literal.NewList([]expr.Literal{literal.NewInt8(1, false)}, false)),
		c24must(literal.NewIntervalDaysToSecond(1, 2, 3, false)), expr.NewNullLiteral(e.types[1].WithNullability(types.NullabilityNullable))}
	return e
}

func c24walk(r plan.Rel, f func(plan.Rel)) {
	f(r)
	for _, i := range r.GetInputs() {
		c24walk(i, f)
	}
}

type c24op struct {
	name string
	run  func(e *c24env) string
}

func c24fn(v ext.FunctionVariant) string {
	var a []string
	for _, p := range v.Args() {
		switch x := p.(type) {
		case ext.ValueArg:
			a = append(a, fmt.Sprint(x.Name, x.Description, x.Constant, x.Value.ValueType))
		case ext.EnumArg:
			a = append(a, fmt.Sprint(x.Name, x.Options))
		default:
			a = append(a, fmt.Sprint(p))
		}
	}
	var o []string
	for k, x := range v.Options() {
		o = append(o, fmt.Sprintf("%s=%v", k, x.Values))
	}
	sort.Strings(o)
	va := "-"
	if x := v.Variadic(); x != nil {
		va = fmt.Sprintf("%+v", *x)
	}
	return fmt.Sprintf("%v %s (%s) %v %s %v %v %s %d %d", v.URN(), v.CompoundName(), strings.Join(a, ","), o, va, v.Metadata(), len(v.Description()), v.Name(), v.MinArgumentCount(), v.MaxArgumentCount())
}

func c24fns[V ext.FunctionVariant](vs []V, sorted bool) string {
	var s []string
	for _, v := range vs {
		s = append(s, c24fn(v))
	}
	if sorted {
		sort.Strings(s)
	}
	return strings.Join(s, "\n")
}

func (e *c24env) variants() (r []ext.FunctionVariant) {
	names := map[string]string{"scalar": "f d v p n", "aggregate": "f s", "window": "w"}
	if e.def {
		names = map[string]string{"scalar": "add concat coalesce power", "aggregate": "sum", "window": "rank"}
	}
	for _, n := range strings.Fields(names["scalar"]) {
		for _, v := range e.freg.GetScalarFunctionsByName(n) {
			r = append(r, v)
		}
	}
	for _, n := range strings.Fields(names["aggregate"]) {
		for _, v := range e.freg.GetAggregateFunctionsByName(n) {
			r = append(r, v)
		}
	}
	for _, n := range strings.Fields(names["window"]) {
		for _, v := range e.freg.GetWindowFunctionsByName(n) {
			r = append(r, v)
		}
	}
	sort.SliceStable(r, func(i, j int) bool { return r[i].URN()+r[i].CompoundName() < r[j].URN()+r[j].CompoundName() })
	return
}

// c24args are argument type lists for resolving.
func c24args(which int) (r [][]types.Type) {
	n := []types.Nullability{types.NullabilityRequired, types.NullabilityNullable, types.NullabilityRequired}[which]
	p := []int32{10, 10, 20}[which]
	i32, i64, str := &types.Int32Type{Nullability: n}, &types.Int64Type{Nullability: n}, &types.StringType{Nullability: n}
	dec, vc := &types.DecimalType{Precision: p, Scale: p / 5, Nullability: n}, &types.VarCharType{Length: p, Nullability: n}
	return [][]types.Type{{}, {i32}, {i32, i32}, {i64, i64}, {str}, {str, str, str}, {dec}, {dec, dec}, {vc, i32}, {i32, str}, {vc, vc}}
}

func (e *c24env) resolve(which int) string {
	var b strings.Builder
	set := ext.NewSet()
	for _, v := range e.variants() {
		fmt.Fprintf(&b, "\n%s:", v.CompoundName())
		for _, as := range c24args(which) {
			ok, err := v.Match(as)
			fmt.Fprintf(&b, " %v,%v", ok, err == nil)
			if ok {
				t, err := v.ResolveType(as, set)
				fmt.Fprintf(&b, " %v %v;", t, err)
			}
		}
	}
	return b.String()
}

func c24bytes(m proto.Message, err error) string {
	if err != nil {
		return "error " + err.Error()
	}
	return string(c24must(proto.MarshalOptions{Deterministic: true}.Marshal(m)))
}

func c24local[V interface {
	ext.FunctionVariant
	LocalName() string
	Notation() functions.FunctionNotation
	IsOptionSupported(string, string) bool
}](vs []V) string {
	var s []string
	for _, v := range vs {
		s = append(s, fmt.Sprintf("%v %s %v %v %v", v.CompoundName(), v.LocalName(), v.Notation(), v.IsOptionSupported("overflow", "ERROR"), v.IsOptionSupported("overflow", "SILENT")))
	}
	sort.Strings(s)
	return strings.Join(s, "|")
}

func c24lreg(l functions.LocalFunctionRegistry) string {
	var b strings.Builder
	for _, n := range []string{"f", "d", "v", "w", "add", "+", "local_f", "local_d", "local_v", "local_w"} {
		for k := 0; k <= 3; k++ {
			for _, fn := range []functions.FunctionName{functions.SubstraitFunctionName(n), functions.LocalFunctionName(n)} {
				fmt.Fprintf(&b, "%s/%d %s # %s # %s\n", n, k, c24local(l.GetScalarFunctions(fn, k)), c24local(l.GetAggregateFunctions(fn, k)), c24local(l.GetWindowFunctions(fn, k)))
			}
		}
	}
	return b.String() + c24fns(l.GetAllFunctions(), true)
}

func c24ltr(l functions.LocalTypeRegistry) string {
	var b strings.Builder
	for _, n := range []string{"INT", "BIGINT", "TEXT", "NUMERIC(10,2)", "VARCHAR(5)", "DOUBLE", "zz"} {
		t, err := l.GetSubstraitTypeFromLocalType(n)
		fmt.Fprintf(&b, "%s %v %v;", n, t, err == nil)
	}
	for _, t := range []types.Type{&types.Int32Type{}, &types.Int64Type{}, &types.DecimalType{Precision: 10, Scale: 2}, &types.DateType{}} {
		s, err := l.GetLocalTypeFromSubstraitType(t)
		fmt.Fprintf(&b, "%v %s %v %v;", t, s, err == nil, l.IsTypeSupportedInTables(t))
	}
	var k []string
	for n, t := range l.GetSupportedTypes() {
		k = append(k, n+"="+t.String())
	}
	sort.Strings(k)
	return b.String() + fmt.Sprint(k)
}

func c24ids() (r []ext.FunctionID) {
	for _, n := range []string{"f:i32_i32", "f:i32", "f:i64_i64", "s:any", "w:i32", "d:dec_dec", "v:str", "zz:i32", "f", "s", "w", "d", "v", "p", "n", "zz"} {
		r = append(r, ext.FunctionID{URN: c24mc, Name: n}, ext.FunctionID{URN: "extension:mc:b", Name: n})
	}
	for _, n := range []string{"add:i32_i32", "sum:i32", "rank:", "add", "sum0", "any_value", "rank", "ntile", "sqrt"} {
		r = append(r, ext.FunctionID{URN: ext.SubstraitDefaultURNPrefix + "functions_arithmetic", Name: n})
	}
	return
}

func c24eachType(f func(t types.Type) string) func(*c24env) string {
	return func(e *c24env) string {
		var b strings.Builder
		for _, t := range e.types {
			b.WriteString(f(t) + ";")
		}
		return b.String()
	}
}

func c24ops() []c24op {
	var ops []c24op
	add := func(name string, run func(e *c24env) string) { ops = append(ops, c24op{name, run}) }
	add("get", func(e *c24env) string {
		var b strings.Builder
		for _, id := range c24ids() {
			if v, ok := e.coll.GetScalarFunc(id); ok {
				b.WriteString("s " + c24fn(v) + "\n")
			}
			if v, ok := e.coll.GetAggregateFunc(id); ok {
				b.WriteString("a " + c24fn(v) + fmt.Sprint(v.Decomposability(), v.Ordered(), v.MaxSet()) + "\n")
			}
			if v, ok := e.coll.GetWindowFunc(id); ok {
				b.WriteString("w " + c24fn(v) + fmt.Sprint(v.WindowType()) + "\n")
			}
		}
		for _, n := range []string{"point", "pair", "zz"} {
			t, ok := e.coll.GetType(ext.TypeID{URN: c24mc, Name: n})
			fmt.Fprintln(&b, n, ok, t.Name, t.Structure, t.Parameters)
		}
		tv, ok := e.coll.GetTypeVariation(ext.TypeVariationID{URN: c24mc, Name: "tv"})
		fmt.Fprintln(&b, tv, ok, e.coll.URNLoaded(c24mc), e.coll.URNLoaded("zz"), e.coll.GetFileMetadata(c24mc))
		return b.String()
	})
	add("all", func(e *c24env) string {
		return c24fns(e.coll.GetAllScalarFunctions(), true) + c24fns(e.coll.GetAllAggregateFunctions(), true) + c24fns(e.coll.GetAllWindowFunctions(), true)
	})
	add("lookup", func(e *c24env) string {
		var b strings.Builder
		for _, n := range []string{"f", "d", "v", "s", "w", "add", "sum", "zz"} {
			for k := 0; k <= 3; k++ {
				b.WriteString(c24fns(e.freg.GetScalarFunctions(n, k), true) + "#" + c24fns(e.freg.GetAggregateFunctions(n, k), true) + "#" + c24fns(e.freg.GetWindowFunctions(n, k), true) + "\n")
			}
		}
		return b.String()
	})
	add("registry", func(e *c24env) string { return c24fns(functions.NewFunctionRegistry(e.coll).GetAllFunctions(), true) })
	add("allfns", func(e *c24env) string { return c24fns(e.freg.GetAllFunctions(), true) })
	add("resolve-req", func(e *c24env) string { return e.resolve(0) })
	add("resolve-null", func(e *c24env) string { return e.resolve(1) })
	add("resolve-wide", func(e *c24env) string { return e.resolve(2) })
	add("matchat", func(e *c24env) string {
		var b strings.Builder
		for _, v := range e.variants() {
			for p := 0; p < 3; p++ {
				for _, t := range []types.Type{&types.Int32Type{}, &types.StringType{}, &types.DecimalType{Precision: 5, Scale: 1}} {
					ok, err := v.MatchAt(t, p)
					fmt.Fprint(&b, ok, err == nil, " ")
				}
			}
		}
		return b.String()
	})
	add("params", func(e *c24env) string {
		var b strings.Builder
		for _, v := range e.variants() {
			for _, p := range v.Args() {
				t := p.GetTypeExpression()
				fmt.Fprintf(&b, "%v %s;", t, t.ShortString())
				if r, err := t.ReturnType(nil, nil); err == nil {
					fmt.Fprintf(&b, "%v ", r)
				}
				fmt.Fprint(&b, t.HasParameterizedParam(), t.GetParameterizedParams(), t.MatchWithNullability(&types.Int32Type{}), t.MatchWithoutNullability(&types.Int32Type{}))
			}
			if a, ok := v.(*ext.AggregateFunctionVariant); ok {
				i, err := a.Intermediate()
				fmt.Fprint(&b, i, err)
			}
		}
		return b.String()
	})
	add("localize", func(e *c24env) string {
		l, err := e.dial.LocalizeFunctionRegistry(e.freg)
		if err != nil {
			return err.Error()
		}
		return c24lreg(l)
	})
	add("localtypes", func(e *c24env) string {
		l, err := e.dial.GetLocalTypeRegistry()
		if err != nil {
			return err.Error()
		}
		return c24ltr(l)
	})
	add("localizetypes", func(e *c24env) string {
		l, err := e.dial.LocalizeTypeRegistry(functions.NewTypeRegistry())
		if err != nil {
			return err.Error()
		}
		return c24ltr(l)
	})
	add("locallookup", func(e *c24env) string { return c24lreg(e.lreg) })
	add("typenames", func(e *c24env) string { return c24ltr(e.ltr) })
	add("invoke", func(e *c24env) string {
		reg := expr.NewEmptyExtensionRegistry(e.coll)
		var b strings.Builder
		for _, id := range c24ids() {
			for _, as := range [][]types.FuncArg{{}, {literal.NewInt32(1, false)}, {literal.NewInt32(1, true), literal.NewInt32(2, false)}, {e.lits[0], e.lits[0]}} {
				opts := []*types.FunctionOption{{Name: "overflow", Preference: []string{"ERROR"}}}
				if s, err := expr.NewScalarFunc(reg, id, opts, as...); err == nil {
					fmt.Fprintln(&b, s, s.GetType(), c24bytes(s.ToProto(), nil))
					if l, err := e.lreg.GetScalarFunctionByInvocation(s); err == nil {
						fmt.Fprintln(&b, l.LocalName())
					}
				}
				if a, err := expr.NewAggregateFunc(reg, id, opts, types.AggInvocationAll, types.AggPhaseInitialToResult, nil, as...); err == nil {
					fmt.Fprintln(&b, a, a.GetType(), c24bytes(a.ToProto(), nil))
					if l, err := e.lreg.GetAggregateFunctionByInvocation(a); err == nil {
						fmt.Fprintln(&b, l.LocalName())
					}
				}
			}
		}
		return b.String()
	})
	add("types-null", c24eachType(func(t types.Type) string {
		return fmt.Sprint(t.WithNullability(types.NullabilityNullable), t.WithNullability(types.NullabilityRequired), t)
	}))
	add("types-variation", c24eachType(func(t types.Type) string {
		return fmt.Sprint(t.GetTypeVariationReference(), t.Equals(t), t.GetParameters())
	}))
	add("types-text", c24eachType(func(t types.Type) string {
		return fmt.Sprint(t, t.ShortString(), t.GetNullability(), len(t.GetParameters()))
	}))
	add("types-proto", c24eachType(func(t types.Type) string {
		if t == types.CommonEnumType {
			return ""
		}
		return c24bytes(types.TypeToProto(t), nil)
	}))
	add("types-record", func(e *c24env) string {
		r := e.rec.Concat(*types.NewRecordTypeFromTypes(e.types[1:3]))
		r2 := e.rec.Concat(*types.NewRecordTypeFromTypes(e.types[3:4]))
		s := e.rec.AsStructType()
		s.Nullability = types.NullabilityNullable
		return fmt.Sprint(r.String(), r2.String(), s, e.rec)
	})
	add("types-name", func(e *c24env) string {
		var b strings.Builder
		for _, n := range []types.TypeName{types.TypeNameI32, types.TypeNameString, types.TypeNameDate, types.TypeNameIntervalYear} {
			t := c24must(types.SimpleTypeNameToType(n))
			fmt.Fprint(&b, t, t.WithNullability(types.NullabilityNullable), c24must(types.SimpleTypeNameToType(n)))
		}
		for _, n := range []types.TypeName{types.TypeNameVarChar, types.TypeNameFixedChar} {
			f := c24must(types.FixedTypeNameToType(n))
			fmt.Fprint(&b, f.WithLength(5), f, c24must(types.FixedTypeNameToType(n)).WithLength(7))
		}
		return b.String()
	})
	add("parse-types", func(e *c24env) string {
		var b strings.Builder
		for _, s := range []string{"i32?", "list<decimal<P,S>?>", "struct<any1, varchar<L>>", "q = P + 1\ndecimal<q,S>"} {
			t, err := tparser.ParseType(s)
			fmt.Fprint(&b, t, err)
		}
		return b.String()
	})
	add("literals", func(e *c24env) string {
		var b strings.Builder
		for i, l := range e.lits {
			fmt.Fprint(&b, l, l.GetType(), l.ValueString(), c24bytes(l.ToProtoLiteral(), nil), l.Equals(e.lits[(i+1)%len(e.lits)]))
			if w, ok := l.(expr.WithTypeLiteral); ok {
				x, err := w.WithType(l.GetType().WithNullability(types.NullabilityNullable))
				fmt.Fprint(&b, x, err)
			}
		}
		return b.String()
	})
	add("expr-read", func(e *c24env) string {
		var b strings.Builder
		for i, x := range e.exprs {
			fmt.Fprint(&b, x, x.GetType(), x.IsScalar(), c24bytes(x.ToProto(), nil), x.Equals(e.exprs[(i+1)%len(e.exprs)]))
		}
		return b.String()
	})
	add("expr-rewrite", func(e *c24env) string {
		var b strings.Builder
		for _, x := range e.exprs {
			n := 0
			var visit expr.VisitFunc
			visit = func(y expr.Expression) expr.Expression {
				n++
				if l, ok := y.(*expr.PrimitiveLiteral[int32]); ok {
					return expr.NewPrimitiveLiteral(l.Value+1, false)
				}
				return y.Visit(visit)
			}
			y := x.Visit(visit)
			fmt.Fprint(&b, n, y, x, c24bytes(y.ToProto(), nil))
		}
		return b.String()
	})
	add("plan-read", func(e *c24env) string {
		p, err := plan.FromProto(e.msg, e.coll)
		if err != nil {
			return err.Error()
		}
		return c24bytes(p.ToProto()) + p.GetRoots()[0].RecordType().String()
	})
	add("plan-write", func(e *c24env) string { return c24bytes(e.plan.ToProto()) })
	add("plan-schema", func(e *c24env) string {
		var b strings.Builder
		c24walk(e.plan.GetRoots()[0].Input(), func(r plan.Rel) {
			rt := r.RecordType()
			fmt.Fprintf(&b, "%T %s %v;", r, rt.String(), r.OutputMapping())
		})
		rt := e.plan.GetRoots()[0].RecordType()
		fmt.Fprint(&b, rt.String(), e.plan.Version(), e.plan.ExpectedTypeURLs())
		reg := e.plan.ExtensionRegistry()
		for i := uint32(0); i < 5; i++ {
			if f, ok := reg.LookupScalarFunction(i); ok {
				fmt.Fprint(&b, c24fn(f))
			}
			if f, ok := reg.LookupAggregateFunction(i); ok {
				fmt.Fprint(&b, c24fn(f))
			}
		}
		return b.String()
	})
	add("plan-rewrite", func(e *c24env) string {
		var b strings.Builder
		c24walk(e.plan.GetRoots()[0].Input(), func(r plan.Rel) {
			c, err := r.CopyWithExpressionRewrite(func(x expr.Expression) (expr.Expression, error) {
				if l, ok := x.(*expr.PrimitiveLiteral[bool]); ok {
					return expr.NewPrimitiveLiteral(!l.Value, false), nil
				}
				return x, nil
			}, r.GetInputs()...)
			if err != nil {
				b.WriteString(err.Error())
				return
			}
			fmt.Fprint(&b, c24bytes(c.ToProto(), nil))
			if c, err = r.Copy(r.GetInputs()...); err == nil {
				fmt.Fprint(&b, c24bytes(c.ToProto(), nil))
			}
		})
		return b.String()
	})
	add("plan-remap", func(e *c24env) string {
		var b strings.Builder
		c24walk(e.plan.GetRoots()[0].Input(), func(r plan.Rel) {
			c, err := r.Remap(1, 0)
			if err != nil {
				b.WriteString(err.Error())
				return
			}
			rt, old := c.RecordType(), r.RecordType()
			fmt.Fprint(&b, rt.String(), old.String(), c.OutputMapping())
		})
		return b.String()
	})
	add("plan-extend", func(e *c24env) string {
		b := plan.NewBuilder(e.coll)
		rel := e.plan.GetRoots()[0].Input()
		p, err := b.Project(rel, c24must(b.RootFieldRef(rel, 1)))
		if err != nil {
			return err.Error()
		}
		j, err := b.Cross(p, rel)
		if err != nil {
			return err.Error()
		}
		rt := j.RecordType()
		f := c24must(b.Filter(j, expr.NewPrimitiveLiteral(true, false)))
		return rt.String() + c24bytes(f.ToProto(), nil)
	})
	add("plan-build", func(e *c24env) string { return c24bytes(c24build(e.coll).ToProto()) })
	add("testcase", func(e *c24env) string {
		f, err := tcparser.ParseTestCasesFromString("### SUBSTRAIT_SCALAR_TEST: v1.0\n### SUBSTRAIT_INCLUDE: '/extensions/functions_arithmetic.yaml'\n\n# g\nadd(1::i32, 2::i32?) [overflow:ERROR] = 3::i32?\nadd([1]::list<i8>, 'a'::str) = <!ERROR>\n")
		if err != nil {
			return err.Error()
		}
		var b strings.Builder
		reg := expr.NewEmptyExtensionRegistry(e.coll)
		for _, tc := range f.TestCases {
			inv, err := tc.GetScalarFunctionInvocation(&reg, e.freg)
			fmt.Fprint(&b, tc, inv, err == nil)
		}
		return b.String()
	})
	add("set", func(e *c24env) string {
		set, err := ext.GetExtensionSet(e.msg, e.coll)
		if err != nil {
			return err.Error()
		}
		var b strings.Builder
		for i := uint32(0); i < 6; i++ {
			if f, ok := set.LookupScalarFunction(i, e.coll); ok {
				fmt.Fprint(&b, i, c24fn(f))
			}
			if f, ok := set.LookupAggregateFunction(i, e.coll); ok {
				fmt.Fprint(&b, i, c24fn(f))
			}
		}
		for _, id := range c24ids() {
			fmt.Fprint(&b, set.GetFuncAnchor(id), " ")
		}
		u, d := set.ToProto(e.coll)
		return b.String() + fmt.Sprint(len(u), len(d))
	})
	return ops
}

// c24alone is the result of each operation on objects nobody else uses.
func c24alone(def bool, ops []c24op) (r []string) {
	for _, o := range ops {
		r = append(r, o.run(c24new(def)))
	}
	return
}

func c24order(c *Ctx, ops []c24op, alone []string, def bool, seqs [][]int) {
	kind := "small"
	if def {
		kind = "default"
	}
	for _, s := range seqs {
		c.Case(func(t *T) {
			e := c24new(def)
			for k, i := range s {
				t.Trans(1)
				var r string
				if p := catch(func() { r = ops[i].run(e) }); p != "" {
					r = p
				}
				if r != alone[i] {
					t.Failf("%s: %s after %s gives\n  %s\nalone it gives\n  %s", kind, ops[i].name, c24names(ops, s[:k]), c24diff(r, alone[i]), c24diff(alone[i], r))
					return
				}
			}
			t.State(kind + c24names(ops, s))
			t.Outcome(ops[s[len(s)-1]].name)
		}, "order", kind, c24names(ops, s))
	}
}

func c24names(ops []c24op, s []int) string {
	var r []string
	for _, i := range s {
		r = append(r, ops[i].name)
	}
	return strings.Join(r, ",")
}

// c24diff is the part of a around the first difference to b.
func c24diff(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	from := max(0, i-80)
	return fmt.Sprintf("%q", a[from:min(len(a), i+160)])
}

// c24pair runs operations concurrently.
func c24pair(t *T, ops []c24op, alone []string, def bool, ix []int, rounds int) {
	for r := 0; r < rounds; r++ {
		e := c24new(def)
		start := make(chan bool)
		done := make(chan bool)
		res := make([]string, len(ix))
		before := raceErrors()
		for k := range ix {
			k := (k + r) % len(ix)
			go func() {
				<-start
				if p := catch(func() { res[k] = ops[ix[k]].run(e) }); p != "" {
					res[k] = p
				}
				done <- true
			}()
		}
		close(start)
		for range ix {
			<-done
		}
		t.Trans(len(ix))
		if n := raceErrors() - before; n > 0 {
			t.Failf("%s: %d data races: %s", c24names(ops, ix), n, c24report())
			return
		}
		for k, i := range ix {
			if res[k] != alone[i] {
				t.Failf("%s: %s gives\n  %s\nalone\n  %s", c24names(ops, ix), ops[i].name, c24diff(res[k], alone[i]), c24diff(alone[i], res[k]))
				return
			}
		}
	}
	t.Validated()
}

// c24report is the latest report of the race detector: the library's places in it.
func c24report() string {
	log := os.Getenv("MC_RACELOG")
	b, err := os.ReadFile(fmt.Sprintf("%s.%d", log, os.Getpid()))
	if err != nil {
		return "no report"
	}
	s := string(b)
	if i := strings.LastIndex(s, "WARNING: DATA RACE"); i >= 0 {
		s = s[i:]
	}
	var r []string
	for _, l := range strings.Split(s, "\n") {
		l = strings.TrimSpace(l)
		if strings.Contains(l, ".go:") && !strings.Contains(l, "/c24") || strings.HasPrefix(l, "Write at") || strings.HasPrefix(l, "Previous") || strings.HasPrefix(l, "Read at") {
			l, _, _ = strings.Cut(l, " +0x")
			if i := strings.Index(l, " at 0x"); i >= 0 {
				l = l[:i]
			}
			r = append(r, l)
		}
		if len(r) > 16 || strings.HasPrefix(l, "Goroutine") {
			break
		}
	}
	return strings.Join(r, " < ")
}

// c24chunks is how many processes share the schedules of a mode.
const c24chunks = 16

// c24schedOut is what a process of the instrumented build reports.
type c24schedOut struct {
	Schedules, Points, Blocked int64
	Failures                   []string
}

func runC24(c *Ctx) {
	ops := c24ops()
	alone := map[bool][]string{}
	for _, def := range []bool{false, true} {
		alone[def] = c24alone(def, ops)
	}
	n := len(ops)
	c.Case(func(t *T) {
		for def, r := range alone {
			for i, s := range c24alone(def, ops) {
				if s != r[i] {
					t.Failf("%s differs between two runs on fresh objects:\n  %s\n  %s", ops[i].name, c24diff(s, r[i]), c24diff(r[i], s))
				}
				if s == "" || strings.HasPrefix(s, "panic") || strings.Contains(s, "0xc0") {
					t.Failf("harness: %s gives %q", ops[i].name, s[max(0, strings.Index(s, "0xc0")-100):])
				}
			}
		}
	}, "alone")
	// orders
	var two, three [][]int
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			two = append(two, []int{i, j, i})
			for k := 0; k < n; k++ {
				if c.Thorough && k != i {
					three = append(three, []int{i, j, k})
				}
			}
		}
	}
	var long []int
	for i := 0; i < n; i++ {
		long = append(long, i)
	}
	for i := n - 1; i >= 0; i-- {
		long = append(long, i)
	}
	for _, def := range []bool{false, true} {
		c24order(c, ops, alone[def], def, [][]int{long})
		c24order(c, ops, alone[def], def, two)
	}
	c24order(c, ops, alone[false], false, three)
	// concurrently
	rounds := 2
	if c.Thorough {
		rounds = 6
	}
	for _, def := range []bool{false, true} {
		for i := 0; i < n; i++ {
			for j := i; j < n; j++ {
				c.Case(func(t *T) { c24pair(t, ops, alone[def], def, []int{i, j}, rounds) }, "race", def, ops[i].name, ops[j].name)
			}
			c.Case(func(t *T) { c24pair(t, ops, alone[def], def, []int{i, i, i, (i + 1) % n, (i + 7) % n}, rounds) }, "race5", def, ops[i].name)
		}
	}
	objs := c24objs(c.Thorough)
	for k := 0; k < len(objs); k += 8 {
		c.Case(func(t *T) {
			for _, o := range objs[k:min(len(objs), k+8)] {
				c24share(t, o)
			}
		}, "share", k, objs[k].kind, objs[k].id)
	}
	// the first use of the default collection, in processes of their own
	for k := 0; k < 8; k++ {
		c.Case(func(t *T) {
			t.Trans(4)
			cmd := exec.Command(os.Args[0], "-c24first", fmt.Sprint(k))
			out, err := cmd.CombinedOutput()
			if err != nil || !strings.HasSuffix(string(out), "fine\n") {
				t.Failf("concurrent first uses of the default collection: %v %s", err, clip(string(out), 1500))
			}
		}, "first", k)
	}
	// preempted at every statement
	bin := os.Getenv("MC_SCHED")
	for i := 0; i < n; i++ {
		for part := 0; part < 2+2*c24chunks; part++ {
			mode, chunk := part, 0
			if part > 1 {
				mode, chunk = 2+(part-2)/c24chunks, (part-2)%c24chunks
			}
			if mode > 0 && !c.Thorough {
				continue
			}
			c.Case(func(t *T) {
				cmd := exec.Command(bin, "-c24sched", fmt.Sprint(i), fmt.Sprintf("%d/%d", mode, chunk), c.Tier)
				b, err := cmd.Output()
				var o c24schedOut
				if err != nil || json.Unmarshal(b, &o) != nil {
					msg := ""
					if x, ok := err.(*exec.ExitError); ok {
						msg = string(x.Stderr[max(0, len(x.Stderr)-1500):])
					}
					t.Failf("%s preempted: process ends with %v %s %s", ops[i].name, err, clip(string(b), 300), msg)
					return
				}
				t.Trans(int(o.Schedules))
				for k := int64(0); k < o.Points; k++ {
					t.State(fmt.Sprint("sched", i, mode, chunk, k))
				}
				if o.Blocked > 0 {
					t.Note("schedules in which a user had to wait for a lock")
				}
				for _, f := range o.Failures {
					t.Failf("%s", f)
				}
			}, "sched", ops[i].name, mode, chunk)
		}
	}
}

func init() {
	if len(os.Args) == 3 && os.Args[1] == "-c24first" {
		k := int(os.Args[2][0] - '0')
		before := raceErrors()
		start, done := make(chan bool), make(chan string)
		for g := 0; g < 4; g++ {
			go func() {
				<-start
				coll, err := ext.GetDefaultCollection()
				if err != nil {
					done <- err.Error()
					return
				}
				if (g+k)%2 == 0 {
					done <- fmt.Sprintf("%p", coll) + fmt.Sprint(len(functions.NewFunctionRegistry(coll).GetAllFunctions()), coll.URNLoaded(ext.SubstraitDefaultURNPrefix+"functions_arithmetic"))
				} else {
					done <- fmt.Sprintf("%p", coll) + fmt.Sprint(len(coll.GetAllScalarFunctions())+len(coll.GetAllAggregateFunctions())+len(coll.GetAllWindowFunctions()), coll.URNLoaded(ext.SubstraitDefaultURNPrefix+"functions_arithmetic"))
				}
			}()
		}
		close(start)
		r := map[string]bool{}
		for g := 0; g < 4; g++ {
			r[<-done] = true
		}
		if len(r) != 1 {
			fmt.Println("different results", r)
			os.Exit(1)
		}
		if raceErrors() != before {
			fmt.Println("data races", c24report())
			os.Exit(1)
		}
		fmt.Println("fine")
		os.Exit(0)
	}
}

// c24obj is an object of which several users share one instance.
type c24obj struct {
	kind, id string
	make     func() any
	ops      []c24objOp
}

type c24objOp struct {
	name string
	run  func(any) string
}

func c24relOps() []c24objOp {
	f := func(n string, g func(r plan.Rel) string) c24objOp {
		return c24objOp{n, func(a any) string { return g(a.(plan.Rel)) }}
	}
	same := func(x expr.Expression) (expr.Expression, error) { return x, nil }
	other := func(x expr.Expression) (expr.Expression, error) {
		if x == nil {
			return nil, nil
		}
		if _, ok := x.(*expr.FieldReference); ok || !x.GetType().WithNullability(types.NullabilityRequired).Equals(&types.BooleanType{Nullability: types.NullabilityRequired}) {
			return x, nil
		}
		return expr.NewPrimitiveLiteral(true, false), nil
	}
	copied := func(r plan.Rel, err error) string {
		if err != nil {
			return err.Error()
		}
		return c24bytes(r.ToProto(), nil)
	}
	return []c24objOp{
		f("schema", func(r plan.Rel) string {
			rt := r.RecordType()
			return fmt.Sprint(rt.String(), r.OutputMapping(), r.Hint(), len(r.GetInputs()))
		}),
		f("write", func(r plan.Rel) string { return c24bytes(r.ToProto(), nil) + c24bytes(r.ToProtoPlanRel(), nil) }),
		f("copy", func(r plan.Rel) string { return copied(r.Copy(r.GetInputs()...)) }),
		f("rewrite", func(r plan.Rel) string { return copied(r.CopyWithExpressionRewrite(other, r.GetInputs()...)) }),
		f("rewrite-same", func(r plan.Rel) string { return copied(r.CopyWithExpressionRewrite(same, r.GetInputs()...)) }),
		f("remap", func(r plan.Rel) string {
			n := len(r.RecordType().Types())
			if n == 0 {
				return "empty"
			}
			m := make([]int32, n)
			for i := range m {
				m[i] = int32(n - 1 - i)
			}
			c, err := r.Remap(m...)
			if err != nil {
				return err.Error()
			}
			rt := c.RecordType()
			return rt.String() + c24bytes(c.ToProto(), nil)
		}),
		f("build", func(r plan.Rel) string {
			b := plan.NewBuilder(defColl())
			p, err := b.Fetch(r, 0, 1)
			if err != nil {
				return err.Error()
			}
			x, err := b.Cross(p, r)
			if err != nil {
				return err.Error()
			}
			return copied(x, nil)
		}),
	}
}

func c24exprOps() []c24objOp {
	f := func(n string, g func(x expr.Expression) string) c24objOp {
		return c24objOp{n, func(a any) string { return g(a.(expr.Expression)) }}
	}
	return []c24objOp{
		f("text", func(x expr.Expression) string { return x.String() }),
		f("type", func(x expr.Expression) string {
			ty := x.GetType()
			if ty == nil {
				return fmt.Sprint(x.IsScalar())
			}
			return fmt.Sprint(ty, x.IsScalar(), ty.WithNullability(types.NullabilityNullable), c24bytes(types.TypeToProto(ty), nil))
		}),
		f("write", func(x expr.Expression) string {
			return c24bytes(x.ToProto(), nil) + c24bytes(x.ToProtoFuncArg(), nil)
		}),
		f("equal", func(x expr.Expression) string {
			return fmt.Sprint(x.Equals(x), x.Equals(expr.NewPrimitiveLiteral(int32(99), false)))
		}),
		f("visit", func(x expr.Expression) string {
			n := 0
			var v expr.VisitFunc
			v = func(y expr.Expression) expr.Expression { n++; return y.Visit(v) }
			y := x.Visit(v)
			return fmt.Sprint(n, y == x, y)
		}),
		f("rewrite", func(x expr.Expression) string {
			var v expr.VisitFunc
			v = func(y expr.Expression) expr.Expression {
				if l, ok := y.(*expr.PrimitiveLiteral[int32]); ok {
					return expr.NewPrimitiveLiteral(l.Value+1, l.GetType().GetNullability() == types.NullabilityNullable)
				}
				return y.Visit(v)
			}
			return c24bytes(v(x).ToProto(), nil)
		}),
	}
}

func c24litOps() []c24objOp {
	f := func(n string, g func(x expr.Literal) string) c24objOp {
		return c24objOp{n, func(a any) string { return g(a.(expr.Literal)) }}
	}
	return []c24objOp{
		f("text", func(x expr.Literal) string { return x.String() + x.ValueString() }),
		f("value", func(x expr.Literal) string {
			if l, ok := x.(interface{ IsoValueString() string }); ok {
				return l.IsoValueString()
			}
			return x.ValueString()
		}),
		f("write", func(x expr.Literal) string {
			return c24bytes(x.ToProto(), nil) + c24bytes(x.ToProtoLiteral(), nil)
		}),
		f("equal", func(x expr.Literal) string { return fmt.Sprint(x.Equals(x), x.GetType(), x.IsScalar()) }),
		f("visit", func(x expr.Literal) string {
			return x.Visit(func(y expr.Expression) expr.Expression { return y }).String()
		}),
		f("retype", func(x expr.Literal) string {
			w, ok := x.(expr.WithTypeLiteral)
			if !ok {
				return "no"
			}
			y, err := w.WithType(x.GetType().WithNullability(types.NullabilityNullable))
			if err != nil {
				return err.Error()
			}
			return y.String() + c24bytes(y.ToProtoLiteral(), nil)
		}),
	}
}

func c24typeOps() []c24objOp {
	f := func(n string, g func(x types.Type) string) c24objOp {
		return c24objOp{n, func(a any) string { return g(a.(types.Type)) }}
	}
	return []c24objOp{
		f("text", func(x types.Type) string { return x.String() + x.ShortString() }),
		f("write", func(x types.Type) string {
			return c24bytes(types.TypeToProto(x), nil) + c24bytes(x.ToProtoFuncArg(), nil)
		}),
		f("equal", func(x types.Type) string {
			return fmt.Sprint(x.Equals(x), x.GetNullability(), x.GetTypeVariationReference())
		}),
		f("nullable", func(x types.Type) string { return x.WithNullability(types.NullabilityNullable).String() }),
		f("required", func(x types.Type) string { return x.WithNullability(types.NullabilityRequired).String() }),
		f("unspecified", func(x types.Type) string { return x.WithNullability(types.NullabilityUnspecified).String() }),
		f("parameters", func(x types.Type) string { return fmt.Sprint(len(x.GetParameters()), x.GetType()) }),
		f("record", func(x types.Type) string {
			r := types.NewRecordTypeFromTypes([]types.Type{x, x})
			return fmt.Sprint(r.Concat(*r), r.AsStructType())
		}),
	}
}

// c24objs are the objects to share.
func c24objs(thorough bool) (r []c24obj) {
	rops, xops, lops, tops := c24relOps(), c24exprOps(), c24litOps(), c24typeOps()
	rels, exprs := relUniverse(1), exprUniverse(1)
	if thorough {
		other := relNamed("b", relColsB()...)
		for k, p := range rels[:len(rels):len(rels)] {
			if undecoded(p.r) && commonOf(p.r).GetEmit() != nil {
				continue
			}
			for i, m := range relMakers() {
				if (i+k)%6 != 0 {
					continue
				}
				switch m.arity {
				case 1:
					v := applyMaker(m, p.r)
					rels = append(rels, prel{fmt.Sprint(i, "(", p.id, ")"), v[len(p.id)%len(v)].r})
				case 2:
					v := applyMaker(m, p.r, other)
					rels = append(rels, prel{fmt.Sprint(i, "(", p.id, ")"), v[len(p.id)%len(v)].r})
				}
			}
		}
		for _, p := range exprs[:len(exprs):len(exprs)] {
			exprs = append(exprs, px{"cast " + p.id, xCast(p.e, leafT("string", nNul, 0), pb.Expression_Cast_FAILURE_BEHAVIOR_RETURN_NULL)}, px{"list " + p.id, xNestList(true, 3, p.e, p.e)}, px{"call " + p.id, xScalar(11, tI32(nReq), nil, argV(p.e), argV(p.e))})
		}
	}
	for _, p := range rels {
		if undecoded(p.r) && commonOf(p.r).GetEmit() != nil {
			continue
		}
		r = append(r, c24obj{"relation", p.id, func() any { return c24must(plan.RelFromProto(cloneRel(p.r), relReg())) }, rops})
	}
	base := recordOf(baseCols())
	for _, p := range exprs {
		r = append(r, c24obj{"expression", p.id, func() any {
			return c24must(expr.ExprFromProto(proto.Clone(p.e).(*pb.Expression), base, stdReg()))
		}, xops})
	}
	for _, l := range leafLits() {
		r = append(r, c24obj{"literal", l.name, func() any { return expr.LiteralFromProto(l.mk()) }, lops})
		for k, w := range []func() *pb.Expression_Literal{func() *pb.Expression_Literal { return litList(l.mk(), l.mk()) }, func() *pb.Expression_Literal { return litStruct(l.mk(), lI32(1)) }, func() *pb.Expression_Literal { return litMap(lI32(1), l.mk()) }} {
			r = append(r, c24obj{"literal", fmt.Sprint(l.name, " in ", k), func() any { return expr.LiteralFromProto(w()) }, lops})
		}
	}
	for _, p := range typeUniverse(thorough) {
		r = append(r, c24obj{"type", p.id, func() any { return types.TypeFromProto(proto.Clone(p.p).(*pb.Type)) }, tops})
	}
	return
}

// c24share lets users share an object: every order and every pair at once.
func c24share(t *T, o c24obj) {
	n := len(o.ops)
	alone := make([]string, n)
	run := func(i int, a any) (s string) {
		if p := catch(func() { s = o.ops[i].run(a) }); p != "" {
			s = p
		}
		return
	}
	for i := range o.ops {
		alone[i] = run(i, o.make())
	}
	seq := o.make()
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			t.Trans(2)
			for _, k := range []int{i, j} {
				if r := run(k, seq); r != alone[k] {
					t.Failf("%s %s: %s after the others gives\n  %s\nalone\n  %s", o.kind, o.id, o.ops[k].name, c24diff(r, alone[k]), c24diff(alone[k], r))
					return
				}
			}
		}
	}
	for i := 0; i < n; i++ {
		for j := i; j < n; j++ {
			a := o.make()
			before := raceErrors()
			var res [2]string
			start, done := make(chan bool), make(chan bool)
			for k, op := range []int{i, j} {
				go func() {
					<-start
					res[k] = run(op, a)
					done <- true
				}()
			}
			close(start)
			<-done
			<-done
			t.Trans(2)
			if n := raceErrors() - before; n > 0 {
				t.Failf("%s %s: %s with %s: %d data races: %s", o.kind, o.id, o.ops[i].name, o.ops[j].name, n, c24report())
				return
			}
			for k, op := range []int{i, j} {
				if res[k] != alone[op] {
					t.Failf("%s %s: %s with %s gives\n  %s\nalone\n  %s", o.kind, o.id, o.ops[op].name, o.ops[i+j-op].name, c24diff(res[k], alone[op]), c24diff(alone[op], res[k]))
					return
				}
			}
		}
	}
	t.State(o.kind + o.id)
	t.Validated()
}
