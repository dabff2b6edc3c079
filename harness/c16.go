// C16: dialects expose exactly their functions; C17: dialect types translate both ways.
package main

import (
	"fmt"
	"slices"
	"sort"
	"strings"

	"github.com/goccy/go-yaml"
	"github.com/substrait-io/substrait-go/v8/expr"
	ext "github.com/substrait-io/substrait-go/v8/extensions"
	"github.com/substrait-io/substrait-go/v8/functions"
	"github.com/substrait-io/substrait-go/v8/types"
	pb "github.com/substrait-io/substrait-protobuf/go/substraitpb"
)

func init() {
	checks["C16"] = &Check{Run: runC16, Quick: 250, Thorough: 850, Shards: 16,
		Bounds: "dialects of up to 123 entries and 56 kernels an entry over a large extension file, and dialects over a collection of two extension files (3 kinds, names shared across kinds, files and with local names, any, variadic and argument-free functions): all lists of up to 2 (thorough 3) function entries over 77 entry forms, each localised 4 times; every lookup by every name as local and as Substrait name x argument counts 0..6, twice in both orders; every function of the collection invoked x 4 argument type lists x 6 option lists; supported types; every place of a rich dialect replaced by 14 other values or removed, and the dialect cut at every byte",
		Assume: []string{"kernels of enumeration, nested and user-defined arguments are not accepted by dialects and not declared here", "one dialect does not declare a kernel twice", "a variadic function may be found under its declared number of parameters even when that many arguments are too few", "an option that the dialect does not declare is unsupported"}}
}

var c16A = M{"urn": "extension:mc:a", "scalar_functions": L{
	c15fn("f", c15impl("i32", "i32"), c15impl("i64", "i64"), c15impl("any1", "any1")),
	c15fn("g", c15impl("i32"), c15impl("decimal<P,S>", "varchar<L>")),
	c15fn("v", c16var(c15impl("i32"), 2, 3), c16var(c15impl("i32", "string"), 0, 2), c16var(c15impl("i64", "i64", "any1"), 1, 0)),
	c15fn("n", c15impl())},
	"aggregate_functions": L{c15fn("f", c16agg(c15impl("i32", "i32"))), c15fn("s", c16agg(c15impl("i32")), c16agg(c15impl("any")))},
	"window_functions":    L{c15fn("w", c16agg(c15impl("i32")), c16agg(c15impl())), c15fn("f", c16agg(c15impl("i64", "i64")))}}
var c16B = M{"urn": "extension:mc:b", "scalar_functions": L{
	c15fn("f", c15impl("i32", "i32"), c15impl("string")),
	c15fn("plus", c15impl("i32", "i32"))},
	"aggregate_functions": L{c15fn("s", c16agg(c15impl("i64")))}}

func c16var(im M, min, max int) M {
	im["variadic"] = M{"min": min, "max": max}
	return im
}
func c16agg(im M) M {
	im["intermediate"] = "i64"
	return im
}

// c16decl is a function entry of a dialect.
type c16decl struct {
	kind, dep, name, local, notation string
	kernels                          []string
	opts                             map[string]string
}

var c16deps = map[string]string{"da": "extension:mc:a", "db": "extension:mc:b", "dc": "extension:mc:c", "dz": "extension:mc:z"}

// c16C is a large extension file: functions of many signatures, and many functions.
var c16C = func() M {
	var sigs [][]string
	leaf := []string{"i32", "i64", "string"}
	for _, a := range leaf {
		sigs = append(sigs, []string{a})
		for _, b := range leaf {
			sigs = append(sigs, []string{a, b})
			for _, d := range leaf {
				sigs = append(sigs, []string{a, b, d})
			}
		}
	}
	for n := 4; n <= 20; n++ {
		var x []string
		for i := 0; i < n; i++ {
			x = append(x, leaf[i%3])
		}
		sigs = append(sigs, x)
	}
	r := M{"urn": c16deps["dc"]}
	for ki, k := range []string{"scalar", "aggregate", "window"} {
		im := func(a ...string) M {
			m := c15impl(a...)
			if ki > 0 {
				m = c16agg(m)
			}
			return m
		}
		var all L
		for _, x := range sigs {
			all = append(all, im(x...))
		}
		l := L{c15fn([]string{"m", "ma", "mw"}[ki], all...)}
		for i := 0; i < 40; i++ {
			l = append(l, c15fn(fmt.Sprint("m", "saw"[ki:ki+1], i), im("i32", "i32"), im("i64")))
		}
		r[k+"_functions"] = l
	}
	return r
}()

func (d c16decl) doc() M {
	m := M{"name": d.dep + "." + d.name}
	if d.local != "" {
		m["local_name"] = d.local
	}
	if strings.Contains(d.notation, "infix") {
		m["infix"] = true
	}
	if strings.Contains(d.notation, "postfix") {
		m["postfix"] = true
	}
	l := L{}
	for _, k := range d.kernels {
		l = append(l, k)
	}
	m["supported_kernels"] = l
	if d.opts != nil {
		o := M{}
		for k, v := range d.opts {
			o[k] = v
		}
		m["required_options"] = o
	}
	return m
}

func (d c16decl) text() string { return d.kind + c15json(d.doc()) }

func c16types() M {
	return M{"i32": M{"sql_type_name": "INT"}, "i64": M{"sql_type_name": "BIGINT", "supported_as_column": true}, "str": M{"sql_type_name": "TEXT"}, "dec": M{"sql_type_name": "NUMERIC"}, "varchar": M{"sql_type_name": "VARCHAR"}}
}

func c16dialect(ds []c16decl) M {
	r := M{"name": "d", "type": "sql", "supported_types": c16types(), "dependencies": M{"da": c16deps["da"], "db": c16deps["db"], "dc": c16deps["dc"], "dz": c16deps["dz"]}}
	for _, k := range []string{"scalar", "aggregate", "window"} {
		l := L{}
		for _, d := range ds {
			if d.kind == k {
				l = append(l, d.doc())
			}
		}
		if len(l) > 0 {
			r[k+"_functions"] = l
		}
	}
	return r
}

// known: the signatures of the two extension files with their argument counts.
type c16fn struct {
	kind, urn, name, sig string
	n                    int
	variadic             bool
	min, max             int
}

func c16known(docs ...M) (r []c16fn) {
	if docs == nil {
		docs = []M{c16A, c16B}
	}
	for _, doc := range docs {
		for _, kind := range []string{"scalar", "aggregate", "window"} {
			l, _ := doc[kind+"_functions"].(L)
			for _, f := range l {
				fm := f.(M)
				for _, im := range fm["impls"].(L) {
					m := im.(M)
					var s []string
					for _, a := range m["args"].(L) {
						s = append(s, c15argShort(a))
					}
					k := c16fn{kind: kind, urn: doc["urn"].(string), name: fm["name"].(string), sig: strings.Join(s, "_"), n: len(s)}
					if v, ok := m["variadic"].(M); ok {
						k.variadic, k.min, k.max = true, v["min"].(int), v["max"].(int)
					}
					r = append(r, k)
					if kind == "aggregate" {
						k.kind = "window"
						r = append(r, k)
					}
				}
			}
		}
	}
	return r
}

func (k c16fn) id() ext.FunctionID { return ext.FunctionID{URN: k.urn, Name: k.name + ":" + k.sig} }

// takes: can it be called with n arguments.
func (k c16fn) takes(n int) int {
	if !k.variadic || k.n == 0 {
		if n == k.n {
			return yes
		}
		return no
	}
	x := n - (k.n - 1)
	if x >= 0 && x >= k.min && (k.max == 0 || x <= k.max) {
		return yes
	}
	if n == k.n {
		return unjudged
	}
	return no
}

type c16variant interface {
	ext.FunctionVariant
	ID() ext.FunctionID
	LocalName() string
	Notation() functions.FunctionNotation
	IsOptionSupported(name, value string) bool
}

type c16exp struct {
	fn c16fn
	d  c16decl
}

func c16lookup(r functions.LocalFunctionRegistry, kind string, name functions.FunctionName, n int) (out []c16variant) {
	switch kind {
	case "scalar":
		for _, v := range r.GetScalarFunctions(name, n) {
			out = append(out, v)
		}
	case "aggregate":
		for _, v := range r.GetAggregateFunctions(name, n) {
			out = append(out, v)
		}
	case "window":
		for _, v := range r.GetWindowFunctions(name, n) {
			out = append(out, v)
		}
	}
	return
}

func c16coll(t *T, known []c16fn) *ext.Collection {
	c := &ext.Collection{}
	docs := []M{c16A, c16B}
	if len(known) > 0 && known[0].urn == c16deps["dc"] {
		docs = append(docs, c16C)
	}
	for _, d := range docs {
		if err := c.Load(strings.NewReader(c15json(d))); err != nil {
			t.Failf("extension file: %v", err)
			return nil
		}
	}
	return c
}

// c16expect gives what the dialect declares, or why it has to be rejected.
func c16expect(ds []c16decl, known []c16fn) (loadErr, localErr bool, exp map[string]c16exp) {
	exp = map[string]c16exp{}
	if len(ds) == 0 {
		loadErr = true
	}
	for _, d := range ds {
		if c16deps[d.dep] == "" || strings.Contains(d.name, ".") || len(d.kernels) == 0 {
			loadErr = true
		}
		for _, k := range d.kernels {
			if strings.Contains(k, "i99") {
				loadErr = true
			}
			sig := strings.ReplaceAll(k, "any1", "any")
			found := false
			for _, f := range known {
				if f.kind == d.kind && f.urn == c16deps[d.dep] && f.name == d.name && f.sig == sig {
					found = true
					exp[d.kind+"|"+f.urn+"|"+f.name+":"+sig] = c16exp{f, d}
				}
			}
			if !found {
				localErr = true
			}
		}
	}
	return
}

func c16check(t *T, ds []c16decl, known []c16fn, repeat int, invoke bool) {
	text := c15json(c16dialect(ds))
	t.State(text)
	seen := map[string]bool{}
	for _, d := range ds {
		for _, k := range d.kernels {
			id := d.kind + d.dep + d.name + strings.ReplaceAll(k, "any1", "any")
			if seen[id] {
				t.Outcome("declared twice, not judged")
				return
			}
			seen[id] = true
		}
	}
	loadErr, localErr, exp := c16expect(ds, known)
	col := c16coll(t, known)
	if col == nil {
		return
	}
	reg := functions.NewFunctionRegistry(col)
	for i := 0; i < repeat; i++ {
		var di functions.Dialect
		var err error
		t.Trans(1)
		if msg := catch(func() { di, err = functions.LoadDialect("name", strings.NewReader(text)) }); msg != "" {
			t.Failf("loading %s panics: %s", text, msg)
			return
		}
		if (err != nil) != loadErr {
			t.Failf("loading %s gives error %v", text, err)
			return
		}
		if err != nil {
			t.Outcome("rejected at load")
			return
		}
		var lr functions.LocalFunctionRegistry
		if msg := catch(func() { lr, err = di.LocalizeFunctionRegistry(reg) }); msg != "" {
			t.Failf("localising %s panics: %s", text, msg)
			return
		}
		if (err != nil) != localErr {
			t.Failf("localising %s gives error %v", text, err)
			return
		}
		if err != nil {
			t.Outcome("rejected at localising")
			continue
		}
		t.Outcome("localised")
		if lr.GetDialect() != di || di.Name() != "name" || lr.GetFunctionRegistry() != reg {
			t.Failf("%s: the registry does not know its dialect or registry", text)
		}
		c16judge(t, text, lr, exp, i%2 == 1)
		if invoke && i < 2 {
			c16invoke(t, text, lr, exp, known, col)
		}
		c16judge(t, text, lr, exp, i%2 == 0)
	}
	t.Validated()
}

func c16local(d c16decl) string {
	if d.local == "" {
		return d.name
	}
	return d.local
}

func c16judge(t *T, text string, lr functions.LocalFunctionRegistry, exp map[string]c16exp, backwards bool) {
	var all []string
	for _, v := range lr.GetAllFunctions() {
		w, ok := v.(c16variant)
		if !ok {
			t.Failf("%s: GetAllFunctions has a %T", text, v)
			continue
		}
		kind := ""
		switch v.(type) {
		case *functions.LocalScalarFunctionVariant:
			kind = "scalar"
		case *functions.LocalAggregateFunctionVariant:
			kind = "aggregate"
		case *functions.LocalWindowFunctionVariant:
			kind = "window"
		}
		key := kind + "|" + w.ID().URN + "|" + w.ID().Name
		all = append(all, key)
		c16same(t, text, key, w, exp)
	}
	var want []string
	for k := range exp {
		want = append(want, k)
	}
	sort.Strings(all)
	sort.Strings(want)
	if strings.Join(all, " ") != strings.Join(want, " ") {
		t.Failf("%s: all functions are %v, declared are %v", text, all, want)
	}
	names := []string{"f", "g", "v", "n", "s", "w", "plus", "+", "zzz", "F", ""}
	most := 6
	for _, e := range exp {
		if e.fn.urn == c16deps["dc"] {
			most = max(most, e.fn.n+1)
			names = append(names, e.fn.name, c16local(e.d))
		}
	}
	slices.Sort(names)
	names = slices.Compact(names)
	type q struct {
		kind, name string
		loc        bool
		n          int
	}
	var qs []q
	for _, k := range []string{"scalar", "aggregate", "window"} {
		for _, nm := range names {
			for n := 0; n <= most; n++ {
				qs = append(qs, q{k, nm, true, n}, q{k, nm, false, n})
			}
		}
	}
	for i := range qs {
		x := qs[i]
		if backwards {
			x = qs[len(qs)-1-i]
		}
		var fname functions.FunctionName = functions.SubstraitFunctionName(x.name)
		if x.loc {
			fname = functions.LocalFunctionName(x.name)
		}
		t.Trans(1)
		got := map[string]int{}
		for _, v := range c16lookup(lr, x.kind, fname, x.n) {
			key := x.kind + "|" + v.ID().URN + "|" + v.ID().Name
			got[key]++
			c16same(t, text, key, v, exp)
		}
		for k, e := range exp {
			nm := e.fn.name
			if x.loc {
				nm = c16local(e.d)
			}
			w := no
			if e.d.kind == x.kind && nm == x.name {
				w = e.fn.takes(x.n)
			}
			n := got[k]
			delete(got, k)
			if w == unjudged {
				w = n
				if n == 1 {
					w = yes
				} else {
					w = no
				}
			}
			if w == yes && n != 1 || w == no && n != 0 {
				t.Failf("%s: looking up %s function %T %q with %d arguments finds %s %d times", text, x.kind, fname, x.name, x.n, k, n)
			}
		}
		for k := range got {
			t.Failf("%s: looking up %s function %q with %d arguments finds undeclared %s", text, x.kind, x.name, x.n, k)
		}
	}
}

func c16same(t *T, text, key string, v c16variant, exp map[string]c16exp) {
	e, ok := exp[key]
	if !ok {
		t.Failf("%s: offers undeclared %s", text, key)
		return
	}
	nt := functions.PREFIX
	if strings.Contains(e.d.notation, "postfix") {
		nt = functions.POSTFIX
	}
	if strings.Contains(e.d.notation, "infix") {
		nt = functions.INFIX
	}
	if v.LocalName() != c16local(e.d) || v.Notation() != nt || v.Name() != e.fn.name || v.URN() != e.fn.urn || v.CompoundName() != e.fn.name+":"+e.fn.sig || len(v.Args()) != e.fn.n {
		t.Failf("%s: %s is %s local %s notation %v", text, key, v.CompoundName(), v.LocalName(), v.Notation())
	}
	if vb := v.Variadic(); (vb != nil) != e.fn.variadic || vb != nil && (vb.Min != e.fn.min || vb.Max != e.fn.max) {
		t.Failf("%s: %s has variadic behaviour %v", text, key, vb)
	}
	for _, o := range []string{"overflow", "rounding", "zz"} {
		for _, val := range []string{"ERROR", "error", "SILENT", "TIE", ""} {
			d, ok := e.d.opts[o]
			if want := ok && strings.EqualFold(d, val); v.IsOptionSupported(o, val) != want {
				t.Failf("%s: %s supports option %s=%s: %v", text, key, o, val, !want)
			}
		}
	}
}

func c16invoke(t *T, text string, lr functions.LocalFunctionRegistry, exp map[string]c16exp, known []c16fn, col *ext.Collection) {
	er := expr.NewEmptyExtensionRegistry(col)
	nl := func(ty types.Type) types.FuncArg { return expr.NewNullLiteral(ty) }
	args := map[string][]types.FuncArg{"": nil, "i32": {nl(&types.Int32Type{})}, "i32,str": {nl(&types.Int32Type{}), nl(&types.StringType{})}, "fp64": {nl(&types.Float64Type{})}, "i64,list": {nl(&types.Int64Type{}), nl(&types.ListType{Type: &types.Int32Type{}})}}
	opts := [][]*types.FunctionOption{nil, {{Name: "overflow", Preference: []string{"ERROR"}}}, {{Name: "overflow", Preference: []string{"silent"}}}, {{Name: "rounding", Preference: []string{"TIE"}}, {Name: "overflow", Preference: []string{"error"}}}, {{Name: "overflow", Preference: []string{"ERROR", "SILENT"}}}, {{Name: "zz", Preference: []string{"x"}}}}
	out := &types.Int32Type{Nullability: types.NullabilityRequired}
	for _, f := range known {
		for an, as := range args {
			for _, os := range opts {
				var v c16variant
				var err error
				t.Trans(1)
				msg := catch(func() {
					switch f.kind {
					case "scalar":
						d, _ := col.GetScalarFunc(f.id())
						var s *expr.ScalarFunction
						if s, err = expr.NewCustomScalarFunc(er, d, out, os, as...); err == nil {
							var r *functions.LocalScalarFunctionVariant
							if r, err = lr.GetScalarFunctionByInvocation(s); err == nil {
								v = r
							}
						}
					case "aggregate":
						d, _ := col.GetAggregateFunc(f.id())
						var s *expr.AggregateFunction
						if s, err = expr.NewCustomAggregateFunc(er, d, out, os, types.AggInvocationAll, types.AggPhaseInitialToResult, nil, as...); err == nil {
							var r *functions.LocalAggregateFunctionVariant
							if r, err = lr.GetAggregateFunctionByInvocation(s); err == nil {
								v = r
							}
						}
					case "window":
						d, _ := col.GetWindowFunc(f.id())
						var s *expr.WindowFunction
						if s, err = expr.NewCustomWindowFunc(er, d, out, os, types.AggInvocationAll, types.AggPhaseInitialToResult, as...); err == nil {
							var r *functions.LocalWindowFunctionVariant
							if r, err = lr.GetWindowFunctionByInvocation(s); err == nil {
								v = r
							}
						}
					}
				})
				key := f.kind + "|" + f.urn + "|" + f.id().Name
				what := fmt.Sprintf("%s: invocation of %s(%s) with options %v", text, key, an, os)
				if msg != "" {
					t.Failf("%s panics: %s", what, msg)
					continue
				}
				e, ok := exp[key]
				if an == "fp64" || an == "i64,list" {
					ok = false
				}
				for _, o := range os {
					for _, p := range o.Preference {
						if d, has := e.d.opts[o.Name]; !has || !strings.EqualFold(d, p) {
							ok = false
						}
					}
				}
				if (err == nil) != ok {
					t.Failf("%s: error %v", what, err)
					continue
				}
				if err == nil {
					if (f.kind + "|" + v.ID().URN + "|" + v.ID().Name) != key {
						t.Failf("%s maps to %v", what, v.ID())
					}
					c16same(t, text, key, v, exp)
				}
			}
		}
	}
}

func c16entries() (r []c16decl) {
	opt := map[string]string{"overflow": "ERROR"}
	two := map[string]string{"overflow": "Silent", "rounding": "tie"}
	k := func(s ...string) []string { return s }
	for _, dep := range []string{"da", "db"} {
		for _, local := range []string{"", "+", "plus", "g"} {
			r = append(r, c16decl{"scalar", dep, "f", local, "infix", k("i32_i32"), opt})
		}
		r = append(r, c16decl{"aggregate", dep, "s", "", "", k("i32"), nil}, c16decl{"aggregate", dep, "s", "f", "postfix", k("i64"), opt}, c16decl{"window", dep, "s", "f", "", k("i64"), two})
	}
	for _, local := range []string{"", "f", "+"} {
		r = append(r, c16decl{"scalar", "da", "g", local, "", k("i32"), nil}, c16decl{"scalar", "da", "g", local, "postfix", k("i32", "dec_vchar"), two},
			c16decl{"scalar", "db", "plus", local, "", k("i32_i32"), opt}, c16decl{"scalar", "da", "f", local, "infix postfix", k("i64_i64", "any1_any1"), nil},
			c16decl{"scalar", "da", "f", local, "", k("i32_i32", "i64_i64", "any_any"), two}, c16decl{"scalar", "da", "v", local, "", k("i32", "i32_str", "i64_i64_any1"), nil},
			c16decl{"scalar", "da", "n", local, "", k(""), nil}, c16decl{"aggregate", "da", "f", local, "", k("i32_i32"), nil}, c16decl{"window", "da", "f", local, "", k("i64_i64"), opt}, c16decl{"window", "da", "f", local, "", k("i32_i32"), nil},
			c16decl{"window", "da", "w", local, "", k("", "i32"), nil}, c16decl{"aggregate", "da", "s", local, "", k("i32", "any"), two}, c16decl{"window", "da", "s", local, "", k("any1"), nil}, c16decl{"scalar", "db", "f", local, "", k("str"), opt}, c16decl{"scalar", "da", "v", local, "", k("i32_str"), nil})
	}
	// to be rejected
	r = append(r, c16decl{"scalar", "da", "f", "", "", k("i32_i64"), nil}, c16decl{"scalar", "da", "f", "", "", k("i32_i32", "str"), nil}, c16decl{"scalar", "da", "zzz", "", "", k("i32"), nil}, c16decl{"scalar", "dz", "f", "", "", k("i32_i32"), nil},
		c16decl{"scalar", "dx", "f", "", "", k("i32_i32"), nil}, c16decl{"scalar", "da", "f", "", "", k("i99"), nil}, c16decl{"scalar", "da", "f", "", "", nil, nil}, c16decl{"scalar", "da", "s", "", "", k("i32"), nil}, c16decl{"aggregate", "da", "w", "", "", k("i32"), nil}, c16decl{"aggregate", "da", "g", "", "", k("i32"), nil},
		c16decl{"window", "da", "n", "", "", k(""), nil}, c16decl{"scalar", "da", "f.f", "", "", k("i32_i32"), nil}, c16decl{"scalar", "da", "f", "", "", k("i32"), nil}, c16decl{"window", "db", "w", "", "", k("i32"), nil}, c16decl{"aggregate", "da", "f", "", "", k("i64_i64"), nil}, c16decl{"scalar", "da", "F", "", "", k("i32_i32"), nil}, c16decl{"scalar", "", "f", "", "", k("i32_i32"), nil}, c16decl{"scalar", "da", "n", "", "", k("", "i32"), nil})
	return
}

// docPlaces yields the document with every place replaced by each value or removed.
func docPlaces(doc M, values L) (n int, variant func(i int) []string) {
	var paths [][]any
	var walk func(v any, p []any)
	walk = func(v any, p []any) {
		if len(p) > 0 {
			paths = append(paths, append([]any{}, p...))
		}
		switch x := v.(type) {
		case map[string]any:
			var ks []string
			for k := range x {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, k := range ks {
				walk(x[k], append(p, k))
			}
		case []any:
			for i := range x {
				walk(x[i], append(p, i))
			}
		}
	}
	walk(c15norm(doc), nil)
	return len(paths), func(i int) (r []string) {
		p := paths[i]
		for vi := -1; vi < len(values); vi++ {
			d := c15norm(doc)
			var cur any = d
			for _, s := range p[:len(p)-1] {
				switch x := cur.(type) {
				case map[string]any:
					cur = x[s.(string)]
				case []any:
					cur = x[s.(int)]
				}
			}
			switch x := cur.(type) {
			case map[string]any:
				if vi < 0 {
					delete(x, p[len(p)-1].(string))
				} else {
					x[p[len(p)-1].(string)] = values[vi]
				}
			case []any:
				if vi < 0 {
					continue
				}
				x[p[len(p)-1].(int)] = values[vi]
			}
			r = append(r, c15json(d))
		}
		return
	}
}

// c16broken: any text is rejected or gives a dialect that works.
func c16broken(t *T, text string, known []c16fn) {
	t.State(text)
	t.Trans(1)
	col := c16coll(t, known)
	reg := functions.NewFunctionRegistry(col)
	var di functions.Dialect
	var err error
	if msg := catch(func() { di, err = functions.LoadDialect("d", strings.NewReader(text)) }); msg != "" {
		t.Failf("loading %s panics: %s", text, msg)
		return
	}
	if err != nil {
		t.Outcome("rejected at load")
		return
	}
	var prev string
	for i := 0; i < 3; i++ {
		out := ""
		if msg := catch(func() {
			tr, e1 := di.GetLocalTypeRegistry()
			lr, e2 := di.LocalizeFunctionRegistry(reg)
			out = fmt.Sprint(e1 == nil, e2 == nil)
			if e1 == nil {
				var ns []string
				for n, ty := range tr.GetSupportedTypes() {
					ns = append(ns, n+"="+ty.String())
				}
				sort.Strings(ns)
				out += fmt.Sprint(ns)
			}
			if e2 == nil {
				var ns []string
				for _, v := range lr.GetAllFunctions() {
					w := v.(c16variant)
					ns = append(ns, fmt.Sprint(w.ID(), w.LocalName(), w.Notation(), w.IsOptionSupported("overflow", "ERROR")))
				}
				sort.Strings(ns)
				out += fmt.Sprint(ns)
			}
		}); msg != "" {
			t.Failf("using the dialect %s panics: %s", text, msg)
			return
		}
		if i > 0 && out != prev {
			t.Failf("%s: %s the first time, then %s", text, prev, out)
		}
		prev = out
		if i == 1 {
			di, _ = functions.LoadDialect("d", strings.NewReader(text))
		}
	}
	t.Outcome("accepted")
}

func runC16(c *Ctx) {
	known := c16known()
	es := c16entries()
	c.Case(func(t *T) { c16check(t, nil, known, 1, false) }, "none")
	for i, e := range es {
		c.Case(func(t *T) {
			c16check(t, []c16decl{e}, known, 4, true)
			t.Dim("entry", e.text())
		}, "one", i)
		for j, f := range es {
			c.Case(func(t *T) {
				c16check(t, []c16decl{e, f}, known, 4, (i+j)%16 == 0)
				t.Dim("pair", fmt.Sprint(i%5, j%5))
				if c.Thorough && i < j {
					for k := j + 1; k < len(es); k++ {
						c16check(t, []c16decl{e, f, es[k]}, known, 2, false)
					}
				}
			}, "two", i, j)
		}
	}
	// large dialects over a large file
	big := c16known(c16C, c16A, c16B)
	for _, nf := range []int{0, 4, 9, 17, 40} {
		for _, nk := range []int{1, 5, 17, 39, 56} {
			for flaw := 0; flaw < 4; flaw++ {
				c.Case(func(t *T) {
					var ds []c16decl
					for ki, kind := range []string{"scalar", "aggregate", "window"} {
						name := []string{"m", "ma", "mw"}[ki]
						var ks []string
						for _, f := range big {
							if f.kind == kind && f.name == name && len(ks) < nk {
								ks = append(ks, f.sig)
							}
						}
						if flaw == 3 {
							slices.Reverse(ks)
						}
						d := c16decl{kind, "dc", name, "", "", ks, map[string]string{"overflow": "ERROR"}}
						ds = append(ds, d)
						for i := 0; i < nf; i++ {
							local := ""
							switch i % 4 {
							case 1:
								local = fmt.Sprint("x", i)
							case 2:
								local = "same"
							}
							ds = append(ds, c16decl{kind, "dc", fmt.Sprint("m", "saw"[ki:ki+1], i), local, []string{"", "infix", "postfix"}[i%3], []string{"i32_i32", "i64"}[:1+i%2], nil})
						}
					}
					last := &ds[len(ds)-1]
					switch flaw {
					case 1: // one signature that does not exist, at the end of a list
						last.kernels = append(slices.Clone(last.kernels), "i32_i32_i32_i32")
					case 2:
						last.name += "x"
					}
					c16check(t, ds, big, 2, false)
				}, "large", nf, nk, flaw)
			}
		}
	}
	// the unrestricted registry
	c.Case(func(t *T) {
		for rep := 0; rep < 8; rep++ {
			col := c16coll(t, known)
			reg := functions.NewFunctionRegistry(col)
			if n := len(reg.GetAllFunctions()); n != len(known) {
				t.Failf("the registry has %d functions, the files declare %d", n, len(known))
			}
			for _, name := range []string{"f", "g", "v", "n", "s", "w", "plus", "zzz", ""} {
				for n := -1; n <= 7; n++ {
					got := map[string]int{}
					t.Trans(3)
					if n < 0 {
						for _, v := range reg.GetScalarFunctionsByName(name) {
							got["scalar"+v.ID().URN+v.ID().Name]++
						}
						for _, v := range reg.GetAggregateFunctionsByName(name) {
							got["aggregate"+v.ID().URN+v.ID().Name]++
						}
						for _, v := range reg.GetWindowFunctionsByName(name) {
							got["window"+v.ID().URN+v.ID().Name]++
						}
					} else {
						for _, v := range reg.GetScalarFunctions(name, n) {
							got["scalar"+v.ID().URN+v.ID().Name]++
						}
						for _, v := range reg.GetAggregateFunctions(name, n) {
							got["aggregate"+v.ID().URN+v.ID().Name]++
						}
						for _, v := range reg.GetWindowFunctions(name, n) {
							got["window"+v.ID().URN+v.ID().Name]++
						}
					}
					for _, k := range known {
						key := k.kind + k.urn + k.id().Name
						w := no
						if k.name == name {
							w = yes
							if n >= 0 {
								w = k.takes(n)
							}
						}
						x := got[key]
						delete(got, key)
						if w == yes && x != 1 || w == no && x != 0 || x > 1 {
							t.Failf("the registry finds %s %d times by name %q and %d arguments", key, x, name, n)
						}
					}
					if len(got) > 0 {
						t.Failf("the registry finds %v by name %q", got, name)
					}
				}
			}
		}
		t.State("registry")
		t.Validated()
	}, "registry")
	rich := c16dialect([]c16decl{{"scalar", "da", "f", "+", "infix", []string{"i32_i32", "any1_any1"}, map[string]string{"overflow": "ERROR"}}, {"aggregate", "da", "s", "", "", []string{"i32"}, nil}, {"window", "da", "w", "ww", "postfix", []string{"", "i32"}, nil}})
	n, variant := docPlaces(rich, L{nil, 5, -1, "zz", "a.b", ".", "da.", true, L{}, M{}, L{1}, L{nil}, M{"name": 5}, "", 1.5})
	for i := 0; i < n; i++ {
		c.Case(func(t *T) {
			for _, text := range variant(i) {
				c16broken(t, text, known)
			}
			t.Validated()
		}, "broken", i)
	}
	block, err := yaml.Marshal(c15norm(rich))
	if err != nil {
		panic(err)
	}
	for i := 0; i < len(block); i += 8 {
		c.Case(func(t *T) {
			for j := i; j < min(i+8, len(block)); j++ {
				c16broken(t, string(block[:j]), known)
				c16broken(t, string(block[:j])+string(block[j+1:]), known)
			}
		}, "cut", i)
	}
	_ = pb.Type{}
}
