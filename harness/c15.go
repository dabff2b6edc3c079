// C15: loading extension files makes exactly their declarations resolvable.
package main

import (
	"encoding/json"
	"fmt"
	"io/fs"
	"path"
	"reflect"
	"sort"
	"strings"

	"github.com/goccy/go-yaml"
	"github.com/substrait-io/substrait"
	ext "github.com/substrait-io/substrait-go/v8/extensions"
	"github.com/substrait-io/substrait-go/v8/types"
	"github.com/substrait-io/substrait-go/v8/types/parser"
)

func init() {
	checks["C15"] = &Check{Run: runC15, Quick: 250, Thorough: 850, Shards: 16,
		Bounds: "documents: every function kind x argument lists up to 2 over 34 argument forms; every attribute of an implementation over its values, one and two at a time; 14 x 14 spellings of names (case, digits, underscores, words that begin like types or YAML words) in every place of a name; a user-defined type, declared or not, in 13 forms in every place of a signature of every kind of function; lists of up to 3 function entries over kind x 2 names x 3 implementation lists (thorough 4); histories: all sequences of up to 3 (thorough 4) loads from 15 documents (valid, conflicting URN, missing URN, bad URN, unknown dependency, undeclared type, malformed), all lookups after each load against the union of the accepted documents; every place of a rich document replaced by 9 other values or removed, and the document cut at every byte: no panic, and on an error every lookup as before; the default collection against an independent reading of the standard files",
		Assume: []string{"types in declarations are written as the type parser reads them (C10)", "when a document declares the same signature twice either may be found", "a name whose only two implementations are a scalar and an aggregate/window function with different arguments may or may not be found by simple name"}}
}

type M = map[string]any
type L = []any

func c15json(v any) string {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return string(b)
}

var c15short = map[string]string{"boolean": "bool", "i8": "i8", "i16": "i16", "i32": "i32", "i64": "i64", "fp32": "fp32", "fp64": "fp64", "string": "str", "binary": "vbin", "timestamp": "ts", "timestamp_tz": "tstz", "date": "date", "time": "time",
	"interval_year": "iyear", "interval_day": "iday", "interval_compound": "icompound", "uuid": "uuid", "fixedchar": "fchar", "varchar": "vchar", "fixedbinary": "fbin", "decimal": "dec", "precision_time": "pt", "precision_timestamp": "pts", "precision_timestamp_tz": "ptstz",
	"struct": "struct", "list": "list", "map": "map", "func": "func", "any": "any"}

// c15argShort is the part of a signature for a declared argument.
func c15argShort(a any) string {
	m, _ := a.(map[string]any)
	if _, ok := m["options"]; ok {
		return "req"
	}
	if v, ok := m["value"]; ok {
		s := strings.ToLower(strings.TrimSpace(fmt.Sprint(v)))
		if i := strings.IndexAny(s, "<?"); i >= 0 {
			s = s[:i]
		}
		if strings.HasPrefix(s, "u!") {
			// user defined names keep their spelling
			o := strings.TrimSpace(fmt.Sprint(v))
			if i := strings.IndexAny(o, "<?"); i >= 0 {
				o = o[:i]
			}
			return "u!" + o[2:]
		}
		if strings.HasPrefix(s, "any") {
			return "any"
		}
		if r, ok := c15short[s]; ok {
			return r
		}
		return "unknown type " + s
	}
	return "type"
}
func c15get(m map[string]any, k string) L {
	switch v := m[k].(type) {
	case []any:
		return v
	}
	return nil
}
func c15str(m map[string]any, k string) string { s, _ := m[k].(string); return s }

func c15typ(text any) string {
	t, err := parser.ParseType(fmt.Sprint(text))
	if err != nil {
		return "unparsable " + fmt.Sprint(text)
	}
	return t.String()
}

// c15entry is what is expected of (or found for) one implementation.
func c15want(kind, urn string, f, im map[string]any, converted bool) string {
	var args []string
	var sig []string
	for _, a := range c15get(im, "args") {
		m := a.(map[string]any)
		sig = append(sig, c15argShort(a))
		head := c15str(m, "name") + "/" + c15str(m, "description") + "/"
		if o, ok := m["options"]; ok {
			args = append(args, head+"enum"+fmt.Sprint(o))
		} else if v, ok := m["value"]; ok {
			c, _ := m["constant"].(bool)
			args = append(args, head+fmt.Sprint("value ", c15typ(v), c))
		} else {
			args = append(args, head+"type "+c15typ(m["type"]))
		}
	}
	opts := "map[]"
	if o, ok := im["options"].(map[string]any); ok {
		x := map[string]string{}
		for k, v := range o {
			m, _ := v.(map[string]any)
			x[k] = fmt.Sprint(c15str(m, "description"), c15get(m, "values"))
		}
		opts = fmt.Sprint(x)
	}
	vari := "none"
	if v, ok := im["variadic"].(map[string]any); ok {
		num := func(k string) any {
			if x, ok := v[k]; ok {
				return x
			}
			return 0
		}
		cons := c15str(v, "parameterConsistency")
		if cons == "" {
			cons = "CONSISTENT"
		}
		vari = fmt.Sprint(num("min"), num("max"), cons)
	}
	b := func(k string, d bool) bool {
		if x, ok := im[k].(bool); ok {
			return x
		}
		return d
	}
	s := func(k, d string) string {
		if x := c15str(im, k); x != "" {
			return x
		}
		return d
	}
	md := f["metadata"]
	if md == nil {
		md = M{}
	}
	r := fmt.Sprintf("%s %s %s:%s desc=%q args=%v opts=%s variadic=%s det=%v sess=%v null=%s meta=%s", kind, urn, c15str(f, "name"), strings.Join(sig, "_"), strings.TrimSpace(c15str(f, "description")), args, opts, vari, b("deterministic", true), b("sessionDependent", false), s("nullability", "MIRROR"), c15json(md))
	if len(sig) == 0 && im["return"] != nil && vari == "none" {
		r += " ret=" + strings.ReplaceAll(c15typ(im["return"]), "?", "")
	}
	if kind != "scalar" {
		inter := "none"
		if x, ok := im["intermediate"]; ok {
			inter = c15typ(x)
		}
		max := any(0)
		if x, ok := im["maxset"]; ok {
			max = x
		}
		r += fmt.Sprint(" inter=", inter, " ord=", b("ordered", false), " max=", max, " dec=", s("decomposable", "NONE"))
	}
	if kind == "window" {
		w := s("window_type", "PARTITION")
		if converted {
			w = "STREAMING"
		}
		r += " win=" + w
	}
	return r
}

type c15variant interface {
	ext.FunctionVariant
	ID() ext.FunctionID
	SessionDependent() bool
	Deterministic() bool
	Nullability() ext.NullabilityHandling
}

func c15show(kind string, v c15variant) string {
	var args []string
	for _, a := range v.Args() {
		switch x := a.(type) {
		case ext.EnumArg:
			args = append(args, x.Name+"/"+x.Description+"/enum"+fmt.Sprint(x.Options))
		case ext.ValueArg:
			args = append(args, x.Name+"/"+x.Description+"/"+fmt.Sprint("value ", x.Value.ValueType.String(), x.Constant))
		case ext.TypeArg:
			args = append(args, x.Name+"/"+x.Description+"/type "+x.Type.ValueType.String())
		default:
			args = append(args, fmt.Sprintf("%T", a))
		}
	}
	x := map[string]string{}
	for k, o := range v.Options() {
		x[k] = fmt.Sprint(o.Description, o.Values)
	}
	vari := "none"
	if w := v.Variadic(); w != nil {
		vari = fmt.Sprint(w.Min, w.Max, w.ParameterConsistency)
	}
	md := v.(interface{ Metadata() map[string]any }).Metadata()
	if md == nil {
		md = M{}
	}
	id := v.ID()
	r := fmt.Sprintf("%s %s %s desc=%q args=%v opts=%s variadic=%s det=%v sess=%v null=%s meta=%s", kind, v.URN(), v.CompoundName(), strings.TrimSpace(v.Description()), args, x, vari, v.Deterministic(), v.SessionDependent(), v.Nullability(), c15json(md))
	if len(args) == 0 && v.Variadic() == nil {
		if t, err := v.ResolveType(nil, ext.NewSet()); err == nil {
			r += " ret=" + strings.ReplaceAll(t.String(), "?", "")
		} else {
			r += " ret=" + err.Error()
		}
	}
	if id.URN != v.URN() || id.Name != v.CompoundName() || !strings.HasPrefix(v.CompoundName(), v.Name()+":") {
		r += fmt.Sprint(" BAD ID ", id, v.Name())
	}
	if kind != "scalar" {
		a := v.(interface {
			Decomposability() ext.DecomposeType
			Intermediate() (types.FuncDefArgType, error)
			Ordered() bool
			MaxSet() int
		})
		inter := "none"
		if i, err := a.Intermediate(); err == nil && i != nil {
			inter = i.String()
		}
		r += fmt.Sprint(" inter=", inter, " ord=", a.Ordered(), " max=", a.MaxSet(), " dec=", a.Decomposability())
	}
	if kind == "window" {
		r += fmt.Sprint(" win=", v.(*ext.WindowFunctionVariant).WindowType())
	}
	return r
}

// c15model: what a collection must resolve.
type c15model struct {
	urns  map[string]bool
	fns   map[string]map[string]bool            // kind|urn|compound -> acceptable descriptions
	names map[string]map[string]map[string]bool // urn|simple -> kind -> compounds
	types map[string]string
	vars  map[string]string
	meta  map[string]string
}

func newC15() *c15model {
	return &c15model{map[string]bool{}, map[string]map[string]bool{}, map[string]map[string]map[string]bool{}, map[string]string{}, map[string]string{}, map[string]string{}}
}
func (m *c15model) add(doc map[string]any) {
	urn := c15str(doc, "urn")
	m.urns[urn] = true
	for _, x := range c15get(doc, "types") {
		t := x.(map[string]any)
		m.types[urn+"|"+c15str(t, "name")] = c15json(M{"name": t["name"], "structure": t["structure"], "params": len(c15get(t, "parameters"))})
	}
	for _, x := range c15get(doc, "type_variations") {
		t := x.(map[string]any)
		m.vars[urn+"|"+c15str(t, "name")] = fmt.Sprint(t["name"], t["parent"], t["functions"])
	}
	if x, ok := doc["metadata"].(map[string]any); ok {
		m.meta[urn] = c15json(x)
	}
	put := func(kind string, f map[string]any, conv bool) {
		for _, i := range c15get(f, "impls") {
			im := i.(map[string]any)
			var sig []string
			for _, a := range c15get(im, "args") {
				sig = append(sig, c15argShort(a))
			}
			name := c15str(f, "name")
			compound := name + ":" + strings.Join(sig, "_")
			k := kind + "|" + urn + "|" + compound
			if m.fns[k] == nil {
				m.fns[k] = map[string]bool{}
			}
			m.fns[k][c15want(kind, urn, f, im, conv)] = true
			n := urn + "|" + name
			if m.names[n] == nil {
				m.names[n] = map[string]map[string]bool{}
			}
			if m.names[n][kind] == nil {
				m.names[n][kind] = map[string]bool{}
			}
			m.names[n][kind][compound] = true
		}
	}
	for _, x := range c15get(doc, "scalar_functions") {
		put("scalar", x.(map[string]any), false)
	}
	for _, x := range c15get(doc, "aggregate_functions") {
		put("aggregate", x.(map[string]any), false)
		put("window", x.(map[string]any), true)
	}
	for _, x := range c15get(doc, "window_functions") {
		put("window", x.(map[string]any), false)
	}
}

func c15lookup(c *ext.Collection, kind string, id ext.FunctionID) (c15variant, bool) {
	switch kind {
	case "scalar":
		v, ok := c.GetScalarFunc(id)
		return v, ok
	case "aggregate":
		v, ok := c.GetAggregateFunc(id)
		return v, ok
	}
	v, ok := c.GetWindowFunc(id)
	return v, ok
}

// judge asks everything twice: asking must not change the answers.
func (m *c15model) judge(t *T, at string, c *ext.Collection) {
	m.judgeOnce(t, at, c)
	m.judgeOnce(t, at+", asked again", c)
}

func (m *c15model) judgeOnce(t *T, at string, c *ext.Collection) {
	found := map[string]string{}
	all := func(kind string, vs []c15variant) {
		for _, v := range vs {
			found[kind+"|"+v.URN()+"|"+v.CompoundName()] = c15show(kind, v)
		}
	}
	for _, v := range c.GetAllScalarFunctions() {
		all("scalar", []c15variant{v})
	}
	for _, v := range c.GetAllAggregateFunctions() {
		all("aggregate", []c15variant{v})
	}
	for _, v := range c.GetAllWindowFunctions() {
		all("window", []c15variant{v})
	}
	if n := len(c.GetAllScalarFunctions()) + len(c.GetAllAggregateFunctions()) + len(c.GetAllWindowFunctions()); n != len(found) {
		t.Failf("%s: %d functions are listed, %d of them different", at, n, len(found))
	}
	for k, s := range found {
		if m.fns[k] == nil {
			t.Failf("%s: %s is listed but not declared", at, k)
		} else if !m.fns[k][s] {
			t.Failf("%s: %s is\n %s\nwant\n %v", at, k, s, keysOf(m.fns[k]))
		}
	}
	for k := range m.fns {
		p := strings.SplitN(k, "|", 3)
		v, ok := c15lookup(c, p[0], ext.FunctionID{URN: p[1], Name: p[2]})
		if !ok {
			t.Failf("%s: %s cannot be found", at, k)
			continue
		}
		if s := c15show(p[0], v); s != found[k] {
			t.Failf("%s: %s gives %s, listed as %s", at, k, s, found[k])
		}
		for _, o := range []string{"scalar", "aggregate", "window"} {
			if _, ok := c15lookup(c, o, ext.FunctionID{URN: p[1], Name: p[2]}); ok && m.fns[o+"|"+p[1]+"|"+p[2]] == nil {
				t.Failf("%s: %s is found as %s", at, k, o)
			}
		}
		for _, n := range []string{p[2] + "x", strings.ToUpper(p[2]), p[2] + "_i32", ""} {
			if m.fns[p[0]+"|"+p[1]+"|"+n] == nil && m.names[p[1]+"|"+n] == nil {
				if _, ok := c15lookup(c, p[0], ext.FunctionID{URN: p[1], Name: n}); ok {
					t.Failf("%s: %q is found, which is not declared", at, n)
				}
			}
		}
		if _, ok := c15lookup(c, p[0], ext.FunctionID{URN: p[1] + "x", Name: p[2]}); ok && !m.urns[p[1]+"x"] {
			t.Failf("%s: %s is found in another document", at, k)
		}
	}
	for n, kinds := range m.names {
		p := strings.SplitN(n, "|", 2)
		total := map[string]bool{}
		for _, cs := range kinds {
			for c := range cs {
				total[c] = true
			}
		}
		for _, kind := range []string{"scalar", "aggregate", "window"} {
			v, ok := c15lookup(c, kind, ext.FunctionID{URN: p[0], Name: p[1]})
			cs := kinds[kind]
			switch {
			case len(cs) == 0:
				if ok {
					t.Failf("%s: %s function %q is found by simple name", at, kind, n)
				}
			case len(cs) > 1:
				if ok {
					t.Failf("%s: %s function %q with %d implementations is found by simple name: %s", at, kind, n, len(cs), v.CompoundName())
				}
			case len(total) == 1:
				if !ok || !cs[v.CompoundName()] {
					t.Failf("%s: %s function %q with one implementation is found by simple name: %v", at, kind, n, ok)
				}
			default:
				if ok && !cs[v.CompoundName()] {
					t.Failf("%s: %s function %q gives %s", at, kind, n, v.CompoundName())
				}
			}
		}
	}
	for k, want := range m.types {
		p := strings.SplitN(k, "|", 2)
		x, ok := c.GetType(ext.TypeID{URN: p[0], Name: p[1]})
		if g := c15json(M{"name": x.Name, "structure": x.Structure, "params": len(x.Parameters)}); !ok || g != want {
			t.Failf("%s: type %s is %v %s, want %s", at, k, ok, g, want)
		}
		if _, ok := c.GetType(ext.TypeID{URN: p[0] + "x", Name: p[1]}); ok && !m.urns[p[0]+"x"] {
			t.Failf("%s: type %s is found in another document", at, k)
		}
	}
	for k, want := range m.vars {
		p := strings.SplitN(k, "|", 2)
		x, ok := c.GetTypeVariation(ext.TypeVariationID{URN: p[0], Name: p[1]})
		if g := fmt.Sprint(x.Name, x.Parent, x.Functions); !ok || g != want {
			t.Failf("%s: variation %s is %v %s, want %s", at, k, ok, g, want)
		}
	}
	for _, u := range c15urns {
		if c.URNLoaded(u) != m.urns[u] {
			t.Failf("%s: URN %s is loaded: %v", at, u, c.URNLoaded(u))
		}
		if !m.urns[u] {
			for _, n := range []string{"f", "f:i32", "g", "g:", "t", "v"} {
				for _, k := range []string{"scalar", "aggregate", "window"} {
					if _, ok := c15lookup(c, k, ext.FunctionID{URN: u, Name: n}); ok {
						t.Failf("%s: %s %s is found though its document is not loaded", at, u, n)
					}
				}
				if _, ok := c.GetType(ext.TypeID{URN: u, Name: n}); ok {
					t.Failf("%s: type %s %s is found though its document is not loaded", at, u, n)
				}
				if _, ok := c.GetTypeVariation(ext.TypeVariationID{URN: u, Name: n}); ok {
					t.Failf("%s: variation %s %s is found though its document is not loaded", at, u, n)
				}
			}
		}
		md := c.GetFileMetadata(u)
		if w := m.meta[u]; w == "" && md != nil || w != "" && c15json(md) != w {
			t.Failf("%s: metadata of %s is %v, want %s", at, u, md, w)
		}
	}
}
func keysOf(m map[string]bool) (r []string) {
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return
}

var c15urns = []string{"extension:mc:a", "extension:mc:b", "extension:mc:c", "extension:mc:bad", ""}

func c15impl(args ...string) M {
	l := L{}
	for _, a := range args {
		l = append(l, M{"value": a})
	}
	return M{"args": l, "return": "i32"}
}
func c15fn(name string, impls ...any) M { return M{"name": name, "impls": impls} }

func c15load(t *T, c *ext.Collection, doc string) (err error, ok bool) {
	t.Trans(1)
	if msg := catch(func() { err = c.Load(strings.NewReader(doc)) }); msg != "" {
		t.Failf("loading %s panics: %s", doc, msg)
		return nil, false
	}
	return err, true
}

func c15one(t *T, doc M) {
	text := c15json(doc)
	c := &ext.Collection{}
	err, ok := c15load(t, c, text)
	if !ok {
		return
	}
	if err != nil {
		t.Failf("%s is rejected: %v", text, err)
		return
	}
	m := newC15()
	m.add(c15norm(doc))
	m.judge(t, text, c)
	t.State(text)
}

// c15norm gives a document as maps and lists of plain kinds.
func c15norm(d M) (r M) {
	if err := json.Unmarshal([]byte(c15json(d)), &r); err != nil {
		panic(err)
	}
	return
}

func c15args() (r L) {
	for _, ty := range []string{"boolean", "i8", "i16", "i32", "i64", "fp32", "fp64", "string", "binary", "timestamp", "timestamp_tz", "date", "time", "interval_year", "uuid",
		"interval_day<P>", "fixedchar<L>", "varchar<5>", "fixedbinary<L>", "decimal<P,S>", "decimal<38,0>", "precision_time<P>", "precision_timestamp<6>", "precision_timestamp_tz<P>", "list<any1>", "map<any1, any2>", "struct<i32>", "any", "any1", "i32?", "u!point"} {
		r = append(r, M{"value": ty})
	}
	return append(r, M{"value": "any1", "name": "x", "description": "some", "constant": true}, M{"options": L{"A", "B"}, "name": "opt"}, M{"type": "i64", "name": "ty"})
}

func c15standard(t *T) {
	files := substrait.GetSubstraitExtensionsFS()
	m := newC15()
	ents, err := fs.ReadDir(files, "extensions")
	if err != nil {
		t.Failf("%v", err)
		return
	}
	for _, e := range ents {
		if e.Name() == "unknown.yaml" {
			continue
		}
		b, _ := fs.ReadFile(files, path.Join("extensions", e.Name()))
		var d map[string]any
		if err := yaml.Unmarshal(b, &d); err != nil {
			t.Failf("%s: %v", e.Name(), err)
			return
		}
		m.add(d)
		t.Trans(1)
	}
	c, err := ext.GetDefaultCollection()
	if err != nil {
		t.Failf("%v", err)
		return
	}
	m.judge(t, "default collection", c)
	for k := range m.fns {
		t.State(k)
	}
	if len(m.fns) < 300 {
		t.Failf("only %d standard functions", len(m.fns))
	}
}

// c15docs gives every document of the universe, with up to n function entries.
// c15names are spellings of names, which all keep their case.
var c15names = []string{"point", "Point", "POINT", "geoJson", "a_b", "A1", "t2_X", "i32x", "any9x", "structs", "Null", "true", "No", "decimal_"}

func c15docs(c *Ctx, n int, one func(t *T, doc M)) {
	kinds := []string{"scalar", "aggregate", "window"}
	as := c15args()
	for _, k := range kinds {
		for i := range as {
			c.Case(func(t *T) {
				pt := L{M{"name": "point"}}
				one(t, M{"urn": "extension:mc:a", "types": pt, k + "_functions": L{c15fn("f", M{"args": L{as[i]}, "return": "i32"})}})
				for _, b := range as {
					one(t, M{"urn": "extension:mc:a", "types": pt, k + "_functions": L{c15fn("f", M{"args": L{as[i], b}, "return": "boolean?"})}})
				}
				t.Validated()
			}, "args", k, i)
		}
	}
	// spellings of names
	for _, n1 := range c15names {
		for _, k := range kinds {
			c.Case(func(t *T) {
				for _, n2 := range c15names {
					tys := L{M{"name": n1}}
					if n2 != n1 {
						tys = append(tys, M{"name": n2, "structure": "u!" + n1})
					}
					u := "u!" + n1
					for _, form := range []string{u, u + "?", "list<" + u + ">", "map<string, " + u + "?>", "struct<" + u + ", u!" + n2 + ">", u + "<i32>", u + "<" + u + ">", "func<" + u + " -> u!" + n2 + ">"} {
						impl := M{"args": L{M{"value": form, "name": n2}}, "return": form, "options": M{n1: M{"values": L{n1, n2}}}, "implementation": M{n1: n2}}
						if k != "scalar" {
							impl["intermediate"] = form
						}
						one(t, M{"urn": "extension:mc:" + strings.ToLower(n1), "types": tys, "type_variations": L{M{"name": n2, "parent": "i32", "functions": "INHERITS"}}, "metadata": M{n1: n2}, k + "_functions": L{c15fn(n2, impl)}})
						one(t, M{"urn": "extension:mc:a", "types": tys, k + "_functions": L{c15fn(n1, M{"args": L{M{"options": L{n1, n2}, "name": n2}, M{"value": form}}, "return": "i32"}), c15fn(n1+"x", M{"args": L{}, "return": "i32?"})}})
					}
				}
				t.Validated()
			}, "names", n1, k)
		}
	}
	// attributes, two at a time
	type at struct {
		k string
		v any
	}
	attrs := []at{{"options", M{"o": M{"values": L{"A", "B"}}}}, {"options", M{"o": M{"values": L{"A"}, "description": "d"}, "p": M{"values": L{}}}}, {"options", M{}}, {"variadic", M{"min": 1}}, {"variadic", M{"min": 0, "max": 3}}, {"variadic", M{"min": 2, "parameterConsistency": "INCONSISTENT"}}, {"variadic", M{"parameterConsistency": "CONSISTENT"}},
		{"sessionDependent", true}, {"sessionDependent", false}, {"deterministic", true}, {"deterministic", false}, {"nullability", "MIRROR"}, {"nullability", "DECLARED_OUTPUT"}, {"nullability", "DISCRETE"}, {"return", "i64?"}, {"return", "list<string>"}, {"return", "decimal<38,2>"}, {"implementation", M{"x": "y"}},
		{"intermediate", "struct<i64>"}, {"intermediate", "fp64?"}, {"ordered", true}, {"ordered", false}, {"maxset", 7}, {"decomposable", "MANY"}, {"decomposable", "ONE"}, {"decomposable", "NONE"}, {"window_type", "STREAMING"}, {"window_type", "PARTITION"}}
	aggOnly := map[string]bool{"intermediate": true, "ordered": true, "maxset": true, "decomposable": true}
	for _, k := range kinds {
		for i, a := range attrs {
			if k == "scalar" && aggOnly[a.k] || k != "window" && a.k == "window_type" {
				continue
			}
			c.Case(func(t *T) {
				for j := -1; j < len(attrs); j++ {
					im := M{"return": "i32", a.k: a.v}
					if j >= 0 {
						b := attrs[j]
						if k == "scalar" && aggOnly[b.k] || k != "window" && b.k == "window_type" || b.k == a.k && i != j {
							continue
						}
						im[b.k] = b.v
					}
					fns := L{c15fn("f", im, c15impl("i32")), M{"name": "g", "description": "something", "metadata": M{"k": "v"}, "impls": L{c15impl("i64"), im}}}
					one(t, M{"urn": "extension:mc:a", k + "_functions": fns, "metadata": M{"m": "n"}})
					one(t, M{"urn": "extension:mc:a", "types": L{M{"name": "t"}}, "type_variations": L{M{"name": "v", "parent": "i32", "functions": "SEPARATE"}}, k + "_functions": L{c15fn("f", im)}})
				}
				t.Validated()
			}, "attrs", k, i)
		}
	}
	// lists of entries: which names are found
	type ent struct {
		kind string
		f    M
	}
	var ents []ent
	for _, k := range kinds {
		for _, n := range []string{"f", "g"} {
			for ii, im := range []L{{c15impl("i32")}, {c15impl("i64")}, {c15impl("i32"), c15impl("i64")}} {
				ents = append(ents, ent{k, M{"name": n, "impls": im, "description": fmt.Sprint(k, ii)}})
			}
		}
	}
	for i := range ents {
		for j := range ents {
			c.Case(func(t *T) {
				var rec func(list []int)
				rec = func(list []int) {
					d := M{"urn": "extension:mc:b"}
					for p, x := range list {
						e := ents[x]
						f := M{}
						for k, v := range e.f {
							f[k] = v
						}
						f["description"] = fmt.Sprint(e.f["description"], p)
						l, _ := d[e.kind+"_functions"].(L)
						d[e.kind+"_functions"] = append(l, f)
					}
					one(t, d)
					if len(list) == n {
						return
					}
					for x := range ents {
						rec(append(append([]int{}, list...), x))
					}
				}
				rec([]int{i, j})
				t.Validated()
			}, "entries", i, j)
		}
	}
}

func runC15(c *Ctx) {
	c.Case(func(t *T) { c15standard(t); t.Validated() }, "standard")
	n := 3
	if c.Thorough {
		n = 4
	}
	c15docs(c, n, c15one)
	// histories of loads
	type doc struct {
		text string
		d    M // nil: must be rejected
		need string
	}
	// a user-defined type named anywhere in a signature must be one of the file's own
	for _, kind := range []string{"scalar_functions", "aggregate_functions", "window_functions"} {
		for _, place := range []string{"first", "second", "return", "program", "intermediate"} {
			if place == "intermediate" && kind == "scalar_functions" {
				continue
			}
			c.Case(func(t *T) {
				for _, form := range []string{"%s", "%s?", "list<%s>", "map<i32, %s>", "map<%s, any1>", "struct<i32, %s>", "struct<%s, u!t>", "list<struct<map<string, %s?>>>", "func<%s -> i32>", "func<(i32, %s) -> i32>", "func<i32 -> %s>", "u!t<%s>", "u!t<1, list<%s>>"} {
					for _, name := range []string{"u!t", "u!nope", "u!v", "u!f"} {
						for pos := 0; pos < 3; pos++ {
							ty := fmt.Sprintf(form, name)
							im := c15impl("i32", "string")
							switch place {
							case "first":
								im["args"] = L{M{"value": ty}, M{"value": "i32"}}
							case "second":
								im["args"] = L{M{"value": "i32"}, M{"value": ty}}
							case "return":
								im["return"] = ty
							case "program":
								im["args"] = L{M{"value": "decimal<P,S>"}}
								im["return"] = "a = P + S\n" + ty
							case "intermediate":
								im["decomposable"], im["intermediate"] = "MANY", ty
							}
							fns := L{c15fn("f", c15impl("i32"), c15impl("i64"))}
							switch pos {
							case 0:
								fns = L{c15fn("f", im), fns[0].(M)}
								fns[1].(M)["name"] = "g"
							case 1:
								fns = L{c15fn("f", c15impl("i32"), im, c15impl("i64"))}
							case 2:
								fns = append(fns, c15fn("g", c15impl("i32"), im))
							}
							doc := M{"urn": "extension:mc:refs", "types": L{M{"name": "t"}}, "type_variations": L{M{"name": "v", "parent": "i32", "functions": "INHERITS"}}, kind: fns}
							col := &ext.Collection{}
							text := c15json(doc)
							err, ok := c15load(t, col, text)
							t.Trans(1)
							if !ok {
								return
							}
							if (err == nil) != (name == "u!t") {
								t.Failf("%s: error is %v", text, err)
							}
							m := newC15()
							if err == nil && name == "u!t" {
								m.add(c15norm(doc))
							}
							m.judge(t, text, col)
							t.State(fmt.Sprint(kind, place, ty, pos))
						}
					}
				}
				t.Validated()
			}, "type references", kind, place)
		}
	}
	A := M{"urn": "extension:mc:a", "metadata": M{"m": "a"}, "types": L{M{"name": "t", "structure": "i32"}}, "type_variations": L{M{"name": "v", "parent": "i32", "functions": "INHERITS"}}, "scalar_functions": L{c15fn("f", c15impl("i32")), c15fn("g", c15impl("i32"), c15impl("i64"))}, "aggregate_functions": L{c15fn("h", c15impl("u!t"))}}
	A2 := M{"urn": "extension:mc:a", "types": L{M{"name": "t2"}}, "scalar_functions": L{c15fn("other", c15impl("i32")), c15fn("f", c15impl("i64"))}}
	B := M{"urn": "extension:mc:b", "scalar_functions": L{c15fn("f", c15impl("i32"))}, "window_functions": L{c15fn("g", c15impl(), c15impl("any1"))}, "types": L{M{"name": "t"}}}
	C := M{"urn": "extension:mc:c", "dependencies": M{"a": "extension:mc:a"}, "scalar_functions": L{c15fn("f", c15impl("i32", "i32"))}}
	bad := func(mut func(d M)) string {
		d := M{"urn": "extension:mc:bad", "metadata": M{"x": "y"}, "types": L{M{"name": "t"}}, "type_variations": L{M{"name": "v", "parent": "i32", "functions": "INHERITS"}}, "scalar_functions": L{c15fn("f", c15impl("i32"))}}
		mut(d)
		return c15json(d)
	}
	docs := []doc{{c15json(A), A, ""}, {c15json(A2), A2, ""}, {c15json(B), B, ""}, {c15json(C), C, "extension:mc:a"},
		{"", nil, ""}, {"urn: [", nil, ""}, {bad(func(d M) { delete(d, "urn") }), nil, ""}, {bad(func(d M) { d["urn"] = "extension:bad" }), nil, ""},
		{bad(func(d M) { d["urn"] = "mc:x:bad" }), nil, ""},
		{bad(func(d M) { d["dependencies"] = M{"z": "extension:mc:zzz"} }), nil, ""}, {bad(func(d M) { d["dependencies"] = M{"0 bad": "extension:mc:a"} }), nil, ""},
		{bad(func(d M) { d["scalar_functions"] = L{c15fn("f", c15impl("i32")), c15fn("g", c15impl("u!nope"))} }), nil, ""},
		{bad(func(d M) { d["aggregate_functions"] = L{c15fn("g", c15impl("i32<"))} }), nil, ""},
		{bad(func(d M) { d["window_functions"] = L{c15fn("g", M{"args": L{M{"name": "x"}}, "return": "i32"})} }), nil, ""},
		{bad(func(d M) { d["scalar_functions"] = L{c15fn("f", M{"args": L{M{"options": 5}}, "return": "i32"})} }), nil, ""}}
	depth := 3
	if c.Thorough {
		depth = 4
	}
	for i := range docs {
		for j := range docs {
			c.Case(func(t *T) {
				var rec func(list []int)
				rec = func(list []int) {
					col := &ext.Collection{}
					m := newC15()
					at := ""
					for s, x := range list {
						d := docs[x]
						at += fmt.Sprintf("load %d: %s; ", s, d.text)
						err, ok := c15load(t, col, d.text)
						if !ok {
							return
						}
						good := d.d != nil && !m.urns[c15str(d.d, "urn")] && (d.need == "" || m.urns[d.need])
						if good != (err == nil) {
							t.Failf("%s error is %v", at, err)
							return
						}
						if good {
							m.add(c15norm(d.d))
						}
						if s == len(list)-1 {
							m.judge(t, at, col)
							t.State(fmt.Sprint(keysOf(m.urns), list))
						}
					}
					if len(list) == depth || t.Failed() {
						return
					}
					for x := range docs {
						rec(append(append([]int{}, list...), x))
					}
				}
				if j == 0 {
					n := depth
					depth = 1
					rec([]int{i})
					depth = n
				}
				rec([]int{i, j})
				t.Validated()
			}, "history", i, j)
		}
	}
	// every place of a rich document replaced or removed
	rich := c15norm(M{"urn": "extension:mc:bad", "metadata": M{"m": "n"}, "dependencies": M{"a": "extension:mc:a"}, "types": L{M{"name": "t", "structure": M{"x": "i32"}, "parameters": L{M{"name": "p", "type": "integer", "min": 1}}}}, "type_variations": L{M{"name": "v", "parent": "i32", "functions": "SEPARATE", "description": "d"}},
		"scalar_functions":    L{M{"name": "f", "description": "d", "metadata": M{"k": "v"}, "impls": L{M{"args": L{M{"value": "u!t", "name": "n", "description": "d", "constant": true}, M{"options": L{"A"}, "name": "o"}, M{"type": "i32"}}, "options": M{"o": M{"values": L{"A"}, "description": "x"}}, "variadic": M{"min": 1, "max": 3, "parameterConsistency": "CONSISTENT"}, "sessionDependent": true, "deterministic": false, "nullability": "DISCRETE", "return": "i32", "implementation": M{"x": "y"}}}}},
		"aggregate_functions": L{M{"name": "g", "impls": L{M{"args": L{M{"value": "i32"}}, "return": "i64", "intermediate": "i64", "ordered": true, "maxset": 5, "decomposable": "MANY"}}}},
		"window_functions":    L{M{"name": "h", "impls": L{M{"args": L{}, "return": "i64", "window_type": "STREAMING"}}}}})
	var paths [][]any
	var walk func(v any, p []any)
	walk = func(v any, p []any) {
		if len(p) > 0 {
			paths = append(paths, append([]any{}, p...))
		}
		switch x := v.(type) {
		case map[string]any:
			var ks []string
			for k := range x {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, k := range ks {
				walk(x[k], append(p, k))
			}
		case []any:
			for i := range x {
				walk(x[i], append(p, i))
			}
		}
	}
	walk(rich, nil)
	broken := func(t *T, text string) {
		col := &ext.Collection{}
		m := newC15()
		m.add(c15norm(A))
		if err := col.Load(strings.NewReader(c15json(A))); err != nil {
			t.Failf("%v", err)
			return
		}
		err, ok := c15load(t, col, text)
		if !ok {
			return
		}
		t.State(text)
		if err != nil {
			t.Note("rejected")
			m.judge(t, "after the failed load of "+text, col)
			return
		}
		t.Note("accepted")
		// what is accepted can be looked up and asked for all of its parts
		if msg := catch(func() {
			for _, v := range col.GetAllScalarFunctions() {
				c15use(v)
			}
			for _, v := range col.GetAllAggregateFunctions() {
				c15use(v)
				_, _ = v.Intermediate()
			}
			for _, v := range col.GetAllWindowFunctions() {
				c15use(v)
				_, _ = v.Intermediate()
			}
		}); msg != "" {
			t.Failf("using the functions of %s panics: %s", text, msg)
		}
		for k := range m.fns {
			p := strings.SplitN(k, "|", 3)
			if v, ok := c15lookup(col, p[0], ext.FunctionID{URN: p[1], Name: p[2]}); !ok || !m.fns[k][c15show(p[0], v)] {
				t.Failf("after loading %s: %s is gone", text, k)
			}
		}
	}
	values := L{nil, 5, -1, "zz", "a<", true, L{}, M{}, L{1}, L{nil}, M{"name": 5}, "", 1.5}
	for pi, p := range paths {
		c.Case(func(t *T) {
			for vi := -1; vi < len(values); vi++ {
				d := c15norm(rich)
				var cur any = d
				for _, s := range p[:len(p)-1] {
					switch x := cur.(type) {
					case map[string]any:
						cur = x[s.(string)]
					case []any:
						cur = x[s.(int)]
					}
				}
				last := p[len(p)-1]
				switch x := cur.(type) {
				case map[string]any:
					if vi < 0 {
						delete(x, last.(string))
					} else {
						x[last.(string)] = values[vi]
					}
				case []any:
					if vi < 0 {
						continue
					}
					x[last.(int)] = values[vi]
				}
				broken(t, c15json(d))
			}
			t.Validated()
		}, "broken", pi)
	}
	block, err := yaml.Marshal(rich)
	if err != nil {
		panic(err)
	}
	texts := []string{c15json(rich), string(block)}
	for ti, text := range texts {
		for lo := 0; lo < len(text); lo += 64 {
			c.Case(func(t *T) {
				for i := lo; i < lo+64 && i < len(text); i++ {
					broken(t, text[:i])
					if c.Thorough {
						broken(t, text[:i]+text[i+1:])
						broken(t, text[:i]+"\x00"+text[i+1:])
						broken(t, text[:i]+" "+text[i+1:])
						broken(t, text[:i]+"}"+text[i+1:])
					}
				}
				t.Validated()
			}, "cut", ti, lo)
		}
	}
}

// c15use asks a function for everything.
func c15use(v c15variant) {
	_ = v.CompoundName()
	_ = v.MinArgumentCount()
	_ = v.MaxArgumentCount()
	for _, a := range v.Args() {
		_ = a.GetTypeExpression()
	}
	ts := []types.Type{}
	for i := 0; i < 4; i++ {
		_, _ = v.Match(ts)
		_, _ = v.ResolveType(ts, ext.NewSet())
		_, _ = v.MatchAt(&types.Int32Type{Nullability: types.NullabilityRequired}, i)
		ts = append(ts, &types.Int32Type{Nullability: types.NullabilityRequired})
	}
	_ = reflect.TypeOf(v)
}
