package main

import (
	"fmt"
	"sort"
	"strings"

	ext "github.com/substrait-io/substrait-go/v8/extensions"
	"github.com/substrait-io/substrait-go/v8/functions"
	"github.com/substrait-io/substrait-go/v8/types"
)

func init() {
	checks["C17"] = &Check{Run: runC17, Quick: 250, Thorough: 850, Shards: 16,
		Bounds: "dialects declaring 1 type under each of its names x 8 spellings, all pairs of 37 type names (distinct and shared spellings, both declaration orders), all triples (thorough) or a third of them, and all types at once; each type of the bounded type universe translated, parsed back and parsed from its Substrait text; unknown and malformed spellings; each dialect built 4 times and asked in two orders",
		Assume: []string{"the engine's spelling does not carry nullability or type variations: parsing gives the required type", "a spelling that several types declare may stand for any of them, but always the same", "spellings of parametrised types contain no parentheses themselves"}}
}

// the names a type may be declared by
var c17names = map[string]string{"i8": "i8", "i16": "i16", "i32": "i32", "i64": "i64", "fp32": "fp32", "fp64": "fp64", "string": "string", "str": "string", "binary": "binary", "vbin": "binary", "boolean": "boolean", "bool": "boolean", "date": "date", "time": "time",
	"timestamp": "timestamp", "ts": "timestamp", "timestamp_tz": "timestamp_tz", "tstz": "timestamp_tz", "interval_year": "interval_year", "iyear": "interval_year", "uuid": "uuid", "fixedbinary": "fixedbinary", "fbin": "fixedbinary", "fixedchar": "fixedchar", "fchar": "fixedchar", "varchar": "varchar", "vchar": "varchar",
	"decimal": "decimal", "dec": "decimal", "interval_day": "interval_day", "iday": "interval_day", "precision_time": "precision_time", "pt": "precision_time", "precision_timestamp": "precision_timestamp", "pts": "precision_timestamp", "precision_timestamp_tz": "precision_timestamp_tz", "ptstz": "precision_timestamp_tz"}

func c17params(kind string) int {
	switch kind {
	case "decimal":
		return 2
	case "fixedbinary", "fixedchar", "varchar", "interval_day", "precision_time", "precision_timestamp", "precision_timestamp_tz":
		return 1
	}
	return 0
}

type c17decl struct {
	name, local string
	col         int // 0 default, 1 true, 2 false
}

func c17text(ds []c17decl) string {
	var b strings.Builder
	b.WriteString("name: d\ntype: sql\ndependencies:\n  a: extension:mc:a\nscalar_functions:\n- name: a.f\n  supported_kernels:\n  - i32_i32\nsupported_types:\n")
	for _, d := range ds {
		fmt.Fprintf(&b, "  %s:\n    sql_type_name: %q\n", d.name, d.local)
		if d.col > 0 {
			fmt.Fprintf(&b, "    supported_as_column: %v\n", d.col == 1)
		}
	}
	return b.String()
}

func c17kind(a *carg) string {
	k := pbKind(a.p)
	if n, ok := pbKindName[k]; ok {
		k = n
	}
	return k
}

func c17plain(a *carg) string {
	p := pbReq(a.p)
	if v, ok := typeField(p, "type_variation_reference"); ok && v.Uint() != 0 {
		return ""
	}
	return mtext(p)
}

// c17one judges one dialect; the result is everything observed, as text.
func c17one(t *T, ds []c17decl, us []*carg, back bool) string {
	text := c17text(ds)
	t.Trans(1)
	var di functions.Dialect
	var tr functions.LocalTypeRegistry
	var err error
	if msg := catch(func() {
		if di, err = functions.LoadDialect("d", strings.NewReader(text)); err == nil {
			tr, err = di.GetLocalTypeRegistry()
		}
	}); msg != "" || err != nil {
		t.Failf("dialect with types %v: panic %q error %v", ds, msg, err)
		return ""
	}
	byKind := map[string][]c17decl{}
	byLocal := map[string]map[string]bool{}
	for _, d := range ds {
		k := c17names[d.name]
		byKind[k] = append(byKind[k], d)
		if byLocal[d.local] == nil {
			byLocal[d.local] = map[string]bool{}
		}
		byLocal[d.local][k] = true
	}
	var out []string
	st := tr.GetSupportedTypes()
	if len(st) != len(byLocal) {
		t.Failf("dialect with types %v: supported types are %v", ds, st)
	}
	for l, ty := range st {
		if byLocal[l] == nil || ty == nil {
			t.Failf("dialect with types %v: supported type %q", ds, l)
			continue
		}
		out = append(out, l+"="+ty.String())
	}
	if x, e := di.LocalizeTypeRegistry(functions.NewTypeRegistry()); e != nil || fmt.Sprint(x.GetSupportedTypes()) != fmt.Sprint(st) {
		t.Failf("dialect with types %v: localising again gives %v", ds, e)
	}
	for i := range us {
		u := us[i]
		if back {
			u = us[len(us)-1-i]
		}
		kind := c17kind(u)
		decl := byKind[kind]
		t.Trans(3)
		var loc string
		var err error
		if msg := catch(func() { loc, err = tr.GetLocalTypeFromSubstraitType(u.t) }); msg != "" {
			t.Failf("dialect with types %v: translating %s panics: %s", ds, u.t, msg)
			continue
		}
		if (err == nil) != (len(decl) > 0) {
			t.Failf("dialect with types %v: translating %s gives error %v", ds, u.t, err)
		}
		col := tr.IsTypeSupportedInTables(u.t)
		okCol := len(decl) == 0 && !col
		for _, d := range decl {
			okCol = okCol || col == (d.col < 2)
		}
		if !okCol {
			t.Failf("dialect with types %v: %s supported in tables: %v", ds, u.t, col)
		}
		// the Substrait text of the type
		if s := u.t.String(); kind != "struct" && kind != "list" && kind != "map" && kind != "func" && kind != "user_defined" {
			for _, f := range append([]string{s}, c17short(s)...) {
				var p types.Type
				var e error
				if msg := catch(func() { p, e = tr.GetTypeFromTypeString(f) }); msg != "" {
					t.Failf("dialect with types %v: parsing %q panics: %s", ds, f, msg)
					continue
				}
				if (e == nil) != (len(decl) > 0) {
					t.Failf("dialect with types %v: parsing %q gives error %v", ds, f, e)
				} else if e == nil && c17plain(u) != "" && mtext(types.TypeToProto(p)) != mtext(u.p) {
					t.Failf("dialect with types %v: %q is parsed as %s", ds, f, p)
				}
			}
		}
		if err != nil || len(decl) == 0 {
			continue
		}
		spelled := ""
		for _, d := range decl {
			want := d.local
			if n := c17params(kind); n > 0 {
				var ps []string
				for _, v := range pbInts(u.p) {
					ps = append(ps, fmt.Sprint(v))
				}
				want += "(" + strings.Join(ps, ",") + ")"
			}
			if loc == want {
				spelled = d.local
			}
		}
		if spelled == "" {
			t.Failf("dialect with types %v: %s is spelled %q", ds, u.t, loc)
			continue
		}
		var p types.Type
		if msg := catch(func() { p, err = tr.GetSubstraitTypeFromLocalType(loc) }); msg != "" {
			t.Failf("dialect with types %v: parsing %q panics: %s", ds, loc, msg)
			continue
		}
		if len(byLocal[spelled]) == 1 {
			if err != nil {
				t.Failf("dialect with types %v: %s is spelled %q, which gives the error %v", ds, u.t, loc, err)
				continue
			}
			if w := c17plain(u); w != "" && mtext(types.TypeToProto(p)) != w {
				t.Failf("dialect with types %v: %s is spelled %q, which is %s", ds, u.t, loc, p)
			}
		} else if err == nil {
			k := c17kind(&carg{types.TypeToProto(p), p})
			if !byLocal[spelled][k] {
				t.Failf("dialect with types %v: %q is parsed as %s", ds, loc, p)
			}
		}
		if back == (i%2 == 0) || true {
			out = append(out, fmt.Sprint(u.t, " ", loc, " ", p, " ", err == nil))
		}
		argsSame(t, ds, []*carg{u})
	}
	for _, s := range c17bad {
		t.Trans(2)
		for _, local := range []bool{true, false} {
			var p types.Type
			var e error
			if msg := catch(func() {
				if local {
					p, e = tr.GetSubstraitTypeFromLocalType(s)
				} else {
					p, e = tr.GetTypeFromTypeString(s)
				}
			}); msg != "" {
				t.Failf("dialect with types %v: parsing %q panics: %s", ds, s, msg)
			} else if e == nil {
				t.Failf("dialect with types %v: parsing %q gives %s", ds, s, p)
			}
		}
	}
	// wrong numbers of parameters
	for _, d := range ds {
		if len(byLocal[d.local]) > 1 || strings.Contains(d.local, "(") {
			continue
		}
		n := c17params(c17names[d.name])
		for _, ps := range []string{"(1,2,3)", "()", "(x)", "(5", "5)", "(1,)", "(,1)", "(99999999999)"} {
			if p, e := tr.GetSubstraitTypeFromLocalType(d.local + ps); e == nil {
				t.Failf("dialect with types %v: %q is parsed as %s", ds, d.local+ps, p)
			}
		}
		for k, ps := range []string{"", "(1)", "(2,1)"} {
			p, e := tr.GetSubstraitTypeFromLocalType(d.local + ps)
			if k != n && k > 0 && e == nil {
				t.Failf("dialect with types %v: %q is parsed as %s", ds, d.local+ps, p)
			}
			if k == n && e != nil {
				t.Failf("dialect with types %v: %q gives the error %v", ds, d.local+ps, e)
			}
		}
	}
	sort.Strings(out)
	return strings.Join(out, ";")
}

var c17bad = []string{"", "?", "(", ")", "()", "<>", "NOPE", "NOPE(1)", "nope<1,2>", "NOPE?", "(1,2)", "<1>", "i3", "list<i32>", "struct<i32>"}

// c17short writes a type's text with its short name.
func c17short(s string) []string {
	i := strings.IndexAny(s, "?<")
	base, rest := s, ""
	if i >= 0 {
		base, rest = s[:i], s[i:]
	}
	if sh := c15short[base]; sh != "" && sh != base {
		return []string{sh + rest}
	}
	return nil
}

func c17check(t *T, ds []c17decl, us []*carg) {
	perms := [][]c17decl{ds}
	for r := 1; r < len(ds) && r < 3; r++ {
		perms = append(perms, append(append([]c17decl(nil), ds[r:]...), ds[:r]...))
	}
	rev := append([]c17decl(nil), ds...)
	for i, j := 0, len(rev)-1; i < j; i, j = i+1, j-1 {
		rev[i], rev[j] = rev[j], rev[i]
	}
	perms = append(perms, rev, ds, ds)
	first := ""
	for i, p := range perms {
		o := c17one(t, p, us, i%2 == 1)
		if i == 0 {
			first = o
		} else if o != first && o != "" && first != "" {
			t.Failf("types %v: built as %v the translations differ:\n%s\n%s", ds, p, clip(first, 400), clip(o, 400))
		}
	}
	t.State(fmt.Sprint(ds))
	t.Validated()
}

func runC17(c *Ctx) {
	var names []string
	for n := range c17names {
		names = append(names, n)
	}
	sort.Strings(names)
	var small []*carg
	for _, m := range leafMakers() {
		small = append(small, mkArg(m.mk(nReq, 0)), mkArg(m.mk(nNul, 0)))
	}
	for _, a := range cargs() {
		if a.p != nil {
			small = append(small, a)
		}
	}
	var all []c17decl
	for i, n := range names {
		c.Case(func(t *T) {
			locals := []string{"INT", "int", "DOUBLE PRECISION", "X_1", "TIMESTAMP WITH TIME ZONE", "[]"}
			if c17params(c17names[n]) == 0 {
				locals = append(locals, "VARCHAR(MAX)", "TIMESTAMP(6) WITH TIME ZONE", "BIT(1)")
			}
			for _, l := range locals {
				for col := 0; col < 3; col++ {
					c17check(t, []c17decl{{n, l, col}}, append(c11universe(), small...))
				}
			}
			t.Dim("type", n)
		}, "one", n)
		all = append(all, c17decl{n, "T" + c17names[n], 0})
		for j, m := range names {
			if i == j {
				continue
			}
			c.Case(func(t *T) {
				c17check(t, []c17decl{{n, "A", 0}, {m, "B", 2}}, small)
				c17check(t, []c17decl{{n, "A", 0}, {m, "A", 0}}, small)
				for k := j + 1; k < len(names); k++ {
					if k != i && i < j && (c.Thorough || (i+j+k)%3 == 0) {
						c17check(t, []c17decl{{n, "A", 0}, {m, "B", 1}, {names[k], "A", 0}}, small)
					}
				}
				t.Dim("pair", n)
			}, "two", n, m)
		}
	}
	c.Case(func(t *T) {
		c17check(t, all, c11universe())
		distinct := map[string]bool{}
		var ds []c17decl
		for _, d := range all {
			if !distinct[c17names[d.name]] {
				distinct[c17names[d.name]] = true
				ds = append(ds, d)
			}
		}
		c17check(t, ds, c11universe())
	}, "all")
	// the unrestricted registry
	c.Case(func(t *T) {
		tr := functions.NewTypeRegistry()
		for _, u := range append(c11universe(), small...) {
			kind := c17kind(u)
			if c17plain(u) == "" {
				continue
			}
			known := false
			for _, k := range c17names {
				known = known || k == kind
			}
			for _, f := range append([]string{u.t.String()}, c17short(u.t.String())...) {
				if strings.HasPrefix(f, "u!") || kind == "user_defined" {
					continue
				}
				t.Trans(1)
				var p types.Type
				var e error
				if msg := catch(func() { p, e = tr.GetTypeFromTypeString(f) }); msg != "" {
					t.Failf("parsing %q panics: %s", f, msg)
				} else if known && e != nil {
					t.Failf("parsing %q gives the error %v", f, e)
				} else if e == nil && mtext(types.TypeToProto(p)) != mtext(u.p) {
					t.Failf("%q is parsed as %s", f, p)
				}
			}
		}
		for _, s := range c17bad {
			if p, e := tr.GetTypeFromTypeString(s); e == nil {
				t.Failf("%q is parsed as %s", s, p)
			}
		}
		t.State("registry")
		t.Validated()
	}, "registry")
	// types no dialect can declare
	for _, n := range []string{"myth", "I32", "i32?", "decimal<10,2>", "list", "struct", "map", "any", "any1", "INT", "u!x", "req"} {
		c.Case(func(t *T) {
			di, err := functions.LoadDialect("d", strings.NewReader(c17text([]c17decl{{"i32", "INT", 0}, {"\"" + n + "\"", "X", 0}})))
			t.Trans(1)
			if err == nil {
				for i := 0; i < 2 && err == nil; i++ {
					if _, err = di.GetLocalTypeRegistry(); err == nil {
						t.Failf("a dialect may declare the type %s", n)
					}
					_, e2 := di.LocalizeFunctionRegistry(functions.NewFunctionRegistry(&ext.Collection{}))
					if e2 == nil {
						t.Failf("a dialect that declares the type %s is localised", n)
					}
				}
			}
			t.State(n)
		}, "unknown", n)
	}
}
