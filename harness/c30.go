// C30: signature types and function variants answer truthfully about themselves.
package main

import (
	"fmt"
	"io/fs"
	"path"
	"reflect"
	"strings"

	"github.com/goccy/go-yaml"
	"github.com/substrait-io/substrait"
	ext "github.com/substrait-io/substrait-go/v8/extensions"
	"github.com/substrait-io/substrait-go/v8/types"
	ip "github.com/substrait-io/substrait-go/v8/types/integer_parameters"
	"github.com/substrait-io/substrait-go/v8/types/parser"
	"google.golang.org/protobuf/proto"
)

func init() {
	checks["C30"] = &Check{Run: runC30, Quick: 250, Thorough: 850, Shards: 16,
		Bounds: "declared argument types: 15 simple types, 7 length/precision types and decimal with every mix of 2 numbers and 2 variables, any types, an enumeration, and list, map, struct (up to 2 fields), function (up to 2 parameters) and user defined types (type, number and string parameters) over a basis of these, nested twice (thorough: three times), in 3 nullabilities: parameters, names, nullability, each wrapped as a derivation; WithParameters with every list of up to 2 of 10 values and with the parameters of every concrete type that matches; HasSyncParams and the user defined types of all lists of up to 2 (thorough 3) types; enumerations over all option lists up to 3 of 2 names; interval types over nullability x variation; the type-name tables; on-the-fly variants over 11 names x variadic x flags x decomposability x 3 constructors; all functions of the standard files and of a rich document by GetVariants, ResolveURN and the collection",
		Assume: []string{"EnumType.WithParameters and OutputDerivation.WithParameters are stated not to be called", "WithParameters of a function type gives all its parts the same parameters: only checked for not crashing", "a user defined type made from its signature has no anchor until a registry resolves it"}}
}

// c30t is a declared argument type with what it should say about itself.
type c30t struct {
	mk    func() types.FuncDefArgType // required, fresh each time
	text  func(n string) string
	short string
	names []string // integer variables in order
	udts  []string
	kind  string
	kids  []c30t
	ints  []any // int32 or name
	noN   bool  // does not print its nullability
}

func (x c30t) String() string { return x.text("") }

func c30int(v any) ip.IntegerParameter {
	if s, ok := v.(string); ok {
		return ip.NewVariableIntParam(s)
	}
	return ip.NewConcreteIntParam(v.(int32))
}

func c30names(vs ...any) (r []string) {
	for _, v := range vs {
		if s, ok := v.(string); ok {
			r = append(r, s)
		}
	}
	return
}

func c30pre(base, rest string) func(string) string {
	return func(n string) string { return base + n + rest }
}

func c30leaves() (r []c30t) {
	const q = types.NullabilityRequired
	prim := func(base, short string, mk func() types.FuncDefArgType) {
		r = append(r, c30t{mk: mk, text: c30pre(base, ""), short: short, kind: "prim"})
	}
	prim("boolean", "bool", func() types.FuncDefArgType { return &types.BooleanType{Nullability: q} })
	prim("i8", "i8", func() types.FuncDefArgType { return &types.Int8Type{Nullability: q} })
	prim("i16", "i16", func() types.FuncDefArgType { return &types.Int16Type{Nullability: q} })
	prim("i32", "i32", func() types.FuncDefArgType { return &types.Int32Type{Nullability: q} })
	prim("i64", "i64", func() types.FuncDefArgType { return &types.Int64Type{Nullability: q} })
	prim("fp32", "fp32", func() types.FuncDefArgType { return &types.Float32Type{Nullability: q} })
	prim("fp64", "fp64", func() types.FuncDefArgType { return &types.Float64Type{Nullability: q} })
	prim("string", "str", func() types.FuncDefArgType { return &types.StringType{Nullability: q} })
	prim("binary", "vbin", func() types.FuncDefArgType { return &types.BinaryType{Nullability: q} })
	prim("timestamp", "ts", func() types.FuncDefArgType { return &types.TimestampType{Nullability: q} })
	prim("timestamp_tz", "tstz", func() types.FuncDefArgType { return &types.TimestampTzType{Nullability: q} })
	prim("date", "date", func() types.FuncDefArgType { return &types.DateType{Nullability: q} })
	prim("time", "time", func() types.FuncDefArgType { return &types.TimeType{Nullability: q} })
	prim("interval_year", "iyear", func() types.FuncDefArgType { return &types.IntervalYearType{Nullability: q} })
	prim("uuid", "uuid", func() types.FuncDefArgType { return &types.UUIDType{Nullability: q} })
	for _, v := range []any{int32(0), int32(7), "P", "Q"} {
		one := func(base, short string, mk func() types.FuncDefArgType) {
			r = append(r, c30t{mk: mk, text: c30pre(base, fmt.Sprintf("<%v>", v)), short: short, kind: "int", ints: []any{v}, names: c30names(v)})
		}
		one("varchar", "vchar", func() types.FuncDefArgType {
			return &types.ParameterizedVarCharType{Nullability: q, IntegerOption: c30int(v)}
		})
		one("fixedchar", "fchar", func() types.FuncDefArgType {
			return &types.ParameterizedFixedCharType{Nullability: q, IntegerOption: c30int(v)}
		})
		one("fixedbinary", "fbin", func() types.FuncDefArgType {
			return &types.ParameterizedFixedBinaryType{Nullability: q, IntegerOption: c30int(v)}
		})
		one("precision_time", "pt", func() types.FuncDefArgType {
			return &types.ParameterizedPrecisionTimeType{Nullability: q, IntegerOption: c30int(v)}
		})
		one("precision_timestamp", "pts", func() types.FuncDefArgType {
			return &types.ParameterizedPrecisionTimestampType{Nullability: q, IntegerOption: c30int(v)}
		})
		one("precision_timestamp_tz", "ptstz", func() types.FuncDefArgType {
			return &types.ParameterizedPrecisionTimestampTzType{Nullability: q, IntegerOption: c30int(v)}
		})
		one("interval_day", "iday", func() types.FuncDefArgType {
			return &types.ParameterizedIntervalDayType{Nullability: q, IntegerOption: c30int(v)}
		})
		for _, w := range []any{int32(0), int32(7), "P", "Q"} {
			r = append(r, c30t{mk: func() types.FuncDefArgType {
				return &types.ParameterizedDecimalType{Nullability: q, Precision: c30int(v), Scale: c30int(w)}
			}, text: c30pre("decimal", fmt.Sprintf("<%v,%v>", v, w)), short: "dec", kind: "dec", ints: []any{v, w}, names: c30names(v, w)})
		}
	}
	for _, n := range []string{"any", "any1", "T"} {
		r = append(r, c30t{mk: func() types.FuncDefArgType { return &types.AnyType{Name: n, Nullability: q} }, text: c30pre(n, ""), short: "any", kind: "any"})
	}
	r = append(r, c30t{mk: func() types.FuncDefArgType {
		return &types.EnumType{Nullability: q, Name: "en", Options: []string{"A", "B"}}
	}, text: func(string) string { return "en" }, short: "req", kind: "enum", noN: true})
	return
}

// c30find is the basis over which types are composed.
func c30basis(ls []c30t) (r []c30t) {
	for _, want := range []string{"i32", "string", "varchar<P>", "varchar<7>", "precision_timestamp<Q>", "decimal<P,Q>", "decimal<7,Q>", "decimal<7,7>", "any1"} {
		for _, l := range ls {
			if l.String() == want {
				r = append(r, l)
			}
		}
	}
	return
}

func c30cat(ks []c30t) (names, udts, texts []string) {
	for _, k := range ks {
		names = append(names, k.names...)
		udts = append(udts, k.udts...)
		texts = append(texts, k.String())
	}
	return
}

// c30null is k, nullable.
func c30null(k c30t) c30t {
	mk, text := k.mk, k.text
	k.mk = func() types.FuncDefArgType { return mk().SetNullability(types.NullabilityNullable) }
	k.text = func(n string) string { return text("?") }
	return k
}

func c30compose(ks []c30t) (r []c30t) {
	const q = types.NullabilityRequired
	add := func(kind, base, short string, kids []c30t, mk func() types.FuncDefArgType, inner string) {
		names, udts, _ := c30cat(kids)
		x := c30t{mk: mk, text: c30pre(base, inner), short: short, names: names, udts: udts, kind: kind, kids: kids}
		if kind == "udt" {
			x.udts = append([]string{"point"}, udts...)
		}
		r = append(r, x)
	}
	mkAll := func(kids []c30t) (r []types.FuncDefArgType) {
		for _, k := range kids {
			r = append(r, k.mk())
		}
		return
	}
	add("udt", "u!point", "u!point", nil, func() types.FuncDefArgType {
		return &types.ParameterizedUserDefinedType{Name: "point", Nullability: q}
	}, "")
	add("udtc", "u!point", "u!point", nil, func() types.FuncDefArgType {
		return &types.ParameterizedUserDefinedType{Name: "point", Nullability: q, TypeParameters: []types.UDTParameter{&types.IntegerUDTParam{Integer: 3}, &types.StringUDTParam{StringVal: "s"}}}
	}, "<3, s>")
	r[len(r)-1].udts = []string{"point"}
	for _, k := range ks {
		add("list", "list", "list", []c30t{k}, func() types.FuncDefArgType {
			return &types.ParameterizedListType{Nullability: q, Type: k.mk()}
		}, "<"+k.String()+">")
		add("udt", "u!point", "u!point", []c30t{k}, func() types.FuncDefArgType {
			return &types.ParameterizedUserDefinedType{Name: "point", Nullability: q, TypeParameters: []types.UDTParameter{&types.IntegerUDTParam{Integer: 3}, &types.DataTypeUDTParam{Type: k.mk()}}}
		}, "<3, "+k.String()+">")
		for _, kids := range [][]c30t{{k}, {}} {
			_, _, tx := c30cat(kids)
			add("struct", "struct", "struct", kids, func() types.FuncDefArgType {
				return &types.ParameterizedStructType{Nullability: q, Types: mkAll(kids)}
			}, "<"+strings.Join(tx, ", ")+">")
		}
		add("func", "func", "func", []c30t{k}, func() types.FuncDefArgType {
			return &types.ParameterizedFuncType{Nullability: q, Return: k.mk()}
		}, "<() -> "+k.String()+">")
		for _, l := range ks {
			pair := []c30t{k, l}
			add("map", "map", "map", pair, func() types.FuncDefArgType {
				return &types.ParameterizedMapType{Nullability: q, Key: k.mk(), Value: l.mk()}
			}, "<"+k.String()+", "+l.String()+">")
			add("struct", "struct", "struct", pair, func() types.FuncDefArgType {
				return &types.ParameterizedStructType{Nullability: q, Types: mkAll(pair)}
			}, "<"+k.String()+", "+l.String()+">")
			add("udt", "u!point", "u!point", pair, func() types.FuncDefArgType {
				return &types.ParameterizedUserDefinedType{Name: "point", Nullability: q, TypeParameters: []types.UDTParameter{&types.DataTypeUDTParam{Type: k.mk()}, &types.DataTypeUDTParam{Type: l.mk()}}}
			}, "<"+k.String()+", "+l.String()+">")
			add("func", "func", "func", pair, func() types.FuncDefArgType {
				return &types.ParameterizedFuncType{Nullability: q, Parameters: mkAll(pair[:1]), Return: l.mk()}
			}, "<"+k.String()+" -> "+l.String()+">")
			add("func", "func", "func", []c30t{k, k, l}, func() types.FuncDefArgType {
				return &types.ParameterizedFuncType{Nullability: q, Parameters: []types.FuncDefArgType{k.mk(), k.mk()}, Return: l.mk()}
			}, "<("+k.String()+", "+k.String()+") -> "+l.String()+">")
		}
	}
	return
}

func c30universe(deep bool) (r []c30t) {
	ls := c30leaves()
	r = append(r, ls...)
	base := c30basis(ls)
	var bn []c30t
	for i, b := range base {
		bn = append(bn, b)
		if i%2 == 1 {
			bn = append(bn, c30null(b))
		}
	}
	one := c30compose(bn)
	r = append(r, one...)
	pick := func(u []c30t, want ...string) (r []c30t) {
		for _, w := range want {
			ok := false
			for _, x := range u {
				if x.String() == w {
					r, ok = append(r, x), true
					break
				}
			}
			if !ok {
				panic("no " + w)
			}
		}
		return
	}
	second := append(pick(one, "list<varchar<P>>", "map<string, varchar<7>>", "struct<decimal<P,Q>, i32>", "u!point<3, varchar<P>>", "func<varchar<P> -> any1>", "list<i32>"), pick(r, "varchar<Q>", "i64")...)
	if deep {
		second = append(second, pick(one, "u!point", "u!point<3, s>", "struct<>", "func<() -> varchar<P>>", "map<decimal<P,Q>, varchar<P>>", "list<string?>", "struct<any1>", "u!point<precision_timestamp<Q>, i32>")...)
		second = append(second, pick(r, "decimal<7,Q>", "any1", "precision_time<P>", "boolean")...)
		second = append(second, c30null(second[0]), c30null(second[2]))
	}
	two := c30compose(second)
	r = append(r, two...)
	if deep {
		third := append(pick(two, "list<list<varchar<P>>>", "map<varchar<Q>, u!point<3, varchar<P>>>", "struct<list<i32>>", "func<list<i32> -> varchar<Q>>", "u!point<list<i32>, func<varchar<P> -> any1>>"), pick(r, "decimal<P,7>", "date")...)
		r = append(r, c30compose(third)...)
	}
	return
}

// c30flat are the integer variables that the parameters p lead to.
func c30flat(p any, depth int) (r []string, bad string) {
	if depth > 10 {
		return nil, "no end"
	}
	switch x := p.(type) {
	case *ip.VariableIntParam:
		return []string{x.String()}, ""
	case *ip.ConcreteIntParam:
		return nil, ""
	case *types.DataTypeUDTParam:
		return c30flat(x.Type, depth)
	case types.FuncDefArgType:
		ps := x.GetParameterizedParams()
		if len(ps) == 0 {
			return nil, "parameter " + x.String() + " has none"
		}
		for _, y := range ps {
			s, b := c30flat(y, depth+1)
			if b != "" {
				return nil, b
			}
			r = append(r, s...)
		}
		return r, ""
	}
	return nil, fmt.Sprintf("parameter %T", p)
}

var c30ns = []types.Nullability{types.NullabilityRequired, types.NullabilityNullable, types.NullabilityUnspecified}

func c30q(n types.Nullability) string {
	if n == types.NullabilityNullable {
		return "?"
	}
	return ""
}

func (x c30t) self(t *T, what string, o types.FuncDefArgType, n types.Nullability) {
	eq := func(name string, got, want any) {
		t.Trans(1)
		if fmt.Sprint(got) != fmt.Sprint(want) {
			t.Failf("%s %s: %s is %v, not %v", what, x.text(c30q(n)), name, got, want)
		}
	}
	eq("text", o.String(), x.text(c30q(n)))
	eq("ShortString", o.ShortString(), x.short)
	eq("GetNullability", o.GetNullability(), n)
	eq("HasParameterizedParam", o.HasParameterizedParam(), len(x.names) > 0)
	ps := o.GetParameterizedParams()
	eq("number of parameterized parameters > 0", len(ps) > 0, len(x.names) > 0)
	var names []string
	for _, p := range ps {
		s, bad := c30flat(p, 0)
		if bad != "" {
			t.Failf("%s %s: GetParameterizedParams: %s", what, x, bad)
			return
		}
		names = append(names, s...)
	}
	eq("parameters", names, x.names)
	var refs []string
	for _, r := range types.ReferencedUserDefinedTypes(o) {
		if r.DependencyAlias != nil {
			t.Failf("%s %s: reference with dependency %s", what, x, *r.DependencyAlias)
		}
		refs = append(refs, r.Name)
	}
	eq("user defined types", refs, x.udts)
}

func (x c30t) check(t *T) {
	for _, n := range c30ns {
		for _, m := range c30ns {
			o := x.mk()
			if r := o.SetNullability(n); r != o {
				t.Failf("%s: SetNullability gives another type", x)
			}
			x.self(t, "type", o, n)
			// set once more, from any nullability to any other
			if r := o.SetNullability(m); r.GetNullability() != m {
				t.Failf("%s: SetNullability(%v) then GetNullability is %v", x, m, r.GetNullability())
			}
			x.self(t, "again", o, m)
		}
		d := &types.OutputDerivation{FinalType: x.mk()}
		if r := d.SetNullability(n); r != types.FuncDefArgType(d) {
			t.Failf("%s: SetNullability of a derivation gives another type", x)
		}
		x.self(t, "derivation", d, n)
	}
	t.State(x.String())
}

func c30show(ty types.Type) string {
	if ty == nil || reflect.ValueOf(ty).Kind() == reflect.Pointer && reflect.ValueOf(ty).IsNil() {
		return "nil"
	}
	return show(types.TypeToProto(ty))
}

// with checks WithParameters for lists of values which say exactly what the result is.
func (x c30t) with(t *T) {
	if x.kind == "enum" {
		return
	}
	i32, str := types.Type(&types.Int32Type{Nullability: types.NullabilityRequired}), types.Type(&types.StringType{Nullability: types.NullabilityNullable})
	vals := []any{int64(0), int64(9), int32(5), types.PrecisionMilliSeconds, "P", nil, i32, str, types.IntegerParameter(4), &types.DataTypeParameter{Type: str}}
	lists := [][]any{nil, {}}
	for _, a := range vals {
		lists = append(lists, []any{a})
		for _, b := range vals {
			lists = append(lists, []any{a, b})
		}
	}
	lists = append(lists, []any{int64(1), int64(1), int64(1)}, []any{i32, i32, i32})
	for _, n := range c30ns {
		for _, l := range lists {
			o := x.mk().SetNullability(n)
			before := o.String()
			var got types.Type
			var err error
			if p := catch(func() { got, err = o.WithParameters(l) }); p != "" {
				t.Failf("%s WithParameters(%#v) panics: %s", before, l, p)
				return
			}
			t.Trans(1)
			if o.String() != before {
				t.Failf("WithParameters(%#v) turned %s into %s", l, before, o)
			}
			want, known := x.want(n, l)
			if !known {
				continue
			}
			if want == nil {
				if err == nil {
					t.Failf("%s WithParameters(%#v) is %s, not an error", before, l, c30show(got))
				}
				continue
			}
			if err != nil {
				t.Failf("%s WithParameters(%#v): %v, not %s", before, l, err, c30show(want))
				continue
			}
			if c30show(got) != c30show(want) {
				t.Failf("%s WithParameters(%#v) is %s, not %s", before, l, c30show(got), c30show(want))
			}
		}
	}
}

func c30conc(short string, v int32, n types.Nullability) types.Type {
	switch short {
	case "vchar":
		return &types.VarCharType{Nullability: n, Length: v}
	case "fchar":
		return &types.FixedCharType{Nullability: n, Length: v}
	case "fbin":
		return &types.FixedBinaryType{Nullability: n, Length: v}
	case "pt":
		return &types.PrecisionTimeType{Nullability: n, Precision: types.TimePrecision(v)}
	case "pts":
		return &types.PrecisionTimestampType{Nullability: n, Precision: types.TimePrecision(v)}
	case "ptstz":
		return &types.PrecisionTimestampTzType{PrecisionTimestampType: types.PrecisionTimestampType{Nullability: n, Precision: types.TimePrecision(v)}}
	case "iday":
		return &types.IntervalDayType{Nullability: n, Precision: types.TimePrecision(v)}
	}
	panic(short)
}

// want is the type that x filled in with the list is; nil for an error.
func (x c30t) want(n types.Nullability, l []any) (types.Type, bool) {
	switch x.kind {
	case "prim":
		return x.mk().SetNullability(n).(types.Type), true
	case "any":
		return nil, true
	case "int":
		if len(l) != 1 {
			if len(x.names) > 0 {
				return nil, true
			}
			return c30conc(x.short, x.ints[0].(int32), n), true
		}
		switch v := l[0].(type) {
		case int64:
			return c30conc(x.short, int32(v), n), true
		case int32:
			return c30conc(x.short, v, n), true
		case types.TimePrecision:
			return c30conc(x.short, int32(v), n), true
		}
		return nil, true
	case "dec":
		if len(l) != 2 {
			if len(x.names) > 0 {
				return nil, true
			}
			return &types.DecimalType{Nullability: n, Precision: x.ints[0].(int32), Scale: x.ints[1].(int32)}, true
		}
		p, ok := l[0].(int64)
		s, ok2 := l[1].(int64)
		if !ok || !ok2 {
			return nil, true
		}
		return &types.DecimalType{Nullability: n, Precision: int32(p), Scale: int32(s)}, true
	case "list":
		if len(l) == 1 {
			if e, ok := l[0].(types.Type); ok {
				return &types.ListType{Nullability: n, Type: e}, true
			}
		}
		return nil, true
	case "map":
		if len(l) == 2 {
			k, ok := l[0].(types.Type)
			v, ok2 := l[1].(types.Type)
			if ok && ok2 {
				return &types.MapType{Nullability: n, Key: k, Value: v}, true
			}
			return nil, true
		}
		if len(x.names) > 0 {
			return nil, true
		}
		return nil, false
	case "struct":
		if len(l) != len(x.kids) {
			return nil, true
		}
		r := &types.StructType{Nullability: n}
		for i, v := range l {
			ty, ok := v.(types.Type)
			if !ok {
				return nil, true
			}
			e, known := x.kids[i].want(x.kids[i].mk().GetNullability(), ty.GetParameters())
			if e == nil || !known {
				return nil, known
			}
			r.Types = append(r.Types, e)
		}
		return r, true
	case "udt", "udtc":
		np := len(x.mk().(*types.ParameterizedUserDefinedType).TypeParameters)
		if len(l) != np {
			return nil, true
		}
		r := &types.UserDefinedType{Nullability: n}
		for _, v := range l {
			p, ok := v.(types.TypeParam)
			if !ok {
				return nil, true
			}
			r.TypeParameters = append(r.TypeParameters, p)
		}
		return r, true
	}
	return nil, false
}

// matching checks x against every concrete type: its derivation matches alike, what
// matches with nullability matches without, and filling in a type's own parameters
// gives that type.
func (x c30t) matching(t *T, us []types.Type) {
	for _, n := range c30ns {
		o := x.mk().SetNullability(n)
		d := &types.OutputDerivation{FinalType: o}
		for _, u := range us {
			with, without := o.MatchWithNullability(u), o.MatchWithoutNullability(u)
			t.Trans(1)
			if with && (!without || u.GetNullability() != n) {
				t.Failf("%s matches %s with nullability, but not otherwise", x.text(c30q(n)), c30show(u))
			}
			if without != o.MatchWithoutNullability(u.WithNullability(types.NullabilityNullable)) || without != o.MatchWithoutNullability(u.WithNullability(types.NullabilityRequired)) {
				t.Failf("%s matches %s without nullability %v, not so in another nullability", x.text(c30q(n)), c30show(u), without)
			}
			if d.MatchWithNullability(u) != with || d.MatchWithoutNullability(u) != without {
				t.Failf("derivation of %s matches %s unlike the type", x.text(c30q(n)), c30show(u))
			}
			if !without || x.kind == "any" || x.kind == "enum" || x.kind == "func" || x.kind == "struct" && strings.ContainsAny(fmt.Sprint(x.kids), "afnu") {
				continue
			}
			switch x.kind {
			case "prim", "int", "dec", "list", "map", "udt", "udtc":
				got, err := o.WithParameters(u.GetParameters())
				if err != nil {
					t.Failf("%s with the parameters of %s, which matches: %v", x.text(c30q(n)), c30show(u), err)
					continue
				}
				a, b := proto.Clone(types.TypeToProto(got)), types.TypeToProto(u.WithNullability(n))
				if k := types.TypeToProto(got).GetUserDefined(); k != nil {
					b.GetUserDefined().TypeReference = k.TypeReference
				}
				c30novar(b)
				if mtext(a) != mtext(b) {
					t.Failf("%s with the parameters of %s is %s", x.text(c30q(n)), c30show(u), show(a))
				}
			}
		}
	}
}

// c30novar clears the variation of the type itself.
func c30novar(m proto.Message) {
	r := m.ProtoReflect()
	od := r.Descriptor().Oneofs().Get(0)
	f := r.WhichOneof(od)
	if f == nil {
		return
	}
	k := r.Mutable(f).Message()
	if v := k.Descriptor().Fields().ByName("type_variation_reference"); v != nil {
		k.Clear(v)
	}
}

func c30sync(t *T, u []c30t, i int, deep bool) {
	try := func(ids ...int) {
		var l []types.FuncDefArgType
		var want bool
		seen := map[string]bool{}
		var tx []string
		for _, j := range ids {
			l = append(l, u[j].mk())
			tx = append(tx, u[j].String())
			for _, n := range u[j].names {
				want = want || seen[n]
			}
			for _, n := range u[j].names {
				seen[n] = true
			}
		}
		var got bool
		if p := catch(func() { got = ext.HasSyncParams(l) }); p != "" {
			t.Failf("HasSyncParams(%s) panics: %s", strings.Join(tx, "; "), p)
			return
		}
		t.Trans(1)
		if got != want {
			t.Failf("HasSyncParams(%s) is %v", strings.Join(tx, "; "), got)
		}
	}
	try(i)
	for j := range u {
		try(i, j)
		if deep {
			for k := range u {
				try(i, j, k)
			}
		}
	}
	t.State("sync" + u[i].String())
}

func c30enums(t *T) {
	opts := [][]string{nil}
	for lo, k := 0, 0; k < 3; k++ {
		hi := len(opts)
		for _, o := range opts[lo:hi] {
			for _, s := range []string{"A", "B"} {
				opts = append(opts, append(append([]string{}, o...), s))
			}
		}
		lo = hi
	}
	var all []*types.EnumType
	for _, o := range opts {
		for _, n := range c30ns {
			for _, name := range []string{"", "e"} {
				all = append(all, &types.EnumType{Nullability: n, Name: name, Options: o})
			}
		}
	}
	key := func(e *types.EnumType) string { return fmt.Sprintf("%s%q", e.Name, e.Options) }
	for _, a := range all {
		for _, b := range all {
			same := key(a) == key(b)
			t.Trans(1)
			if a.MatchWithoutNullability(b) != same {
				t.Failf("enum %s matches %s: %v", key(a), key(b), !same)
			}
			if want := same && a.Nullability == b.Nullability; a.MatchWithNullability(b) != want || a.Equals(b) != want {
				t.Failf("enum %v%s equals %v%s: %v", a.Nullability, key(a), b.Nullability, key(b), !want)
			}
		}
		if !a.MatchWithoutNullability(types.CommonEnumType) || a.MatchWithoutNullability(&types.StringType{}) {
			t.Failf("enum %s: common enum type does not match, or a string does", key(a))
		}
		for _, n := range c30ns {
			was := a.Nullability
			b := a.WithNullability(n)
			if a.Nullability != was || b.GetNullability() != n || !a.MatchWithoutNullability(b) || b == types.Type(a) {
				t.Failf("enum %s WithNullability(%v) is %v", key(a), n, b)
			}
		}
		if len(a.GetParameters()) != 0 || a.HasParameterizedParam() || a.GetParameterizedParams() != nil || a.ShortString() != "req" {
			t.Failf("enum %s has parameters, or the short name %s", key(a), a.ShortString())
		}
		if r, err := a.ReturnType(nil, nil); err != nil || !a.Equals(r) {
			t.Failf("enum %s as a return type is %v, %v", key(a), r, err)
		}
		t.State(key(a))
	}
}

func c30intervals(t *T) {
	type iv struct {
		ty   types.Type
		key  string
		text string
	}
	var all []iv
	if n := types.NewIntervalYearToMonthType(); n.GetNullability() != types.NullabilityNullable || n.GetTypeVariationReference() != 0 {
		t.Failf("a new interval type is %v", n)
	}
	for _, n := range c30ns {
		for _, v := range []uint32{0, 1, 4294967295} {
			ym := types.NewIntervalYearToMonthType().WithTypeVariationRef(v).WithNullability(n)
			all = append(all, iv{ym, fmt.Sprint("iyear", n, v), "interval_year" + c30q(n)})
			for p := types.PrecisionSeconds; p <= types.PrecisionNanoSeconds; p++ {
				ic := types.NewIntervalCompoundType().WithPrecision(p).WithTypeVariationRef(v).WithNullability(n)
				all = append(all, iv{ic, fmt.Sprint("icompound", n, v, p), fmt.Sprintf("interval_compound%s<%d>", c30q(n), int(p))})
				if g := ic.(types.IntervalCompoundType).GetPrecisionProtoVal(); g != int32(p) {
					t.Failf("precision %d is %d", p, g)
				}
			}
			a := ym.(types.IntervalYearToMonthType)
			b := a.WithTypeVariationRef(v + 1)
			if a.GetTypeVariationReference() != v || b.GetTypeVariationReference() != v+1 || b.GetNullability() != n {
				t.Failf("%v WithTypeVariationRef(%d) is %v", a, v+1, b)
			}
		}
	}
	for _, a := range all {
		t.Trans(1)
		if a.ty.String() != a.text || !strings.HasPrefix(a.key, a.ty.ShortString()) {
			t.Failf("%s prints %s, short %s", a.key, a.ty, a.ty.ShortString())
		}
		// the message
		m := types.TypeToProto(a.ty)
		if arg := a.ty.ToProtoFuncArg().GetType(); !proto.Equal(arg, m) {
			t.Failf("%s as a function argument is %v", a.key, arg)
		}
		back := types.TypeFromProto(m)
		if back == nil || back.String() != a.text || back.GetNullability() != a.ty.GetNullability() || back.GetTypeVariationReference() != a.ty.GetTypeVariationReference() || mtext(types.TypeToProto(back)) != mtext(m) || fmt.Sprint(back.GetParameters()) != fmt.Sprint(a.ty.GetParameters()) {
			t.Failf("%s comes back as %v %s", a.key, back, show(m))
		}
		for _, n := range c30ns {
			was := a.ty.String()
			b := a.ty.WithNullability(n)
			if a.ty.String() != was || b.GetNullability() != n || b.GetTypeVariationReference() != a.ty.GetTypeVariationReference() || (n == a.ty.GetNullability()) != b.Equals(a.ty) {
				t.Failf("%s WithNullability(%v) is %v", a.key, n, b)
			}
		}
		for _, b := range all {
			if a.ty.Equals(b.ty) != (a.key == b.key) {
				t.Failf("%s equals %s: %v", a.key, b.key, a.key != b.key)
			}
		}
		t.State(a.key)
	}
}

// c30made checks a variant made from its name.
func c30made(t *T, id ext.FunctionID, vari *ext.VariadicBehavior, sess, det bool, v c15variant) {
	what := fmt.Sprintf("%T %v variadic=%v", v, id, vari)
	eq := func(name string, got, want any) {
		t.Trans(1)
		if fmt.Sprint(got) != fmt.Sprint(want) {
			t.Failf("%s: %s is %v, not %v", what, name, got, want)
		}
	}
	eq("ID", v.ID(), id)
	eq("URN", v.URN(), id.URN)
	eq("compound name", v.CompoundName(), id.Name)
	simple, sig, _ := strings.Cut(id.Name, ":")
	eq("name", v.Name(), simple)
	eq("variadic", v.Variadic(), vari)
	if v.Variadic() != vari {
		t.Failf("%s: variadic behaviour is not the one given", what)
	}
	eq("session dependent", v.SessionDependent(), sess)
	eq("deterministic", v.Deterministic(), det)
	eq("description", v.Description(), "")
	eq("options", len(v.Options()), 0)
	var parts []string
	for _, a := range v.Args() {
		x, ok := a.(ext.ValueArg)
		if !ok || x.Value == nil {
			t.Failf("%s: argument %T", what, a)
			return
		}
		parts = append(parts, x.Value.ValueType.ShortString())
	}
	if len(parts) > 0 && strings.Join(parts, "_") != sig {
		t.Failf("%s: arguments %v", what, parts)
	}
	all := sig != ""
	for _, p := range strings.Split(sig, "_") {
		if _, err := parser.ParseType(p); err != nil {
			all = false
		}
	}
	if all && len(parts) == 0 {
		t.Failf("%s: no arguments", what)
	}
	lo, hi := len(parts), len(parts)
	if vari != nil {
		lo, hi = lo+vari.Min, hi+vari.Max
	}
	b := v.(interface {
		MinArgumentCount() int
		MaxArgumentCount() int
	})
	eq("least count", b.MinArgumentCount(), lo)
	eq("greatest count", b.MaxArgumentCount(), hi)
	t.State(what)
}

func c30variants(t *T) {
	names := []string{"f", "f:", "f:i32", "f:i32_i64", "f:any", "f:str", "f:i32_str", "f:fp64_any_date", "g:opt_i32", "f:u!p", "a b:i8"}
	varis := []*ext.VariadicBehavior{nil, {}, {Min: 1}, {Min: 1, Max: 3, ParameterConsistency: ext.ConsistentParams}}
	bools := []bool{false, true}
	for _, n := range names {
		for _, urn := range []string{"extension:mc:c30", ""} {
			id := ext.FunctionID{URN: urn, Name: n}
			c30made(t, id, nil, false, false, ext.NewScalarFuncVariant(id))
			check := func(kind string, v any, ordered bool, maxset int, dec ext.DecomposeType, inter string, win ext.WindowType) {
				a := v.(interface {
					Decomposability() ext.DecomposeType
					Intermediate() (types.FuncDefArgType, error)
					Ordered() bool
					MaxSet() int
				})
				i, err := a.Intermediate()
				got := ""
				if err == nil {
					got = i.String()
				}
				if a.Ordered() != ordered || a.MaxSet() != maxset || a.Decomposability() != dec || got != inter {
					t.Failf("%s %v: ordered=%v max=%d decomposability=%s intermediate=%s; asked for %v %d %s %s", kind, id, a.Ordered(), a.MaxSet(), a.Decomposability(), got, ordered, maxset, dec, inter)
				}
				if w, ok := v.(*ext.WindowFunctionVariant); ok && w.WindowType() != win {
					t.Failf("%s %v: window type %s, asked for %s", kind, id, w.WindowType(), win)
				}
			}
			a0, w0 := ext.NewAggFuncVariant(id), ext.NewWindowFuncVariant(id)
			c30made(t, id, nil, false, false, a0)
			c30made(t, id, nil, false, false, w0)
			check("aggregate", a0, false, 0, ext.DecomposeNone, "", "")
			check("window", w0, false, 0, ext.DecomposeNone, "", ext.PartitionWindow)
			for _, vb := range varis {
				for _, s := range bools {
					for _, d := range bools {
						c30made(t, id, vb, s, d, ext.NewScalarFuncVariantWithProps(id, vb, s, d))
						for _, ord := range bools {
							for _, max := range []uint{0, 5} {
								for _, dec := range []ext.DecomposeType{"", ext.DecomposeNone, ext.DecomposeOne, ext.DecomposeMany} {
									wd, in := dec, ""
									if dec == "" {
										wd = ext.DecomposeNone
									}
									if wd != ext.DecomposeNone {
										in = "struct<i64, list<string?>>"
									}
									a := ext.NewAggFuncVariantOpts(id, ext.AggVariantOptions{Variadic: vb, SessionDependant: s, Deterministic: d, Ordered: ord, MaxSet: max, Decomposable: dec, IntermediateOutputType: in})
									c30made(t, id, vb, s, d, a)
									check("aggregate", a, ord, int(max), wd, in, "")
									for _, wt := range []ext.WindowType{"", ext.PartitionWindow, ext.StreamingWindow} {
										ww := wt
										if wt == "" {
											ww = ext.PartitionWindow
										}
										w := ext.NewWindowFuncVariantOpts(id, ext.WindowVariantOpts{Variadic: vb, SessionDependant: s, Deterministic: d, Ordered: ord, MaxSet: max, Decomposable: dec, IntermediateOutputType: in, WindowType: wt})
										c30made(t, id, vb, s, d, w)
										check("window", w, ord, int(max), wd, in, ww)
									}
								}
							}
						}
					}
				}
			}
		}
	}
}

// c30declared compares the variants of a declaration by each way to get at them.
func c30declared(t *T, what string, text []byte, col *ext.Collection) {
	var f ext.SimpleExtensionFile
	if err := yaml.Unmarshal(text, &f); err != nil {
		t.Failf("%s: %v", what, err)
		return
	}
	one := func(kind, name string, a, b c15variant, look func(ext.FunctionID) (c15variant, bool)) {
		t.Trans(1)
		x, y := c15show(kind, a), c15show(kind, b)
		if x != y {
			t.Failf("%s %s %s: GetVariants gives %s, ResolveURN %s", what, kind, name, x, y)
		}
		t.State(x)
		if look == nil {
			return
		}
		z, ok := look(a.ID())
		if !ok {
			t.Failf("%s %s %s: %v is not in the collection", what, kind, name, a.ID())
			return
		}
		// loading fills in how nullability is handled
		// and whether variadic arguments agree
		filled := strings.NewReplacer(" null= ", " null=MIRROR ")
		c, d := filled.Replace(c15show(kind, z)), filled.Replace(x)
		if i := strings.Index(d, " det="); c != d && i >= 0 && c != d[:i]+"CONSISTENT"+d[i:] {
			t.Failf("%s %s %s: GetVariants gives %s, the collection %s", what, kind, name, x, c)
		}
	}
	// a signature that is declared twice may resolve to either
	dup := map[string]int{}
	for i := range f.ScalarFunctions {
		for _, v := range f.ScalarFunctions[i].GetVariants(f.Urn) {
			dup["s"+v.CompoundName()]++
		}
	}
	for i := range f.AggregateFunctions {
		for _, v := range f.AggregateFunctions[i].GetVariants(f.Urn) {
			dup["a"+v.CompoundName()]++
			dup["w"+v.CompoundName()]++ // every aggregate is a window function too
		}
	}
	for i := range f.WindowFunctions {
		for _, v := range f.WindowFunctions[i].GetVariants(f.Urn) {
			dup["w"+v.CompoundName()]++
		}
	}
	lens := func(kind, name string, impls, a, b int) bool {
		if impls != a || impls != b {
			t.Failf("%s %s %s: %d implementations, GetVariants %d, ResolveURN %d", what, kind, name, impls, a, b)
		}
		return impls == a && impls == b
	}
	for i := range f.ScalarFunctions {
		fn := &f.ScalarFunctions[i]
		a, b := fn.GetVariants(f.Urn), fn.ResolveURN(f.Urn)
		if lens("scalar", fn.Name, len(fn.Impls), len(a), len(b)) {
			for j := range a {
				look := func(id ext.FunctionID) (c15variant, bool) { v, ok := col.GetScalarFunc(id); return v, ok }
				if dup["s"+a[j].CompoundName()] > 1 {
					look = nil
				}
				one("scalar", fn.Name, a[j], b[j].(*ext.ScalarFunctionVariant), look)
			}
		}
	}
	for i := range f.AggregateFunctions {
		fn := &f.AggregateFunctions[i]
		a, b := fn.GetVariants(f.Urn), fn.ResolveURN(f.Urn)
		if lens("aggregate", fn.Name, len(fn.Impls), len(a), len(b)) {
			for j := range a {
				look := func(id ext.FunctionID) (c15variant, bool) { v, ok := col.GetAggregateFunc(id); return v, ok }
				if dup["a"+a[j].CompoundName()] > 1 {
					look = nil
				}
				one("aggregate", fn.Name, a[j], b[j].(*ext.AggregateFunctionVariant), look)
			}
		}
	}
	for i := range f.WindowFunctions {
		fn := &f.WindowFunctions[i]
		a, b := fn.GetVariants(f.Urn), fn.ResolveURN(f.Urn)
		if lens("window", fn.Name, len(fn.Impls), len(a), len(b)) {
			for j := range a {
				look := func(id ext.FunctionID) (c15variant, bool) { v, ok := col.GetWindowFunc(id); return v, ok }
				if dup["w"+a[j].CompoundName()] > 1 {
					look = nil
				}
				one("window", fn.Name, a[j], b[j].(*ext.WindowFunctionVariant), look)
			}
		}
	}
}

func c30files(t *T) {
	files := substrait.GetSubstraitExtensionsFS()
	ents, err := fs.ReadDir(files, "extensions")
	if err != nil {
		t.Failf("%v", err)
		return
	}
	col, err := ext.GetDefaultCollection()
	if err != nil {
		t.Failf("%v", err)
		return
	}
	for _, e := range ents {
		if e.Name() == "unknown.yaml" {
			continue
		}
		b, _ := fs.ReadFile(files, path.Join("extensions", e.Name()))
		c30declared(t, e.Name(), b, col)
	}
	t.Validated()
}

// c30docs are functions of every kind with every attribute alone and in pairs.
func c30docs(t *T) {
	attrs := []struct {
		k string
		v any
	}{{"decomposable", "MANY"}, {"decomposable", "ONE"}, {"decomposable", "NONE"}, {"intermediate", "i64"}, {"ordered", true}, {"maxset", 4}, {"window_type", "STREAMING"}, {"window_type", "PARTITION"},
		{"deterministic", false}, {"sessionDependent", true}, {"nullability", "DISCRETE"}, {"variadic", M{"min": 2}}, {"options", M{"o": M{"values": L{"A"}}}}}
	for i := range attrs {
		for j := range attrs {
			impl := func(arg string) M {
				m := M{"args": L{M{"value": arg, "name": "x"}}, "return": "i32"}
				m[attrs[i].k] = attrs[i].v
				m[attrs[j].k] = attrs[j].v
				return m
			}
			fn := func() L {
				return L{M{"name": "f", "description": "d", "metadata": M{"k": "v"}, "impls": L{impl("i32"), M{"args": L{}, "return": "i32"}}}, M{"name": "g", "impls": L{impl("any1")}}}
			}
			text := []byte(c15json(M{"urn": "extension:mc:c30", "scalar_functions": fn(), "aggregate_functions": fn(), "window_functions": fn()}))
			col := &ext.Collection{}
			if err := col.Load(strings.NewReader(string(text))); err != nil {
				t.Failf("%s: %v", text, err)
				return
			}
			c30declared(t, string(text), text, col)
			if t.Failed() {
				return
			}
		}
	}
	t.Validated()
}

// c30table: the tables from type names to types.
func c30table(t *T) {
	simple := map[string]string{"i8": "i8", "i16": "i16", "i32": "i32", "i64": "i64", "fp32": "fp32", "fp64": "fp64", "string": "str", "binary": "vbin", "boolean": "bool", "date": "date", "time": "time", "timestamp": "ts", "timestamp_tz": "tstz", "interval_year": "iyear", "uuid": "uuid"}
	fixed := map[string]string{"fixedbinary": "fbin", "fixedchar": "fchar", "varchar": "vchar"}
	other := map[string]string{"decimal": "dec", "interval_day": "iday", "precision_time": "pt", "precision_timestamp": "pts", "precision_timestamp_tz": "ptstz"}
	all := map[string]string{}
	for _, m := range []map[string]string{simple, fixed, other} {
		for k, v := range m {
			all[k] = v
		}
	}
	names := []string{"", "I32", "int", "bool", "str", "vchar", "list", "map", "struct", "decimal<1,2>", "i32?", "u!x"}
	for n := range all {
		names = append(names, n)
	}
	for round := 0; round < 2; round++ {
		table := types.GetTypeNameToTypeMap()
		for _, n := range names {
			t.Trans(4)
			ty, err := types.SimpleTypeNameToType(types.TypeName(n))
			if _, ok := simple[n]; ok != (err == nil) {
				t.Failf("simple type %q: %v", n, err)
			} else if ok && (ty.String() != n || ty.ShortString() != simple[n]) {
				t.Failf("simple type %q is %s, short %s", n, ty, ty.ShortString())
			}
			fx, err := types.FixedTypeNameToType(types.TypeName(n))
			if _, ok := fixed[n]; ok != (err == nil) {
				t.Failf("fixed-length type %q: %v", n, err)
			} else if ok {
				for _, l := range []int32{1, 7, 2147483647} {
					if g := fx.WithLength(l); g.String() != fmt.Sprintf("%s<%d>", n, l) || g.ShortString() != fixed[n] {
						t.Failf("fixed-length type %q with length %d is %s, short %s", n, l, g, g.ShortString())
					}
				}
			}
			in, ok := table[n]
			if _, want := all[n]; ok != want {
				t.Failf("the table has %q: %v", n, ok)
			} else if ok && (in.ShortString() != all[n] || !strings.HasPrefix(in.String(), n)) {
				t.Failf("the table has %s, short %s, for %q", in, in.ShortString(), n)
			}
			short := all[n]
			if short == "" {
				short = n
			}
			if g := types.GetShortTypeName(types.TypeName(n)); g != short && !(all[n] == "" && n == "interval_compound") {
				t.Failf("short name of %q is %s", n, g)
			}
			t.State(n + short)
		}
		// the table is the caller's
		for k := range table {
			table[k] = nil
			delete(table, k)
		}
	}
	t.Validated()
}

func runC30(c *Ctx) {
	c.Case(func(t *T) { c30table(t) }, "names")
	u := c30universe(c.Thorough)
	const chunk = 40
	var us []types.Type
	for _, p := range typeUniverse(c.Thorough) {
		if ty := types.TypeFromProto(p.p); ty != nil {
			us = append(us, ty)
		}
	}
	for i := 0; i < len(u); i += chunk {
		part := u[i:min(len(u), i+chunk)]
		c.Case(func(t *T) {
			for _, x := range part {
				x.check(t)
			}
		}, "self", i)
		c.Case(func(t *T) {
			for _, x := range part {
				x.with(t)
			}
		}, "with", i)
		c.Case(func(t *T) {
			for _, x := range part {
				x.matching(t, us)
			}
			t.Validated()
		}, "matching", i)
	}
	var su []c30t
	for i, x := range u {
		if len(x.names) > 0 || i%7 == 0 {
			if x.kind != "enum" {
				su = append(su, x)
			}
		}
	}
	// lists of three over every twelfth type
	for i := range su {
		c.Case(func(t *T) { c30sync(t, su, i, false) }, "sync", i)
	}
	if c.Thorough {
		var third []c30t
		for i := 0; i < len(su); i += 12 {
			third = append(third, su[i])
		}
		for i := range third {
			c.Case(func(t *T) { c30sync(t, third, i, true) }, "sync three", i)
		}
	}
	c.Case(c30enums, "enums")
	c.Case(c30intervals, "intervals")
	c.Case(c30variants, "variants")
	c.Case(c30files, "files")
	c.Case(c30docs, "documents")
}
