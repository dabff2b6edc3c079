// C10: type text. The grammar (SubstraitType.g4) is written down again as a
// small lexer and a set-of-end-positions recogniser; every AST to a depth,
// every token string to a length and every one-edit neighbour of the printed
// types is parsed by the library and judged.
package main

import (
	"fmt"
	"reflect"
	"regexp"
	"strconv"
	"strings"

	pb "github.com/substrait-io/substrait-protobuf/go/substraitpb"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"

	ip "github.com/substrait-io/substrait-go/v8/types/integer_parameters"

	"github.com/substrait-io/substrait-go/v8/types"
	"github.com/substrait-io/substrait-go/v8/types/parser"
)

// ---- reference lexer -------------------------------------------------------

type tok struct {
	k, s string // kind: kw (lower-case keyword/punctuation), num, id, nl
}

var c10kw = map[string]bool{}

func init() {
	for _, k := range strings.Fields("if then else func boolean i8 i16 i32 i64 fp32 fp64 string binary timestamp timestamp_tz date time interval_year interval_day interval_compound uuid decimal precision_time precision_timestamp precision_timestamp_tz fixedchar varchar fixedbinary struct nstruct list map bool str vbin ts tstz iyear iday icompound dec pt pts ptstz fchar vchar fbin any and or any0 any1 any2 any3 any4 any5 any6 any7 any8 any9") {
		c10kw[k] = true
	}
}

var c10punct = []string{"::", "!=", ">=", "<=", ":=", "->", "+", "-", "*", "/", "%", "=", ">", "<", "!", "(", ")", "[", "]", ",", ":", "?", "#", "."}

// c10lex: ok=false when the text has a character outside every token. weird is
// set when a comment could start.
func c10lex(s string) (r []tok, ok, weird bool) {
	if strings.Contains(s, "//") || strings.Contains(s, "/*") {
		return nil, true, true
	}
	isA := func(c byte) bool { return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_' || c == '$' }
	isD := func(c byte) bool { return c >= '0' && c <= '9' }
	for i := 0; i < len(s); {
		c := s[i]
		switch {
		case c == ' ' || c == '\t':
			i++
		case c == '\r':
			return nil, true, true
		case c == '\n':
			r = append(r, tok{"nl", "\n"})
			i++
		case (c == 'u' || c == 'U') && i+1 < len(s) && s[i+1] == '!':
			r = append(r, tok{"kw", "u!"})
			i += 2
		case isA(c):
			j := i
			for j < len(s) && (isA(s[j]) || isD(s[j])) {
				j++
			}
			w := s[i:j]
			if c10kw[strings.ToLower(w)] {
				r = append(r, tok{"kw", strings.ToLower(w)})
			} else {
				r = append(r, tok{"id", w})
			}
			i = j
		case isD(c) || c == '-' && i+1 < len(s) && isD(s[i+1]):
			j := i
			if c == '-' {
				j++
			}
			if s[j] == '0' {
				j++
			} else {
				for j < len(s) && isD(s[j]) {
					j++
				}
			}
			r = append(r, tok{"num", s[i:j]})
			i = j
		default:
			found := false
			for _, p := range c10punct {
				if strings.HasPrefix(s[i:], p) {
					r = append(r, tok{"kw", p})
					i += len(p)
					found = true
					break
				}
			}
			if !found {
				return r, false, false
			}
		}
	}
	return r, true, false
}

// ---- reference recogniser --------------------------------------------------

// A derivation result: end position, whether the derivation is a plain type
// (the part of the grammar the library builds values for), and its canonical
// text.
type dres struct {
	end  int
	pure bool
	s    string
	// kind of a non-type operand usable as a user-defined type parameter
	kind string // "type", "num", "id", ""
}

type refp struct {
	t    []tok
	memo map[int][]dres
}

func (p *refp) is(i int, kw string) bool { return i < len(p.t) && p.t[i].k == "kw" && p.t[i].s == kw }

var c10scalars = map[string]bool{"boolean": true, "i8": true, "i16": true, "i32": true, "i64": true, "fp32": true, "fp64": true, "string": true, "binary": true, "timestamp": true, "timestamp_tz": true, "date": true, "time": true, "interval_year": true, "uuid": true}
var c10int1 = map[string]bool{"fixedchar": true, "varchar": true, "fixedbinary": true, "interval_day": true, "interval_compound": true, "precision_time": true, "precision_timestamp": true, "precision_timestamp_tz": true}

func dedup(rs []dres) []dres {
	seen := map[string]bool{}
	var out []dres
	for _, r := range rs {
		k := fmt.Sprint(r)
		if !seen[k] {
			seen[k] = true
			out = append(out, r)
		}
	}
	return out
}

func (p *refp) q(i int) [](struct {
	i int
	s string
}) {
	out := []struct {
		i int
		s string
	}{{i, ""}}
	if p.is(i, "?") {
		out = append(out, struct {
			i int
			s string
		}{i + 1, "?"})
	}
	return out
}

// numericParameter: Number | Identifier | expr
func (p *refp) numParam(i int) []dres {
	var out []dres
	for _, e := range p.expr(i) {
		if e.kind == "num" {
			n, err := strconv.ParseInt(e.s, 10, 32)
			ok := err == nil && e.end == i+1
			out = append(out, dres{e.end, ok, fmt.Sprint(n), ""})
		} else if e.kind == "id" && e.end == i+1 {
			out = append(out, dres{e.end, true, e.s, ""})
		} else {
			out = append(out, dres{e.end, false, "", ""})
		}
	}
	return out
}

// list of expr separated by commas
func (p *refp) exprs(i int, udt bool) []dres {
	var out []dres
	for _, e := range p.expr(i) {
		pure := e.kind == "type" && e.pure
		es := e.s
		if udt {
			if e.kind == "num" {
				n, err := strconv.ParseInt(e.s, 10, 32)
				pure, es = err == nil, fmt.Sprint(n)
			} else if e.kind == "id" {
				pure = true
			}
		}
		out = append(out, dres{e.end, pure, es, ""})
		if p.is(e.end, ",") {
			for _, r := range p.exprs(e.end+1, udt) {
				out = append(out, dres{r.end, pure && r.pure, es + ", " + r.s, ""})
			}
		}
	}
	return dedup(out)
}

func (p *refp) typeDef(i int) []dres {
	if i >= len(p.t) || p.t[i].k != "kw" {
		return nil
	}
	kw := p.t[i].s
	var out []dres
	switch {
	case c10scalars[kw] || strings.HasPrefix(kw, "any"):
		for _, q := range p.q(i + 1) {
			out = append(out, dres{q.i, true, kw + q.s, "type"})
		}
	case c10int1[kw]:
		for _, q := range p.q(i + 1) {
			if p.is(q.i, "<") {
				for _, n := range p.numParam(q.i + 1) {
					if p.is(n.end, ">") {
						out = append(out, dres{n.end + 1, n.pure && kw != "interval_compound", kw + q.s + "<" + n.s + ">", "type"})
					}
				}
			}
		}
	case kw == "decimal":
		for _, q := range p.q(i + 1) {
			if p.is(q.i, "<") {
				for _, n := range p.numParam(q.i + 1) {
					if p.is(n.end, ",") {
						for _, m := range p.numParam(n.end + 1) {
							if p.is(m.end, ">") {
								out = append(out, dres{m.end + 1, n.pure && m.pure, kw + q.s + "<" + n.s + "," + m.s + ">", "type"})
							}
						}
					}
				}
			}
		}
	case kw == "struct" || kw == "list" || kw == "map":
		for _, q := range p.q(i + 1) {
			if p.is(q.i, "<") {
				for _, e := range p.exprs(q.i+1, false) {
					n := 0
					if kw != "struct" {
						// count top-level elements by re-deriving
						n = p.count(q.i+1, e.end)
					}
					if kw == "list" && n != 1 || kw == "map" && n != 2 {
						continue
					}
					if p.is(e.end, ">") {
						out = append(out, dres{e.end + 1, e.pure, kw + q.s + "<" + e.s + ">", "type"})
					}
				}
			}
		}
	case kw == "nstruct":
		for _, q := range p.q(i + 1) {
			if p.is(q.i, "<") {
				for _, e := range p.nfields(q.i + 1) {
					if p.is(e, ">") {
						out = append(out, dres{e + 1, false, "", "type"})
					}
				}
			}
		}
	case kw == "func":
		for _, q := range p.q(i + 1) {
			if !p.is(q.i, "<") {
				continue
			}
			var ps []dres
			for _, e := range p.expr(q.i + 1) {
				ps = append(ps, dres{e.end, e.pure && e.kind == "type", e.s, ""})
			}
			if p.is(q.i+1, "(") {
				for _, e := range p.exprs(q.i+2, false) {
					if p.is(e.end, ")") {
						s := e.s
						if p.count(q.i+2, e.end) > 1 {
							s = "(" + s + ")"
						}
						ps = append(ps, dres{e.end + 1, e.pure, s, ""})
					}
				}
			}
			for _, a := range dedup(ps) {
				if p.is(a.end, "->") {
					for _, r := range p.expr(a.end + 1) {
						if p.is(r.end, ">") {
							out = append(out, dres{r.end + 1, a.pure && r.pure && r.kind == "type", kw + q.s + "<" + a.s + " -> " + r.s + ">", "type"})
						}
					}
				}
			}
		}
	case kw == "u!":
		if i+1 < len(p.t) && p.t[i+1].k == "id" {
			for _, q := range p.q(i + 2) {
				out = append(out, dres{q.i, true, "u!" + p.t[i+1].s + q.s, "type"})
				if p.is(q.i, "<") {
					for _, e := range p.exprs(q.i+1, true) {
						if p.is(e.end, ">") {
							out = append(out, dres{e.end + 1, e.pure, "u!" + p.t[i+1].s + q.s + "<" + e.s + ">", "type"})
						}
					}
				}
			}
		}
	}
	return dedup(out)
}

func (p *refp) nfields(i int) []int {
	var out []int
	if i < len(p.t) && p.t[i].k == "id" {
		for _, e := range p.expr(i + 1) {
			out = append(out, e.end)
			if p.is(e.end, ",") {
				out = append(out, p.nfields(e.end+1)...)
			}
		}
	}
	return out
}

// number of comma separated expressions of t[i:end] at bracket depth 0
func (p *refp) count(i, end int) int {
	n, d := 1, 0
	for ; i < end; i++ {
		switch {
		case p.is(i, "<") || p.is(i, "("):
			d++
		case p.is(i, ">") || p.is(i, ")"):
			d--
		case p.is(i, ",") && d == 0:
			n++
		}
	}
	return n
}

var c10ops = []string{"and", "or", "+", "-", "<", ">", "=", "!=", "<=", ">=", "*", "/"}

func (p *refp) primary(i int) []dres {
	if i >= len(p.t) {
		return nil
	}
	var out []dres
	out = append(out, p.typeDef(i)...)
	t := p.t[i]
	switch {
	case t.k == "num":
		out = append(out, dres{i + 1, false, t.s, "num"})
	case t.k == "id":
		out = append(out, dres{i + 1, false, t.s, "id"})
		if p.is(i+1, "?") {
			out = append(out, dres{i + 2, false, "", ""})
		}
		if p.is(i+1, "(") {
			if p.is(i+2, ")") {
				out = append(out, dres{i + 3, false, "", ""})
			}
			for _, e := range p.exprs(i+2, false) {
				if p.is(e.end, ")") {
					out = append(out, dres{e.end + 1, false, "", ""})
				}
			}
		}
		// multi-line definition
		if p.is(i+1, "=") {
			for _, e := range p.assigns(i) {
				for _, f := range p.typeDef(e) {
					k := f.end
					out = append(out, dres{k, false, "", ""})
					for k < len(p.t) && p.t[k].k == "nl" {
						k++
						out = append(out, dres{k, false, "", ""})
					}
				}
			}
		}
	case p.is(i, "("):
		for _, e := range p.expr(i + 1) {
			if p.is(e.end, ")") {
				out = append(out, dres{e.end + 1, e.pure, e.s, e.kind})
			}
		}
	case p.is(i, "if"):
		for _, a := range p.expr(i + 1) {
			if p.is(a.end, "then") {
				for _, b := range p.expr(a.end + 1) {
					if p.is(b.end, "else") {
						for _, c := range p.expr(b.end + 1) {
							out = append(out, dres{c.end, false, "", ""})
						}
					}
				}
			}
		}
	case p.is(i, "!"):
		for _, e := range p.expr(i + 1) {
			out = append(out, dres{e.end, false, "", ""})
		}
	}
	return dedup(out)
}

func (p *refp) assigns(i int) []int {
	var out []int
	if i < len(p.t) && p.t[i].k == "id" && p.is(i+1, "=") {
		for _, e := range p.expr(i + 2) {
			k := e.end
			for k < len(p.t) && p.t[k].k == "nl" {
				k++
				out = append(out, k)
				out = append(out, p.assigns(k)...)
			}
		}
	}
	return out
}

func (p *refp) expr(i int) []dres {
	if r, ok := p.memo[i]; ok {
		return r
	}
	p.memo[i] = nil
	out := p.primary(i)
	for w := 0; w < len(out); w++ {
		e := out[w].end
		add := func(d dres) {
			for _, x := range out {
				if x == d {
					return
				}
			}
			out = append(out, d)
		}
		for _, op := range c10ops {
			if p.is(e, op) {
				for _, r := range p.expr(e + 1) {
					add(dres{r.end, false, "", ""})
				}
			}
		}
		if p.is(e, "?") {
			for _, a := range p.expr(e + 1) {
				if p.is(a.end, ":") {
					for _, b := range p.expr(a.end + 1) {
						add(dres{b.end, false, "", ""})
					}
				}
			}
		}
	}
	p.memo[i] = out
	return out
}

// c10judge says what the text is: "type" with its canonical text, "reject", or
// "other" (grammatical, but not a plain type: nothing is demanded here).
func c10judge(text string) (string, string) {
	ts, ok, weird := c10lex(text)
	if weird {
		return "other", ""
	}
	if !ok {
		return "reject", ""
	}
	return c10judgeToks(ts)
}

func c10judgeToks(ts []tok) (string, string) {
	p := &refp{ts, map[int][]dres{}}
	kind, s := "reject", ""
	for _, e := range p.expr(0) {
		if e.end == len(ts) {
			if e.pure && e.kind == "type" {
				return "type", e.s
			}
			kind = "other"
			if e.kind == "num" || e.kind == "id" {
				kind = "reject" // a bare number or name is not a type
			}
		}
	}
	return kind, s
}

// ---- canonical text of a parsed value, from its fields ----------------------

func c10param(v ip.IntegerParameter) string {
	switch x := v.(type) {
	case *ip.ConcreteIntParam:
		return fmt.Sprint(int32(*x))
	case *ip.VariableIntParam:
		return string(*x)
	}
	return fmt.Sprintf("?%T", v)
}

func c10canon(v any) string {
	q := func(n types.Nullability) string {
		switch n {
		case types.NullabilityNullable:
			return "?"
		case types.NullabilityRequired:
			return ""
		}
		return "<unspecified>"
	}
	list := func(ts []types.FuncDefArgType) string {
		var r []string
		for _, t := range ts {
			r = append(r, c10canon(t))
		}
		return strings.Join(r, ", ")
	}
	switch t := v.(type) {
	case *types.BooleanType:
		return "boolean" + q(t.Nullability)
	case *types.Int8Type:
		return "i8" + q(t.Nullability)
	case *types.Int16Type:
		return "i16" + q(t.Nullability)
	case *types.Int32Type:
		return "i32" + q(t.Nullability)
	case *types.Int64Type:
		return "i64" + q(t.Nullability)
	case *types.Float32Type:
		return "fp32" + q(t.Nullability)
	case *types.Float64Type:
		return "fp64" + q(t.Nullability)
	case *types.StringType:
		return "string" + q(t.Nullability)
	case *types.BinaryType:
		return "binary" + q(t.Nullability)
	case *types.TimestampType:
		return "timestamp" + q(t.Nullability)
	case *types.TimestampTzType:
		return "timestamp_tz" + q(t.Nullability)
	case *types.DateType:
		return "date" + q(t.Nullability)
	case *types.TimeType:
		return "time" + q(t.Nullability)
	case *types.IntervalYearType:
		return "interval_year" + q(t.Nullability)
	case *types.UUIDType:
		return "uuid" + q(t.Nullability)
	case *types.AnyType:
		return strings.ToLower(t.Name) + q(t.Nullability)
	case *types.ParameterizedFixedCharType:
		return "fixedchar" + q(t.Nullability) + "<" + c10param(t.IntegerOption) + ">"
	case *types.ParameterizedVarCharType:
		return "varchar" + q(t.Nullability) + "<" + c10param(t.IntegerOption) + ">"
	case *types.ParameterizedFixedBinaryType:
		return "fixedbinary" + q(t.Nullability) + "<" + c10param(t.IntegerOption) + ">"
	case *types.ParameterizedPrecisionTimeType:
		return "precision_time" + q(t.Nullability) + "<" + c10param(t.IntegerOption) + ">"
	case *types.ParameterizedPrecisionTimestampType:
		return "precision_timestamp" + q(t.Nullability) + "<" + c10param(t.IntegerOption) + ">"
	case *types.ParameterizedPrecisionTimestampTzType:
		return "precision_timestamp_tz" + q(t.Nullability) + "<" + c10param(t.IntegerOption) + ">"
	case *types.ParameterizedIntervalDayType:
		return "interval_day" + q(t.Nullability) + "<" + c10param(t.IntegerOption) + ">"
	case *types.ParameterizedDecimalType:
		return "decimal" + q(t.Nullability) + "<" + c10param(t.Precision) + "," + c10param(t.Scale) + ">"
	case *types.ParameterizedStructType:
		return "struct" + q(t.Nullability) + "<" + list(t.Types) + ">"
	case *types.ParameterizedListType:
		return "list" + q(t.Nullability) + "<" + c10canon(t.Type) + ">"
	case *types.ParameterizedMapType:
		return "map" + q(t.Nullability) + "<" + c10canon(t.Key) + ", " + c10canon(t.Value) + ">"
	case *types.ParameterizedFuncType:
		ps := list(t.Parameters)
		if len(t.Parameters) != 1 {
			ps = "(" + ps + ")"
		}
		return "func" + q(t.Nullability) + "<" + ps + " -> " + c10canon(t.Return) + ">"
	case *types.ParameterizedUserDefinedType:
		var r []string
		for _, p := range t.TypeParameters {
			switch x := p.(type) {
			case *types.DataTypeUDTParam:
				r = append(r, c10canon(x.Type))
			case *types.IntegerUDTParam:
				r = append(r, fmt.Sprint(x.Integer))
			case *types.StringUDTParam:
				r = append(r, x.StringVal)
			default:
				r = append(r, fmt.Sprintf("?%T", p))
			}
		}
		s := "u!" + t.Name + q(t.Nullability)
		if len(r) > 0 {
			s += "<" + strings.Join(r, ", ") + ">"
		}
		return s
	}
	return fmt.Sprintf("?%T", v)
}

// c10check parses text and judges the result.
func c10check(t *T, text string, kind, canon string) {
	var v types.FuncDefArgType
	var err error
	t.Trans(1)
	if p := catch(func() { v, err = parser.ParseType(text) }); p != "" {
		t.Failf("ParseType(%q) panics: %s", text, p)
		return
	}
	t.State(kind + canon)
	switch kind {
	case "type":
		if err != nil {
			t.Failf("ParseType(%q) = error %v; the text is the type %s", text, err, canon)
			return
		}
		if got := c10canon(v); got != canon {
			t.Failf("ParseType(%q) gives %s, want %s", text, got, canon)
			return
		}
		t.Validated()
		t.Outcome("type")
		s := v.String()
		v2, err := parser.ParseType(s)
		if err != nil {
			t.FailKey("print:"+c10shape(canon), "%q prints as %q, which does not parse: %v", text, s, err)
			return
		}
		if got := c10canon(v2); got != canon {
			t.FailKey("print:"+c10shape(canon), "%q prints as %q, which parses as %s", text, s, got)
		}
		if s2 := v2.String(); s2 != s {
			t.Failf("%q prints as %q, then %q", text, s, s2)
		}
	case "reject":
		if err == nil {
			d := "a value"
			if v != nil {
				d = c10canon(v)
			}
			t.Failf("ParseType(%q) accepts text outside the grammar (or a bare number or name) as %s", text, d)
			return
		}
		t.Validated()
		t.Outcome("reject")
	default:
		t.Outcome(fmt.Sprint("other", err == nil))
	}
}

func c10shape(s string) string {
	if i := strings.IndexAny(s, "<?"); i > 0 {
		return s[:i]
	}
	return s
}

// astTexts: canonical texts of the bounded AST universe.
func c10asts(deep bool) []string {
	var leaf []string
	qs := []string{"", "?"}
	for _, k := range strings.Fields("boolean i8 i16 i32 i64 fp32 fp64 string binary timestamp timestamp_tz date time interval_year uuid any any1 any2 any9") {
		for _, q := range qs {
			leaf = append(leaf, k+q)
		}
	}
	for _, k := range strings.Fields("fixedchar varchar fixedbinary interval_day precision_time precision_timestamp precision_timestamp_tz") {
		for _, q := range qs {
			for _, p := range []string{"0", "1", "9", "38", "2147483647", "-1", "-2147483648", "L1", "p", "P_2", "$x"} {
				leaf = append(leaf, k+q+"<"+p+">")
			}
		}
	}
	for _, q := range qs {
		for _, p := range []string{"38", "P", "P1"} {
			for _, s := range []string{"0", "10", "S", "P"} {
				leaf = append(leaf, "decimal"+q+"<"+p+","+s+">")
			}
		}
		leaf = append(leaf, "u!point"+q, "u!a_1"+q)
		for _, p := range []string{"5", "-7", "2147483647", "x", "i32", "string?", "decimal<P,S>", "L1, i8?, 3"} {
			leaf = append(leaf, "u!pnt"+q+"<"+p+">")
		}
	}
	pick := []string{"i32", "string?", "decimal<P,S>", "varchar?<L1>", "any1", "any1?", "u!pnt<x>", "interval_day<3>", "precision_timestamp?<P>"}
	nest := func(pool []string) []string {
		var out []string
		for _, q := range qs {
			for i, a := range pool {
				out = append(out, "list"+q+"<"+a+">", "struct"+q+"<"+a+">", "u!w"+q+"<"+a+">")
				for j, b := range pool {
					if len(pool) > 20 && j != (i*7+3)%len(pool) {
						continue
					}
					out = append(out, "map"+q+"<"+a+", "+b+">", "struct"+q+"<"+a+", "+b+">", "func"+q+"<"+a+" -> "+b+">",
						"func"+q+"<("+a+", "+b+") -> "+pool[(i+j)%len(pool)]+">", "u!w"+q+"<"+a+", 4, "+b+">")
				}
			}
			out = append(out, "struct"+q+"<"+strings.Join(pool[:min(len(pool), 8)], ", ")+">", "func"+q+"<("+strings.Join(pool[:3], ", ")+") -> "+pool[0]+">")
		}
		return out
	}
	d1 := nest(pick)
	out := append(append([]string{}, leaf...), d1...)
	step := 11
	if deep {
		step = 2
	}
	var p2 []string
	for i := 0; i < len(d1); i += step {
		p2 = append(p2, d1[i])
	}
	d2 := nest(p2)
	out = append(out, d2...)
	var p3 []string
	step = 97
	if deep {
		step = 13
	}
	for i := 0; i < len(d2); i += step {
		p3 = append(p3, d2[i])
	}
	out = append(out, nest(p3)...)
	return out
}

// respell: the same tokens with other spacing and keyword case.
func c10respell(canon string) []string {
	ts, ok, _ := c10lex(canon)
	if !ok {
		return nil
	}
	join := func(sep string, f func(int, tok) string) string {
		var b strings.Builder
		for i, t := range ts {
			if i > 0 {
				prev := ts[i-1]
				word := func(x tok) bool {
					c := x.s[len(x.s)-1]
					return x.s == "u!" || c != '>' && c != '<' && c != ',' && c != '(' && c != ')' && c != '?'
				}
				if sep != "" {
					if !(prev.s == "u!") || true {
						b.WriteString(sep)
					}
				} else if word(prev) && word(t) && prev.s != "u!" {
					b.WriteString(" ")
				}
			}
			b.WriteString(f(i, t))
		}
		return b.String()
	}
	id := func(_ int, t tok) string { return t.s }
	up := func(_ int, t tok) string {
		if t.k == "kw" {
			return strings.ToUpper(t.s)
		}
		return t.s
	}
	mix := func(i int, t tok) string {
		if t.k != "kw" {
			return t.s
		}
		var b strings.Builder
		for k, c := range t.s {
			if (i+k)%2 == 0 {
				b.WriteString(strings.ToUpper(string(c)))
			} else {
				b.WriteRune(c)
			}
		}
		return b.String()
	}
	return []string{canon, join("", id), join(" ", id), join("\t ", up), join("", mix), "  " + join("   ", mix) + "\t", "(" + canon + ")", "( (" + join("", up) + ") )"}
}

var c10alpha = []string{"i32", "string", "any1", "list", "struct", "map", "func", "decimal", "varchar", "u!", "x", "5", "-3", "?", "<", ">", ",", "(", ")", "->", "interval_day", "="}

func init() {
	checks["C10"] = &Check{
		Run: c10run, Quick: 300, Thorough: 780,
		Bounds: "ASTs of the type grammar to nesting depth 3 in 8 spellings each; concrete types printed and read back; every token string over 22 tokens to length 4 (quick) / 5 (thorough); every single-token edit and every single-character edit of the canonical texts; boundary integers; return-type programs: every expression of depth 1, every conditional over small branches and the expressions of depth 2, in 3 spellings, printed and read back; types of up to 65 (printed: 129) parts and up to 65 levels",
		Assume: []string{"the reference recogniser is written from SubstraitType.g4/SubstraitLexer.g4 of the specification; texts with comments or carriage returns, and grammatical texts that are not plain types (arithmetic, conditionals, nstruct), are only required not to panic there"},
	}
}

var c10word = regexp.MustCompile(`\b(if|then|else|and|or|min|max|abs|varchar)\b`)

// c10programs: a return-type program reads, whatever its spelling, as one tree,
// and its printed form reads as that tree again.
func c10programs(c *Ctx) {
	d1 := c13depth1(c13leaves())
	ifs, d2 := c13compound(d1, c.Thorough)
	group := func(name string, es []*ex) {
		const n = 100
		for i := 0; i < len(es); i += n {
			chunk := es[i:min(i+n, len(es))]
			c.Case(func(t *T) {
				for _, e := range chunk {
					for _, p := range c13show(e, "") {
						text := p.text()
						f, err, ok := c13parse(t, text)
						t.Trans(1)
						if !ok || err != nil {
							t.Failf("%q is not accepted: %v", text, err)
							continue
						}
						printed := f.String()
						t.State(printed)
						spelt := map[string]string{"printed form": printed,
							"upper-case spelling": c10word.ReplaceAllStringFunc(text, strings.ToUpper),
							"wide spelling":       strings.NewReplacer(" ", "  ", "(", " ( ", ")", "\t)", ",", " ,").Replace(text)}
						for how, s := range spelt {
							g, err, ok := c13parse(t, s)
							t.Trans(1)
							if !ok || err != nil {
								t.Failf("%s %q of %q is not accepted: %v", how, s, text, err)
							} else if !reflect.DeepEqual(f, g) {
								t.Failf("%s %q of %q reads as %q", how, s, text, g.String())
							}
						}
						if k := f.ShortString(); k != "vchar" {
							t.Failf("%q has short name %s", text, k)
						}
						t.Validated()
					}
				}
				t.Dim("programs", name)
			}, "programs", name, i)
		}
	}
	group("leaves", c13leaves())
	group("depth 1", d1)
	group("conditionals", ifs)
	group("depth 2", d2)
}

func c10run(c *Ctx) {
	c10programs(c)
	asts := c10asts(c.Thorough)
	for _, a := range asts {
		for k, txt := range c10respell(a) {
			c.Case(func(t *T) {
				kind, canon := c10judge(txt)
				if kind != "type" || canon != a {
					t.Failf("reference recogniser disagrees with the generator: %q is %s %q, want %q", txt, kind, canon, a)
					return
				}
				c10check(t, txt, kind, canon)
			}, "ast", k, txt)
		}
	}
	// concrete types
	for _, ty := range append(typeUniverse(c.Thorough), plainTypes(sizedTypes(c.Thorough))...) {
		if !c10printable(ty.p) {
			continue
		}
		c.Case(func(t *T) {
			v := types.TypeFromProto(ty.p)
			s := v.String()
			t.Trans(2)
			t.State(s)
			w, err := parser.ParseType(s)
			key := ""
			if hasKind(ty.p, "interval_compound") {
				key = "concrete-interval_compound"
			} else if multiParamFunc(ty.p) {
				key = "concrete-func-multi-param"
			}
			fail := func(f string, a ...any) {
				if key != "" {
					t.FailKey(key, f, a...)
				} else {
					t.Failf(f, a...)
				}
			}
			if err != nil {
				fail("type prints as %q, which does not parse: %v", s, err)
				return
			}
			if key != "" {
				key = ""
			}
			ct, err := w.ReturnType(nil, nil)
			if err != nil {
				fail("%q parses but is not concrete: %v", s, err)
				return
			}
			if got := types.TypeToProto(ct); !proto.Equal(got, ty.p) {
				fail("%q parses as %s, printed from %s", s, show(got), show(ty.p))
			}
			t.Validated()
		}, "concrete", ty.id)
	}
	// long and deep texts
	for _, n := range []int{4, 5, 8, 9, 16, 17, 33, 65} {
		leaf := func(i int) string {
			return []string{"i32", fmt.Sprintf("decimal<P%d,S%d>", i, i), "any1?", fmt.Sprintf("varchar?<%d>", i+1), "u!t" + fmt.Sprint(i), "list<any2>", "fixedbinary<L>"}[i%7]
		}
		join := func(sep string) string {
			var r []string
			for i := 0; i < n; i++ {
				r = append(r, leaf(i))
			}
			return strings.Join(r, sep)
		}
		texts := []string{"struct<" + join(", ") + ">", "struct?<" + join(",") + ">", "u!x?<" + join(", ") + ">", "func<(" + join(", ") + ") -> i8>", "list<struct<" + join(", ") + ">>"}
		for shape := 0; shape < 5; shape++ {
			s := "any1?"
			for i := 0; i < n; i++ {
				switch (i*shape + shape) % 5 {
				case 0:
					s = "list<" + s + ">"
				case 1:
					s = "struct?<i8, " + s + ">"
				case 2:
					s = "map<string, " + s + ">"
				case 3:
					s = "u!t<" + s + ", 3>"
				default:
					s = "func<" + s + " -> " + leaf(i) + ">"
				}
			}
			texts = append(texts, s)
		}
		for _, txt := range texts {
			c.Case(func(t *T) {
				for _, x := range []string{txt, txt + ">", txt[:len(txt)-1], strings.ToUpper(txt[:1]) + txt[1:], strings.ReplaceAll(txt, "any1", "any"), strings.Replace(txt, "i8", "i7", 1), txt + "?"} {
					kind, canon := c10judge(x)
					if x == txt && kind != "type" {
						t.Failf("reference recogniser disagrees with the generator: %q is %s", x, kind)
						return
					}
					c10check(t, x, kind, canon)
				}
			}, "long", txt)
		}
	}
	// boundary integers
	for _, f := range []string{"varchar<%s>", "fixedchar?<%s>", "decimal<%s,0>", "decimal<38,%s>", "u!t<%s>", "interval_day<%s>", "list<precision_time<%s>>"} {
		for _, n := range []string{"2147483647", "2147483648", "-2147483648", "-2147483649", "4294967296", "4294967301", "-4294967291", "9223372036854775807", "9223372036854775808", "99999999999999999999999", "00", "01", "-0", "--1", "1.5", "0x10", "1_0", "+1"} {
			txt := fmt.Sprintf(f, n)
			c.Case(func(t *T) {
				kind, canon := c10judge(txt)
				if kind == "other" {
					kind = "reject" // an integer outside the 32 bits of a parameter
				}
				c10check(t, txt, kind, canon)
			}, "int", txt)
		}
	}
	// edits
	base := []string{"i32", "string?", "any1?", "varchar?<L1>", "decimal<P,S>", "decimal?<38,10>", "list<i32>", "list?<list<any1?>>", "struct<i8, string?>", "map?<i32, varchar<5>>",
		"func<i32 -> any1>", "func?<(i8, any2) -> list<i8>>", "u!point", "u!pnt?<3, x, i32>", "interval_day?<6>", "precision_timestamp_tz<9>", "timestamp_tz?", "uuid", "fixedbinary<16>", "interval_year?"}
	for _, b := range base {
		ts, _, _ := c10lex(b)
		var vs [][]string
		ss := make([]string, len(ts))
		for i, t := range ts {
			ss[i] = t.s
		}
		for i := range ss {
			vs = append(vs, append(append([]string{}, ss[:i]...), ss[i+1:]...))
			if i+1 < len(ss) {
				w := append([]string{}, ss...)
				w[i], w[i+1] = w[i+1], w[i]
				vs = append(vs, w)
			}
		}
		for i := 0; i <= len(ss); i++ {
			for _, a := range append(c10alpha, "nstruct", "interval_compound", "boolean", "bool", "any", ":", "+", "!", "if", "[", "]", ".", "#", "%", "::", "and") {
				w := append(append(append([]string{}, ss[:i]...), a), ss[i:]...)
				vs = append(vs, w)
				if i < len(ss) {
					w := append([]string{}, ss...)
					w[i] = a
					vs = append(vs, w)
				}
			}
		}
		n0 := len(vs)
		if c.Thorough {
			for k := 0; k < n0; k++ {
				w := vs[k]
				for i := range w {
					vs = append(vs, append(append([]string{}, w[:i]...), w[i+1:]...))
					for _, a := range []string{"?", "<", ">", ",", "(", ")", "i32", "5", "->"} {
						u := append([]string{}, w...)
						u[i] = a
						vs = append(vs, u)
					}
				}
			}
		}
		for _, v := range vs {
			txt := strings.Join(v, " ")
			c.Case(func(t *T) {
				kind, canon := c10judge(txt)
				c10check(t, txt, kind, canon)
			}, "tokedit", txt)
		}
		chars := []string{"a", "i", "3", "0", "-", "<", ">", "?", ",", "(", ")", " ", "\n", "@", ".", "\"", "é", "_", "!", "&", "~", "\x00", ";", "'", "|"}
		var texts []string
		for i := 0; i < len(b); i++ {
			texts = append(texts, b[:i]+b[i+1:])
			if i+1 < len(b) {
				texts = append(texts, b[:i]+string(b[i+1])+string(b[i])+b[i+2:])
			}
		}
		for i := 0; i <= len(b); i++ {
			for _, ch := range chars {
				texts = append(texts, b[:i]+ch+b[i:])
				if i < len(b) {
					texts = append(texts, b[:i]+ch+b[i+1:])
				}
			}
		}
		for _, txt := range texts {
			c.Case(func(t *T) {
				kind, canon := c10judge(txt)
				c10check(t, txt, kind, canon)
			}, "chredit", txt)
		}
	}
	// every token string
	max := 4
	if c.Thorough {
		max = 5
	}
	var rec func(ts []tok, words []string)
	rec = func(ts []tok, words []string) {
		if len(ts) > 0 {
			txt := strings.Join(words, " ")
			cp := append([]tok{}, ts...)
			c.Case(func(t *T) {
				kind, canon := c10judgeToks(cp)
				c10check(t, txt, kind, canon)
			}, "toks", txt)
		}
		if len(ts) == max {
			return
		}
		for _, a := range c10alpha {
			k, _, _ := c10lex(a)
			rec(append(ts, k...), append(words, a))
		}
	}
	rec(nil, nil)
}

func hasKind(p *pb.Type, kind string) bool {
	found := false
	walkTypes(p, func(q *pb.Type) {
		m := q.ProtoReflect()
		if fd := m.WhichOneof(m.Descriptor().Oneofs().ByName("kind")); fd != nil && string(fd.Name()) == kind {
			found = true
		}
	})
	return found
}

func multiParamFunc(p *pb.Type) bool {
	found := false
	walkTypes(p, func(q *pb.Type) {
		if f := q.GetFunc(); f != nil && len(f.ParameterTypes) > 1 {
			found = true
		}
	})
	return found
}

// c10printable: the type has a text (no user-defined type, variation,
// unspecified nullability, empty struct or function without parameters).
func c10printable(p *pb.Type) bool {
	ok := true
	walkTypes(p, func(q *pb.Type) {
		m := q.ProtoReflect()
		fd := m.WhichOneof(m.Descriptor().Oneofs().ByName("kind"))
		if fd == nil {
			ok = false
			return
		}
		switch fd.Name() {
		case "user_defined":
			ok = false
		case "struct":
			ok = ok && len(q.GetStruct().Types) > 0
		case "func":
			ok = ok && len(q.GetFunc().ParameterTypes) > 0
		}
		im := m.Get(fd).Message()
		if f := im.Descriptor().Fields().ByName("type_variation_reference"); f != nil && im.Get(f).Uint() != 0 {
			ok = false
		}
		if f := im.Descriptor().Fields().ByName("nullability"); f != nil && im.Get(f).Enum() == 0 {
			ok = false
		}
	})
	return ok
}

func walkTypes(p *pb.Type, f func(*pb.Type)) {
	var walk func(m protoreflect.Message)
	walk = func(m protoreflect.Message) {
		if q, ok := m.Interface().(*pb.Type); ok {
			f(q)
		}
		m.Range(func(fd protoreflect.FieldDescriptor, v protoreflect.Value) bool {
			if fd.Kind() != protoreflect.MessageKind {
				return true
			}
			if fd.IsList() {
				for i := 0; i < v.List().Len(); i++ {
					walk(v.List().Get(i).Message())
				}
			} else if !fd.IsMap() {
				walk(v.Message())
			}
			return true
		})
	}
	walk(p.ProtoReflect())
}
