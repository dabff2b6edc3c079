// C23: function test files parse to the cases they state. The oracle reads the
// texts with the reference readers of C18 and C19 and recognises files with an
// interpreter of the published grammar, so neither uses the parser under check.
package main

import (
	"fmt"
	"io/fs"
	"math"
	"math/big"
	"regexp"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing/fstest"

	"github.com/substrait-io/substrait"
	"github.com/substrait-io/substrait-go/v8/expr"
	ext "github.com/substrait-io/substrait-go/v8/extensions"
	"github.com/substrait-io/substrait-go/v8/functions"
	"github.com/substrait-io/substrait-go/v8/testcases/parser"
	"github.com/substrait-io/substrait-go/v8/types"
	pb "github.com/substrait-io/substrait-protobuf/go/substraitpb"
)

func init() {
	checks["C23"] = &Check{Run: runC23, Quick: 300, Thorough: 850, Shards: 16,
		Bounds: "every type spelling and nullability with about 20 texts of its kind and (first spellings; thorough: all) the texts of all other kinds, as argument and as result; lists of each element type of up to 2 (thorough: 3) values out of good, null and wrong ones, of values of every other kind, nested twice and three times; calls of 1 to 3 arguments out of a sample with every option name and value and sets of up to 3 options; files of up to 3 (thorough: 4) groups, descriptions, layouts, comments, line ends, includes, dependencies and versions; columns of every type of up to 2 (thorough: 3) cells; tables of up to 2 (thorough: 3) columns in both forms with all argument orders and scalars; the bundled and corpus files also through a file system and a file; invocations of all calls of up to 2 (thorough: 3) of 13 values, and of all tables of up to 2 (thorough: 3) of 6 columns with all argument lists of up to 2, against a collection with overloaded, generic and foreign functions; a corpus of files with every token deleted, doubled, swapped, cut and (all or every fourth) replaced by 80 others, and every (or every second) character deleted, replaced and preceded by 15 others; the 100-odd test files of the specification; files, tables, columns, lists and argument lists of 4 to 300 parts; aggregate files of up to 50 cases in up to 6 groups, each case compared with what it is alone",
		Assume: []string{"the parser's grammar, transcribed into the harness and interpreted there, defines which texts are legal; a legal text may still be rejected for its meaning in the corrupted corpus", "not judged: character and binary texts of another length than declared, offsets of a day or more, signed intervals, numbers in lists of strings and strings in lists of numbers, nulls in lists of non-null elements, includes after the first, lambdas and compound intervals (not implemented)", "columns of precision times hold microseconds, and three literal kinds print differently: known findings pinned by existing tests"}}
}

// ---- types and values

// c23t is a type as written in a test file.
type c23t struct {
	kind string
	null bool
	ints []int
	elem *c23t
	spl  string // spelling of the kind
}

func (x *c23t) text() string {
	s := x.spl
	if x.null {
		s += "?"
	}
	switch {
	case x.elem != nil:
		s += "<" + x.elem.text() + ">"
	case len(x.ints) > 0:
		var p []string
		for _, i := range x.ints {
			p = append(p, strconv.Itoa(i))
		}
		s += "<" + strings.Join(p, ",") + ">"
	}
	return s
}

func (x *c23t) den() string {
	s := x.kind
	if x.null {
		s += "?"
	}
	if x.elem != nil {
		return s + "<" + x.elem.den() + ">"
	}
	if x.kind == "decimal" && len(x.ints) == 0 {
		return s + "[38 0]"
	}
	if x.kind == "interval_day" && len(x.ints) == 0 {
		return s + "[0]"
	}
	if len(x.ints) == 0 {
		return s
	}
	return s + fmt.Sprint(x.ints)
}

func (x *c23t) opt() *c23t { q := *x; q.null = true; return &q }
func (x *c23t) req() *c23t { q := *x; q.null = false; return &q }

func c23typeDen(t types.Type) string {
	if t == nil {
		return "none"
	}
	if t == types.CommonEnumType {
		return "enum"
	}
	return c23pbDen(types.TypeToProto(t))
}

func c23pbDen(p *pb.Type) string {
	s := pbKind(p)
	if n, ok := pbKindName[s]; ok {
		s = n
	}
	if pbNull(p) {
		s += "?"
	}
	if k := pbKids(p); len(k) == 1 {
		return s + "<" + c23pbDen(k[0]) + ">"
	}
	if i := pbInts(p); len(i) > 0 {
		return s + fmt.Sprint(i)
	}
	return s
}

// c23litDen is what a literal denotes, with its nullability.
func c23litDen(l *pb.Expression_Literal) string {
	n := ""
	if l.Nullable {
		n = "?"
	}
	switch x := l.LiteralType.(type) {
	case *pb.Expression_Literal_Null:
		return "null " + c23pbDen(x.Null)
	case *pb.Expression_Literal_I8:
		return fmt.Sprintf("i8%s %d", n, x.I8)
	case *pb.Expression_Literal_I16:
		return fmt.Sprintf("i16%s %d", n, x.I16)
	case *pb.Expression_Literal_I32:
		return fmt.Sprintf("i32%s %d", n, x.I32)
	case *pb.Expression_Literal_I64:
		return fmt.Sprintf("i64%s %d", n, x.I64)
	case *pb.Expression_Literal_Fp32:
		return "fp32" + n + " " + c23float(float64(x.Fp32))
	case *pb.Expression_Literal_Fp64:
		return "fp64" + n + " " + c23float(x.Fp64)
	case *pb.Expression_Literal_Boolean:
		return fmt.Sprintf("boolean%s %v", n, x.Boolean)
	case *pb.Expression_Literal_String_:
		return fmt.Sprintf("string%s %q", n, x.String_)
	case *pb.Expression_Literal_Binary:
		return fmt.Sprintf("binary%s %q", n, x.Binary)
	case *pb.Expression_Literal_FixedChar:
		return fmt.Sprintf("fixedchar%s %q", n, x.FixedChar)
	case *pb.Expression_Literal_FixedBinary:
		return fmt.Sprintf("fixedbinary%s %q", n, x.FixedBinary)
	case *pb.Expression_Literal_VarChar_:
		return fmt.Sprintf("varchar%s[%d] %q", n, x.VarChar.Length, x.VarChar.Value)
	case *pb.Expression_Literal_Date:
		return fmt.Sprintf("date%s %d", n, x.Date)
	case *pb.Expression_Literal_Time:
		return fmt.Sprintf("time%s %d", n, x.Time)
	case *pb.Expression_Literal_Timestamp:
		return fmt.Sprintf("timestamp%s %d", n, x.Timestamp)
	case *pb.Expression_Literal_TimestampTz:
		return fmt.Sprintf("timestamp_tz%s %d", n, x.TimestampTz)
	case *pb.Expression_Literal_PrecisionTime_:
		return fmt.Sprintf("precision_time%s[%d] %d", n, x.PrecisionTime.Precision, x.PrecisionTime.Value)
	case *pb.Expression_Literal_PrecisionTimestamp_:
		return fmt.Sprintf("precision_timestamp%s[%d] %d", n, x.PrecisionTimestamp.Precision, x.PrecisionTimestamp.Value)
	case *pb.Expression_Literal_PrecisionTimestampTz:
		return fmt.Sprintf("precision_timestamp_tz%s[%d] %d", n, x.PrecisionTimestampTz.Precision, x.PrecisionTimestampTz.Value)
	case *pb.Expression_Literal_IntervalYearToMonth_:
		return fmt.Sprintf("interval_year%s %d", n, int64(x.IntervalYearToMonth.Years)*12+int64(x.IntervalYearToMonth.Months))
	case *pb.Expression_Literal_IntervalDayToSecond_:
		d := x.IntervalDayToSecond
		var p int32
		var sub int64
		switch m := d.PrecisionMode.(type) {
		case *pb.Expression_Literal_IntervalDayToSecond_Precision:
			p, sub = m.Precision, d.Subseconds
		case *pb.Expression_Literal_IntervalDayToSecond_Microseconds:
			p, sub = 6, int64(m.Microseconds)
		}
		v := nanosOf(int64(d.Seconds), 0)
		v.Add(v, new(big.Int).Mul(big.NewInt(sub), pow10(9-int(p))))
		return fmt.Sprintf("interval_day%s[%d] %d %s", n, p, d.Days, v)
	case *pb.Expression_Literal_Decimal_:
		return fmt.Sprintf("decimal%s[%d %d] %s", n, x.Decimal.Precision, x.Decimal.Scale, dec16(x.Decimal.Value))
	case *pb.Expression_Literal_List_:
		var e []string
		for _, v := range x.List.Values {
			e = append(e, c23litDen(v))
		}
		return fmt.Sprintf("list%s (%s)", n, strings.Join(e, ", "))
	case *pb.Expression_Literal_EmptyList:
		return fmt.Sprintf("list%s () %s", n, c23pbDen(x.EmptyList.Type))
	}
	return fmt.Sprintf("%T", l.LiteralType)
}

func c23float(f float64) string {
	if math.IsNaN(f) {
		return "nan"
	}
	return strconv.FormatFloat(f, 'g', -1, 64)
}

const (
	c23ok = iota
	c23bad
	c23free // accepted with any value or rejected
)

// c23want is the denotation of a scalar literal text under a type.
func c23want(x *c23t, text string) (string, int) {
	n := ""
	if x.null {
		n = "?"
	}
	if strings.EqualFold(text, "null") {
		if !x.null {
			return "", c23bad
		}
		return "null " + x.den(), c23ok
	}
	toks, lok := c23lex(text)
	if !lok || len(toks) != 1 || !strings.Contains(c23lit[x.kind]+" ", toks[0].kind+" ") {
		return "", c23bad
	}
	quoted := strings.HasPrefix(text, "'")
	in := text
	if quoted {
		in = text[1 : len(text)-1]
	}
	switch x.kind {
	case "i8", "i16", "i32", "i64":
		if v, ok := new(big.Int).SetString(text, 10); ok {
			bits, _ := strconv.Atoi(x.kind[1:])
			lim := new(big.Int).Lsh(big.NewInt(1), uint(bits-1))
			if v.Cmp(lim) >= 0 || new(big.Int).Neg(v).Cmp(lim) > 0 {
				return "", c23bad
			}
			return x.kind + n + " " + v.String(), c23ok
		}
		return "", c23bad
	case "fp32", "fp64":
		switch strings.ToLower(text) {
		case "nan":
			return x.kind + n + " nan", c23ok
		case "inf", "+inf":
			return x.kind + n + " +Inf", c23ok
		case "-inf":
			return x.kind + n + " -Inf", c23ok
		}
		r, ok := new(big.Rat).SetString(text)
		if !ok || quoted {
			return "", c23bad
		}
		var f float64
		if x.kind == "fp32" {
			f32, _ := r.Float32()
			f = float64(f32)
		} else {
			f, _ = r.Float64()
		}
		if math.IsInf(f, 0) {
			return "", c23bad
		}
		if f == 0 && strings.HasPrefix(text, "-") {
			f = math.Copysign(0, -1)
		}
		return x.kind + n + " " + c23float(f), c23ok
	case "boolean":
		if l := strings.ToLower(text); l == "true" || l == "false" {
			return "boolean" + n + " " + l, c23ok
		}
	case "string", "binary":
		if quoted {
			return fmt.Sprintf("%s%s %q", x.kind, n, in), c23ok
		}
	case "fixedchar", "fixedbinary":
		if quoted {
			if l := len([]rune(in)); x.kind == "fixedchar" && l != x.ints[0] || x.kind == "fixedbinary" && len(in) != x.ints[0] {
				return "", c23free
			}
			return fmt.Sprintf("%s%s %q", x.kind, n, in), c23ok
		}
	case "varchar":
		if quoted {
			if len([]rune(in)) > x.ints[0] {
				return "", c23bad
			}
			return fmt.Sprintf("varchar%s[%d] %q", n, x.ints[0], in), c23ok
		}
	case "date":
		if quoted {
			if v, ok := readTs(in + "T00:00:00"); ok && len(in) == 10 {
				return fmt.Sprintf("date%s %s", n, floorDiv(v, nanosOf(86400, 0))), c23ok
			}
		}
	case "time":
		if quoted {
			if v, ok := readTod(in); ok {
				return fmt.Sprintf("time%s %s", n, unitsAt(v, 6)), c23ok
			}
		}
	case "precision_time":
		if quoted {
			if v, ok := readTod(in); ok {
				return fmt.Sprintf("precision_time%s%v %s", n, x.ints, unitsAt(v, x.ints[0])), c23ok
			}
		}
	case "timestamp", "timestamp_tz", "precision_timestamp", "precision_timestamp_tz":
		if quoted {
			m := c23off.FindStringSubmatch(in)
			tz := strings.HasSuffix(x.kind, "_tz")
			if m != nil && tz == (m[2] != "") {
				v, ok := readTs(in)
				if !ok && tz {
					if _, ok := readTs(m[1]); ok {
						return "", c23free // an offset of a day or more
					}
				}
				if !ok {
					return "", c23bad
				}
				p, s := 6, ""
				if len(x.ints) > 0 {
					p, s = x.ints[0], fmt.Sprint(x.ints)
				}
				u := unitsAt(v, p)
				if !u.IsInt64() {
					return "", c23bad
				}
				return fmt.Sprintf("%s%s%s %s", x.kind, n, s, u), c23ok
			}
		}
	case "interval_year":
		if quoted {
			cl, y, m := readYM(in)
			if cl == 2 {
				return "", c23free
			}
			if cl == 1 {
				t := new(big.Int).Mul(y, big.NewInt(12))
				if !in32(y) || !in32(m) {
					return "", c23bad
				}
				return fmt.Sprintf("interval_year%s %s", n, t.Add(t, m)), c23ok
			}
		}
	case "interval_day":
		if quoted {
			cl, d, ns, _ := readDS(in)
			if cl == 2 {
				return "", c23free
			}
			if cl == 1 {
				p := 0
				if len(x.ints) > 0 {
					p = x.ints[0]
				}
				sec := floorDiv(ns, bigE9)
				if !in32(d) || !in32(sec) {
					return "", c23bad
				}
				ns = new(big.Int).Mul(unitsAt(ns, p), pow10(9-p))
				return fmt.Sprintf("interval_day%s[%d] %s %s", n, p, d, ns), c23ok
			}
		}
	case "decimal":
		ok, v, _, sc := refDecimal(text)
		if ok && !quoted {
			p, s := 38, 0
			if len(x.ints) > 0 {
				p, s = x.ints[0], x.ints[1]
			}
			w := new(big.Int).Set(v)
			if s >= sc {
				w.Mul(w, pow10(s-sc))
			} else {
				q, r := new(big.Int).QuoRem(w, pow10(sc-s), new(big.Int))
				if r.Sign() != 0 {
					return "", c23bad
				}
				w = q
			}
			if new(big.Int).Abs(w).Cmp(pow10(p)) >= 0 {
				return "", c23bad
			}
			return fmt.Sprintf("decimal%s[%d %d] %s", n, p, s, w), c23ok
		}
	}
	return "", c23bad
}

var c23lit = map[string]string{"i8": "IntegerLiteral", "i16": "IntegerLiteral", "i32": "IntegerLiteral", "i64": "IntegerLiteral", "fp32": "IntegerLiteral DecimalLiteral FloatLiteral NaN", "fp64": "IntegerLiteral DecimalLiteral FloatLiteral NaN", "decimal": "IntegerLiteral DecimalLiteral FloatLiteral NaN",
	"boolean": "BooleanLiteral", "string": "StringLiteral", "binary": "StringLiteral", "fixedchar": "StringLiteral", "fixedbinary": "StringLiteral", "varchar": "StringLiteral", "date": "DateLiteral", "time": "TimeLiteral", "precision_time": "TimeLiteral", "timestamp": "TimestampLiteral", "precision_timestamp": "TimestampLiteral",
	"timestamp_tz": "TimestampTzLiteral", "precision_timestamp_tz": "TimestampTzLiteral", "interval_year": "IntervalYearLiteral", "interval_day": "IntervalDayLiteral"}

var c23off = regexp.MustCompile(`^(.*?:\d\d(?:\.\d+)?)([+-]\d\d:\d\d)?$`)

var c23sp = map[string][]string{"i8": {"i8"}, "i16": {"i16"}, "i32": {"i32"}, "i64": {"i64"}, "fp32": {"fp32"}, "fp64": {"fp64"}, "boolean": {"bool", "boolean"}, "string": {"str", "string"}, "binary": {"vbin", "binary"},
	"date": {"date"}, "time": {"time"}, "timestamp": {"ts", "timestamp"}, "timestamp_tz": {"tstz", "timestamp_tz"}, "interval_year": {"iyear", "interval_year"}, "interval_day": {"iday", "interval_day"}, "uuid": {"uuid"},
	"fixedchar": {"fchar", "fixedchar"}, "varchar": {"vchar", "varchar"}, "fixedbinary": {"fbin", "fixedbinary"}, "decimal": {"dec", "decimal"},
	"precision_time": {"pt", "precision_time"}, "precision_timestamp": {"pts", "precision_timestamp"}, "precision_timestamp_tz": {"ptstz", "precision_timestamp_tz"}, "list": {"list"}}

var c23short = map[string]string{"boolean": "bool", "string": "str", "binary": "vbin", "timestamp": "ts", "timestamp_tz": "tstz", "interval_year": "iyear", "interval_day": "iday", "fixedchar": "fchar", "varchar": "vchar", "fixedbinary": "fbin",
	"decimal": "dec", "precision_time": "pt", "precision_timestamp": "pts", "precision_timestamp_tz": "ptstz"}

var c23params = map[string][][]int{"fixedchar": {{1}, {3}, {5}}, "varchar": {{1}, {3}, {300}}, "fixedbinary": {{1}, {3}, {5}},
	"decimal": {nil, {38, 0}, {38, 38}, {3, 1}, {5, 3}, {1, 0}, {20, 10}, {2, 2}}, "interval_day": {nil, {0}, {3}, {6}, {9}}, "precision_time": {{0}, {3}, {6}, {9}, {1}}, "precision_timestamp": {{0}, {3}, {6}, {9}, {7}}, "precision_timestamp_tz": {{0}, {3}, {6}, {9}, {2}}}

func c23texts(kind string) []string {
	switch kind {
	case "i8", "i16", "i32", "i64":
		return []string{"0", "1", "-1", "+5", "-0", "127", "128", "-128", "-129", "255", "300", "32767", "32768", "-32768", "-32769", "65536", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967297", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809"}
	case "fp32", "fp64":
		return []string{"0", "-0", "-0.0", "1", "-1", "+1", "0.1", "-1.5", "1.", "1e3", "1E+3", "1.5e-3", "16777217", "0.30000001192", "inf", "-inf", "+inf", "INF", "nan", "NaN", "3.4028235e38", "3.4028236e38", "3.5e38", "-1e39", "1e-45", "1e-60", "1.7976931348623157e308", "1e309", "5e-324", "123456789012345678901234567890", "00.5", "007"}
	case "boolean":
		return []string{"true", "false", "TRUE", "False"}
	case "date":
		return []string{"'1970-01-01'", "'1969-12-31'", "'1991-01-02'", "'2000-02-29'", "'1900-02-29'", "'2100-02-29'", "'2024-02-29'", "'0001-01-01'", "'0000-01-01'", "'9999-12-31'", "'2021-13-01'", "'2021-00-10'", "'2021-04-31'", "'2021-01-00'"}
	case "time", "precision_time":
		return []string{"'00:00:00'", "'23:59:59'", "'13:01:01.234'", "'12:00:00.000001'", "'12:00:00.999999999'", "'00:00:00.5'", "'23:59:59.9999999999'", "'24:00:00'", "'12:60:00'", "'12:00:60'", "'00:00:00.000'"}
	case "timestamp", "precision_timestamp":
		return []string{"'1970-01-01T00:00:00'", "'1969-12-31T23:59:59.9'", "'1969-12-31T23:59:59.123456789'", "'2024-02-29T13:01:01.234567'", "'1900-02-29T00:00:00'", "'1991-01-01T24:00:00'", "'1991-01-01T23:60:00'", "'0001-01-01T00:00:00'", "'9999-12-31T23:59:59.999999'", "'2021-12-31T23:59:59.000'"}
	case "timestamp_tz", "precision_timestamp_tz":
		return []string{"'1970-01-01T00:00:00+00:00'", "'1970-01-01T00:00:00+01:00'", "'1969-12-31T23:59:59.9-05:30'", "'2024-02-29T13:01:01.234567+05:45'", "'2024-02-29T13:01:01.123456789-00:00'", "'1900-02-29T00:00:00+00:00'", "'2024-03-01T00:00:00-23:59'", "'2024-03-01T00:00:00+24:00'", "'2024-03-01T00:00:00+00:60'", "'9999-12-31T23:59:59.999999+01:00'", "'0001-01-01T00:00:00+00:00'"}
	case "interval_year":
		return []string{"'P1Y'", "'P0Y'", "'P1Y2M'", "'P14M'", "'P10Y5M'", "'P178956970Y7M'", "'P2147483647Y'", "'P2147483648Y'", "'P9223372036854775808M'", "'P-1Y'", "'P1Y13M'", "'P0M'"}
	case "interval_day":
		return []string{"'P1D'", "'P0D'", "'PT0S'", "'PT5S'", "'PT0.5S'", "'P10DT5H6M7S'", "'P10DT5H6M7.123456789S'", "'PT23H'", "'PT90M'", "'PT1M30S'", "'P2147483647D'", "'P2147483648D'", "'PT2147483648S'", "'P-1D'", "'P1DT0.001S'", "'PT1H0.000000001S'"}
	case "decimal":
		return []string{"0", "1", "-1", "9", "10", "1.5", "-1.5", "0.10", "0.123", "99.9", "100.0", "12.34", "1234567890.0123456789", "99999999999999999999999999999999999999", "100000000000000000000000000000000000000", "0.99999999999999999999999999999999999999", "+2", "007.50", "1e2", "-0", "nan", "inf"}
	default: // the kinds of strings
		return []string{"''", "'a'", "'abc'", "'abcd'", "'abcde'", "'it''s'", `'\''`, `'\\'`, `'a\'b'`, `'\'q\''`, "'ü€x'", "'日本語'", "' '", "' a '", "'1'", "'null'", "'true'", "'# x'", "'a,b'", "')'", "'::'", "'//c'", "'\"'", `'\n'`, "'a\nb'", "'=' "[:3]}
	}
}

func c23kinds() []string {
	var r []string
	for k := range c23sp {
		if k != "list" {
			r = append(r, k)
		}
	}
	sort.Strings(r)
	return r
}

func c23mk(kind string, ints []int) *c23t { return &c23t{kind: kind, ints: ints, spl: c23sp[kind][0]} }

func c23types() (r []*c23t) {
	for _, k := range c23kinds() {
		ps := c23params[k]
		if ps == nil {
			ps = [][]int{nil}
		}
		for _, p := range ps {
			r = append(r, c23mk(k, p))
		}
	}
	return
}

func c23listOf(e *c23t) *c23t { return &c23t{kind: "list", elem: e, spl: "list"} }

// c23v is a value as written: a literal with a type, or an enum.
type c23v struct {
	text  string
	t     *c23t
	enum  bool
	elems []*c23v // list value
}

func (v *c23v) body() string {
	if v.t != nil && v.text == "" && (v.t.kind == "list" || v.elems != nil) {
		var e []string
		for _, x := range v.elems {
			e = append(e, x.body())
		}
		return "[" + strings.Join(e, ", ") + "]"
	}
	return v.text
}

func (v *c23v) String() string {
	if v.enum {
		return v.text + "::enum"
	}
	return v.body() + "::" + v.t.text()
}

func (v *c23v) typeDen() string {
	if v.enum {
		return "enum"
	}
	return v.t.den()
}

// want is the denotation and status of a value.
func (v *c23v) want() (string, int) {
	switch {
	case v.enum:
		return v.text, c23ok
	case v.t.kind == "list" && v.text == "":
		n := ""
		if v.t.null {
			n = "?"
		}
		if len(v.elems) == 0 {
			return "list" + n + " () " + v.t.elem.den(), c23ok
		}
		var e []string
		st := c23ok
		for _, x := range v.elems {
			d, s := x.want()
			if k := x.t.kind; k == "binary" {
				d, s = c23want(x.t, x.text)
			}
			if s == c23bad || s == c23free && st == c23ok {
				st = s
			}
			e = append(e, d)
		}
		return "list" + n + " (" + strings.Join(e, ", ") + ")", st
	case v.t.kind == "list":
		if strings.EqualFold(v.text, "null") && v.t.null {
			return "null " + v.t.den(), c23ok
		}
		return "", c23bad
	case (v.t.kind == "binary" || v.t.kind == "uuid") && !strings.EqualFold(v.text, "null"):
		return "", c23bad // there is no argument syntax for these
	}
	return c23want(v.t, v.text)
}

func c23argDen(a *parser.CaseLiteral) string {
	if a == nil {
		return "nothing"
	}
	if lit, ok := a.Value.(expr.Literal); ok {
		return c23litDen(lit.ToProtoLiteral())
	}
	return fmt.Sprint(a.Value)
}

func c23res(r parser.TestCaseResult) string {
	if a, ok := r.(*parser.CaseLiteral); ok {
		return c23typeDen(a.Type) + " = " + c23argDen(a)
	}
	return fmt.Sprintf("%v", r)
}

// c23dump is a case with everything a line states.
func c23dump(tc *parser.TestCase) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%s %q %s(", tc.FuncType, tc.GroupDesc, tc.FuncName)
	for _, a := range tc.Args {
		fmt.Fprintf(&b, "%s = %s; ", c23typeDen(a.Type), c23argDen(a))
	}
	for _, a := range tc.AggregateArgs {
		if a.ColumnName != "" {
			fmt.Fprintf(&b, "col%d %s; ", a.ColumnIndex, c23typeDen(a.ColumnType))
		} else {
			d := c23argDen(a.Argument)
			if !a.IsScalar {
				d = c23noNull(d) // only the type of a column tells whether it has nulls
			}
			fmt.Fprintf(&b, "scalar=%v %s = %s; ", a.IsScalar, c23typeDen(a.Argument.Type), d)
		}
	}
	b.WriteString(")")
	for i, c := range tc.Columns {
		fmt.Fprintf(&b, " column %d:", i)
		if i < len(tc.ColumnTypes) {
			b.WriteString(c23typeDen(tc.ColumnTypes[i]))
		}
		for _, l := range c {
			b.WriteString(" " + c23cellGot(l))
		}
	}
	var o []string
	for k, v := range tc.Options {
		o = append(o, k+":"+v)
	}
	sort.Strings(o)
	fmt.Fprintf(&b, " %v = %s", o, c23res(tc.Result))
	return b.String()
}

const c23uri = "/extensions/functions_mc.yaml"

func c23head(agg bool) string {
	k := "SCALAR"
	if agg {
		k = "AGGREGATE"
	}
	return "### SUBSTRAIT_" + k + "_TEST: v1.0\n### SUBSTRAIT_INCLUDE: '" + c23uri + "'\n\n"
}

// c23parse parses a file; an error must come without a result and without a panic.
func c23parse(t *T, text string) (f *parser.TestFile, err error) {
	t.Trans(1)
	if p := catch(func() { f, err = parser.ParseTestCasesFromString(text) }); p != "" {
		t.Failf("%s for %q", p, clip(text, 300))
		return nil, fmt.Errorf("panic")
	}
	if err != nil && f != nil {
		t.Failf("error %v together with a result for %q", err, clip(text, 300))
	}
	if err == nil && f == nil {
		t.Failf("neither result nor error for %q", clip(text, 300))
		return nil, fmt.Errorf("nothing")
	}
	return f, err
}

// c23reprint prints a case, parses the text again and compares.
func c23reprint(t *T, tc *parser.TestCase, key string) {
	t.Trans(1)
	agg := tc.FuncType == parser.AggregateFuncType
	var s string
	if p := catch(func() { s = tc.String() }); p != "" {
		t.Failf("printing %s: %s", clip(c23dump(tc), 300), p)
		return
	}
	f, err := c23parse(t, c23head(agg)+"# "+tc.GroupDesc+"\n"+s+"\n")
	fail := func(format string, a ...any) {
		if key != "" {
			t.FailKey(key, format, a...)
		} else {
			t.Failf(format, a...)
		}
	}
	if err != nil {
		fail("printed case %q does not parse: %s", clip(s, 300), clip(err.Error(), 300))
		return
	}
	if len(f.TestCases) != 1 {
		fail("printed case %q parses to %d cases", s, len(f.TestCases))
		return
	}
	if g, w := c23dump(f.TestCases[0]), c23dump(tc); g != w {
		fail("printed case %q parses to\n  %s\nwas\n  %s", clip(s, 300), clip(g, 500), clip(w, 500))
	} else {
		t.Validated()
	}
}

func c23sig(name string, ts []*c23t) string {
	var s []string
	for _, x := range ts {
		k := "req"
		if x != nil {
			k = x.kind
			if m, ok := c23short[k]; ok {
				k = m
			}
		}
		s = append(s, k)
	}
	return name + ":" + strings.Join(s, "_")
}

type c23opt struct{ k, v string }

// c23case is a scalar case as a line states it.
type c23case struct {
	fn   string
	args []*c23v
	opts []c23opt
	res  string // <!ERROR> etc.
	resv *c23v
}

func (x *c23case) String() string {
	var a, o []string
	for _, v := range x.args {
		a = append(a, v.String())
	}
	s := x.fn + "(" + strings.Join(a, ", ") + ")"
	if len(x.opts) > 0 {
		for _, p := range x.opts {
			o = append(o, p.k+":"+p.v)
		}
		s += " [" + strings.Join(o, ", ") + "]"
	}
	if x.resv != nil {
		return s + " = " + x.resv.String()
	}
	return s + " = " + x.res
}

// status of a case: bad if any part is bad.
func (x *c23case) status() int {
	st := c23ok
	vs := x.args
	if x.resv != nil {
		vs = append(append([]*c23v{}, vs...), x.resv)
	}
	for _, v := range vs {
		_, s := v.want()
		if s == c23bad || s == c23free && st == c23ok {
			st = s
		}
	}
	return st
}

func (x *c23case) dump(group string) string {
	var b strings.Builder
	fmt.Fprintf(&b, "scalar %q %s(", group, x.fn)
	for _, v := range x.args {
		d, _ := v.want()
		fmt.Fprintf(&b, "%s = %s; ", v.typeDen(), d)
	}
	b.WriteString(")")
	var o []string
	for _, p := range x.opts {
		o = append(o, p.k+":"+p.v)
	}
	sort.Strings(o)
	r := x.res
	if x.resv != nil {
		d, _ := x.resv.want()
		r = x.resv.typeDen() + " = " + d
	}
	fmt.Fprintf(&b, " %v = %s", o, r)
	return b.String()
}

// c23judge parses a file of one group of cases.
func c23judge(t *T, cs ...*c23case) {
	text := c23head(false) + "# g\n"
	st := c23ok
	for _, x := range cs {
		text += x.String() + "\n"
		if s := x.status(); s == c23bad || s == c23free && st == c23ok {
			st = s
		}
	}
	f, err := c23parse(t, text)
	t.State(text)
	if err != nil {
		t.Outcome("rejected")
		if st == c23ok {
			t.Failf("valid case rejected: %q: %s", clip(text[len(c23head(false)):], 300), clip(err.Error(), 300))
		}
		return
	}
	if st == c23bad {
		t.Failf("invalid case accepted: %q as %s", clip(text[len(c23head(false)):], 300), clip(c23dump(f.TestCases[0]), 300))
		return
	}
	if len(f.TestCases) != len(cs) {
		t.Failf("%d cases for %d lines of %q", len(f.TestCases), len(cs), text)
		return
	}
	if st == c23free {
		return
	}
	for i, x := range cs {
		tc := f.TestCases[i]
		g, w := c23dump(tc), x.dump("g")
		t.Outcome(w)
		if g != w {
			t.Failf("case %q parsed as\n  %s\nwant\n  %s", x.String(), clip(g, 500), clip(w, 500))
			continue
		}
		var ts []*c23t
		for j, v := range x.args {
			ts = append(ts, v.t)
			if lit, ok := tc.Args[j].Value.(expr.Literal); ok {
				if g := c23typeDen(lit.GetType()); g != v.typeDen() {
					t.Failf("argument %s has a value of type %s", v, g)
				}
			}
		}
		if tc.BaseURI != c23uri || tc.ID() != (ext.FunctionID{URN: "extension:io.substrait:functions_mc", Name: c23sig(x.fn, ts)}) {
			t.Failf("case %q: base %q id %v", x.String(), tc.BaseURI, tc.ID())
		}
		if at := tc.GetArgTypes(); len(at) == len(x.args) {
			for j := range at {
				if c23typeDen(at[j]) != x.args[j].typeDen() {
					t.Failf("case %q: argument type %d is %v", x.String(), j, at[j])
				}
			}
		} else {
			t.Failf("case %q: %d argument types", x.String(), len(at))
		}
		c23reprint(t, tc, c23printKey(x))
	}
}

// c23printKey names a known way in which a case can't be printed.
func c23printKey(x *c23case) (r string) {
	vs := x.args
	if x.resv != nil {
		vs = append(append([]*c23v{}, vs...), x.resv)
	}
	for _, v := range vs {
		if k := v.printKey(); k != "" {
			r = k
		}
	}
	return
}

func (v *c23v) printKey() (r string) {
	if v.enum || strings.EqualFold(v.text, "null") {
		return ""
	}
	switch v.t.kind {
	case "fixedbinary":
		return "print-fixedbinary"
	case "timestamp_tz":
		return "print-timestamp-tz"
	case "precision_timestamp_tz":
		if v.t.ints[0] > 3 {
			return "print-precision-timestamp-tz"
		}
	case "list":
		for _, e := range v.elems {
			if k := e.printKey(); k != "" {
				r = k
			}
		}
	}
	return
}

var c23opts = []c23opt{{"overflow", "ERROR"}, {"overflow", "SILENT"}, {"rounding", "TIE_TO_EVEN"}, {"null_handling", "ACCEPT_NULLS"}, {"spaces_only", "TRUNCATE"}, {"Foo", "bar"}, {"zz", "null"}, {"a1", "true"}, {"OVERFLOW", "saturate"}}

var c23true = &c23v{text: "true", t: &c23t{kind: "boolean", spl: "bool"}}

func runC23(c *Ctx) {
	debug.SetGCPercent(400)
	c23scalars(c)
	c23lists(c)
	c23lines(c)
	c23files(c)
	c23columns(c)
	c23tables(c)
	c23long(c)
	c23corrupt(c)
	c23bundled(c)
	c23invoke(c)
}

func c23scalars(c *Ctx) {
	// every text under every type, as an argument and as a result
	texts := map[string]bool{}
	for _, k := range c23kinds() {
		for _, s := range c23texts(k) {
			texts[s] = true
		}
	}
	var all []string
	for s := range texts {
		all = append(all, s)
	}
	sort.Strings(all)
	for _, x := range c23types() {
		for _, spl := range c23sp[x.kind] {
			for _, null := range []bool{false, true} {
				y := *x
				y.spl, y.null = spl, null
				ts := append([]string{"null", "NULL"}, c23texts(x.kind)...)
				if spl == c23sp[x.kind][0] && (c.Thorough || len(x.ints) == 0 || x.ints[0] == 3) {
					ts = append([]string{"null", "NULL"}, all...)
				}
				for _, s := range ts {
					v := &c23v{text: s, t: &y}
					c.Case(func(t *T) {
						t.Dim("type", y.text())
						c23judge(t, &c23case{fn: "f1", args: []*c23v{v}, resv: c23true})
						c23judge(t, &c23case{fn: "f1", args: []*c23v{c23true}, resv: v})
					}, "value", v.String())
				}
			}
		}
	}
}

// c23good are the texts a type accepts.
func c23good(x *c23t, max int) (r []*c23v) {
	y := x
	for _, s := range append(c23texts(x.kind), "null") {
		if _, st := c23want(y, s); st == c23ok && len(r) < max {
			r = append(r, &c23v{text: s, t: y})
		}
	}
	return
}

func c23lists(c *Ctx) {
	n := 2
	if c.Thorough {
		n = 3
	}
	var elems []*c23t
	for _, x := range c23types() {
		if x.kind == "uuid" || len(x.ints) > 0 && x.ints[0] != 3 && x.ints[0] != 5 && x.ints[0] != 9 {
			continue
		}
		elems = append(elems, x, x.opt())
	}
	run := func(l *c23t, els []*c23v) {
		v := &c23v{t: l, elems: append([]*c23v{}, els...)}
		c.Case(func(t *T) {
			t.Dim("list", l.text())
			c23judge(t, &c23case{fn: "f1", args: []*c23v{v}, resv: c23true})
			c23judge(t, &c23case{fn: "f1", args: []*c23v{c23true}, resv: v})
		}, "list", v.String())
	}
	for _, e := range elems {
		pool := c23good(e, 4)
		if e.null {
			pool = append(pool, &c23v{text: "null", t: e})
		}
		// one invalid text
		for _, s := range c23texts(e.kind) {
			if _, st := c23want(e, s); st == c23bad && s != "" {
				pool = append(pool, &c23v{text: s, t: e})
				break
			}
		}
		for _, null := range []bool{false, true} {
			l := c23listOf(e)
			l.null = null
			for k := 0; k <= n; k++ {
				tuples(pool, k, func(els []*c23v) { run(l, els) })
			}
		}
		// values of every other kind
		for _, o := range elems {
			if g := c23good(o.req(), 1); len(g) == 1 && !c23sameLit(o, e) {
				run(c23listOf(e), []*c23v{{text: g[0].text, t: e}})
				if p := c23good(e, 1); len(p) == 1 {
					run(c23listOf(e), []*c23v{p[0], {text: g[0].text, t: e}})
				}
			}
		}
		// nested
		ll := c23listOf(c23listOf(e))
		inner := []*c23v{{t: ll.elem}}
		if p := c23good(e, 2); len(p) == 2 {
			inner = append(inner, &c23v{t: ll.elem, elems: p[:1]}, &c23v{t: ll.elem, elems: []*c23v{p[1], p[0]}})
			inner = append(inner, &c23v{text: p[0].text, t: ll.elem}) // a scalar where a list is declared
			run(c23listOf(e), []*c23v{{t: e, elems: p[:1]}})          // a list where a scalar is declared
		}
		for k := 0; k <= n; k++ {
			tuples(inner, k, func(els []*c23v) { run(ll, els) })
		}
		lll := c23listOf(ll)
		in3 := []*c23v{{t: ll}, {t: ll, elems: inner[:1]}}
		if len(inner) > 2 {
			in3 = append(in3, &c23v{t: ll, elems: inner[1:3]})
		}
		for k := 0; k <= 2; k++ {
			tuples(in3, k, func(els []*c23v) { run(lll, els) })
		}
		for _, deep := range []*c23t{c23listOf(c23listOf(e).opt()), c23listOf(e).opt()} {
			run(&c23t{kind: "list", null: deep.null, elem: deep.elem, spl: "list"}, nil)
			if deep.elem.kind == "list" {
				run(deep, []*c23v{{t: deep.elem, elems: c23good(e, 2)}})
				run(deep, []*c23v{{t: deep.elem}, {t: deep.elem, text: "null"}})
			}
		}
	}
}

// c23sameLit: texts of one kind may stand for values of the other, or it is not judged.
func c23sameLit(a, b *c23t) bool {
	g := func(x *c23t) string {
		switch x.kind {
		case "i8", "i16", "i32", "i64", "fp32", "fp64", "decimal", "string", "binary", "varchar", "fixedchar", "fixedbinary", "uuid":
			return "text"
		case "precision_time":
			return "time"
		case "precision_timestamp":
			return "timestamp"
		case "precision_timestamp_tz":
			return "timestamp_tz"
		}
		return x.kind
	}
	return g(a) == g(b)
}

// c23sample has one value of each type, and nulls, enums and lists.
func c23sample() (r []*c23v) {
	for _, x := range c23types() {
		if len(x.ints) > 0 && x.ints[0] != 3 && x.ints[0] != 5 && x.ints[0] != 20 {
			continue
		}
		for _, y := range []*c23t{x, x.opt()} {
			if x.kind != "uuid" && x.kind != "binary" {
				if g := c23good(y, 3); len(g) > 0 {
					r = append(r, g[len(g)-1])
				}
			}
			if y.null {
				r = append(r, &c23v{text: "null", t: y})
			}
		}
	}
	i32 := c23mk("i32", nil)
	l := c23listOf(i32)
	r = append(r, &c23v{text: "FOO", enum: true}, &c23v{text: "bar_2", enum: true}, &c23v{t: l, elems: c23good(i32, 2)}, &c23v{t: l}, &c23v{text: "null", t: l.opt()},
		&c23v{t: c23listOf(c23mk("string", nil)), elems: c23good(c23mk("string", nil), 5)})
	return
}

func c23lines(c *Ctx) {
	all := c23sample()
	var small []*c23v
	for i, v := range all {
		if i%5 == 0 || v.enum {
			small = append(small, v)
		}
	}
	names := []string{"f1", "foo", "add_2", "and", "OR", "truncate", "_x", "$y", "ADD", "or_else", "nullif", "i32x", "trueish"}
	for _, n := range names {
		for _, r := range append([]*c23v{nil, {}}, all...) {
			x := &c23case{fn: n, args: all[:2], resv: r}
			if r == nil {
				x.res = "<!ERROR>"
			} else if r.t == nil && !r.enum {
				x.res, x.resv = "<!UNDEFINED>", nil
			}
			c.Case(func(t *T) { c23judge(t, x) }, "line", x.String())
		}
	}
	tuples(all, 2, func(vs []*c23v) {
		x := &c23case{fn: "f1", args: append([]*c23v{}, vs...), resv: c23true}
		c.Case(func(t *T) { c23judge(t, x) }, "line", x.String())
	})
	tri := small
	if c.Thorough {
		tri = nil
		for i, v := range all {
			if i%2 == 0 || v.enum {
				tri = append(tri, v)
			}
		}
	}
	tuples(tri, 3, func(vs []*c23v) {
		x := &c23case{fn: "f1", args: append([]*c23v{}, vs...), resv: vs[1]}
		c.Case(func(t *T) { c23judge(t, x) }, "line", x.String())
	})
	for n := 4; n <= 9; n++ {
		x := &c23case{fn: "f1", args: all[n : 2*n], resv: c23true}
		c.Case(func(t *T) { c23judge(t, x) }, "line", x.String())
	}
	// options: every name with every value, and all sets of up to 3 names
	ns := []string{"overflow", "rounding", "null_handling", "spaces_only", "Foo", "foo", "OVERFLOW", "z9", "a_b"}
	vals := []string{"ERROR", "SATURATE", "SILENT", "TIE_TO_EVEN", "NAN", "TRUNCATE", "ACCEPT_NULLS", "IGNORE_NULLS", "true", "FALSE", "null", "bar", "Silent"}
	add := func(os ...c23opt) {
		x := &c23case{fn: "f1", args: small[:1], opts: os, resv: c23true}
		c.Case(func(t *T) {
			for i := 0; i < 4; i++ { // the order of a map differs from time to time
				c23judge(t, x)
			}
			f, err := c23parse(t, c23head(false)+x.String()+"\n")
			if err != nil || len(f.TestCases) != 1 {
				return
			}
			first, got := "", ""
			for i := 0; i < 8; i++ {
				s := f.TestCases[0].String()
				var o []string
				seen := map[string]bool{}
				for _, p := range f.TestCases[0].GetFunctionOptions() {
					o = append(o, p.Name+"="+strings.Join(p.Preference, "|"))
					seen[o[len(o)-1]] = true
				}
				g := strings.Join(o, " ")
				if i == 0 {
					first, got = s, g
					for _, p := range x.opts {
						if !seen[p.k+"="+p.v] || len(o) != len(x.opts) {
							t.Failf("%s has options %s", x, g)
						}
					}
				} else if s != first || g != got {
					t.Failf("%s prints as %q and as %q, options %s and %s", x, first, s, got, g)
				}
			}
		}, "options", x.String())
	}
	for _, n := range ns {
		for _, v := range vals {
			add(c23opt{n, v})
		}
	}
	for i, a := range ns {
		for j, b := range ns {
			if i == j {
				continue
			}
			add(c23opt{a, vals[i%4]}, c23opt{b, vals[4+j%4]})
			for k, d := range ns {
				if k != i && k != j {
					add(c23opt{a, vals[i%5]}, c23opt{b, vals[j%7]}, c23opt{d, vals[k%3]})
				}
			}
		}
	}
	var os []c23opt
	for i, n := range ns {
		os = append(os, c23opt{n, vals[i]})
	}
	add(os...)
}

// c23files: sequences of groups of cases, layouts and headers.
func c23files(c *Ctx) {
	all := c23sample()
	line := func(i int) *c23case {
		return &c23case{fn: fmt.Sprintf("f%d", i), args: []*c23v{all[i%len(all)], all[(3*i+1)%len(all)]}, resv: all[(7*i+2)%len(all)]}
	}
	descs := []string{"# basic: Basic examples\n", "# \n", "# ", "# a\r\n", "#  ### x::i32 '\n"}
	check := func(t *T, text string, want []string, base, version string) {
		f, err := c23parse(t, text)
		if err != nil {
			t.Failf("file %q rejected: %s", clip(text, 300), clip(err.Error(), 300))
			return
		}
		var got []string
		for _, tc := range f.TestCases {
			got = append(got, c23dump(tc))
			if tc.BaseURI != base {
				t.Failf("base URI %q, want %q", tc.BaseURI, base)
			}
			urn := base
			if strings.HasPrefix(base, "/") {
				urn = "extension:io.substrait:" + strings.TrimSuffix(strings.TrimPrefix(base, "/extensions/"), ".yaml")
			}
			if tc.ID().URN != urn {
				t.Failf("URN %q for %q", tc.ID().URN, base)
			}
		}
		if g, w := strings.Join(got, "\n"), strings.Join(want, "\n"); g != w {
			t.Failf("file %q gives\n%s\nwant\n%s", clip(text, 500), clip(g, 500), clip(w, 500))
		}
		if f.Header == nil || f.Header.Version != version || f.Header.IncludedURI != base || f.Header.FuncType != parser.ScalarFuncType {
			t.Failf("header %+v of %q", f.Header, clip(text, 200))
		}
		t.Validated()
		t.State(text)
	}
	depth := 3
	if c.Thorough {
		depth = 4
	}
	// long files: many cases, many groups
	for _, n := range []int{9, 17, 65, 300} {
		for _, per := range []int{1, 2, n} {
			c.Case(func(t *T) {
				text := c23head(false)
				var want []string
				for i := 0; i < n; i++ {
					if i%per == 0 {
						text += fmt.Sprintf("# g%d: more\n", i)
					}
					x := line(i)
					text += x.String() + "\n"
					want = append(want, x.dump(fmt.Sprintf("g%d: more", i-i%per)))
				}
				check(t, text, want, c23uri, "v1.0")
			}, "long", n, per)
		}
	}
	// groups of 1-3 cases; only the first may lack a description
	var sizes func(pre []int)
	sizes = func(pre []int) {
		if len(pre) > 0 {
			for d := 0; d < len(descs); d++ {
				for _, bare := range []bool{false, true} {
					if d == 2 { // the description ends with the file's line
						continue
					}
					ps := append([]int{}, pre...)
					c.Case(func(t *T) {
						text := c23head(false)
						var want []string
						k := 0
						for gi, n := range ps {
							g := ""
							if !(bare && gi == 0) {
								ds := descs[(d+gi)%len(descs)]
								if ds == "# " {
									ds = descs[0]
								}
								text += ds
								g = strings.TrimSpace(strings.TrimPrefix(ds, "#"))
							}
							for i := 0; i < n; i++ {
								x := line(k)
								k++
								text += x.String() + "\n"
								want = append(want, x.dump(g))
							}
						}
						check(t, text, want, c23uri, "v1.0")
					}, "groups", fmt.Sprint(ps), d, bare)
				}
			}
		}
		if len(pre) < depth {
			for n := 1; n <= 3; n++ {
				sizes(append(append([]int{}, pre...), n))
			}
		}
	}
	sizes(nil)
	// layouts: the tokens of a line separated by every blank
	blanks := []string{" ", "\n", "\t", "\r\n", "  \n ", " // comment\n", "/*x*/", ""}
	for i := range all {
		x := line(i)
		toks, ok := c23lex(x.String())
		for _, b := range blanks {
			c.Case(func(t *T) {
				if !ok {
					t.Failf("harness: %s is not lexed", x)
					return
				}
				s := ""
				for j, k := range toks {
					if j > 0 {
						s += b
					}
					s += k.text
				}
				check(t, c23head(false)+"# g\n"+s+"\n", []string{x.dump("g")}, c23uri, "v1.0")
			}, "layout", i, b)
		}
	}
	for _, v := range []string{"v1", "v1.0", "v10.25", "v0"} {
		for _, u := range []string{"/extensions/functions_arithmetic.yaml", "extension:io.substrait:functions_x", "/extensions/a/b.yaml", "", "my.yaml", "https://x/y.yaml"} {
			for _, more := range []string{"", ", 'other.yaml'", ", 'o.yaml', 'p.yaml'"} {
				for _, dep := range []string{"", "### SUBSTRAIT_DEPENDENCY: 'd'\n", "### SUBSTRAIT_DEPENDENCY: 'd'\n### SUBSTRAIT_DEPENDENCY: 'e'\n"} {
					c.Case(func(t *T) {
						x := line(1)
						check(t, "### SUBSTRAIT_SCALAR_TEST: "+v+"\n### SUBSTRAIT_INCLUDE: '"+u+"'"+more+"\n"+dep+"# g\n"+x.String(), []string{x.dump("g")}, u, v)
					}, "header", v, u, more, dep)
				}
			}
		}
	}
	// kinds of cases that don't belong to the header
	c.Case(func(t *T) {
		for _, s := range []string{c23head(true) + "f1(1::i8) = 1::i8\n", c23head(false) + "f1((1)::i8) = 1::i8\n", c23head(false) + "((1)) f1(col0::i8) = 1::i8\n", c23head(false) + "DEFINE t1(i8) = ((1)) f1(t1.col0) = 1::i8\n", c23head(true), c23head(false), "", "f1(1::i8) = 1::i8\n"} {
			if _, err := c23parse(t, s); err == nil {
				t.Failf("accepted: %q", s)
			}
		}
	}, "kinds")
}

// ---- aggregate cases

type c23col struct {
	t     *c23t
	cells []string
}

// cellWant is the denotation of a cell with nullability left out.
func c23cell(x *c23t, s string) (string, int, string) {
	key := ""
	switch x.kind { // known: temporal cells keep microseconds
	case "precision_time", "precision_timestamp", "precision_timestamp_tz":
		key = "column-precision-temporal"
	}
	if strings.EqualFold(s, "null") {
		return "null " + x.den(), c23ok, ""
	}
	d, st := c23want(x, s)
	if key != "" && st == c23bad && strings.Contains(s, ":") {
		st = c23free // does not fit the precision
	}
	return d, st, key
}

func c23noNull(s string) string { return strings.ReplaceAll(s, "?", "") }

func c23cellGot(l expr.Literal) string { return c23noNull(c23litDen(l.ToProtoLiteral())) }

// c23aggJudge checks one aggregate case. data are the declared columns (nil type:
// not declared), args the arguments as written.
type c23aggArg struct {
	col    int // column index, or -1
	scalar *c23v
}

type c23agg struct {
	fn    string
	form  int // 0 single column, 1 compact table, 2 DEFINE
	cols  []c23col
	rows  int
	args  []c23aggArg
	opts  []c23opt
	resv  *c23v
	table string
}

func (x *c23agg) name() string {
	if x.fn == "" {
		return "f1"
	}
	return x.fn
}

func (x *c23agg) String() string {
	var b strings.Builder
	fn := x.name()
	rows := func() string {
		var rs []string
		for r := 0; r < x.rows; r++ {
			var cs []string
			for _, c := range x.cols {
				cs = append(cs, c.cells[r])
			}
			rs = append(rs, "("+strings.Join(cs, ", ")+")")
		}
		return "(" + strings.Join(rs, ", ") + ")"
	}
	var args []string
	for _, a := range x.args {
		switch {
		case a.scalar != nil:
			args = append(args, a.scalar.String())
		case x.form == 1:
			args = append(args, fmt.Sprintf("col%d::%s", a.col, x.cols[a.col].t.text()))
		default:
			args = append(args, fmt.Sprintf("%s.col%d", x.table, a.col))
		}
	}
	switch x.form {
	case 0:
		fmt.Fprintf(&b, "%s((%s)::%s)", fn, strings.Join(x.cols[0].cells, ", "), x.cols[0].t.text())
	case 1:
		fmt.Fprintf(&b, "%s %s(%s)", rows(), fn, strings.Join(args, ", "))
	case 2:
		var ts []string
		for _, c := range x.cols {
			ts = append(ts, c.t.text())
		}
		fmt.Fprintf(&b, "DEFINE %s(%s) = %s %s(%s)", x.table, strings.Join(ts, ", "), rows(), fn, strings.Join(args, ", "))
	}
	if len(x.opts) > 0 {
		var o []string
		for _, p := range x.opts {
			o = append(o, p.k+":"+p.v)
		}
		b.WriteString(" [" + strings.Join(o, ", ") + "]")
	}
	return b.String() + " = " + x.resv.String()
}

// used: the column's type is declared.
func (x *c23agg) used(i int) bool {
	if x.form != 1 {
		return true
	}
	for _, a := range x.args {
		if a.scalar == nil && a.col == i {
			return true
		}
	}
	return false
}

func c23untyped(s string) string {
	toks, ok := c23lex(s)
	if !ok || len(toks) != 1 {
		return "?"
	}
	q := func(k string) string { d, _ := c23want(&c23t{kind: k}, s); return d }
	switch toks[0].kind {
	case "NullLiteral":
		return "null"
	case "BooleanLiteral":
		return q("boolean")
	case "DateLiteral":
		return q("date")
	case "TimeLiteral":
		return q("time")
	case "TimestampLiteral":
		return q("timestamp")
	case "TimestampTzLiteral":
		return q("timestamp_tz")
	case "IntervalYearLiteral":
		return q("interval_year")
	case "StringLiteral":
		return fmt.Sprintf("string %q", s[1:len(s)-1])
	case "IntervalDayLiteral":
		return "iday"
	}
	return fmt.Sprintf("string %q", s)
}

func (x *c23agg) status() int {
	st := c23ok
	add := func(s int) {
		if s == c23bad || s == c23free && st == c23ok {
			st = s
		}
	}
	for i, c := range x.cols {
		for _, s := range c.cells {
			if x.used(i) {
				_, k, _ := c23cell(c.t, s)
				add(k)
			} else if c23untyped(s) == "" {
				add(c23bad)
			}
		}
	}
	for _, a := range x.args {
		if a.scalar != nil {
			_, k := a.scalar.want()
			add(k)
		}
	}
	_, k := x.resv.want()
	add(k)
	return st
}

func (x *c23agg) judge(t *T) {
	text := c23head(true) + "# G Zwei: Ä\n" + x.String() + "\n"
	st := x.status()
	f, err := c23parse(t, text)
	t.State(x.String())
	if err != nil {
		t.Outcome("rejected")
		if st == c23ok {
			t.Failf("valid case rejected: %q: %s", clip(x.String(), 300), clip(err.Error(), 300))
		}
		return
	}
	if st == c23bad {
		t.Failf("invalid case accepted: %q as %s", clip(x.String(), 300), clip(c23dump(f.TestCases[0]), 300))
		return
	}
	if st == c23free {
		return
	}
	if len(f.TestCases) != 1 {
		t.Failf("%d cases for %q", len(f.TestCases), x.String())
		return
	}
	tc := f.TestCases[0]
	t.Outcome(c23dump(tc))
	bad := func(format string, a ...any) {
		t.Failf("%s: %s", clip(x.String(), 300), clip(fmt.Sprintf(format, a...), 500))
	}
	if tc.FuncType != parser.AggregateFuncType || tc.GroupDesc != "G Zwei: Ä" || tc.FuncName != "f1" || tc.BaseURI != c23uri || len(tc.Args) != 0 {
		bad("%s case %s %q of %q with %d scalar arguments", tc.FuncType, tc.FuncName, tc.GroupDesc, tc.BaseURI, len(tc.Args))
	}
	if g, w := c23res(tc.Result), func() string { d, _ := x.resv.want(); return x.resv.typeDen() + " = " + d }(); g != w {
		bad("result %s want %s", g, w)
	}
	if len(tc.Options) != len(x.opts) {
		bad("options %v", tc.Options)
	}
	for _, p := range x.opts {
		if tc.Options[p.k] != p.v {
			bad("options %v", tc.Options)
		}
	}
	// the values of a column make up a list that is there, of the column's type
	for i, g := range tc.AggregateArgs {
		if g.Argument == nil || g.IsScalar {
			continue
		}
		if lit, ok := g.Argument.Value.(expr.Literal); !ok {
			bad("argument %d is %T", i, g.Argument.Value)
		} else if lt, ok := lit.GetType().(*types.ListType); !ok || lt.Nullability != types.NullabilityRequired || lt.TypeVariationRef != 0 {
			bad("argument %d is a literal of type %s", i, lit.GetType())
		} else if c23typeDen(lt.Type) != c23typeDen(g.Argument.Type) {
			bad("argument %d of type %s is a literal of type %s", i, g.Argument.Type, lt)
		}
	}
	data, err := tc.GetAggregateColumnsData()
	hasScalar := false
	for _, a := range x.args {
		hasScalar = hasScalar || a.scalar != nil
	}
	if err != nil && !(len(x.cols) == 0 && hasScalar) {
		bad("columns: %v", err)
		return
	}
	if err == nil && len(data) != len(x.cols) {
		bad("%d columns, want %d", len(data), len(x.cols))
		return
	}
	colDen := func(c c23col) string {
		d := c.t
		for _, s := range c.cells {
			if strings.EqualFold(s, "null") {
				d = d.opt()
			}
		}
		return d.den()
	}
	pkey := ""
	for i, c := range x.cols {
		if len(data[i]) != len(c.cells) {
			bad("column %d has %d values", i, len(data[i]))
			continue
		}
		for j, s := range c.cells {
			g := c23cellGot(data[i][j])
			if !x.used(i) {
				w := c23untyped(s)
				if w == "null" {
					g = strings.Fields(g)[0]
				}
				if w == "iday" {
					continue
				}
				if g != w {
					bad("column %d row %d is %s, want %s", i, j, g, w)
				}
				continue
			}
			w, _, key := c23cell(c.t, s)
			w = c23noNull(w)
			if g != w {
				if key != "" {
					t.FailKey(key, "%s: column %d of type %s has the value %s", x, i, c.t.text(), g)
					pkey = key
				} else {
					bad("column %d row %d is %s, want %s", i, j, g, w)
				}
			}
			if k := (&c23v{text: s, t: c.t}).printKey(); k != "" {
				pkey = k
			}
		}
		if x.form != 0 && x.used(i) {
			if i >= len(tc.ColumnTypes) || c23typeDen(tc.ColumnTypes[i]) != colDen(c) {
				bad("column types %v, want %s for %d", tc.ColumnTypes, colDen(c), i)
			}
		}
	}
	var dens []string
	var kinds []*c23t
	if x.form == 0 {
		a := tc.AggregateArgs
		if len(a) != 1 || a[0].IsScalar || a[0].Argument == nil || c23typeDen(a[0].ColumnType) != colDen(x.cols[0]) || c23typeDen(a[0].Argument.Type) != colDen(x.cols[0]) || a[0].ColumnIndex != 0 {
			bad("arguments %v", a)
			return
		}
		dens, kinds = []string{colDen(x.cols[0])}, []*c23t{x.cols[0].t}
	} else {
		if len(tc.AggregateArgs) != len(x.args) {
			bad("%d arguments", len(tc.AggregateArgs))
			return
		}
		for i, a := range x.args {
			g := tc.AggregateArgs[i]
			if a.scalar != nil {
				d, _ := a.scalar.want()
				if !g.IsScalar || g.Argument == nil || c23typeDen(g.Argument.Type) != a.scalar.typeDen() || c23argDen(g.Argument) != d {
					bad("argument %d is %+v", i, *g)
				} else if l, ok := g.Argument.Value.(expr.Literal); ok && c23typeDen(l.GetType()) != a.scalar.typeDen() {
					bad("argument %d has a value of type %s", i, l.GetType())
				}
				if k := a.scalar.printKey(); k != "" {
					pkey = k
				}
				dens, kinds = append(dens, a.scalar.typeDen()), append(kinds, a.scalar.t)
				continue
			}
			w := x.cols[a.col].t.den()
			if x.form == 2 {
				w = colDen(x.cols[a.col])
			}
			if g.IsScalar || int(g.ColumnIndex) != a.col || g.ColumnName != fmt.Sprintf("col%d", a.col) || g.TableName != x.table || c23typeDen(g.ColumnType) != w {
				bad("argument %d is %+v, want column %d of type %s", i, *g, a.col, w)
			}
			dens, kinds = append(dens, w), append(kinds, x.cols[a.col].t)
		}
	}
	at := tc.GetArgTypes()
	for i := range dens {
		if i >= len(at) || c23typeDen(at[i]) != dens[i] {
			bad("argument types %v, want %v", at, dens)
			break
		}
	}
	if w := c23sig("f1", kinds); tc.CompoundFunctionName() != w {
		bad("compound name %q, want %q", tc.CompoundFunctionName(), w)
	}
	if k := x.resv.printKey(); k != "" {
		pkey = k
	}
	// untyped columns take the type of their texts when printed, so only tables whose columns are all used are compared
	for i := range x.cols {
		if !x.used(i) {
			pkey = "skip"
		}
		if x.form == 2 {
			u := false
			for _, a := range x.args {
				u = u || a.scalar == nil && a.col == i
			}
			if !u {
				pkey = "skip"
			}
		}
	}
	if pkey != "skip" {
		c23reprint(t, tc, pkey)
	}
}

// c23texts1 are texts for the cells of a column: accepted ones, null and one the type rejects.
func c23cells(x *c23t, n int) (r []string) {
	for _, v := range c23good(x, n) {
		r = append(r, v.text)
	}
	r = append(r, "null")
	for _, s := range c23texts(x.kind) {
		if _, st := c23want(x, s); st == c23bad {
			return append(r, s)
		}
	}
	return
}

func c23columns(c *Ctx) {
	res := &c23v{text: "1", t: c23mk("i8", nil)}
	maxLen := 2
	if c.Thorough {
		maxLen = 3
	}
	run := func(x *c23t, cells []string) {
		a := &c23agg{form: 0, cols: []c23col{{x, append([]string{}, cells...)}}, resv: res}
		c.Case(func(t *T) {
			t.Dim("column", x.text())
			a.judge(t)
		}, "column", a.String())
	}
	for _, x := range c23types() {
		if x.kind == "uuid" {
			continue
		}
		for _, y := range []*c23t{x, x.opt()} {
			for _, s := range c23texts(x.kind) {
				run(y, []string{s})
			}
			for k := 0; k <= maxLen; k++ {
				tuples(c23cells(y, 4), k, func(cells []string) { run(y, cells) })
			}
		}
		for _, o := range c23types() {
			if g := c23good(o, 1); len(g) == 1 && !c23sameLit(o, x) {
				run(x, []string{g[0].text})
			}
		}
	}
}

// c23long: cases with many arguments, options and list elements.
func c23long(c *Ctx) {
	all := c23sample()
	for _, n := range []int{4, 5, 8, 9, 17, 33, 100} {
		for start := 0; start < len(all); start += 3 {
			c.Case(func(t *T) {
				var as []*c23v
				var os []c23opt
				for i := 0; i < n; i++ {
					as = append(as, all[(start+i)%len(all)])
					os = append(os, c23opt{fmt.Sprint("opt", string(rune('a'+i%26)), strings.Repeat("x", i/26)), []string{"ERROR", "NAN", "null", "SILENT", "true", "NULL", "false"}[i%7]})
				}
				c23judge(t, &c23case{fn: "many", args: as, resv: all[start]})
				c23judge(t, &c23case{fn: "many", args: as[:2], opts: os, resv: all[start]})
			}, "long args", n, start)
		}
		for ti, x := range c23types() {
			g := c23good(x, 3)
			if len(g) == 0 || x.kind == "list" {
				continue
			}
			c.Case(func(t *T) {
				var es []*c23v
				for i := 0; i < n; i++ {
					es = append(es, g[i%len(g)])
				}
				l := &c23v{t: c23listOf(x), elems: es}
				c23judge(t, &c23case{fn: "lst", args: []*c23v{l}, resv: l})
			}, "long list", n, ti)
		}
	}
}

func c23tables(c *Ctx) {
	res := &c23v{text: "1", t: c23mk("i8", nil)}
	var ts []*c23t
	for _, x := range c23types() {
		if x.kind == "uuid" || len(x.ints) > 0 && x.ints[0] != 3 && x.ints[0] != 20 {
			continue
		}
		ts = append(ts, x)
	}
	run := func(a *c23agg) {
		c.Case(func(t *T) { t.Dim("form", fmt.Sprint(a.form, len(a.cols), a.rows, len(a.args))); a.judge(t) }, "table", a.String())
	}
	mk := func(form int, cols []c23col, rows int, args ...c23aggArg) *c23agg {
		a := &c23agg{form: form, cols: cols, rows: rows, args: args, resv: res}
		if form == 2 {
			a.table = "tab1"
		}
		return a
	}
	// one column of each type, up to 2 rows
	for form := 1; form <= 2; form++ {
		for _, x := range ts {
			for _, y := range []*c23t{x, x.opt()} {
				cells := c23cells(y, 3)
				for k := 0; k <= 2; k++ {
					tuples(cells, k, func(v []string) {
						run(mk(form, []c23col{{y, append([]string{}, v...)}}, k, c23aggArg{col: 0}))
					})
				}
			}
			for _, s := range c23texts(x.kind) {
				run(mk(form, []c23col{{x, []string{s}}}, 1, c23aggArg{col: 0}))
			}
			for _, o := range ts {
				if g := c23good(o, 1); len(g) == 1 && !c23sameLit(o, x) {
					run(mk(form, []c23col{{x, []string{g[0].text}}}, 1, c23aggArg{col: 0}))
				}
			}
		}
		// 2-3 columns of three types, every sequence of up to 3 arguments over the columns and a scalar
		pool := []*c23t{c23mk("i32", nil), c23mk("string", nil), c23mk("fp64", nil).opt(), c23mk("date", nil), c23mk("boolean", nil)}
		scal := []*c23v{{text: "2.50", t: c23mk("decimal", []int{5, 3})}, {text: "'abc'", t: c23mk("fixedchar", []int{3})}, {text: "null", t: c23mk("varchar", []int{3}).opt()}, {text: "FOO", enum: true}, {text: "'P1D'", t: c23mk("interval_day", []int{6})}}
		nc := 2
		if c.Thorough {
			nc = 3
		}
		for n := 1; n <= nc; n++ {
			tuples(pool, n, func(cs []*c23t) {
				for rows := 0; rows <= 2; rows++ {
					var cols []c23col
					for i, x := range cs {
						cells := c23cells(x, 3)
						col := c23col{t: x}
						for r := 0; r < rows; r++ {
							col.cells = append(col.cells, cells[(i+r)%3])
						}
						cols = append(cols, col)
					}
					var as []c23aggArg
					for i := range cs {
						as = append(as, c23aggArg{col: i})
					}
					as = append(as, c23aggArg{col: -1, scalar: scal[(rows+n)%len(scal)]}, c23aggArg{col: -1, scalar: scal[len(cs[0].kind)%len(scal)]})
					for k := 0; k <= 3; k++ {
						tuples(as, k, func(args []c23aggArg) {
							if rows == 0 && form == 1 {
								// without rows only the columns referred to exist
								m := 0
								for _, a := range args {
									if a.scalar == nil && a.col+1 > m {
										m = a.col + 1
									}
								}
								run(mk(form, cols[:m], rows, append([]c23aggArg{}, args...)...))
								return
							}
							run(mk(form, cols, rows, append([]c23aggArg{}, args...)...))
						})
					}
				}
			})
		}
		for _, s := range c23sample() {
			run(mk(form, []c23col{{pool[0], []string{"1", "2"}}}, 2, c23aggArg{col: 0}, c23aggArg{col: -1, scalar: s}))
			a := mk(form, []c23col{{pool[0], []string{"1", "2"}}}, 2, c23aggArg{col: 0})
			a.resv = s
			a.opts = c23opts[:2:2][1:]
			run(a)
		}
	}
	// wide and long tables
	for form := 1; form <= 2; form++ {
		for _, n := range []int{4, 5, 9, 10, 11, 12, 17, 33, 101} {
			var cols, nulls, long []c23col
			var as, back []c23aggArg
			for i := 0; i < n; i++ {
				x := ts[i%len(ts)]
				g := c23good(x, 3)
				cols = append(cols, c23col{x, []string{g[i%len(g)].text, g[(i+1)%len(g)].text}})
				o := c23col{x.opt(), []string{g[i%len(g)].text, "null"}}
				if i%2 == 1 {
					o.cells = []string{"null", "Null"}
				}
				nulls = append(nulls, o)
				as = append(as, c23aggArg{col: i})
				back = append(back, c23aggArg{col: n - 1 - i})
			}
			for _, args := range [][]c23aggArg{as, back, as[n-1:], append(append([]c23aggArg{}, as[n-1:]...), as...)} {
				run(mk(form, cols, 2, args...))
				run(mk(form, nulls, 2, args...))
			}
			for k := 0; k < 3; k++ {
				x := ts[(n+5*k)%len(ts)]
				g := c23good(x, 4)
				col := c23col{t: x}
				for r := 0; r < n; r++ {
					col.cells = append(col.cells, g[(r+r/5)%len(g)].text)
				}
				long = append(long, col)
			}
			run(mk(form, long, n, as[:3]...))
			// one bad cell, in the last row
			for k := range long {
				for _, txt := range c23texts(long[k].t.kind) {
					if _, st := c23want(long[k].t, txt); st == c23bad {
						cut := append([]c23col{}, long...)
						cut[k].cells = append(append([]string{}, long[k].cells[:n-1]...), txt)
						run(mk(form, cut, n, as[:3]...))
						break
					}
				}
			}
		}
	}
	// files of several cases and groups: each case is what it is alone
	pool := []string{"f1((1, null, 3)::i8?) [overflow:ERROR] = 6::i8?", "((1, 'a', true), (2, null, false)) f2(col0::i32, col1::string?, 'x'::str) = 1::i64", "() f3() = 0::i64",
		"DEFINE Tab(i32, dec?<5,2>, list<i8>) = () f4(Tab.col1, FOO::enum, Tab.col0) [a:b] = <!UNDEFINED>", "DEFINE t2(i32) = ((1), (2)) f5(t2.col0) = 3::i64", "f1(()::fp64) = null::fp64?", "((1), (2)) f6(col0::i8) = <!ERROR>"}
	alone := make([]string, len(pool))
	for i, s := range pool {
		f, err := parser.ParseTestCasesFromString(c23head(true) + "# g\n" + s + "\n")
		if err != nil || len(f.TestCases) != 1 {
			c.Case(func(t *T) { t.Failf("valid case rejected: %q: %v", s, err) }, "agg alone", i)
			continue
		}
		f.TestCases[0].GroupDesc = ""
		alone[i] = c23dump(f.TestCases[0])
	}
	descs := []string{"G Eins: A", "h", "Summe: ÄÖ"}
	for _, sizes := range [][]int{{1}, {2}, {3}, {7}, {1, 1}, {1, 2}, {2, 1}, {3, 3}, {1, 1, 1}, {2, 2, 3}, {1, 1, 1, 1, 1, 1}, {20, 30}} {
		for start := range pool {
			for step := 1; step <= 3; step++ {
				c.Case(func(t *T) {
					text, k := c23head(true), start
					var want, groups []string
					for g, n := range sizes {
						d := descs[(g+start)%3]
						text += "# " + d + "\n"
						for range n {
							text += pool[k%len(pool)] + "\n"
							want, groups = append(want, alone[k%len(pool)]), append(groups, d)
							k += step
						}
					}
					f, err := c23parse(t, text)
					t.State(text)
					if err != nil {
						t.Failf("rejected %q: %v", clip(text, 400), err)
						return
					}
					if len(f.TestCases) != len(want) {
						t.Failf("%d cases instead of %d", len(f.TestCases), len(want))
						return
					}
					for i, tc := range f.TestCases {
						if tc.GroupDesc != groups[i] {
							t.Failf("case %d of %q is of group %q", i, clip(text, 400), tc.GroupDesc)
						}
						tc.GroupDesc = ""
						if g := c23dump(tc); g != want[i] {
							t.Failf("case %d of %q is %s, alone %s", i, clip(text, 400), g, want[i])
						}
					}
					t.Validated()
				}, "agg groups", fmt.Sprint(sizes), start, step)
			}
		}
	}
	// malformed tables
	bad := []string{"((1, 2), (3)) f1(col0::i8) = 1::i8", "((1), (3, 4)) f1(col0::i8) = 1::i8", "((1), ()) f1(col0::i8) = 1::i8", "((), (1)) f1(col0::i8) = 1::i8", "((1), (2)) f1(col1::i8) = 1::i8", "((1), (2)) f1(col4294967296::i8) = 1::i8", "() f1(col4294967296::i8) = 1::i8", "() f1(col2147483647::i8) = 1::i8", "((1)) f1(col18446744073709551616::i8) = 1::i8",
		"DEFINE t1(i8) = ((1, 2)) f1(t1.col0) = 1::i8", "DEFINE t1(i8, i8) = ((1)) f1(t1.col0) = 1::i8", "DEFINE t1(i8) = ((1)) f1(t1.col1) = 1::i8", "DEFINE t1(i8) = ((1)) f1(t2.col0) = 1::i8", "DEFINE t1(i8) = ((1)) f1(t1.col4294967296) = 1::i8", "DEFINE t1(i8) = () f1(t1.col1) = 1::i8", "DEFINE t1(i8) = ((1)) f1(col0::i8) = 1::i8", "((1)) f1(t1.col0) = 1::i8",
		"((1)) f1(col0::i8, 300::i8) = 1::i8", "((1)) f1(col0::varchar<4294967297>) = 1::i8", "((1)) f1(col0::i8) = 300::i8", "((300)) f1(col0::i8) = 1::i8", "((1)) f1(null::i8) = 1::i8"}
	for _, s := range bad {
		c.Case(func(t *T) {
			if f, err := c23parse(t, c23head(true)+"# g\n"+s+"\n"); err == nil {
				t.Failf("accepted %q as %s", s, c23dump(f.TestCases[0]))
			}
		}, "badtable", s)
	}
}

// ---- corrupted files

func c23corpus() (r []string) {
	all := c23sample()
	line := func(i int) string {
		x := &c23case{fn: fmt.Sprintf("f%d", i), args: []*c23v{all[i%len(all)], all[(3*i+1)%len(all)]}, resv: all[(7*i+2)%len(all)]}
		if i%3 == 0 {
			x.opts = []c23opt{{"overflow", "ERROR"}, {"Foo", "bar"}}
		}
		return x.String()
	}
	for i := 0; i < 3*len(all); i += 3 {
		r = append(r, c23head(false)+"# g\n"+line(i)+"\n")
	}
	r = append(r, "### SUBSTRAIT_SCALAR_TEST: v1.0\n### SUBSTRAIT_INCLUDE: 'a', 'b'\n### SUBSTRAIT_DEPENDENCY: 'd'\n"+line(1)+"\n# h\n"+line(2)+"\n"+line(4)+"\n# i\n"+line(5)+"\n")
	h := c23head(true)
	r = append(r, h+"# g\nf1((1, null, 3)::i8?) [overflow:ERROR] = 6::i8?\n",
		h+"f1(()::fp64) = null::fp64?\n",
		h+"# g\n((1, 'a', true), (2, null, false)) f2(col0::i32, col1::string?, 'x'::str) = <!ERROR>\n# h\n() f3() = 0::i64\n",
		h+"# g\nDEFINE tab(i32, dec?<5,2>, list<i8>) = () f4(tab.col1, FOO::enum, tab.col0) [a:b] = <!UNDEFINED>\n",
		h+"# g\nDEFINE tab(i32, date) = ((1, '2000-01-01'), (2, '1999-12-31')) f5(tab.col1, 2.5::dec<3,1>) = [1, 2]::list<i32>\nf6(('P1Y2M', 'P3Y')::iyear) = 'P1D'::iday<3>\n",
		c23head(false)+"# g\nf7((x -> add(x, 1::i8))::func<i8 -> i8>, [[1], []]::list<list<i32>>) = ((x, w) -> f8(x, w))::func<(i8, i8?) -> bool>\n",
		c23head(false)+"# g\nf7(x, 'P1Y2M3DT4H5M6.5S'::icompound<6>) = null::u!foo?\n")
	return
}

// c23cases counts the cases of a legal file: every case has one equals sign, tables with a definition another.
func c23count(toks []c23tok) (n int) {
	for _, k := range toks {
		switch k.kind {
		case "Eq":
			n++
		case "Define":
			n--
		}
	}
	return
}

// c23any judges an arbitrary text: outside the grammar it must be an error, inside
// it an error or a result with the right number of cases that reads back.
func c23any(t *T, text string) {
	f, err := c23parse(t, text)
	toks, ok := c23lex(text)
	legal := ok && c23legal(toks)
	t.StateBytes([]byte(text))
	switch {
	case legal && err == nil:
		t.Outcome("legal accepted")
		if n := c23count(toks); n != len(f.TestCases) {
			t.Failf("%d cases, want %d, of %q", len(f.TestCases), n, text)
		}
		for _, tc := range f.TestCases {
			if tc.FuncName == "" || tc.Result == nil || tc.FuncType != f.Header.FuncType {
				t.Failf("incomplete case %s of %q", c23dump(tc), text)
			}
		}
	case legal:
		t.Outcome("legal rejected")
		t.Note("legal texts rejected (semantic errors)")
	case err == nil:
		t.Failf("text outside the grammar accepted: %q", text)
	default:
		t.Outcome("illegal rejected")
	}
}

func c23corrupt(c *Ctx) {
	corpus := c23corpus()
	repl := strings.Fields("( ) [ ] , : :: = ? < > . ### # - + * null true 1 -1 1.5 1e3 nan 'a' '2000-01-01' '10:00:00' '2000-01-01T10:00:00' '2000-01-01T10:00:00+01:00' 'P1Y' 'P1D' 'P1Y1D' foo f9 enum DEFINE col0 col1 i8 i32? str list vchar dec iday bool func u! <!ERROR> <!UNDEFINED> OVERFLOW ERROR TRUNCATE AND any any1 struct if v1.0 SUBSTRAIT_SCALAR_TEST SUBSTRAIT_AGGREGATE_TEST SUBSTRAIT_INCLUDE P T -> := 4294967297 'a @")
	repl = append(repl, "# x\n", "\n// c\n")
	step := 4
	if c.Thorough {
		step = 1
	}
	join := func(ts []string) string { return strings.Join(ts, " ") }
	for ci, text := range corpus {
		toks, ok := c23lex(text)
		c.Case(func(t *T) {
			if !ok || !c23legal(toks) {
				t.Failf("harness: corpus text %q is not legal", text)
			}
			c23any(t, text)
			for _, x := range []string{text, text[:len(text)/2], text + "(", strings.Replace(text, "###", "##", 1)} {
				f, err := c23parse(t, x)
				c23entries(t, x, f, err)
			}
		}, "corpus", ci)
		var ts []string
		for _, k := range toks {
			ts = append(ts, k.text)
		}
		for i := range ts {
			if ci < len(corpus)-8 && i < 8 && ci%8 != 0 {
				continue // the header is the same
			}
			c.Case(func(t *T) {
				mod := func(new ...string) {
					c23any(t, join(append(append(append([]string{}, ts[:i]...), new...), ts[i+1:]...)))
				}
				mod()
				mod(ts[i], ts[i])
				if i+1 < len(ts) {
					x := append([]string{}, ts...)
					x[i], x[i+1] = x[i+1], x[i]
					c23any(t, join(x))
				}
				c23any(t, join(ts[:i]))
				c23any(t, join(ts[i:]))
				for k, r := range repl {
					if (k+ci)%step == 0 {
						mod(r)
						mod(r, ts[i])
					}
				}
			}, "token", ci, i)
		}
		// single characters
		chars := []string{"", "'", " ", "1", "x", "@", "#", ":", "\\", "?", "\n", "-", ".", "(", "ü", "\x00"}
		from := len(c23head(false)) - 20
		if ci%16 == 0 {
			from = 0
		}
		for i := from; i < len(text); i++ {
			if !c.Thorough && (i+ci)%2 != 0 {
				continue
			}
			c.Case(func(t *T) {
				for k, r := range chars {
					if c.Thorough || (k+ci)%2 == 0 || r == "" || r == "@" {
						c23any(t, text[:i]+r+text[i+1:])
						if r != "" {
							c23any(t, text[:i]+r+text[i:])
						}
					}
				}
			}, "char", ci, i)
		}
	}
}

// ---- the bundled test files, as they are and printed

type c23badFile struct{ fs.File }

func (c23badFile) Read([]byte) (int, error) { return 0, fmt.Errorf("unreadable") }

// c23entries reads the text by the other two ways, which give the same as the first.
func c23entries(t *T, text string, f *parser.TestFile, err error) {
	all := func(f *parser.TestFile) (r string) {
		r = fmt.Sprintf("%+v", f.Header)
		for _, tc := range f.TestCases {
			r += "\n" + c23dump(tc)
		}
		return
	}
	fsys := fstest.MapFS{"dir/a.test": {Data: []byte(text)}}
	for _, how := range []string{"from a file system", "from a file", "from an unreadable file", "from a missing file"} {
		var g *parser.TestFile
		var gerr error
		t.Trans(1)
		msg := catch(func() {
			file, oerr := fsys.Open("dir/a.test")
			if oerr != nil {
				panic(oerr)
			}
			switch how {
			case "from a file system":
				g, gerr = parser.ParseTestCaseFileFromFS(fsys, "dir/a.test")
			case "from a file":
				g, gerr = parser.ParseTestCasesFromFile(file)
			case "from an unreadable file":
				g, gerr = parser.ParseTestCasesFromFile(c23badFile{file})
			case "from a missing file":
				g, gerr = parser.ParseTestCaseFileFromFS(fsys, "dir/b.test")
			}
		})
		good := err == nil && !strings.Contains(how, "missing") && !strings.Contains(how, "unreadable")
		if msg != "" || (gerr == nil) != good || (g != nil) != good {
			t.Failf("%s: %v, %v %s (as a string: %v) for %q", how, g, gerr, msg, err, clip(text, 300))
		} else if good && all(f) != all(g) {
			t.Failf("%s: %s, as a string %s", how, all(g), all(f))
		}
	}
}

func c23bundled(c *Ctx) {
	fsys := substrait.GetSubstraitTestsFS()
	var files []string
	fs.WalkDir(fsys, ".", func(p string, d fs.DirEntry, err error) error {
		if err == nil && strings.HasSuffix(p, ".test") {
			files = append(files, p)
		}
		return nil
	})
	sort.Strings(files)
	c.Case(func(t *T) {
		if len(files) < 10 {
			t.Failf("harness: only %d bundled files", len(files))
		}
	}, "bundled")
	for _, p := range files {
		c.Case(func(t *T) {
			b, err := fs.ReadFile(fsys, p)
			if err != nil {
				t.Failf("%v", err)
				return
			}
			text := string(b)
			f, err := c23parse(t, text)
			c23entries(t, text, f, err)
			toks, ok := c23lex(text)
			if !ok || !c23legal(toks) {
				t.Failf("harness: %s is not legal", p)
				return
			}
			if err != nil {
				t.Note("bundled files with unsupported syntax")
				return
			}
			if n := c23count(toks); n != len(f.TestCases) {
				t.Failf("%d cases, want %d", len(f.TestCases), n)
			}
			for _, tc := range f.TestCases {
				t.State(c23dump(tc))
				key := ""
				for _, a := range tc.Args {
					if k := c23litKey(a.Type); k != "" {
						key = k
					}
				}
				for _, a := range tc.AggregateArgs {
					if k := c23litKey(a.GetType()); k != "" {
						key = k
					}
					if strings.HasPrefix(c23typeDen(a.GetType()), "precision_t") {
						key = "column-precision-temporal"
					}
				}
				if a, ok := tc.Result.(*parser.CaseLiteral); ok {
					if k := c23litKey(a.Type); k != "" {
						key = k
					}
				}
				used := map[int32]bool{}
				for _, a := range tc.AggregateArgs {
					if !a.IsScalar {
						used[a.ColumnIndex] = true
					}
				}
				if len(tc.Columns) > 0 && len(used) < len(tc.Columns) {
					continue
				}
				c23reprint(t, tc, key)
			}
		}, "bundled", p)
	}
}

func c23litKey(x types.Type) string {
	d := c23typeDen(x)
	switch {
	case strings.Contains(d, "fixedbinary"):
		return "print-fixedbinary"
	case strings.Contains(d, "precision_timestamp_tz"):
		return "print-precision-timestamp-tz"
	case strings.Contains(d, "timestamp_tz"):
		return "print-timestamp-tz"
	}
	return ""
}

// ---- the published lexer and grammar (substrait v0.87.0), transcribed

var c23lexRules = func() (r []struct {
	name string
	re   *regexp.Regexp
}) {
	const in = `[+-]?(?:0|[1-9][0-9]*)`
	const dc = `[+-]?[0-9]+(?:\.[0-9]+)?`
	const iv = `(?:` + in + `h(?:` + in + `m)?(?:` + dc + `s)?|` + in + `m(?:` + dc + `s)?|` + dc + `s)`
	const d4, d2 = `[0-9]{4}`, `[0-9]{2}`
	const day = d4 + `-` + d2 + `-` + d2
	const tod = d2 + `:` + d2 + `:` + d2 + `(?:\.[0-9]+)?`
	add := func(name, re string) {
		x := regexp.MustCompile(`(?is)^(?:` + re + `)`)
		x.Longest()
		r = append(r, struct {
			name string
			re   *regexp.Regexp
		}{name, x})
	}
	kw := func(l string) {
		for _, x := range strings.Fields(l) {
			i := strings.Index(x, "=")
			add(x[:i], regexp.QuoteMeta(x[i+1:]))
		}
	}
	add("WS", `[ \t\n\r]+`)
	kw(`TripleHash=### SubstraitScalarTest=SUBSTRAIT_SCALAR_TEST SubstraitAggregateTest=SUBSTRAIT_AGGREGATE_TEST SubstraitInclude=SUBSTRAIT_INCLUDE SubstraitDependency=SUBSTRAIT_DEPENDENCY`)
	add("FormatVersion", `v[0-9]+(?:\.[0-9]+)?`)
	add("DescriptionLine", "# [^\r\n]*\r?\n")
	kw(`Define=DEFINE ErrorResult=<!ERROR> UndefineResult=<!UNDEFINED> Overflow=OVERFLOW Rounding=ROUNDING Error=ERROR Saturate=SATURATE Silent=SILENT TieToEven=TIE_TO_EVEN NaN=NAN AcceptNulls=ACCEPT_NULLS IgnoreNulls=IGNORE_NULLS NullHandling=NULL_HANDLING SpacesOnly=SPACES_ONLY Truncate=TRUNCATE`)
	add("IntegerLiteral", in)
	add("DecimalLiteral", dc)
	add("FloatLiteral", `[+-]?[0-9]+(?:\.[0-9]*)?(?:e[+-]?[0-9]+)?|[+-]?inf|snan`)
	add("BooleanLiteral", `true|false`)
	add("TimestampTzLiteral", `'`+day+`T`+tod+`[+-]`+d2+`:`+d2+`'`)
	add("TimestampLiteral", `'`+day+`T`+tod+`'`)
	add("TimeLiteral", `'`+tod+`'`)
	add("DateLiteral", `'`+day+`'`)
	kw(`PeriodPrefix=P TimePrefix=T YearSuffix=Y MSuffix=M DaySuffix=D HourSuffix=H SecondSuffix=S FractionalSecondSuffix=F OAngleBracket=< CAngleBracket=>`)
	add("IntervalYearLiteral", `'P`+in+`Y(?:`+in+`M)?'|'P`+in+`M'`)
	add("IntervalDayLiteral", `'P`+in+`D(?:T`+iv+`)?'|'PT`+iv+`'`)
	add("IntervalCompoundLiteral", `'P(?:`+in+`Y)?(?:`+in+`M)?(?:`+in+`D)?(?:T`+iv+`)?'`)
	add("NullLiteral", `null`)
	add("StringLiteral", `'(?:\\.|''|[^'\\])*'`)
	add("EnumType", `enum`)
	add("ColumnName", `col(?:0|[1-9][0-9]*)`)
	add("WS", `//[^\r\n]*`)
	add("WS", `/\*(?:[^*]|\*+[^*/])\**\*/`)
	kw(`If=IF Then=THEN Else=ELSE Func=FUNC Boolean=BOOLEAN I8=I8 I16=I16 I32=I32 I64=I64 FP32=FP32 FP64=FP64 String=STRING Binary=BINARY Timestamp=TIMESTAMP Timestamp_TZ=TIMESTAMP_TZ Date=DATE Time=TIME Interval_Year=INTERVAL_YEAR Interval_Day=INTERVAL_DAY Interval_Compound=INTERVAL_COMPOUND UUID=UUID Decimal=DECIMAL Precision_Time=PRECISION_TIME Precision_Timestamp=PRECISION_TIMESTAMP Precision_Timestamp_TZ=PRECISION_TIMESTAMP_TZ FixedChar=FIXEDCHAR VarChar=VARCHAR FixedBinary=FIXEDBINARY Struct=STRUCT NStruct=NSTRUCT List=LIST Map=MAP UserDefined=U! Bool=BOOL Str=STR VBin=VBIN Ts=TS TsTZ=TSTZ IYear=IYEAR IDay=IDAY ICompound=ICOMPOUND Dec=DEC PT=PT PTs=PTS PTsTZ=PTSTZ FChar=FCHAR VChar=VCHAR FBin=FBIN Any=ANY`)
	add("AnyVar", `any[0-9]`)
	kw(`DoubleColon=:: Plus=+ Minus=- Asterisk=* ForwardSlash=/ Percent=% Eq== Ne=!= Gte=>= Lte=<= Gt=> Lt=< Bang=! OParen=( CParen=) OBracket=[ CBracket=] Comma=, Colon=: QMark=? Hash=# Dot=. And=AND Or=OR Assign=:= Arrow=->`)
	add("Identifier", `[a-z_$][a-z_$0-9]*`)
	return
}()

type c23tok struct{ kind, text string }

// c23lex splits a text into tokens; ok is false if a character fits no token.
func c23lex(s string) (r []c23tok, ok bool) {
	for s != "" {
		best, bk := 0, ""
		c := s[0] | 0x20
		for i := range c23lexRules {
			x := &c23lexRules[i]
			if x.name == "Identifier" && !(c >= 'a' && c <= 'z' || s[0] == '_' || s[0] == '$') {
				continue
			}
			if l := x.re.FindStringIndex(s); l != nil && l[1] > best {
				best, bk = l[1], x.name
			}
		}
		if best == 0 {
			return nil, false
		}
		if bk != "WS" {
			r = append(r, c23tok{bk, s[:best]})
		}
		s = s[best:]
	}
	return r, true
}

const c23grammar = `
doc: header testGroup+ ;
header: version include dependency* ;
version: TripleHash ( SubstraitScalarTest | SubstraitAggregateTest ) Colon FormatVersion ;
include: TripleHash SubstraitInclude Colon StringLiteral ( Comma StringLiteral )* ;
dependency: TripleHash SubstraitDependency Colon StringLiteral ;
testGroup: DescriptionLine? testCase+ | DescriptionLine? aggFuncTestCase+ ;
testCase: identifier OParen arguments CParen ( OBracket funcOptions CBracket )? Eq result ;
arguments: argument ( Comma argument )* ;
result: argument | ErrorResult | UndefineResult ;
argument: NullLiteral DoubleColon dataType | Identifier DoubleColon EnumType | IntegerLiteral DoubleColon intType | numericLiteral DoubleColon floatType | BooleanLiteral DoubleColon booleanType | StringLiteral DoubleColon stringType | numericLiteral DoubleColon decimalType | DateLiteral DoubleColon dateType | TimeLiteral DoubleColon timeType | TimestampLiteral DoubleColon timestampType | TimestampTzLiteral DoubleColon timestampTZType | IntervalYearLiteral DoubleColon intervalYearType | IntervalDayLiteral DoubleColon intervalDayType | IntervalCompoundLiteral DoubleColon intervalCompoundType | StringLiteral DoubleColon fixedCharType | StringLiteral DoubleColon varCharType | StringLiteral DoubleColon fixedBinaryType | TimeLiteral DoubleColon precisionTimeType | TimestampLiteral DoubleColon precisionTimestampType | TimestampTzLiteral DoubleColon precisionTimestampTZType | literalList DoubleColon listType | literalLambda DoubleColon funcType | Identifier ;
aggFuncTestCase: aggFuncCall ( OBracket funcOptions CBracket )? Eq result ;
aggFuncCall: tableData identifier OParen qualifiedAggregateFuncArgs? CParen | tableRows identifier OParen aggregateFuncArgs? CParen | identifier OParen dataColumn CParen ;
tableData: Define Identifier OParen dataType ( Comma dataType )* CParen Eq tableRows ;
tableRows: OParen ( columnValues ( Comma columnValues )* )? CParen ;
dataColumn: columnValues DoubleColon dataType ;
columnValues: OParen ( literal ( Comma literal )* )? CParen ;
literal: NullLiteral | numericLiteral | BooleanLiteral | StringLiteral | DateLiteral | TimeLiteral | TimestampLiteral | TimestampTzLiteral | IntervalYearLiteral | IntervalDayLiteral | IntervalCompoundLiteral ;
qualifiedAggregateFuncArgs: qualifiedAggregateFuncArg ( Comma qualifiedAggregateFuncArg )* ;
aggregateFuncArgs: aggregateFuncArg ( Comma aggregateFuncArg )* ;
qualifiedAggregateFuncArg: Identifier Dot ColumnName | argument ;
aggregateFuncArg: ColumnName DoubleColon dataType | argument ;
numericLiteral: DecimalLiteral | IntegerLiteral | FloatLiteral | NaN ;
literalList: OBracket ( listElement ( Comma listElement )* )? CBracket ;
listElement: literal | literalList ;
literalLambda: OParen lambdaParameters Arrow lambdaBody CParen ;
lambdaParameters: Identifier | OParen Identifier ( Comma Identifier )+ CParen ;
lambdaBody: identifier OParen arguments CParen ;
dataType: booleanType | intType | floatType | stringType | ( Binary | VBin ) QMark? | timestampType | timestampTZType | dateType | timeType | intervalYearType | UUID QMark? | UserDefined Identifier QMark? | fixedCharType | varCharType | fixedBinaryType | decimalType | intervalDayType | intervalCompoundType | precisionTimeType | precisionTimestampType | precisionTimestampTZType | listType | funcType ;
booleanType: ( Bool | Boolean ) QMark? ;
stringType: ( Str | String ) QMark? ;
intType: ( I8 | I16 | I32 | I64 ) QMark? ;
floatType: ( FP32 | FP64 ) QMark? ;
dateType: Date QMark? ;
timeType: Time QMark? ;
timestampType: ( Ts | Timestamp ) QMark? ;
timestampTZType: ( TsTZ | Timestamp_TZ ) QMark? ;
intervalYearType: ( IYear | Interval_Year ) QMark? ;
intervalDayType: ( IDay | Interval_Day ) QMark? ( OAngleBracket IntegerLiteral CAngleBracket )? ;
intervalCompoundType: ( ICompound | Interval_Compound ) QMark? ( OAngleBracket IntegerLiteral CAngleBracket )? ;
fixedCharType: ( FChar | FixedChar ) QMark? OAngleBracket IntegerLiteral CAngleBracket ;
varCharType: ( VChar | VarChar ) QMark? OAngleBracket IntegerLiteral CAngleBracket ;
fixedBinaryType: ( FBin | FixedBinary ) QMark? OAngleBracket IntegerLiteral CAngleBracket ;
decimalType: ( Dec | Decimal ) QMark? ( OAngleBracket IntegerLiteral Comma IntegerLiteral CAngleBracket )? ;
precisionTimeType: ( PT | Precision_Time ) QMark? OAngleBracket IntegerLiteral CAngleBracket ;
precisionTimestampType: ( PTs | Precision_Timestamp ) QMark? OAngleBracket IntegerLiteral CAngleBracket ;
precisionTimestampTZType: ( PTsTZ | Precision_Timestamp_TZ ) QMark? OAngleBracket IntegerLiteral CAngleBracket ;
listType: List QMark? OAngleBracket dataType CAngleBracket ;
funcType: Func QMark? OAngleBracket funcParameters Arrow dataType CAngleBracket ;
funcParameters: dataType | OParen dataType ( Comma dataType )* CParen ;
funcOption: optionName Colon optionValue ;
optionName: Overflow | Rounding | NullHandling | SpacesOnly | Identifier ;
optionValue: Error | Saturate | Silent | TieToEven | NaN | Truncate | AcceptNulls | IgnoreNulls | BooleanLiteral | NullLiteral | Identifier ;
funcOptions: funcOption ( Comma funcOption )* ;
identifier: And | Or | Truncate | Identifier ;
`

// c23e is a grammar expression: a name, a sequence, a choice or a repetition.
type c23e struct {
	op   byte // 'n' name, 's' sequence, '|' choice, '?', '*', '+'
	name string
	sub  []*c23e
}

var c23rules = func() map[string]*c23e {
	r := map[string]*c23e{}
	for _, l := range strings.Split(strings.TrimSpace(c23grammar), "\n") {
		name, body, _ := strings.Cut(l, ":")
		w := strings.Fields(strings.TrimSuffix(strings.TrimSpace(body), ";"))
		// put the suffix of a name into its own word
		var ws []string
		for _, x := range w {
			if n := len(x); n > 1 && strings.ContainsRune("?*+", rune(x[n-1])) {
				ws = append(ws, x[:n-1], x[n-1:])
			} else {
				ws = append(ws, x)
			}
		}
		i := 0
		var choice func() *c23e
		choice = func() *c23e {
			c := &c23e{op: '|'}
			s := &c23e{op: 's'}
			for i < len(ws) && ws[i] != ")" {
				switch ws[i] {
				case "|":
					c.sub = append(c.sub, s)
					s = &c23e{op: 's'}
					i++
					continue
				case "(":
					i++
					s.sub = append(s.sub, choice())
				case "?", "*", "+":
					last := s.sub[len(s.sub)-1]
					s.sub[len(s.sub)-1] = &c23e{op: ws[i][0], sub: []*c23e{last}}
				default:
					s.sub = append(s.sub, &c23e{op: 'n', name: ws[i]})
				}
				i++
			}
			c.sub = append(c.sub, s)
			return c
		}
		r[name] = choice()
	}
	return r
}()

type c23rec struct {
	toks []c23tok
	memo map[string]map[int][]int
}

// ends are the positions at which a match of e starting at p may end.
func (r *c23rec) ends(e *c23e, p int) []int {
	switch e.op {
	case 'n':
		if b, ok := c23rules[e.name]; ok {
			m := r.memo[e.name]
			if m == nil {
				m = map[int][]int{}
				r.memo[e.name] = m
			}
			if x, ok := m[p]; ok {
				return x
			}
			x := r.ends(b, p)
			m[p] = x
			return x
		}
		if p < len(r.toks) && (r.toks[p].kind == e.name || e.name == "OAngleBracket" && r.toks[p].kind == "Lt" || e.name == "CAngleBracket" && r.toks[p].kind == "Gt") {
			return []int{p + 1}
		}
		return nil
	case 's':
		cur := []int{p}
		for _, x := range e.sub {
			var nx []int
			for _, q := range cur {
				nx = c23union(nx, r.ends(x, q))
			}
			cur = nx
		}
		return cur
	case '|':
		var o []int
		for _, x := range e.sub {
			o = c23union(o, r.ends(x, p))
		}
		return o
	}
	var o, cur []int
	if e.op != '+' {
		o = []int{p}
	}
	cur = []int{p}
	for len(cur) > 0 {
		var nx []int
		for _, q := range cur {
			for _, z := range r.ends(e.sub[0], q) {
				known := false
				for _, k := range o {
					known = known || k == z
				}
				if !known {
					o = append(o, z)
					nx = append(nx, z)
				}
			}
		}
		if e.op == '?' {
			break
		}
		cur = nx
	}
	return o
}

func c23union(a, b []int) []int {
	for _, x := range b {
		dup := false
		for _, y := range a {
			dup = dup || x == y
		}
		if !dup {
			a = append(a, x)
		}
	}
	return a
}

// c23legal: the tokens form a file of the grammar.
func c23legal(toks []c23tok) bool {
	r := &c23rec{toks, map[string]map[int][]int{}}
	for _, e := range r.ends(&c23e{op: 'n', name: "doc"}, 0) {
		if e == len(toks) {
			return true
		}
	}
	return false
}

// ---- invocations

const c23otherURN = "extension:io.substrait:functions_other"

var c23reg = sync.OnceValues(func() (expr.ExtensionRegistry, functions.FunctionRegistry) {
	coll := &ext.Collection{}
	args := func(ts ...string) M {
		var l L
		for i, s := range ts {
			l = append(l, M{"name": fmt.Sprintf("x%d", i), "value": s})
		}
		return M{"args": l}
	}
	ret := func(m M, r string) M { m["return"] = r; return m }
	load := func(doc M) {
		if err := coll.Load(strings.NewReader(c15json(doc))); err != nil {
			panic(err)
		}
	}
	opt := func(m M) M {
		m["options"] = M{"overflow": M{"values": L{"SILENT", "ERROR"}}}
		return m
	}
	load(M{"urn": c23otherURN,
		"scalar_functions":    L{c15fn("f1", ret(args("string", "string"), "date")), c15fn("f9", ret(args("i8"), "i8"))},
		"aggregate_functions": L{c15fn("g1", ret(args("string"), "date")), c15fn("g9", ret(args("i8"), "i8"))}})
	load(M{"urn": "extension:io.substrait:functions_mc",
		"scalar_functions": L{
			c15fn("f1", opt(ret(args("any1", "any1"), "any1")), opt(ret(args("i8", "i8"), "i64")), ret(args("any1"), "string")),
			c15fn("f2", ret(args("any1", "any2"), "any2")),
			c15fn("d1", ret(args("decimal<10,2>"), "boolean"))},
		"aggregate_functions": L{
			c15fn("g1", opt(ret(args("any1", "any2"), "any2")), opt(ret(args("i8"), "i64")), ret(args("any1"), "any1"), ret(args("i8", "i8"), "fp64")),
			c15fn("g2", ret(args("any1", "any1"), "boolean"))}})
	return expr.NewEmptyExtensionRegistry(coll), functions.NewFunctionRegistry(coll)
})

// c23resolve is the function and output type a call resolves to: the signature
// itself if declared, else a generic one the types match, else none.
func c23resolve(agg bool, fn string, ts []*c23t) (name, out string) {
	null := ""
	bare := make([]string, len(ts))
	for i, x := range ts {
		bare[i] = x.req().den()
		if x.null {
			null = "?"
		}
	}
	typed := func(d string) string { // a type with the mirrored nullability
		if null == "" {
			return d
		}
		i := strings.IndexAny(d, "[<")
		if i < 0 {
			return d + "?"
		}
		return d[:i] + "?" + d[i:]
	}
	k := strings.Join(bare, ",")
	eq := len(bare) == 2 && bare[0] == bare[1]
	switch {
	case !agg && fn == "f1" && k == "i8,i8":
		return "f1:i8_i8", typed("i64")
	case !agg && fn == "f1" && eq:
		return "f1:any_any", typed(bare[0])
	case !agg && fn == "f1" && len(bare) == 1:
		return "f1:any", typed("string")
	case !agg && fn == "f2" && len(bare) == 2:
		return "f2:any_any", typed(bare[1])
	case !agg && fn == "d1" && k == "decimal[10 2]":
		return "d1:dec", typed("boolean")
	case agg && fn == "g1" && k == "i8":
		return "g1:i8", typed("i64")
	case agg && fn == "g1" && k == "i8,i8":
		return "g1:i8_i8", typed("fp64")
	case agg && fn == "g1" && len(bare) == 1:
		return "g1:any", typed(bare[0])
	case agg && fn == "g1" && len(bare) == 2:
		return "g1:any_any", typed(bare[1])
	case agg && fn == "g2" && eq:
		return "g2:any_any", typed("boolean")
	}
	return "", ""
}

var c23invOpts = [][]c23opt{nil, {{"overflow", "ERROR"}}, {{"overflow", "SILENT"}, {"rounding", "FLOOR"}}}

// c23invoked compares an invocation with what the call states.
func c23invoked(t *T, what, wantName, wantOut string, err error, id ext.FunctionID, out types.Type, opts []*types.FunctionOption, want []c23opt, args []string, wantArgs []string) {
	switch {
	case err != nil && wantName != "":
		t.Failf("%s: no invocation: %v", what, err)
	case err != nil:
		t.Outcome("no match")
	case wantName == "":
		t.Failf("%s: invocation of %v for arguments no function takes", what, id)
	default:
		t.Outcome(wantName + " " + wantOut)
		if id.Name != wantName || id.URN != "extension:io.substrait:functions_mc" {
			t.Failf("%s: invocation of %v, want %s", what, id, wantName)
		}
		if g := c23typeDen(out); g != wantOut {
			t.Failf("%s: output type %s, want %s", what, g, wantOut)
		}
		var g, w []string
		for _, o := range opts {
			g = append(g, fmt.Sprintf("%s:%q", o.Name, o.Preference))
		}
		for _, o := range want {
			w = append(w, fmt.Sprintf("%s:%q", o.k, []string{o.v}))
		}
		sort.Strings(g)
		sort.Strings(w)
		if fmt.Sprint(g) != fmt.Sprint(w) {
			t.Failf("%s: options %v, want %v", what, g, w)
		}
		if fmt.Sprint(args) != fmt.Sprint(wantArgs) {
			t.Failf("%s: arguments %v, want %v", what, args, wantArgs)
		}
		t.Validated()
	}
}

func c23invVals() []*c23v {
	i8, i16, str := c23mk("i8", nil), c23mk("i16", nil), c23mk("string", nil)
	dec := func(p, s int) *c23t { return c23mk("decimal", []int{p, s}) }
	return []*c23v{{text: "5", t: i8}, {text: "-7", t: i8.opt()}, {text: "null", t: i8.opt()}, {text: "300", t: i16}, {text: "301", t: i16.opt()}, {text: "'s'", t: str}, {text: "'s'", t: str.opt()},
		{text: "1.25", t: dec(10, 2)}, {text: "1.25", t: dec(12, 2)}, {text: "'ab'", t: c23mk("varchar", []int{5})}, {text: "'ab'", t: c23mk("varchar", []int{6})},
		{t: c23listOf(i8), elems: []*c23v{{text: "1", t: i8}, {text: "2", t: i8}}}, {t: c23listOf(i16), elems: []*c23v{{text: "1", t: i16}}}}
}

func c23invoke(c *Ctx) {
	res := &c23v{text: "true", t: &c23t{kind: "boolean", spl: "bool"}}
	vals := c23invVals()
	maxN := 2
	if c.Thorough {
		maxN = 3
	}
	for _, fn := range []string{"f1", "f2", "f9", "d1", "nope"} {
		for n := 1; n <= maxN; n++ {
			c23seqs(len(vals), n, func(ix []int) {
				ix = append([]int{}, ix...)
				for _, opts := range c23invOpts {
					x := &c23case{fn: fn, opts: opts, resv: res}
					var ts []*c23t
					for _, i := range ix {
						x.args = append(x.args, vals[i])
						ts = append(ts, vals[i].t)
					}
					c.Case(func(t *T) {
						f, err := c23parse(t, c23head(false)+"# g\n"+x.String()+"\n")
						if err != nil {
							t.Failf("%s: %v", x, err)
							return
						}
						tc := f.TestCases[0]
						reg0, freg := c23reg()
						reg := reg0
						t.State(x.String())
						name, out := c23resolve(false, fn, ts)
						var inv *expr.ScalarFunction
						t.Trans(1)
						if p := catch(func() { inv, err = tc.GetScalarFunctionInvocation(&reg, freg) }); p != "" {
							t.Failf("%s: %s", x, p)
							return
						}
						if _, e := tc.GetAggregateFunctionInvocation(&reg, freg); e == nil {
							t.Failf("%s: aggregate invocation", x)
						}
						if err != nil {
							c23invoked(t, x.String(), name, out, err, ext.FunctionID{}, nil, nil, nil, nil, nil)
							return
						}
						var g, w []string
						for i := 0; i < inv.NArgs(); i++ {
							if l, ok := inv.Arg(i).(expr.Literal); ok {
								g = append(g, c23litDen(l.ToProtoLiteral()))
							} else {
								g = append(g, fmt.Sprintf("%T", inv.Arg(i)))
							}
						}
						for _, v := range x.args {
							d, _ := v.want()
							w = append(w, d)
						}
						c23invoked(t, x.String(), name, out, nil, inv.ID(), inv.GetType(), inv.GetOptions(), opts, g, w)
					}, "invoke", x.String())
				}
			})
		}
	}
	// aggregates: columns in any order, some unused, and scalars
	i8, i16, str := c23mk("i8", nil), c23mk("i16", nil), c23mk("string", nil)
	cols := []c23col{{i8, []string{"1"}}, {i16, []string{"300"}}, {str, []string{"'s'"}}, {i8.opt(), []string{"null"}}, {c23mk("decimal", []int{10, 2}), []string{"1.25"}}, {c23mk("varchar", []int{6}), []string{"'ab'"}}}
	scalars := []*c23v{vals[0], vals[4], vals[5]}
	width := 2
	if c.Thorough {
		width = 3
	}
	for _, fn := range []string{"g1", "g2", "g9"} {
		for w := 1; w <= width; w++ {
			c23seqs(len(cols), w, func(cx []int) {
				cx = append([]int{}, cx...)
				for n := 1; n <= 2; n++ {
					c23seqs(w+len(scalars), n, func(ax []int) {
						for form := 1; form <= 2; form++ {
							x := &c23agg{fn: fn, form: form, rows: 1, resv: res, opts: c23invOpts[len(ax)%2]}
							if form == 2 {
								x.table = "t1"
							}
							for _, i := range cx {
								x.cols = append(x.cols, cols[i])
							}
							for _, i := range ax {
								if i < w {
									x.args = append(x.args, c23aggArg{col: i})
								} else {
									x.args = append(x.args, c23aggArg{col: -1, scalar: scalars[i-w]})
								}
							}
							c.Case(func(t *T) { c23invokeAgg(t, x) }, "invoke", x.String())
						}
					})
				}
			})
		}
		for _, col := range cols {
			x := &c23agg{fn: fn, form: 0, cols: []c23col{col}, resv: res}
			c.Case(func(t *T) { c23invokeAgg(t, x) }, "invoke", x.String())
		}
	}
}

func c23invokeAgg(t *T, x *c23agg) {
	f, err := c23parse(t, c23head(true)+"# g\n"+x.String()+"\n")
	if err != nil {
		t.Failf("%s: %v", x, err)
		return
	}
	tc := f.TestCases[0]
	reg, freg := c23reg()
	t.State(x.String())
	var ts []*c23t
	var want []string
	ref := func(i int, ty *c23t) {
		ts = append(ts, ty)
		want = append(want, fmt.Sprintf("column %d %s", i, ty.den()))
	}
	if x.form == 0 {
		ref(0, x.cols[0].t)
	}
	for _, a := range x.args {
		if a.scalar != nil {
			d, _ := a.scalar.want()
			ts, want = append(ts, a.scalar.t), append(want, d)
		} else {
			ref(a.col, x.cols[a.col].t)
		}
	}
	name, out := c23resolve(true, x.fn, ts)
	var inv *expr.AggregateFunction
	t.Trans(1)
	if p := catch(func() { inv, err = tc.GetAggregateFunctionInvocation(&reg, freg) }); p != "" {
		t.Failf("%s: %s", x, p)
		return
	}
	if _, e := tc.GetScalarFunctionInvocation(&reg, freg); e == nil {
		t.Failf("%s: scalar invocation", x)
	}
	if err != nil {
		c23invoked(t, x.String(), name, out, err, ext.FunctionID{}, nil, nil, nil, nil, nil)
		return
	}
	var got []string
	for i := 0; i < inv.NArgs(); i++ {
		switch a := inv.Arg(i).(type) {
		case expr.Literal:
			got = append(got, c23litDen(a.ToProtoLiteral()))
		case *expr.FieldReference:
			s := a.ToProto().GetSelection()
			d := s.GetDirectReference().GetStructField()
			if s.GetRootReference() == nil || d == nil || d.Child != nil {
				t.Failf("%s: argument %d is %v", x, i, s)
				continue
			}
			got = append(got, fmt.Sprintf("column %d %s", d.Field, c23typeDen(a.GetType())))
		default:
			got = append(got, fmt.Sprintf("%T", a))
		}
	}
	if inv.Phase() != types.AggPhaseInitialToResult || inv.Invocation() != types.AggInvocationAll {
		t.Failf("%s: phase %v invocation %v", x, inv.Phase(), inv.Invocation())
	}
	c23invoked(t, x.String(), name, out, nil, inv.ID(), inv.GetType(), inv.GetOptions(), x.opts, got, want)
}

// c23seqs enumerates the sequences of n numbers below k.
func c23seqs(k, n int, f func([]int)) {
	ix := make([]int, n)
	var rec func(int)
	rec = func(i int) {
		if i == n {
			f(ix)
			return
		}
		for ix[i] = 0; ix[i] < k; ix[i]++ {
			rec(i + 1)
		}
	}
	rec(0)
}
