// C19: temporal literals denote the given instant or interval. All arithmetic of
// the oracle is on big integers and a proleptic Gregorian day count.
package main

import (
	"fmt"
	"math"
	"math/big"
	"regexp"
	"strconv"
	"strings"
	"time"

	"github.com/substrait-io/substrait-go/v8/expr"
	"github.com/substrait-io/substrait-go/v8/literal"
	"github.com/substrait-io/substrait-go/v8/types"
	pb "github.com/substrait-io/substrait-protobuf/go/substraitpb"
)

func init() {
	checks["C19"] = &Check{Run: runC19, Quick: 200, Thorough: 800,
		Bounds: "day intervals with sub-seconds of up to 2^63 at every precision; durations at the int64 limits; instants: 50 boundary seconds x 19 nanosecond values x precisions 0-9; unit values: int64 boundary table x precision pairs; texts: field boundary tables x fraction lengths x offsets; all strings P+{PT019YMDHS.-}* up to length 6 (7 thorough) for both interval forms",
		Assume: []string{
			"text with more digits than the precision holds is truncated (pinned by the repository's tests)",
			"the time of day of a zoned text given for an unzoned time literal is not judged",
			"spellings that are a lenient form of ISO 8601 (one digit hours, decimal comma, explicit plus sign, no digit before the decimal point) may be accepted, with the right value, or rejected"}}
}

var bigE9 = big.NewInt(1e9)

func floorDiv(a, b *big.Int) *big.Int {
	q, m := new(big.Int), new(big.Int)
	q.DivMod(a, b, m)
	return q
}

// nanosOf = sec*1e9+ns
func nanosOf(sec, ns int64) *big.Int {
	n := new(big.Int).Mul(big.NewInt(sec), bigE9)
	return n.Add(n, big.NewInt(ns))
}

// unitsAt floors nanoseconds to units of precision p.
func unitsAt(n *big.Int, p int) *big.Int { return floorDiv(n, pow10(9-p)) }

// civilDays is the day number of a proleptic Gregorian date (1970-01-01 = 0).
func civilDays(y, m, d int64) int64 {
	if m <= 2 {
		y--
	}
	era := y
	if y < 0 {
		era = y - 399
	}
	era /= 400
	yoe := y - era*400
	mp := (m + 9) % 12
	doy := (153*mp+2)/5 + d - 1
	doe := yoe*365 + yoe/4 - yoe/100 + doy
	return era*146097 + doe - 719468
}

func daysIn(y, m int64) int64 {
	switch m {
	case 4, 6, 9, 11:
		return 30
	case 2:
		if y%4 == 0 && (y%100 != 0 || y%400 == 0) {
			return 29
		}
		return 28
	}
	return 31
}

var tsText = regexp.MustCompile(`^(-?\d{4,})-(\d\d)-(\d\d)[ T](\d\d):(\d\d):(\d\d)(?:\.(\d+))?(Z|[+-]\d\d:\d\d)?$`)
var todText = regexp.MustCompile(`^(\d\d):(\d\d):(\d\d)(?:\.(\d+))?$`)

// readTs reads a printed or given timestamp as exact nanoseconds since the epoch
// (fraction digits beyond 9 dropped); ok only if every field is in range.
func readTs(s string) (n *big.Int, ok bool) {
	m := tsText.FindStringSubmatch(s)
	if m == nil {
		return nil, false
	}
	a := func(i int) int64 { v, _ := strconv.ParseInt(m[i], 10, 64); return v }
	y, mo, d, h, mi, se := a(1), a(2), a(3), a(4), a(5), a(6)
	if mo < 1 || mo > 12 || d < 1 || d > daysIn(y, mo) || h > 23 || mi > 59 || se > 59 {
		return nil, false
	}
	sec := civilDays(y, mo, d)*86400 + h*3600 + mi*60 + se
	if z := m[8]; z != "" && z != "Z" {
		oh, _ := strconv.ParseInt(z[1:3], 10, 64)
		om, _ := strconv.ParseInt(z[4:6], 10, 64)
		if oh > 23 || om > 59 {
			return nil, false
		}
		o := oh*3600 + om*60
		if z[0] == '-' {
			o = -o
		}
		sec -= o
	}
	fr, _ := strconv.ParseInt((m[7] + "000000000")[:9], 10, 64)
	return nanosOf(sec, fr), true
}

func readTod(s string) (n *big.Int, ok bool) {
	m := todText.FindStringSubmatch(s)
	if m == nil {
		return nil, false
	}
	a := func(i int) int64 { v, _ := strconv.ParseInt(m[i], 10, 64); return v }
	h, mi, se := a(1), a(2), a(3)
	if h > 23 || mi > 59 || se > 59 {
		return nil, false
	}
	fr, _ := strconv.ParseInt((m[4] + "000000000")[:9], 10, 64)
	return nanosOf(h*3600+mi*60+se, fr), true
}

// temporal reads kind, precision and value out of a literal's protobuf form.
func temporal(l expr.Literal) (kind string, prec int, v *big.Int) {
	p := l.ToProtoLiteral()
	switch x := p.LiteralType.(type) {
	case *pb.Expression_Literal_Date:
		return "date", -1, big.NewInt(int64(x.Date))
	case *pb.Expression_Literal_Time:
		return "time", 6, big.NewInt(x.Time)
	case *pb.Expression_Literal_Timestamp:
		return "ts", 6, big.NewInt(x.Timestamp)
	case *pb.Expression_Literal_TimestampTz:
		return "tstz", 6, big.NewInt(x.TimestampTz)
	case *pb.Expression_Literal_PrecisionTime_:
		return "ptime", int(x.PrecisionTime.Precision), big.NewInt(x.PrecisionTime.Value)
	case *pb.Expression_Literal_PrecisionTimestamp_:
		return "pts", int(x.PrecisionTimestamp.Precision), big.NewInt(x.PrecisionTimestamp.Value)
	case *pb.Expression_Literal_PrecisionTimestampTz:
		return "ptstz", int(x.PrecisionTimestampTz.Precision), big.NewInt(x.PrecisionTimestampTz.Value)
	}
	return fmt.Sprintf("%T", p.LiteralType), 0, big.NewInt(0)
}

// expectUnits: l,err must be `kind` at precision p holding want (or an error if
// want does not fit in 64 bits).
func expectUnits(t *T, what string, l expr.Literal, err error, kind string, p int, want *big.Int) bool {
	fits := want.IsInt64()
	if kind == "date" {
		fits = fits && want.Int64() >= math.MinInt32 && want.Int64() <= math.MaxInt32
	}
	if !fits {
		if err == nil {
			t.Failf("%s: %s does not fit but was accepted as %v", what, want, l)
		}
		return false
	}
	if err != nil {
		t.Failf("%s: rejected: %v (want %s)", what, err, want)
		return false
	}
	k, pr, v := temporal(l)
	if k != kind || (p >= 0 && pr != p) || v.Cmp(want) != 0 {
		t.Failf("%s: got %s<%d> %s, want %s<%d> %s", what, k, pr, v, kind, p, want)
		return false
	}
	t.StateBytes([]byte(k + v.String() + "/" + strconv.Itoa(pr)))
	return true
}

// checkText: the printed forms denote the literal's own value.
func checkText(t *T, l expr.Literal) {
	k, p, v := temporal(l)
	if k == "date" {
		m := regexp.MustCompile(`^(-?\d{3,})-(\d\d)-(\d\d)$`).FindStringSubmatch(l.ValueString())
		if m == nil {
			t.Failf("date %s prints as %q", v, l.ValueString())
			return
		}
		a := func(i int) int64 { v, _ := strconv.ParseInt(m[i], 10, 64); return v }
		if civilDays(a(1), a(2), a(3)) != v.Int64() {
			t.Failf("date %s prints as %q", v, l.ValueString())
		}
		return
	}
	exact := new(big.Int).Mul(v, pow10(9-p))
	one := func(form, s string) {
		var n *big.Int
		var ok bool
		if k == "time" || k == "ptime" {
			n, ok = readTod(s)
		} else {
			n, ok = readTs(s)
		}
		if ok && n.Cmp(exact) == 0 {
			return
		}
		if form == "iso" && k == "ptstz" && ok && n.Cmp(new(big.Int).Mul(floorDiv(exact, big.NewInt(1e6)), big.NewInt(1e6))) == 0 {
			t.FailKey("iso-tz-below-ms", "%s<%d> %s prints ISO text %q which drops the digits below milliseconds", k, p, v, s)
			return
		}
		t.Failf("%s<%d> value %s: %s text %q does not denote it", k, p, v, form, s)
	}
	one("value", l.ValueString())
	if i, ok := l.(types.IsoValuePrinter); ok {
		one("iso", i.IsoValueString())
	}
}

func runC19(c *Ctx) {
	secs := []int64{0, 1, 59, 60, 3599, 3600, 86399, 86400, 86401, 951782400, 951868799, 1451747045, 4102444800, 253402300799,
		2147483647, 2147483648, 4294967296, 9223372036, 9223372037, 92233720368, 922337203685, 9223372036854, 9223372036855,
		-1, -59, -60, -61, -3600, -86399, -86400, -86401, -2147483648, -2208988800, -62135596800, -62167219200, -9223372036, -9223372037, -9223372038,
		-92233720368, -92233720369, -9223372036855, 1 << 40, -(1 << 40), 11644473600, -11644473600, 31536000, -31536000, 68169600, 1000000000, -1000000000}
	nss := []int64{0, 1, 9, 10, 99, 100, 999, 1000, 9999, 10000, 99999, 100000, 999999, 1000000, 123456789, 500000000, 900000000, 999000000, 999999999}
	zones := []*time.Location{time.UTC, time.FixedZone("a", 19800), time.FixedZone("b", -3600*11)}
	for _, sec := range secs {
		for _, ns := range nss {
			c.Case(func(t *T) {
				n := nanosOf(sec, ns)
				for zi, z := range zones {
					tm := time.Unix(sec, ns).In(z)
					for p := 0; p <= 9; p++ {
						P := types.TimePrecision(p)
						want := unitsAt(n, p)
						t.Trans(1)
						if want.IsInt64() {
							if g := types.GetTimeValueByPrecision(tm, P); g != want.Int64() {
								t.Failf("GetTimeValueByPrecision(%v, %d) = %d, want %s", tm, p, g, want)
							}
							if g := types.Timestamp(want.Int64()).ToPrecisionTime(P); nanosOf(g.Unix(), int64(g.Nanosecond())).Cmp(new(big.Int).Mul(want, pow10(9-p))) != 0 {
								t.Failf("ToPrecisionTime(%s,%d) = %v", want, p, g)
							}
						}
						l, err := literal.NewPrecisionTimestampFromTime(P, tm, zi == 1)
						if expectUnits(t, "NewPrecisionTimestampFromTime", l, err, "pts", p, want) {
							checkText(t, l)
						}
						l, err = literal.NewPrecisionTimestampTzFromTime(P, tm, zi == 1)
						if expectUnits(t, "NewPrecisionTimestampTzFromTime", l, err, "ptstz", p, want) {
							checkText(t, l)
						}
						if zi == 0 {
							tod := new(big.Int).Mod(n, big.NewInt(86400e9))
							l, err = literal.NewPrecisionTimeFromTime(P, tm, false)
							if expectUnits(t, "NewPrecisionTimeFromTime", l, err, "ptime", p, unitsAt(tod, p)) {
								checkText(t, l)
							}
						}
					}
					l, err := literal.NewTimestamp(tm, false)
					if expectUnits(t, "NewTimestamp", l, err, "ts", 6, unitsAt(n, 6)) {
						checkText(t, l)
					}
					l, err = literal.NewTimestampTZ(tm, false)
					if expectUnits(t, "NewTimestampTZ", l, err, "tstz", 6, unitsAt(n, 6)) {
						checkText(t, l)
					}
				}
			}, "instant", sec, ns)
		}
	}
	// Unit values: every precision pair.
	var vals []int64
	for _, b := range []int64{0, 1, 9, 10, 11, 99, 100, 101, 999, 1000, 1001, 999999, 1000000, 1000001, 999999999, 1000000000, 1000000001, 86399999999, 86400000000, 123456789012345, 253402300799999999, math.MaxInt64 / 10, math.MaxInt64/10 + 1, math.MaxInt64 / 1000, math.MaxInt64/1000 + 1, math.MaxInt64 / 1000000000, math.MaxInt64/1000000000 + 1, math.MaxInt64} {
		vals = append(vals, b)
		if b != 0 {
			vals = append(vals, -b)
		}
	}
	vals = append(vals, math.MinInt64)
	for _, v := range vals {
		for p := 0; p <= 9; p++ {
			c.Case(func(t *T) {
				P := types.TimePrecision(p)
				exact := new(big.Int).Mul(big.NewInt(v), pow10(9-p))
				// time.Time itself holds years within +-292e9; the text form is
				// judged for years up to 7 digits.
				printable := new(big.Int).Abs(exact).Cmp(new(big.Int).Mul(big.NewInt(3e14), bigE9)) < 0
				mk := map[string]func() (expr.Literal, error){
					"pts":   func() (expr.Literal, error) { return literal.NewPrecisionTimestamp(P, v, false) },
					"ptstz": func() (expr.Literal, error) { return literal.NewPrecisionTimestampTz(P, v, true) },
					"ptime": func() (expr.Literal, error) { return literal.NewPrecisionTime(P, v, false) },
				}
				for _, k := range []string{"pts", "ptstz", "ptime"} {
					inDay := exact.Sign() >= 0 && exact.Cmp(big.NewInt(86400e9)) < 0
					if k == "ptime" && !inDay {
						continue
					}
					l, err := mk[k]()
					if !expectUnits(t, k, l, err, k, p, big.NewInt(v)) {
						continue
					}
					if printable {
						checkText(t, l)
					}
					for q := 0; q <= 9; q++ {
						var nt types.Type
						switch k {
						case "pts":
							nt = &types.PrecisionTimestampType{Precision: types.TimePrecision(q), Nullability: types.NullabilityNullable}
						case "ptstz":
							nt = &types.PrecisionTimestampTzType{PrecisionTimestampType: types.PrecisionTimestampType{Precision: types.TimePrecision(q), Nullability: types.NullabilityNullable}}
						case "ptime":
							nt = &types.PrecisionTimeType{Precision: types.TimePrecision(q), Nullability: types.NullabilityNullable}
						}
						t.Trans(1)
						l2, err := l.(*expr.ProtoLiteral).WithType(nt)
						if expectUnits(t, fmt.Sprintf("WithType %d->%d", p, q), l2, err, k, q, unitsAt(exact, q)) {
							if !l2.GetType().Equals(nt) {
								t.Failf("WithType gives type %v, want %v", l2.GetType(), nt)
							}
						}
						if _, _, v2 := temporal(l); v2.Int64() != v {
							t.Failf("WithType changed the original")
						}
					}
				}
				if p == 6 && printable {
					for _, l := range []expr.Literal{expr.NewPrimitiveLiteral(types.Timestamp(v), false), expr.NewPrimitiveLiteral(types.TimestampTz(v), false)} {
						checkText(t, l)
					}
					l, err := literal.NewTimeFromMicros(v, false)
					if in := v >= 0 && v < 86400e6; in != (err == nil) {
						t.Failf("NewTimeFromMicros(%d): err=%v", v, err)
					} else if in && expectUnits(t, "NewTimeFromMicros", l, err, "time", 6, big.NewInt(v)) {
						checkText(t, l)
					}
					for name, f := range map[string]func(int64, bool) (expr.Literal, error){"ts": literal.NewTimestampFromMicros, "tstz": literal.NewTimestampTZFromMicros} {
						l, err := f(v, true)
						expectUnits(t, "FromMicros", l, err, name, 6, big.NewInt(v))
					}
				}
				if p == 0 {
					l, err := literal.NewDate(int(v), false)
					if expectUnits(t, "NewDate", l, err, "date", -1, big.NewInt(v)) && v > -1e6 && v < 4e6 {
						checkText(t, l)
					}
				}
			}, "units", v, p)
		}
	}
	for p := -2; p <= 11; p++ {
		if p >= 0 && p <= 9 {
			continue
		}
		c.Case(func(t *T) {
			P := types.TimePrecision(p)
			for i, f := range []func() (expr.Literal, error){
				func() (expr.Literal, error) { return literal.NewPrecisionTimestamp(P, 1, false) },
				func() (expr.Literal, error) { return literal.NewPrecisionTimestampTz(P, 1, false) },
				func() (expr.Literal, error) { return literal.NewPrecisionTime(P, 1, false) },
				func() (expr.Literal, error) { return literal.NewPrecisionTimestampFromTime(P, time.Unix(1, 1), false) },
				func() (expr.Literal, error) {
					return literal.NewPrecisionTimestampTzFromTime(P, time.Unix(1, 1), false)
				},
				func() (expr.Literal, error) { return literal.NewPrecisionTimeFromTime(P, time.Unix(1, 1), false) },
				func() (expr.Literal, error) {
					return literal.NewPrecisionTimestampFromString(P, "2020-01-01T00:00:00Z", false)
				},
				func() (expr.Literal, error) {
					return literal.NewPrecisionTimestampTzFromString(P, "2020-01-01T00:00:00Z", false)
				},
				func() (expr.Literal, error) { return literal.NewPrecisionTimeFromString(P, "00:00:01", false) },
			} {
				t.Trans(1)
				if l, err := f(); err == nil {
					t.Failf("constructor %d accepts precision %d: %T", i, p, l)
				}
			}
		}, "bad-precision", p)
	}
	c19dates(c)
	c19texts(c)
	c19intervals(c)
}

func c19dates(c *Ctx) {
	days := func(f func(d int64)) {
		for _, base := range []int64{0, -719162, 2932896, 11016, -25567, 59, 24837, 47541} {
			for d := base - 400; d <= base+400; d++ {
				f(d)
			}
		}
		if c.Thorough {
			for d := int64(-719162); d <= 2932896; d++ {
				f(d)
			}
		}
	}
	var batch []int64
	flush := func() {
		b := batch
		batch = nil
		if len(b) == 0 {
			return
		}
		c.Case(func(t *T) {
			for _, d := range b {
				t.Trans(1)
				l, err := literal.NewDate(int(d), d%2 == 0)
				if !expectUnits(t, "NewDate", l, err, "date", -1, big.NewInt(d)) {
					continue
				}
				checkText(t, l)
				if d >= -719162 && d <= 2932896 {
					l2, err := literal.NewDateFromString(l.ValueString(), false)
					expectUnits(t, "NewDateFromString "+l.ValueString(), l2, err, "date", -1, big.NewInt(d))
				}
			}
		}, "dates", b[0])
	}
	days(func(d int64) {
		batch = append(batch, d)
		if len(batch) == 200 {
			flush()
		}
	})
	flush()
	for _, y := range []int64{0, 1, 4, 100, 400, 1582, 1600, 1899, 1900, 1969, 1970, 1999, 2000, 2004, 2023, 2024, 2100, 9999} {
		for m := int64(0); m <= 13; m++ {
			c.Case(func(t *T) {
				for d := int64(0); d <= 32; d++ {
					s := fmt.Sprintf("%04d-%02d-%02d", y, m, d)
					t.Trans(1)
					l, err := literal.NewDateFromString(s, false)
					if m < 1 || m > 12 || d < 1 || d > daysIn(y, m) {
						if err == nil {
							t.Failf("NewDateFromString(%q) accepted as %s", s, l.ValueString())
						}
						continue
					}
					expectUnits(t, s, l, err, "date", -1, big.NewInt(civilDays(y, m, d)))
				}
			}, "date-text", y, m)
		}
	}
	// Corruptions of valid texts.
	for _, base := range []string{"2024-02-29", "1969-12-31"} {
		for _, bad := range editsOf(base, "0-T: Zx") {
			c.Case(func(t *T) {
				l, err := literal.NewDateFromString(bad, false)
				if m := tsText.FindStringSubmatch(bad + "T00:00:00"); m != nil && m[1][0] != '-' && len(m[1]) == 4 {
					n, ok := readTs(bad + "T00:00:00")
					if ok {
						expectUnits(t, bad, l, err, "date", -1, floorDiv(n, big.NewInt(86400e9)))
						return
					}
				}
				if err == nil {
					t.Failf("NewDateFromString(%q) accepted as %s", bad, l.ValueString())
				}
			}, "date-bad", bad)
		}
	}
}

// editsOf gives every single deletion, insertion and substitution of s over the alphabet.
func editsOf(s, alphabet string) []string {
	seen := map[string]bool{s: true}
	var out []string
	add := func(x string) {
		if !seen[x] {
			seen[x] = true
			out = append(out, x)
		}
	}
	for i := 0; i <= len(s); i++ {
		if i < len(s) {
			add(s[:i] + s[i+1:])
		}
		for _, r := range alphabet {
			add(s[:i] + string(r) + s[i:])
			if i < len(s) {
				add(s[:i] + string(r) + s[i+1:])
			}
		}
	}
	return out
}

func c19texts(c *Ctx) {
	lenient := regexp.MustCompile(`^[ 0-9TZ:+.,-]*$`)
	judge := func(t *T, s string) {
		n, ok := readTs(s)
		hasZone := ok && tsText.FindStringSubmatch(s)[8] != ""
		strict := ok && strings.Contains(s, "T") && !strings.HasPrefix(s, "-") && len(tsText.FindStringSubmatch(s)[1]) == 4
		tod, okTod := readTod(s)
		_ = lenient
		type form struct {
			name, kind string
			p          int
			f          func() (expr.Literal, error)
		}
		forms := []form{
			{"NewTimestampFromString", "ts", 6, func() (expr.Literal, error) { return literal.NewTimestampFromString(s, false) }},
			{"NewTimestampTZFromString", "tstz", 6, func() (expr.Literal, error) { return literal.NewTimestampTZFromString(s, true) }},
		}
		for p := 0; p <= 9; p++ {
			P := types.TimePrecision(p)
			forms = append(forms,
				form{"NewPrecisionTimestampFromString", "pts", p, func() (expr.Literal, error) { return literal.NewPrecisionTimestampFromString(P, s, false) }},
				form{"NewPrecisionTimestampTzFromString", "ptstz", p, func() (expr.Literal, error) {
					return literal.NewPrecisionTimestampTzFromString(P, s, false)
				}})
		}
		for _, f := range forms {
			t.Trans(1)
			l, err := f.f()
			switch {
			case strict:
				expectUnits(t, f.name+" "+s, l, err, f.kind, f.p, unitsAt(n, f.p))
			case okTod: // time of day given for a timestamp: not judged
			case err == nil && !c19lenient(s):
				t.Failf("%s(%q) accepted as %s", f.name, s, l.ValueString())
			}
		}
		forms = []form{{"NewTimeFromString", "time", 6, func() (expr.Literal, error) { return literal.NewTimeFromString(s, false) }}}
		for p := 0; p <= 9; p++ {
			forms = append(forms, form{"NewPrecisionTimeFromString", "ptime", p, func() (expr.Literal, error) {
				return literal.NewPrecisionTimeFromString(types.TimePrecision(p), s, false)
			}})
		}
		for _, f := range forms {
			t.Trans(1)
			l, err := f.f()
			switch {
			case okTod:
				expectUnits(t, f.name+" "+s, l, err, f.kind, f.p, unitsAt(tod, f.p))
			case strict && (!hasZone || strings.HasSuffix(s, "Z")):
				expectUnits(t, f.name+" "+s, l, err, f.kind, f.p, unitsAt(new(big.Int).Mod(n, big.NewInt(86400e9)), f.p))
			case strict: // zoned
			case err == nil && !c19lenient(s):
				t.Failf("%s(%q) accepted as %s", f.name, s, l.ValueString())
			}
		}
	}
	dates := []string{"1970-01-01", "1969-12-31", "2000-02-29", "1900-02-28", "0001-01-01", "9999-12-31", "2016-01-02", "1677-09-21", "2262-04-11", "2262-04-12", "2023-02-29", "2024-13-01", "2024-00-10", "2024-04-31", "2024-01-00"}
	times := []string{"00:00:00", "00:00:01", "23:59:59", "12:34:56", "24:00:00", "23:60:00", "23:59:60", "07:08:09"}
	fracs := []string{"", ".0", ".5", ".25", ".999", ".0001", ".123456", ".9999999", ".00000001", ".999999999", ".123456789", ".1234567899"}
	offs := []string{"", "Z", "+00:00", "+05:30", "-11:00", "+15:30", "-00:01", "+23:59", "+05:60"}
	for _, tm := range times {
		for _, fr := range fracs {
			c.Case(func(t *T) { judge(t, tm+fr) }, "text", tm+fr)
			for _, d := range dates {
				for _, o := range offs {
					s := d + "T" + tm + fr + o
					c.Case(func(t *T) { judge(t, s) }, "text", s)
				}
			}
		}
	}
	bases := []string{"2016-01-02T15:04:05.25Z", "1969-12-31T23:59:59.999", "2016-01-02T15:04:05+05:30", "01:02:03.456", "23:59:59"}
	for _, b := range bases {
		for _, s := range editsOf(b, "0193-:.TZ+ x") {
			c.Case(func(t *T) { judge(t, s) }, "text-edit", s)
		}
	}
	for _, s := range []string{"", "T", "Z", "now", "2016", "2016-01-02", "2016-01-02T", "15:04", "15", "-1:02:03", "2016-01-02 15:04:05"} {
		c.Case(func(t *T) { judge(t, s) }, "text-odd", s)
	}
}

// c19lenient: a looser reading of the same fields that is tolerated if accepted.
func c19lenient(s string) bool {
	return regexp.MustCompile(`^(\d{4}-\d{2}-\d{2}T)?([01]?\d|2[0-3]):[0-5]\d:[0-5]\d([.,]\d*)?(Z|[+-]\d\d:\d\d)?$`).MatchString(s)
}

var isoYM = regexp.MustCompile(`^P(?:([+-]?\d+)Y)?(?:([+-]?\d+)M)?$`)
var isoDS = regexp.MustCompile(`^P(?:([+-]?\d+)D)?(?:(T)(?:([+-]?\d+)H)?(?:([+-]?\d+)M)?(?:([+-]?\d*)(?:\.(\d+))?S)?)?$`)

// readYM: class 0 malformed, 1 strict, 2 lenient.
func readYM(s string) (class int, y, m *big.Int) {
	g := isoYM.FindStringSubmatch(s)
	if g == nil || g[1]+g[2] == "" {
		return 0, nil, nil
	}
	y, m = new(big.Int), new(big.Int)
	y.SetString("0"+strings.TrimLeft(g[1], "+-"), 10)
	m.SetString("0"+strings.TrimLeft(g[2], "+-"), 10)
	if strings.HasPrefix(g[1], "-") {
		y.Neg(y)
	}
	if strings.HasPrefix(g[2], "-") {
		m.Neg(m)
	}
	if strings.ContainsAny(s, "+-") {
		return 2, y, m
	}
	return 1, y, m
}

func readDS(s string) (class int, days, nanos *big.Int, fracDigits string) {
	g := isoDS.FindStringSubmatch(s)
	if g == nil || strings.HasSuffix(s, "T") || s == "P" {
		return
	}
	num := func(x string) *big.Int {
		n, _ := new(big.Int).SetString("0"+strings.TrimLeft(x, "+-"), 10)
		if strings.HasPrefix(x, "-") {
			n.Neg(n)
		}
		return n
	}
	if strings.HasSuffix(s, "S") && strings.TrimLeft(g[5], "+-")+g[6] == "" {
		return 0, nil, nil, ""
	}
	days = num(g[1])
	nanos = num(g[3])
	nanos.Mul(nanos, big.NewInt(60)).Add(nanos, num(g[4])).Mul(nanos, big.NewInt(60)).Add(nanos, num(g[5])).Mul(nanos, bigE9)
	fr, _ := new(big.Int).SetString((g[6] + "000000000")[:9], 10)
	if strings.HasPrefix(g[5], "-") {
		fr.Neg(fr)
	}
	nanos.Add(nanos, fr)
	class = 1
	if strings.ContainsAny(s, "+-") || (strings.HasSuffix(s, "S") && strings.TrimLeft(g[5], "+-") == "") {
		class = 2
	}
	return class, days, nanos, g[6]
}

func in32(n *big.Int) bool {
	return n.IsInt64() && n.Int64() >= math.MinInt32 && n.Int64() <= math.MaxInt32
}

// dsOf reads days and exact nanoseconds of an interval-day literal.
func dsOf(l expr.Literal) (days int64, nanos *big.Int, prec int, ok bool) {
	x, is := l.ToProtoLiteral().LiteralType.(*pb.Expression_Literal_IntervalDayToSecond_)
	if !is {
		return
	}
	v := x.IntervalDayToSecond
	n := new(big.Int).Mul(big.NewInt(int64(v.Seconds)), bigE9)
	switch m := v.PrecisionMode.(type) {
	case *pb.Expression_Literal_IntervalDayToSecond_Precision:
		if m.Precision < 0 || m.Precision > 9 {
			return
		}
		prec = int(m.Precision)
		n.Add(n, new(big.Int).Mul(big.NewInt(v.Subseconds), pow10(9-prec)))
	case *pb.Expression_Literal_IntervalDayToSecond_Microseconds:
		prec = 6
		n.Add(n, big.NewInt(int64(m.Microseconds)*1000))
	}
	return int64(v.Days), n, prec, true
}

func judgeYM(t *T, s string) {
	t.Trans(1)
	class, y, m := readYM(s)
	l, err := literal.NewIntervalYearsToMonthFromString(s, false)
	if class == 0 || !in32(y) || !in32(m) {
		if err == nil {
			t.Failf("NewIntervalYearsToMonthFromString(%q) accepted as %s", s, l.ValueString())
		}
		return
	}
	if err != nil {
		if class == 1 {
			t.Failf("NewIntervalYearsToMonthFromString(%q) rejected: %v", s, err)
		}
		return
	}
	x := l.ToProtoLiteral().GetIntervalYearToMonth()
	if x == nil || int64(x.Years) != y.Int64() || int64(x.Months) != m.Int64() {
		t.Failf("NewIntervalYearsToMonthFromString(%q) = %s, want %s years %s months", s, l.ValueString(), y, m)
	}
	t.State("ym" + l.ValueString())
}

func judgeDS(t *T, s string) {
	t.Trans(1)
	class, d, n, frac := readDS(s)
	l, err := literal.NewIntervalDaysToSecondFromString(s, false)
	over := class != 0 && (!in32(d) || !in32(floorDiv(n, bigE9)))
	if class == 0 || over {
		if err == nil {
			t.Failf("NewIntervalDaysToSecondFromString(%q) accepted as %s", s, l.ValueString())
		}
		return
	}
	if err != nil {
		// more digits than any precision holds may be rejected or truncated
		if class == 1 && len(strings.TrimRight(frac, "0")) <= 9 {
			t.Failf("NewIntervalDaysToSecondFromString(%q) rejected: %v", s, err)
		}
		return
	}
	gd, gn, _, ok := dsOf(l)
	if !ok || gd != d.Int64() || gn.Cmp(n) != 0 {
		t.Failf("NewIntervalDaysToSecondFromString(%q) = %s, want %s days %s ns", s, l.ValueString(), d, n)
	}
	t.State("ds" + l.ValueString())
}

func c19intervals(c *Ctx) {
	// All short strings.
	alpha := "PT019YMDHS.-"
	maxLen := 5
	if c.Thorough {
		maxLen = 6
	}
	var rec func(s string, left int)
	var batch []string
	flush := func() {
		b := batch
		batch = nil
		if len(b) > 0 {
			c.Case(func(t *T) {
				for _, s := range b {
					judgeYM(t, s)
					judgeDS(t, s)
				}
			}, "interval-strings", b[0])
		}
	}
	rec = func(s string, left int) {
		batch = append(batch, s)
		if len(batch) >= 256 {
			flush()
		}
		if left == 0 {
			return
		}
		for _, r := range alpha {
			rec(s+string(r), left-1)
		}
	}
	rec("P", maxLen)
	for _, s := range []string{"", "1Y", "Y", "T1S", " P1Y", "P1Y ", "p1y", "PT1s", "P1Y2M3D", "P1M2Y", "P1YT", "P1W"} {
		batch = append(batch, s)
	}
	flush()
	nums := []string{"0", "1", "9", "10", "00", "59", "60", "3599", "86400", "2147483647", "2147483648", "4294967296", "4294967297", "9223372036854775807", "9223372036854775808", "99999999999999999999", "-1", "-2147483648", "-2147483649"}
	for _, a := range nums {
		for _, b := range nums {
			c.Case(func(t *T) {
				judgeYM(t, "P"+a+"Y"+b+"M")
				judgeYM(t, "P"+a+"Y")
				judgeYM(t, "P"+b+"M")
				for _, s := range []string{"P%sDT%sS", "P%sDT%sH", "P%sDT%sM", "PT%sH%sM", "PT%sH%sS", "PT%sM%sS", "PT%s.%sS"} {
					judgeDS(t, fmt.Sprintf(s, a, b))
				}
			}, "interval-nums", a, b)
		}
	}
	// Every fraction of up to 4 (5) digits, at several positions, and whole seconds.
	fl := 1000
	if c.Thorough {
		fl = 100000
	}
	digits := len(strconv.Itoa(fl)) - 1
	for hi := 0; hi < fl; hi += 100 {
		c.Case(func(t *T) {
			for f := hi; f < hi+100; f++ {
				fs := fmt.Sprintf("%0*d", digits, f)
				for _, pre := range []string{"", "0", "000", "999", "000000"} {
					for _, w := range []string{"0", "4", "30", "59", "2147483"} {
						judgeDS(t, "PT"+w+"."+pre+fs+"S")
					}
				}
			}
		}, "fractions", hi)
	}
	// Durations.
	for p := 0; p <= 9; p++ {
		c.Case(func(t *T) {
			unit := pow10(9 - p).Int64()
			for _, v := range []int64{0, 1, -1, 999, math.MaxInt64 / unit, -(math.MaxInt64 / unit), math.MaxInt64/unit/2 + 1, math.MaxInt64 / unit / 9} {
				for d := int64(-2); d <= 2; d++ {
					n := new(big.Int).Mul(big.NewInt(v+d), big.NewInt(unit))
					if v > 0 && v+d < 0 || !n.IsInt64() {
						continue
					}
					if g := types.SubSecondsToDuration(v+d, types.TimePrecision(p)); int64(g) != n.Int64() {
						t.Failf("%d units of precision %d last %d ns, want %v", v+d, p, int64(g), n)
					}
					t.Trans(1)
				}
			}
		}, "duration", p)
	}
	// Printing and retyping.
	ds := []int32{0, 1, -1, 100, -100, math.MaxInt32, math.MinInt32}
	ss := []int32{0, 1, -1, 59, 60, 61, 3599, 3600, 3601, 86399, 86400, -59, -60, -3661, -86400, 90000, math.MaxInt32, math.MinInt32}
	for p := 0; p <= 9; p++ {
		for _, d := range ds {
			c.Case(func(t *T) {
				top := pow10(p).Int64()
				for _, s := range ss {
					for _, sub := range []int64{0, 1, -1, top / 2, top - 1, 1 - top, top, -top, 61*top + 1, -3601 * top, 86400*top + top/3, max(top*1e9, top), 1 - top*1e9, min(math.MaxInt64/top, 1e12) * top, -min(math.MaxInt64/top, 1e12) * top} {
						for _, typed := range []bool{false, true} {
							t.Trans(1)
							v := &types.IntervalDayToSecond{Days: d, Seconds: s, Subseconds: sub, PrecisionMode: &pb.Expression_Literal_IntervalDayToSecond_Precision{Precision: int32(p)}}
							l, err := expr.NewLiteral(v, typed)
							if err != nil {
								t.Failf("NewLiteral interval: %v", err)
								continue
							}
							wantN := new(big.Int).Add(nanosOf(int64(s), 0), new(big.Int).Mul(big.NewInt(sub), pow10(9-p)))
							gd, gn, gp, ok := dsOf(l)
							if !ok || gd != int64(d) || gn.Cmp(wantN) != 0 || gp != p {
								t.Failf("interval %d days %d s %d/%d holds %d %v", d, s, sub, p, gd, gn)
							}
							txt := l.(types.IsoValuePrinter).IsoValueString()
							class, td, tn, _ := readDS(txt)
							if class == 0 || td.Cmp(big.NewInt(int64(d))) != 0 || tn.Cmp(wantN) != 0 {
								t.Failf("interval %d days %d s %d/1e%d prints ISO text %q", d, s, sub, p, txt)
							}
							if w := fmt.Sprintf("%d days, %d seconds, %d subseconds", d, s, sub); l.ValueString() != w {
								t.Failf("interval value text %q, want %q", l.ValueString(), w)
							}
							for q := 0; q <= 9; q++ {
								nt := &types.IntervalDayType{Precision: types.TimePrecision(q), Nullability: types.NullabilityRequired}
								l2, err := l.(*expr.ProtoLiteral).WithType(nt)
								if q > p && !new(big.Int).Mul(big.NewInt(sub), pow10(q-p)).IsInt64() {
									if err == nil {
										t.Failf("WithType %d->%d of %d/%d/%d: the sub-seconds do not fit, yet %v", p, q, d, s, sub, l2)
									}
									continue
								}
								if err != nil {
									t.Failf("WithType: %v", err)
									continue
								}
								d2, n2, p2, _ := dsOf(l2)
								u := pow10(9 - q)
								tr := new(big.Int).Mul(new(big.Int).Quo(new(big.Int).Mul(big.NewInt(sub), pow10(9-p)), u), u)
								flr := new(big.Int).Mul(floorDiv(new(big.Int).Mul(big.NewInt(sub), pow10(9-p)), u), u)
								base := nanosOf(int64(s), 0)
								if d2 != int64(d) || p2 != q || (n2.Cmp(tr.Add(tr, base)) != 0 && n2.Cmp(flr.Add(flr, base)) != 0) || !l2.GetType().Equals(nt) {
									t.Failf("WithType %d->%d of %d/%d/%d gives %d days %v at %d", p, q, d, s, sub, d2, n2, p2)
								}
							}
						}
					}
				}
			}, "ds-print", p, d)
		}
	}
	i32 := []int32{0, 1, -1, 11, 12, 13, -12, 1000, math.MaxInt32, math.MinInt32}
	for _, y := range i32 {
		for _, m := range i32 {
			c.Case(func(t *T) {
				l, err := literal.NewIntervalYearsToMonth(y, m, y > m)
				if err != nil {
					t.Failf("rejected: %v", err)
					return
				}
				x := l.ToProtoLiteral().GetIntervalYearToMonth()
				if x == nil || x.Years != y || x.Months != m {
					t.Failf("years-to-month %d/%d holds %v", y, m, x)
				}
				txt := l.(types.IsoValuePrinter).IsoValueString()
				class, ty, tmn := readYM(txt)
				if class == 0 || ty.Int64() != int64(y) || tmn.Int64() != int64(m) {
					t.Failf("years-to-month %d/%d prints ISO text %q", y, m, txt)
				}
				l, err = literal.NewIntervalDaysToSecond(y, m, int64(y)*int64(m)%1000000, false)
				if err != nil {
					t.Failf("NewIntervalDaysToSecond: %v", err)
					return
				}
				d, n, p, _ := dsOf(l)
				if d != int64(y) || p != 6 || n.Cmp(nanosOf(int64(m), int64(y)*int64(m)%1000000*1000)) != 0 {
					t.Failf("NewIntervalDaysToSecond(%d,%d): %d days %v", y, m, d, n)
				}
			}, "ym-value", y, m)
		}
	}
	// NewTime over field boundaries.
	f32 := []int32{0, 1, -1, 23, 24, 25, 59, 60, 61, 86399, 86400, 999999, 1000000, math.MaxInt32, math.MinInt32}
	for _, h := range f32 {
		for _, m := range f32 {
			c.Case(func(t *T) {
				for _, s := range f32 {
					for _, us := range f32 {
						t.Trans(1)
						total := ((int64(h)*60+int64(m))*60+int64(s))*1000000 + int64(us)
						l, err := literal.NewTime(h, m, s, us, false)
						if total < 0 || total >= 86400e6 {
							if err == nil {
								t.Failf("NewTime(%d,%d,%d,%d) accepted as %s", h, m, s, us, l.ValueString())
							}
						} else if expectUnits(t, "NewTime", l, err, "time", 6, big.NewInt(total)) {
							checkText(t, l)
						}
					}
				}
			}, "newtime", h, m)
		}
	}
}
