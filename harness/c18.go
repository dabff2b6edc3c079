// C18: decimal text <-> 16-byte encoding, against big-integer arithmetic.
package main

import (
	"bytes"
	"fmt"
	"math"
	"math/big"
	"regexp"
	"strconv"

	"github.com/cockroachdb/apd/v3"
	"github.com/substrait-io/substrait-go/v8/expr"
	"github.com/substrait-io/substrait-go/v8/literal"
	"github.com/substrait-io/substrait-go/v8/types"
)

func init() {
	checks["C18"] = &Check{Run: runC18, Quick: 100, Thorough: 700,
		Bounds: "texts over {0,1,9,.,-,+,e} up to length 6 (7 thorough); sign x every power of ten and byte boundary +-1 x every scale; encodings from byte patterns x scale 0..38; (precision,scale) retyping grid",
		Assume: []string{"white space around a decimal text may be accepted or rejected"}}
}

var decRef = regexp.MustCompile(`^([+-]?)(\d*)(?:\.(\d*))?(?:[eE]([+-]?\d+))?$`)

// refDecimal is the specification: ok, unscaled value, precision, scale.
func refDecimal(s string) (ok bool, unscaled *big.Int, prec, scale int) {
	m := decRef.FindStringSubmatch(s)
	if m == nil || m[2]+m[3] == "" {
		return
	}
	e := 0
	if m[4] != "" {
		var err error
		if e, err = strconv.Atoi(m[4]); err != nil {
			return
		}
	}
	u, _ := new(big.Int).SetString(m[2]+m[3], 10)
	sc := len(m[3]) - e
	if sc < 0 {
		if -sc > 60 {
			return
		}
		nd := len(u.String()) - sc // digits including the zeros (also for zero)
		u.Mul(u, pow10(-sc))
		prec, scale = nd, 0
	} else {
		scale = sc
		prec = max(len(u.String()), min(sc+1, 38))
	}
	if prec > 38 || scale > 38 {
		return
	}
	if m[1] == "-" {
		u.Neg(u)
	}
	return true, u, prec, scale
}

func pow10(n int) *big.Int { return new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(n)), nil) }

func enc16(v *big.Int) []byte {
	x := new(big.Int).Set(v)
	if x.Sign() < 0 {
		x.Add(x, new(big.Int).Lsh(big.NewInt(1), 128))
	}
	b := x.FillBytes(make([]byte, 16))
	for i, j := 0, 15; i < j; i, j = i+1, j-1 {
		b[i], b[j] = b[j], b[i]
	}
	return b
}

func dec16(b []byte) *big.Int {
	r := make([]byte, 16)
	for i := range r {
		r[i] = b[15-i]
	}
	x := new(big.Int).SetBytes(r)
	if r[0]&0x80 != 0 {
		x.Sub(x, new(big.Int).Lsh(big.NewInt(1), 128))
	}
	return x
}

func ratOf(unscaled *big.Int, scale int) *big.Rat {
	return new(big.Rat).SetFrac(unscaled, pow10(scale))
}

func decParts(l expr.Literal) (b []byte, p, s int32, ok bool) {
	d := l.ToProtoLiteral().GetDecimal()
	dt, isDec := l.GetType().(*types.DecimalType)
	if d == nil || !isDec || dt.Precision != d.Precision || dt.Scale != d.Scale {
		return nil, 0, 0, false
	}
	return d.Value, d.Precision, d.Scale, true
}

func checkDecLit(t *T, l expr.Literal, err error, want *big.Int, prec, scale int, nullable bool) {
	if err != nil || l == nil {
		t.Failf("rejected: %v", err)
		return
	}
	b, p, s, ok := decParts(l)
	if !ok {
		t.Failf("not a consistent decimal literal: %v", l)
		return
	}
	if !bytes.Equal(b, enc16(want)) || int(p) != prec || int(s) != scale {
		t.Failf("got bytes %x p=%d s=%d, want %x p=%d s=%d", b, p, s, enc16(want), prec, scale)
	}
	if (l.GetType().GetNullability() == types.NullabilityNullable) != nullable {
		t.Failf("nullability")
	}
	vs := l.ValueString()
	r, okr := new(big.Rat).SetString(vs)
	if !okr || r.Cmp(ratOf(want, scale)) != 0 {
		t.Failf("ValueString %q does not denote %s", vs, ratOf(want, scale).FloatString(scale))
	}
	// printing then reading gives the same encoding (same scale) again
	if scale <= 38 {
		l2, err2 := literal.NewDecimalFromString(vs, nullable)
		if err2 != nil {
			t.Failf("printed text %q rejected: %v", vs, err2)
		} else if b2, _, s2, _ := decParts(l2); !bytes.Equal(b2, b) || s2 != s {
			t.Failf("printed text %q re-encodes to %x s=%d, want %x s=%d", vs, b2, s2, b, s)
		}
	}
	l3 := expr.LiteralFromProto(l.ToProtoLiteral())
	if l3 == nil || !l3.Equals(l) || !l.Equals(l3) {
		t.Failf("protobuf round trip changed the literal: %v vs %v", l3, l)
	}
	t.State(fmt.Sprint(want, scale))
}

func runC18(c *Ctx) {
	// 1. every text over a small alphabet
	alpha := "019.-+e"
	maxLen := 6
	if c.Thorough {
		maxLen = 7
	}
	var rec func(prefix []byte)
	rec = func(prefix []byte) {
		if len(prefix) <= maxLen {
			s := string(prefix)
			c.Case(func(t *T) {
				ok, u, p, sc := refDecimal(s)
				l, err := literal.NewDecimalFromString(s, len(s)%2 == 1)
				t.Trans(1)
				t.Validated()
				if !ok {
					if err == nil {
						t.Failf("malformed or oversize text accepted as %v", l)
					}
					t.Outcome("reject")
					return
				}
				t.Outcome(fmt.Sprint(p, sc))
				checkDecLit(t, l, err, u, p, sc, len(s)%2 == 1)
			}, "text", s)
		}
		if len(prefix) == maxLen {
			return
		}
		for i := 0; i < len(alpha); i++ {
			rec(append(prefix[:len(prefix):len(prefix)], alpha[i]))
		}
	}
	rec(nil)
	// 2. boundary magnitudes x scale x sign, by text, apd value and raw bytes
	var mags []*big.Int
	for i := 0; i <= 38; i++ {
		for d := int64(-1); d <= 1; d++ {
			mags = append(mags, new(big.Int).Add(pow10(i), big.NewInt(d)))
		}
		mags = append(mags, new(big.Int).Mul(pow10(i), big.NewInt(7)))
		mags = append(mags, new(big.Int).Mul(pow10(i), big.NewInt(12)))
	}
	for i := 1; i <= 127; i++ {
		for d := int64(-1); d <= 1; d++ {
			mags = append(mags, new(big.Int).Add(new(big.Int).Lsh(big.NewInt(1), uint(i)), big.NewInt(d)))
		}
	}
	for i := 0; i < 16; i++ { // every byte in turn
		mags = append(mags, new(big.Int).Lsh(big.NewInt(0xa5), uint(8*i)), new(big.Int).Lsh(big.NewInt(0x3c01), uint(8*i)))
	}
	for i := 1; i < 38; i++ {
		m, _ := new(big.Int).SetString("12345678901234567890123456789012345678"[:i], 10)
		mags = append(mags, m)
	}
	place := func(u *big.Int, sc int) string {
		a := new(big.Int).Abs(u).String()
		for len(a) < sc+1 {
			a = "0" + a
		}
		if sc > 0 {
			a = a[:len(a)-sc] + "." + a[len(a)-sc:]
		}
		if u.Sign() < 0 {
			a = "-" + a
		}
		return a
	}
	limit := pow10(38)
	for _, m := range mags {
		for _, neg := range []bool{false, true} {
			u := new(big.Int).Set(m)
			if neg {
				u.Neg(u)
			}
			for sc := 0; sc <= 38; sc++ {
				fits := new(big.Int).Abs(u).Cmp(limit) < 0
				c.Case(func(t *T) {
					t.Trans(4)
					t.Validated()
					txt := place(u, sc)
					ok, ru, p, rs := refDecimal(txt)
					l, err := literal.NewDecimalFromString(txt, neg)
					ap := apd.NewWithBigInt(new(apd.BigInt).SetMathBigInt(new(big.Int).Abs(u)), int32(-sc))
					ap.Negative = u.Sign() < 0
					before := ap.Text('e')
					l2, err2 := literal.NewDecimalFromApdDecimal(ap, neg)
					if after := ap.Text('e'); after != before {
						t.Failf("NewDecimalFromApdDecimal changed its argument from %s to %s", before, after)
					}
					if !ok {
						if err == nil || err2 == nil {
							t.Failf("oversize %s accepted (text err=%v, apd err=%v)", txt, err, err2)
						}
					} else {
						checkDecLit(t, l, err, ru, p, rs, neg)
						checkDecLit(t, l2, err2, ru, p, rs, neg)
					}
					// raw 16-byte encoding
					if u.BitLen() <= 127 {
						l3, err3 := literal.NewDecimalFromTwosComplement(enc16(u), 38, int32(sc), neg)
						if fits {
							checkDecLit(t, l3, err3, u, 38, sc, neg)
						} else if err3 == nil {
							if r, ok := new(big.Rat).SetString(l3.ValueString()); !ok || r.Cmp(ratOf(u, sc)) != 0 {
								t.Failf("decoding %x at scale %d prints %s", enc16(u), sc, l3.ValueString())
							}
						}
					}
				}, "mag", func() string { return place(u, sc) })
			}
			// exponent forms: u x 10^e
			for e := 1; e <= 40; e++ {
				c.Case(func(t *T) {
					t.Trans(2)
					t.Validated()
					txt := fmt.Sprintf("%se%d", u, e)
					ok, ru, p, rs := refDecimal(txt)
					l, err := literal.NewDecimalFromString(txt, false)
					ap := apd.NewWithBigInt(new(apd.BigInt).SetMathBigInt(new(big.Int).Abs(u)), int32(e))
					ap.Negative = u.Sign() < 0
					before := ap.Text('e')
					l2, err2 := literal.NewDecimalFromApdDecimal(ap, false)
					if after := ap.Text('e'); after != before {
						t.Failf("argument changed from %s to %s", before, after)
					}
					if !ok {
						if err == nil || err2 == nil {
							t.Failf("oversize %s accepted", txt)
						}
						return
					}
					checkDecLit(t, l, err, ru, p, rs, false)
					checkDecLit(t, l2, err2, ru, p, rs, false)
				}, "exp", u, e)
			}
		}
	}
	// 3. special apd values
	for _, x := range []struct {
		n string
		d apd.Decimal
	}{
		{"nan", apd.Decimal{Form: apd.NaN}}, {"snan", apd.Decimal{Form: apd.NaNSignaling}}, {"inf", apd.Decimal{Form: apd.Infinite}},
		{"-inf", apd.Decimal{Form: apd.Infinite, Negative: true}},
		{"1e50", *apd.New(1, 50)}, {"1e1000000", *apd.New(1, 1000000)}, {"0e39", *apd.New(0, 39)}, {"1e-39", *apd.New(1, -39)},
		{"1e-maxint", *apd.New(1, math.MinInt32)}, {"1e-maxint+1", *apd.New(1, math.MinInt32+1)},
		{"1e+maxint", *apd.New(1, math.MaxInt32)}, {"99e+maxint", *apd.New(99, math.MaxInt32-1)},
	} {
		c.Case(func(t *T) {
			t.Trans(1)
			t.Validated()
			d := x.d
			if l, err := literal.NewDecimalFromApdDecimal(&d, false); err == nil {
				t.Failf("%s accepted as %v", x.n, l)
			}
		}, "apd", x.n)
	}
	// 4. invalid raw encodings
	for n := 0; n <= 20; n++ {
		for _, p := range []int32{-1, 0, 1, 2, 37, 38, 39, 100} {
			for _, s := range []int32{-1, 0, 1, 2, 3, 37, 38, 39} {
				c.Case(func(t *T) {
					t.Trans(1)
					t.Validated()
					_, err := literal.NewDecimalFromTwosComplement(make([]byte, n), p, s, false)
					want := n == 16 && p >= 1 && p <= 38 && s >= 0 && s <= p
					if (err == nil) != want {
						t.Failf("len=%d p=%d s=%d: err=%v want valid=%v", n, p, s, err, want)
					}
				}, "raw", n, p, s)
			}
		}
	}
	// 5. retyping: value-preserving or error
	var vals []*big.Int
	for _, s := range []string{"0", "1", "5", "9", "10", "12", "25", "99", "100", "101", "120", "999", "1000", "12345", "1200", "99999999999999999999999999999999999999", "12300000000000000000000000000000000000"} {
		v, _ := new(big.Int).SetString(s, 10)
		vals = append(vals, v)
		if v.Sign() != 0 {
			vals = append(vals, new(big.Int).Neg(v))
		}
	}
	scs := []int{0, 1, 2, 3, 5, 37}
	tps := []int{1, 2, 3, 4, 5, 6, 10, 37, 38, 39}
	tss := []int{0, 1, 2, 3, 4, 5, 10, 37, 38}
	if c.Thorough {
		scs = seq(0, 38)
		tps = seq(1, 40)
		tss = seq(0, 39)
	}
	for _, v := range vals {
		for _, sc := range scs {
			for _, tp := range tps {
				for _, ts := range tss {
					for _, nul := range []types.Nullability{types.NullabilityRequired, types.NullabilityNullable} {
						c.Case(func(t *T) {
							t.Trans(1)
							t.Validated()
							in := enc16(v)
							l, err := literal.NewDecimalFromTwosComplement(in, 38, int32(sc), false)
							if err != nil {
								t.Failf("setup: %v", err)
								return
							}
							w, ok := l.(expr.WithTypeLiteral)
							if !ok {
								t.Failf("decimal literal cannot be retyped")
								return
							}
							nl, err := w.WithType(&types.DecimalType{Precision: int32(tp), Scale: int32(ts), Nullability: nul})
							if !bytes.Equal(in, enc16(v)) {
								t.Failf("input bytes changed")
							}
							// expected
							num := new(big.Int).Mul(v, pow10(ts))
							q, r := new(big.Int).QuoRem(num, pow10(sc), new(big.Int))
							fits := tp <= 38 && ts <= tp && r.Sign() == 0 && new(big.Int).Abs(q).Cmp(pow10(tp)) < 0
							if fits {
								t.Outcome("fit")
								if err != nil {
									if v.Sign() == 0 && ts == tp {
										return // zero with no integer digits: either answer
									}
									t.Failf("%s as decimal<%d,%d>: rejected: %v", place(v, sc), tp, ts, err)
									return
								}
								b, p, s, ok := decParts(nl)
								if !ok || !bytes.Equal(b, enc16(q)) || int(p) != tp || int(s) != ts || nl.GetType().GetNullability() != nul {
									t.Failf("%s as decimal<%d,%d>: got %x p=%d s=%d, want %x", place(v, sc), tp, ts, b, p, s, enc16(q))
								}
								t.State(fmt.Sprint(q, tp, ts))
							} else {
								t.Outcome("nofit")
								if err == nil {
									t.Failf("%s as decimal<%d,%d>: accepted as %v", place(v, sc), tp, ts, nl)
								}
							}
						}, "retype", v, sc, tp, ts, nul)
					}
				}
			}
		}
	}
}

func seq(a, b int) []int {
	var r []int
	for i := a; i <= b; i++ {
		r = append(r, i)
	}
	return r
}
