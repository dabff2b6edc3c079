// C08: literals keep value, type, nullability and variation.
package main

import (
	"bytes"
	"fmt"
	"math"
	"reflect"
	"unicode/utf8"

	"github.com/google/uuid"
	substraitgo "github.com/substrait-io/substrait-go/v8"
	"github.com/substrait-io/substrait-go/v8/expr"
	"github.com/substrait-io/substrait-go/v8/extensions"
	"github.com/substrait-io/substrait-go/v8/literal"
	"github.com/substrait-io/substrait-go/v8/types"
	pb "github.com/substrait-io/substrait-protobuf/go/substraitpb"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/anypb"
	"google.golang.org/protobuf/types/known/emptypb"
)

var _ = substraitgo.ErrInvalidExpr

func init() {
	checks["C08"] = &Check{Run: runC08, Quick: 200, Thorough: 800,
		Bounds: "every literal kind x boundary value tables x nullable x variation {0,7}; lists, maps and structs over every leaf and every pair of leaves (quick: pairs of one value per kind), nesting depth 3; null and empty collections over the type universe; all malformed leaves at every nesting position; every Go value constructor; structs, lists and maps of up to 300 elements and nests up to 40 deep, also with a malformed part at the start, middle and end",
		Assume: []string{
			"the nullable flag and variation of the message are ignored for typed nulls, as the specification says",
			"a compound interval part that is all zero and absent denote the same value",
			"the length of a fixed_char or varchar literal made from a Go value is the number of its characters, as the specification defines the types"}}
}

type lmaker struct {
	kind, name string
	mk         func() *pb.Expression_Literal // fresh message, nullable/variation unset
}

func u128(hi, lo uint64) []byte {
	b := make([]byte, 16)
	for i := 0; i < 8; i++ {
		b[i] = byte(lo >> (8 * i))
		b[8+i] = byte(hi >> (8 * i))
	}
	return b
}

var ivDay = func(d, s int32, sub int64, p int32) *pb.Expression_Literal_IntervalDayToSecond {
	return &pb.Expression_Literal_IntervalDayToSecond{Days: d, Seconds: s, Subseconds: sub, PrecisionMode: &pb.Expression_Literal_IntervalDayToSecond_Precision{Precision: p}}
}
var ivYear = func(y, m int32) *pb.Expression_Literal_IntervalYearToMonth {
	return &pb.Expression_Literal_IntervalYearToMonth{Years: y, Months: m}
}

// leafLits gives every leaf literal of the bounds, one maker per kind and value.
func leafLits() []lmaker {
	var r []lmaker
	add := func(kind string, val any, set func(l *pb.Expression_Literal)) {
		r = append(r, lmaker{kind, fmt.Sprintf("%s:%v", kind, val), func() *pb.Expression_Literal {
			l := &pb.Expression_Literal{}
			set(l)
			return l
		}})
	}
	for _, v := range []bool{true, false} {
		add("boolean", v, func(l *pb.Expression_Literal) { l.LiteralType = &pb.Expression_Literal_Boolean{Boolean: v} })
	}
	for _, v := range []int32{5, 0, 1, -1, 127, -128} {
		add("i8", v, func(l *pb.Expression_Literal) { l.LiteralType = &pb.Expression_Literal_I8{I8: v} })
	}
	for _, v := range []int32{6, 0, -1, 128, 32767, -32768} {
		add("i16", v, func(l *pb.Expression_Literal) { l.LiteralType = &pb.Expression_Literal_I16{I16: v} })
	}
	for _, v := range []int32{7, 0, -1, 32768, math.MaxInt32, math.MinInt32} {
		add("i32", v, func(l *pb.Expression_Literal) { l.LiteralType = &pb.Expression_Literal_I32{I32: v} })
		add("date", v, func(l *pb.Expression_Literal) { l.LiteralType = &pb.Expression_Literal_Date{Date: v} })
	}
	for _, v := range []int64{8, 0, -1, 1 << 33, math.MaxInt64, math.MinInt64} {
		add("i64", v, func(l *pb.Expression_Literal) { l.LiteralType = &pb.Expression_Literal_I64{I64: v} })
		add("timestamp", v, func(l *pb.Expression_Literal) { l.LiteralType = &pb.Expression_Literal_Timestamp{Timestamp: v} })
		add("timestamp_tz", v, func(l *pb.Expression_Literal) { l.LiteralType = &pb.Expression_Literal_TimestampTz{TimestampTz: v} })
		add("time", v, func(l *pb.Expression_Literal) { l.LiteralType = &pb.Expression_Literal_Time{Time: v} })
		for p := int32(0); p <= 9; p++ {
			pt := func() *pb.Expression_Literal_PrecisionTimestamp {
				return &pb.Expression_Literal_PrecisionTimestamp{Precision: p, Value: v}
			}
			add("precision_timestamp", fmt.Sprint(v, "/", p), func(l *pb.Expression_Literal) {
				l.LiteralType = &pb.Expression_Literal_PrecisionTimestamp_{PrecisionTimestamp: pt()}
			})
			add("precision_timestamp_tz", fmt.Sprint(v, "/", p), func(l *pb.Expression_Literal) {
				l.LiteralType = &pb.Expression_Literal_PrecisionTimestampTz{PrecisionTimestampTz: pt()}
			})
			if v >= 0 {
				add("precision_time", fmt.Sprint(v, "/", p), func(l *pb.Expression_Literal) {
					l.LiteralType = &pb.Expression_Literal_PrecisionTime_{PrecisionTime: &pb.Expression_Literal_PrecisionTime{Precision: p, Value: v}}
				})
			}
		}
	}
	for _, v := range []float32{1.5, 0, -1, math.MaxFloat32, math.SmallestNonzeroFloat32, float32(math.Inf(1)), float32(math.Inf(-1)), float32(math.NaN()), float32(math.Copysign(0, -1))} {
		add("fp32", v, func(l *pb.Expression_Literal) { l.LiteralType = &pb.Expression_Literal_Fp32{Fp32: v} })
	}
	for _, v := range []float64{2.5, 0, -1, math.MaxFloat64, math.SmallestNonzeroFloat64, math.Inf(1), math.Inf(-1), math.NaN(), math.Copysign(0, -1)} {
		add("fp64", v, func(l *pb.Expression_Literal) { l.LiteralType = &pb.Expression_Literal_Fp64{Fp64: v} })
	}
	for _, v := range []string{"abc", "", "a", "é…☃", "with 'quote' and \\", "%d%s", "line\nbreak"} {
		add("string", v, func(l *pb.Expression_Literal) { l.LiteralType = &pb.Expression_Literal_String_{String_: v} })
		add("fixed_char", v, func(l *pb.Expression_Literal) { l.LiteralType = &pb.Expression_Literal_FixedChar{FixedChar: v} })
		for _, n := range []uint32{uint32(len(v)), 100, 0} {
			add("varchar", fmt.Sprint(v, "/", n), func(l *pb.Expression_Literal) {
				l.LiteralType = &pb.Expression_Literal_VarChar_{VarChar: &pb.Expression_Literal_VarChar{Value: v, Length: n}}
			})
		}
	}
	for _, v := range [][]byte{{1, 2}, {}, {0}, {0xff, 0, 0x80}, bytes.Repeat([]byte{9}, 17)} {
		add("binary", v, func(l *pb.Expression_Literal) {
			l.LiteralType = &pb.Expression_Literal_Binary{Binary: bytes.Clone(v)}
		})
		add("fixed_binary", v, func(l *pb.Expression_Literal) {
			l.LiteralType = &pb.Expression_Literal_FixedBinary{FixedBinary: bytes.Clone(v)}
		})
	}
	for _, v := range [][]byte{bytes.Repeat([]byte{0}, 16), u128(1<<63, 3), bytes.Repeat([]byte{0xff}, 16)} {
		add("uuid", v, func(l *pb.Expression_Literal) { l.LiteralType = &pb.Expression_Literal_Uuid{Uuid: bytes.Clone(v)} })
		for _, ps := range [][2]int32{{38, 0}, {10, 2}, {1, 1}, {38, 38}} {
			add("decimal", fmt.Sprint(v, ps), func(l *pb.Expression_Literal) {
				l.LiteralType = &pb.Expression_Literal_Decimal_{Decimal: &pb.Expression_Literal_Decimal{Value: bytes.Clone(v), Precision: ps[0], Scale: ps[1]}}
			})
		}
	}
	for _, v := range [][2]int32{{1, 2}, {0, 0}, {-1, 0}, {0, -13}, {math.MaxInt32, math.MinInt32}} {
		add("interval_year", v, func(l *pb.Expression_Literal) {
			l.LiteralType = &pb.Expression_Literal_IntervalYearToMonth_{IntervalYearToMonth: ivYear(v[0], v[1])}
		})
	}
	for p := int32(0); p <= 9; p++ {
		for _, v := range [][3]int64{{1, 2, 3}, {0, 0, 0}, {-1, 0, 0}, {0, -5, 0}, {0, 0, -7}, {math.MaxInt32, math.MinInt32, math.MaxInt64}} {
			if p > 0 && p < 9 && p != 6 && v[0] < 0 {
				continue
			}
			add("interval_day", fmt.Sprint(v, "/", p), func(l *pb.Expression_Literal) {
				l.LiteralType = &pb.Expression_Literal_IntervalDayToSecond_{IntervalDayToSecond: ivDay(int32(v[0]), int32(v[1]), v[2], p)}
			})
			for _, y := range [][2]int32{{0, 0}, {3, -4}} {
				add("interval_compound", fmt.Sprint(y, v, "/", p), func(l *pb.Expression_Literal) {
					l.LiteralType = &pb.Expression_Literal_IntervalCompound_{IntervalCompound: &pb.Expression_Literal_IntervalCompound{IntervalYearToMonth: ivYear(y[0], y[1]), IntervalDayToSecond: ivDay(int32(v[0]), int32(v[1]), v[2], p)}}
				})
			}
		}
	}
	for _, us := range []int32{0, 5, -5, 999999} {
		add("interval_day", fmt.Sprint("micros", us), func(l *pb.Expression_Literal) {
			l.LiteralType = &pb.Expression_Literal_IntervalDayToSecond_{IntervalDayToSecond: &pb.Expression_Literal_IntervalDayToSecond{Days: 2, Seconds: 3, PrecisionMode: &pb.Expression_Literal_IntervalDayToSecond_Microseconds{Microseconds: us}}}
		})
		add("interval_compound", fmt.Sprint("micros", us), func(l *pb.Expression_Literal) {
			l.LiteralType = &pb.Expression_Literal_IntervalCompound_{IntervalCompound: &pb.Expression_Literal_IntervalCompound{IntervalDayToSecond: &pb.Expression_Literal_IntervalDayToSecond{Days: 2, Seconds: 3, PrecisionMode: &pb.Expression_Literal_IntervalDayToSecond_Microseconds{Microseconds: us}}}}
		})
	}
	add("interval_compound", "year only", func(l *pb.Expression_Literal) {
		l.LiteralType = &pb.Expression_Literal_IntervalCompound_{IntervalCompound: &pb.Expression_Literal_IntervalCompound{IntervalYearToMonth: ivYear(3, 4)}}
	})
	add("interval_compound", "none", func(l *pb.Expression_Literal) {
		l.LiteralType = &pb.Expression_Literal_IntervalCompound_{IntervalCompound: &pb.Expression_Literal_IntervalCompound{}}
	})
	for _, ref := range []uint32{3, 0, 1 << 31} {
		for pi, ps := range udtParams([]*pb.Type{{Kind: &pb.Type_I32_{I32: &pb.Type_I32{Nullability: nReq}}}, {Kind: &pb.Type_String_{String_: &pb.Type_String{Nullability: nNul}}}, pbList(nNul, 0, &pb.Type{Kind: &pb.Type_I8_{I8: &pb.Type_I8{Nullability: nReq}}}), {Kind: &pb.Type_I64_{I64: &pb.Type_I64{Nullability: nReq}}}}) {
			add("udt", fmt.Sprint("any", ref, pi), func(l *pb.Expression_Literal) {
				a, _ := anypb.New(&emptypb.Empty{})
				l.LiteralType = &pb.Expression_Literal_UserDefined_{UserDefined: &pb.Expression_Literal_UserDefined{TypeAnchorType: &pb.Expression_Literal_UserDefined_TypeReference{TypeReference: ref}, TypeParameters: cloneParams(ps), Val: &pb.Expression_Literal_UserDefined_Value{Value: a}}}
			})
			add("udt", fmt.Sprint("struct", ref, pi), func(l *pb.Expression_Literal) {
				l.LiteralType = &pb.Expression_Literal_UserDefined_{UserDefined: &pb.Expression_Literal_UserDefined{TypeAnchorType: &pb.Expression_Literal_UserDefined_TypeReference{TypeReference: ref}, TypeParameters: cloneParams(ps),
					Val: &pb.Expression_Literal_UserDefined_Struct{Struct: &pb.Expression_Literal_Struct{Fields: []*pb.Expression_Literal{{LiteralType: &pb.Expression_Literal_I32{I32: 4}}, {LiteralType: &pb.Expression_Literal_String_{String_: "x"}, Nullable: true}}}}}}
			})
		}
	}
	return r
}

func cloneParams(ps []*pb.Type_Parameter) []*pb.Type_Parameter {
	var r []*pb.Type_Parameter
	for _, p := range ps {
		r = append(r, proto.Clone(p).(*pb.Type_Parameter))
	}
	return r
}

// badLits gives messages that describe no literal.
func badLits() []lmaker {
	var r []lmaker
	add := func(name string, l *pb.Expression_Literal) {
		r = append(r, lmaker{"bad", name, func() *pb.Expression_Literal { return proto.Clone(l).(*pb.Expression_Literal) }})
	}
	lit := func(x *pb.Expression_Literal) *pb.Expression_Literal { return x }
	add("unset", &pb.Expression_Literal{})
	for _, v := range []int32{128, -129, 256, math.MaxInt32} {
		add(fmt.Sprint("i8:", v), lit(&pb.Expression_Literal{LiteralType: &pb.Expression_Literal_I8{I8: v}}))
	}
	for _, v := range []int32{32768, -32769, 65536, math.MinInt32} {
		add(fmt.Sprint("i16:", v), lit(&pb.Expression_Literal{LiteralType: &pb.Expression_Literal_I16{I16: v}}))
	}
	for _, p := range []int32{-1, 10, math.MaxInt32, math.MinInt32} {
		add(fmt.Sprint("pts p", p), &pb.Expression_Literal{LiteralType: &pb.Expression_Literal_PrecisionTimestamp_{PrecisionTimestamp: &pb.Expression_Literal_PrecisionTimestamp{Precision: p}}})
		add(fmt.Sprint("ptstz p", p), &pb.Expression_Literal{LiteralType: &pb.Expression_Literal_PrecisionTimestampTz{PrecisionTimestampTz: &pb.Expression_Literal_PrecisionTimestamp{Precision: p}}})
		add(fmt.Sprint("pt p", p), &pb.Expression_Literal{LiteralType: &pb.Expression_Literal_PrecisionTime_{PrecisionTime: &pb.Expression_Literal_PrecisionTime{Precision: p}}})
		add(fmt.Sprint("iday p", p), &pb.Expression_Literal{LiteralType: &pb.Expression_Literal_IntervalDayToSecond_{IntervalDayToSecond: ivDay(1, 1, 1, p)}})
		add(fmt.Sprint("icomp p", p), &pb.Expression_Literal{LiteralType: &pb.Expression_Literal_IntervalCompound_{IntervalCompound: &pb.Expression_Literal_IntervalCompound{IntervalDayToSecond: ivDay(1, 1, 1, p)}}})
		add(fmt.Sprint("null type p", p), &pb.Expression_Literal{LiteralType: &pb.Expression_Literal_Null{Null: &pb.Type{Kind: &pb.Type_PrecisionTimestamp_{PrecisionTimestamp: &pb.Type_PrecisionTimestamp{Precision: p}}}}})
	}
	add("pt negative", &pb.Expression_Literal{LiteralType: &pb.Expression_Literal_PrecisionTime_{PrecisionTime: &pb.Expression_Literal_PrecisionTime{Precision: 3, Value: -1}}})
	for _, n := range []int{0, 1, 15, 17} {
		add(fmt.Sprint("decimal bytes ", n), &pb.Expression_Literal{LiteralType: &pb.Expression_Literal_Decimal_{Decimal: &pb.Expression_Literal_Decimal{Value: make([]byte, n), Precision: 10, Scale: 2}}})
	}
	add("list empty", &pb.Expression_Literal{LiteralType: &pb.Expression_Literal_List_{List: &pb.Expression_Literal_List{}}})
	add("map empty", &pb.Expression_Literal{LiteralType: &pb.Expression_Literal_Map_{Map: &pb.Expression_Literal_Map{}}})
	i := &pb.Expression_Literal{LiteralType: &pb.Expression_Literal_I32{I32: 1}}
	add("map no key", &pb.Expression_Literal{LiteralType: &pb.Expression_Literal_Map_{Map: &pb.Expression_Literal_Map{KeyValues: []*pb.Expression_Literal_Map_KeyValue{{Value: i}}}}})
	add("map no value", &pb.Expression_Literal{LiteralType: &pb.Expression_Literal_Map_{Map: &pb.Expression_Literal_Map{KeyValues: []*pb.Expression_Literal_Map_KeyValue{{Key: i}}}}})
	add("null unset", &pb.Expression_Literal{LiteralType: &pb.Expression_Literal_Null{Null: &pb.Type{}}})
	add("empty list unset", &pb.Expression_Literal{LiteralType: &pb.Expression_Literal_EmptyList{EmptyList: &pb.Type_List{}}})
	add("empty map no value", &pb.Expression_Literal{LiteralType: &pb.Expression_Literal_EmptyMap{EmptyMap: &pb.Type_Map{Key: &pb.Type{Kind: &pb.Type_I8_{I8: &pb.Type_I8{}}}}}})
	add("empty map no key", &pb.Expression_Literal{LiteralType: &pb.Expression_Literal_EmptyMap{EmptyMap: &pb.Type_Map{Value: &pb.Type{Kind: &pb.Type_I8_{I8: &pb.Type_I8{}}}}}})
	add("udt no value", &pb.Expression_Literal{LiteralType: &pb.Expression_Literal_UserDefined_{UserDefined: &pb.Expression_Literal_UserDefined{TypeAnchorType: &pb.Expression_Literal_UserDefined_TypeReference{TypeReference: 1}}}})
	a, _ := anypb.New(&emptypb.Empty{})
	add("udt no anchor", &pb.Expression_Literal{LiteralType: &pb.Expression_Literal_UserDefined_{UserDefined: &pb.Expression_Literal_UserDefined{Val: &pb.Expression_Literal_UserDefined_Value{Value: a}}}})
	add("udt alias", &pb.Expression_Literal{LiteralType: &pb.Expression_Literal_UserDefined_{UserDefined: &pb.Expression_Literal_UserDefined{TypeAnchorType: &pb.Expression_Literal_UserDefined_TypeAliasReference{TypeAliasReference: 1}, Val: &pb.Expression_Literal_UserDefined_Value{Value: a}}}})
	add("udt bad param", &pb.Expression_Literal{LiteralType: &pb.Expression_Literal_UserDefined_{UserDefined: &pb.Expression_Literal_UserDefined{TypeAnchorType: &pb.Expression_Literal_UserDefined_TypeReference{TypeReference: 1}, TypeParameters: []*pb.Type_Parameter{{}}, Val: &pb.Expression_Literal_UserDefined_Value{Value: a}}}})
	return r
}

func litList(ls ...*pb.Expression_Literal) *pb.Expression_Literal {
	return &pb.Expression_Literal{LiteralType: &pb.Expression_Literal_List_{List: &pb.Expression_Literal_List{Values: ls}}}
}
func litStruct(ls ...*pb.Expression_Literal) *pb.Expression_Literal {
	return &pb.Expression_Literal{LiteralType: &pb.Expression_Literal_Struct_{Struct: &pb.Expression_Literal_Struct{Fields: ls}}}
}
func litMap(kv ...*pb.Expression_Literal) *pb.Expression_Literal {
	m := &pb.Expression_Literal_Map{}
	for i := 0; i+1 < len(kv); i += 2 {
		m.KeyValues = append(m.KeyValues, &pb.Expression_Literal_Map_KeyValue{Key: kv[i], Value: kv[i+1]})
	}
	return &pb.Expression_Literal{LiteralType: &pb.Expression_Literal_Map_{Map: m}}
}

func flags(l *pb.Expression_Literal, nullable bool, v uint32) *pb.Expression_Literal {
	l.Nullable, l.TypeVariationReference = nullable, v
	return l
}

// normLit brings equivalent representations of a literal together.
func normLit(l *pb.Expression_Literal) *pb.Expression_Literal {
	l = proto.Clone(l).(*pb.Expression_Literal)
	var rec func(l *pb.Expression_Literal)
	day := func(d *pb.Expression_Literal_IntervalDayToSecond) {
		if m, ok := d.PrecisionMode.(*pb.Expression_Literal_IntervalDayToSecond_Microseconds); ok {
			d.Subseconds += int64(m.Microseconds)
			d.PrecisionMode = &pb.Expression_Literal_IntervalDayToSecond_Precision{Precision: 6}
		}
	}
	rec = func(l *pb.Expression_Literal) {
		switch x := l.LiteralType.(type) {
		case *pb.Expression_Literal_Null:
			l.Nullable, l.TypeVariationReference = true, 0
		case *pb.Expression_Literal_List_:
			for _, v := range x.List.Values {
				rec(v)
			}
		case *pb.Expression_Literal_Struct_:
			for _, v := range x.Struct.Fields {
				rec(v)
			}
		case *pb.Expression_Literal_Map_:
			for _, kv := range x.Map.KeyValues {
				rec(kv.Key)
				rec(kv.Value)
			}
		case *pb.Expression_Literal_IntervalDayToSecond_:
			day(x.IntervalDayToSecond)
		case *pb.Expression_Literal_IntervalCompound_:
			c := x.IntervalCompound
			if y := c.IntervalYearToMonth; y != nil && y.Years == 0 && y.Months == 0 {
				c.IntervalYearToMonth = nil
			}
			if d := c.IntervalDayToSecond; d != nil {
				day(d)
				if d.Days == 0 && d.Seconds == 0 && d.Subseconds == 0 && d.GetPrecision() == 0 {
					c.IntervalDayToSecond = nil
				}
			}
		}
	}
	rec(l)
	return l
}

// refLitType derives a literal's type from its message by the specification.
func refLitType(l *pb.Expression_Literal) *pb.Type {
	n := nReq
	if l.Nullable {
		n = nNul
	}
	v := l.TypeVariationReference
	leaf := func(name string) *pb.Type {
		for _, m := range leafMakers() {
			if m.name == name {
				return m.mk(n, v)
			}
		}
		panic("no leaf " + name)
	}
	switch x := l.LiteralType.(type) {
	case *pb.Expression_Literal_Boolean:
		return leaf("boolean")
	case *pb.Expression_Literal_I8:
		return leaf("i8")
	case *pb.Expression_Literal_I16:
		return leaf("i16")
	case *pb.Expression_Literal_I32:
		return leaf("i32")
	case *pb.Expression_Literal_I64:
		return leaf("i64")
	case *pb.Expression_Literal_Fp32:
		return leaf("fp32")
	case *pb.Expression_Literal_Fp64:
		return leaf("fp64")
	case *pb.Expression_Literal_String_:
		return leaf("string")
	case *pb.Expression_Literal_Binary:
		return leaf("binary")
	case *pb.Expression_Literal_Date:
		return leaf("date")
	case *pb.Expression_Literal_Time:
		return leaf("time")
	case *pb.Expression_Literal_Timestamp:
		return leaf("timestamp")
	case *pb.Expression_Literal_TimestampTz:
		return leaf("timestamp_tz")
	case *pb.Expression_Literal_Uuid:
		return leaf("uuid")
	case *pb.Expression_Literal_IntervalYearToMonth_:
		return &pb.Type{Kind: &pb.Type_IntervalYear_{IntervalYear: &pb.Type_IntervalYear{Nullability: n, TypeVariationReference: v}}}
	case *pb.Expression_Literal_IntervalDayToSecond_:
		p := int32(6)
		if m, ok := x.IntervalDayToSecond.PrecisionMode.(*pb.Expression_Literal_IntervalDayToSecond_Precision); ok {
			p = m.Precision
		}
		return &pb.Type{Kind: &pb.Type_IntervalDay_{IntervalDay: &pb.Type_IntervalDay{Nullability: n, TypeVariationReference: v, Precision: &p}}}
	case *pb.Expression_Literal_IntervalCompound_:
		p := int32(0)
		if d := x.IntervalCompound.IntervalDayToSecond; d != nil {
			p = 6
			if m, ok := d.PrecisionMode.(*pb.Expression_Literal_IntervalDayToSecond_Precision); ok {
				p = m.Precision
			}
		}
		return &pb.Type{Kind: &pb.Type_IntervalCompound_{IntervalCompound: &pb.Type_IntervalCompound{Nullability: n, TypeVariationReference: v, Precision: p}}}
	case *pb.Expression_Literal_FixedChar:
		return &pb.Type{Kind: &pb.Type_FixedChar_{FixedChar: &pb.Type_FixedChar{Nullability: n, TypeVariationReference: v, Length: int32(utf8.RuneCountInString(x.FixedChar))}}}
	case *pb.Expression_Literal_VarChar_:
		return &pb.Type{Kind: &pb.Type_Varchar{Varchar: &pb.Type_VarChar{Nullability: n, TypeVariationReference: v, Length: int32(x.VarChar.Length)}}}
	case *pb.Expression_Literal_FixedBinary:
		return &pb.Type{Kind: &pb.Type_FixedBinary_{FixedBinary: &pb.Type_FixedBinary{Nullability: n, TypeVariationReference: v, Length: int32(len(x.FixedBinary))}}}
	case *pb.Expression_Literal_Decimal_:
		return &pb.Type{Kind: &pb.Type_Decimal_{Decimal: &pb.Type_Decimal{Nullability: n, TypeVariationReference: v, Precision: x.Decimal.Precision, Scale: x.Decimal.Scale}}}
	case *pb.Expression_Literal_PrecisionTime_:
		return &pb.Type{Kind: &pb.Type_PrecisionTime_{PrecisionTime: &pb.Type_PrecisionTime{Nullability: n, TypeVariationReference: v, Precision: x.PrecisionTime.Precision}}}
	case *pb.Expression_Literal_PrecisionTimestamp_:
		return &pb.Type{Kind: &pb.Type_PrecisionTimestamp_{PrecisionTimestamp: &pb.Type_PrecisionTimestamp{Nullability: n, TypeVariationReference: v, Precision: x.PrecisionTimestamp.Precision}}}
	case *pb.Expression_Literal_PrecisionTimestampTz:
		return &pb.Type{Kind: &pb.Type_PrecisionTimestampTz{PrecisionTimestampTz: &pb.Type_PrecisionTimestampTZ{Nullability: n, TypeVariationReference: v, Precision: x.PrecisionTimestampTz.Precision}}}
	case *pb.Expression_Literal_Null:
		return x.Null
	case *pb.Expression_Literal_Struct_:
		s := &pb.Type_Struct{Nullability: n, TypeVariationReference: v}
		for _, f := range x.Struct.Fields {
			s.Types = append(s.Types, refLitType(f))
		}
		return &pb.Type{Kind: &pb.Type_Struct_{Struct: s}}
	case *pb.Expression_Literal_List_:
		return &pb.Type{Kind: &pb.Type_List_{List: &pb.Type_List{Nullability: n, TypeVariationReference: v, Type: refLitType(x.List.Values[0])}}}
	case *pb.Expression_Literal_Map_:
		return &pb.Type{Kind: &pb.Type_Map_{Map: &pb.Type_Map{Nullability: n, TypeVariationReference: v, Key: refLitType(x.Map.KeyValues[0].Key), Value: refLitType(x.Map.KeyValues[0].Value)}}}
	case *pb.Expression_Literal_EmptyList:
		return &pb.Type{Kind: &pb.Type_List_{List: &pb.Type_List{Nullability: n, TypeVariationReference: v, Type: x.EmptyList.Type}}}
	case *pb.Expression_Literal_EmptyMap:
		return &pb.Type{Kind: &pb.Type_Map_{Map: &pb.Type_Map{Nullability: n, TypeVariationReference: v, Key: x.EmptyMap.Key, Value: x.EmptyMap.Value}}}
	case *pb.Expression_Literal_UserDefined_:
		return &pb.Type{Kind: &pb.Type_UserDefined_{UserDefined: &pb.Type_UserDefined{Nullability: n, TypeVariationReference: v, TypeReference: x.UserDefined.GetTypeReference(), TypeParameters: x.UserDefined.TypeParameters}}}
	}
	panic(fmt.Sprintf("refLitType %T", l.LiteralType))
}

var emptyReg = func() expr.ExtensionRegistry { return expr.NewEmptyExtensionRegistry(&extensions.Collection{}) }

// judgeLit checks a literal obtained from (or expected to denote) want.
func judgeLit(t *T, l expr.Literal, want *pb.Expression_Literal) {
	t.Trans(1)
	nw := normLit(want)
	got := l.ToProtoLiteral()
	if g := normLit(got); !proto.Equal(g, nw) {
		t.Failf("literal became %s, want %s", show(g), show(nw))
		return
	}
	if e := l.ToProto(); !proto.Equal(e.GetLiteral(), got) {
		t.Failf("ToProto gives %s, ToProtoLiteral %s", show(e), show(got))
	}
	if a := l.ToProtoFuncArg(); !proto.Equal(a.GetValue().GetLiteral(), got) {
		t.Failf("ToProtoFuncArg gives %s", show(a))
	}
	wt := refLitType(want)
	lt := l.GetType()
	if lt == nil {
		t.Failf("no type")
		return
	}
	if g := types.TypeToProto(lt); !proto.Equal(g, wt) {
		t.Failf("type is %s, want %s", show(g), show(wt))
	}
	ref := types.TypeFromProto(wt)
	if !lt.Equals(ref) || !ref.Equals(lt) {
		t.Failf("type %v is not equal to the type of the message %v", lt, ref)
	}
	if lt.GetNullability() != ref.GetNullability() || lt.GetTypeVariationReference() != ref.GetTypeVariationReference() {
		t.Failf("nullability/variation %v/%d", lt.GetNullability(), lt.GetTypeVariationReference())
	}
	if !l.IsScalar() {
		t.Failf("literal is not scalar")
	}
	if v := l.Visit(func(e expr.Expression) expr.Expression { return e }); !l.Equals(v) {
		t.Failf("identity visit changes it")
	}
	if p := catch(func() { _ = l.String(); _ = l.ValueString() }); p != "" {
		t.Failf("printing: %s", p)
	}
	l2 := expr.LiteralFromProto(got)
	if l2 == nil {
		t.Failf("own protobuf form rejected: %s", show(got))
		return
	}
	if !proto.Equal(l2.ToProtoLiteral(), got) {
		t.Failf("second round trip changes it: %s vs %s", show(l2.ToProtoLiteral()), show(got))
	}
	if !l.Equals(l2) || !l2.Equals(l) || !l.Equals(l) {
		t.Failf("not equal to itself read back (%v %v %v)", l.Equals(l2), l2.Equals(l), l.Equals(l))
	}
	e, err := expr.ExprFromProto(l.ToProto(), nil, emptyReg())
	if err != nil || !e.Equals(l) {
		t.Failf("ExprFromProto: %v %v", e, err)
	}
	t.State(mtext(got))
	t.Validated()
}

func judgeProtoLit(t *T, p *pb.Expression_Literal) {
	in := proto.Clone(p).(*pb.Expression_Literal)
	l := expr.LiteralFromProto(p)
	if l == nil {
		t.Failf("valid literal rejected: %s", show(in))
		return
	}
	judgeLit(t, l, in)
	if !proto.Equal(p, in) {
		t.Failf("reading changed the message: %s -> %s", show(in), show(p))
	}
}

// judgeProtoLitAs judges the literal read from p against the message want.
func judgeProtoLitAs(t *T, p, want *pb.Expression_Literal) {
	l := expr.LiteralFromProto(p)
	if l == nil {
		t.Failf("valid literal rejected: %s", show(p))
		return
	}
	judgeLit(t, l, want)
}

func judgeBad(t *T, p *pb.Expression_Literal) {
	t.Trans(1)
	var l expr.Literal
	if pn := catch(func() { l = expr.LiteralFromProto(p) }); pn != "" {
		t.Failf("LiteralFromProto(%s): %s", show(p), pn)
		return
	}
	if l != nil && !reflect.ValueOf(l).IsZero() {
		t.Failf("malformed literal %s accepted as %T", show(p), l)
	}
	var e expr.Expression
	var err error
	if pn := catch(func() {
		e, err = expr.ExprFromProto(&pb.Expression{RexType: &pb.Expression_Literal_{Literal: p}}, nil, emptyReg())
	}); pn != "" {
		t.Failf("ExprFromProto(%s): %s", show(p), pn)
	} else if err == nil {
		t.Failf("ExprFromProto accepts malformed literal %s as %v", show(p), e)
	}
	t.Outcome("rejected")
}

type ctxWrap struct {
	name string
	f    func(*pb.Expression_Literal) *pb.Expression_Literal
}

func litContexts() []ctxWrap {
	i := func() *pb.Expression_Literal {
		return &pb.Expression_Literal{LiteralType: &pb.Expression_Literal_I32{I32: 9}}
	}
	return []ctxWrap{
		{"list1", func(l *pb.Expression_Literal) *pb.Expression_Literal { return litList(l) }},
		{"list2", func(l *pb.Expression_Literal) *pb.Expression_Literal {
			return litList(proto.Clone(l).(*pb.Expression_Literal), l)
		}},
		{"struct1", func(l *pb.Expression_Literal) *pb.Expression_Literal { return litStruct(l) }},
		{"struct-first", func(l *pb.Expression_Literal) *pb.Expression_Literal { return litStruct(l, i()) }},
		{"struct-last", func(l *pb.Expression_Literal) *pb.Expression_Literal { return litStruct(i(), l) }},
		{"map-key", func(l *pb.Expression_Literal) *pb.Expression_Literal { return litMap(l, i()) }},
		{"map-value", func(l *pb.Expression_Literal) *pb.Expression_Literal { return litMap(i(), l) }},
		{"map-second", func(l *pb.Expression_Literal) *pb.Expression_Literal {
			c := func() *pb.Expression_Literal { return proto.Clone(l).(*pb.Expression_Literal) }
			return litMap(c(), c(), c(), l)
		}},
	}
}

func runC08(c *Ctx) {
	c08sized(c)
	leaves := leafLits()
	ctxs := litContexts()
	for _, m := range leaves {
		c.Dim("kind", m.kind)
		for _, nul := range []bool{false, true} {
			for _, v := range []uint32{0, 7} {
				c.Case(func(t *T) {
					judgeProtoLit(t, flags(m.mk(), nul, v))
					for _, w := range ctxs {
						for _, on := range []bool{false, true} {
							for _, ov := range []uint32{0, 7} {
								judgeProtoLit(t, flags(w.f(flags(m.mk(), nul, v)), on, ov))
							}
						}
						for _, w2 := range ctxs {
							judgeProtoLit(t, flags(w2.f(flags(w.f(flags(m.mk(), nul, v)), nul, 7-v)), !nul, v))
							if c.Thorough {
								for _, w3 := range ctxs {
									judgeProtoLit(t, w3.f(flags(w2.f(flags(w.f(flags(m.mk(), nul, v)), nul, 7-v)), !nul, v)))
								}
							}
						}
					}
				}, "leaf", m.name, nul, v)
			}
		}
	}
	// Pairs in structs and maps.
	var firsts []lmaker
	seen := map[string]int{}
	per := 1
	if c.Thorough {
		per = 4
	}
	for _, m := range leaves {
		if seen[m.kind] < per {
			seen[m.kind]++
			firsts = append(firsts, m)
		}
	}
	for _, a := range firsts {
		for _, b := range firsts {
			c.Case(func(t *T) {
				for k := 0; k < 4; k++ {
					an, bn := k&1 == 1, k&2 == 2
					judgeProtoLit(t, litStruct(flags(a.mk(), an, 0), flags(b.mk(), bn, 7)))
					judgeProtoLit(t, litMap(flags(a.mk(), an, 7), flags(b.mk(), bn, 0)))
					judgeProtoLit(t, flags(litList(litStruct(flags(a.mk(), an, 0), flags(b.mk(), bn, 7)), litStruct(flags(a.mk(), an, 0), flags(b.mk(), bn, 7))), an, 0))
				}
			}, "pair", a.name, b.name)
		}
	}
	// Lists and maps of several distinct values of one kind keep their order.
	byKind := map[string][]lmaker{}
	var kinds []string
	for _, m := range leaves {
		if byKind[m.kind] == nil {
			kinds = append(kinds, m.kind)
		}
		byKind[m.kind] = append(byKind[m.kind], m)
	}
	for _, k := range kinds {
		ms := byKind[k]
		c.Case(func(t *T) {
			for i := range ms {
				for j := range ms {
					a, b := ms[i].mk(), ms[j].mk()
					if !proto.Equal(refLitType(a), refLitType(b)) || (!c.Thorough && j-i > 8) {
						continue
					}
					judgeProtoLit(t, litList(a, b, ms[i].mk()))
					judgeProtoLit(t, litMap(ms[i].mk(), ms[j].mk(), ms[j].mk(), ms[i].mk()))
				}
			}
		}, "ordered", k)
	}
	// Typed nulls and empty collections over all types.
	for _, pty := range typeUniverse(c.Thorough) {
		ty := pty.p
		c.Case(func(t *T) {
			cl := func() *pb.Type { return proto.Clone(ty).(*pb.Type) }
			judgeProtoLit(t, flags(&pb.Expression_Literal{LiteralType: &pb.Expression_Literal_Null{Null: cl()}}, true, 0))
			judgeProtoLit(t, litStruct(&pb.Expression_Literal{LiteralType: &pb.Expression_Literal_Null{Null: cl()}}))
			for _, nul := range []bool{false, true} {
				n := nReq
				if nul {
					n = nNul
				}
				for _, v := range []uint32{0, 7} {
					judgeProtoLit(t, flags(&pb.Expression_Literal{LiteralType: &pb.Expression_Literal_EmptyList{EmptyList: &pb.Type_List{Type: cl(), Nullability: n, TypeVariationReference: v}}}, nul, v))
					judgeProtoLit(t, flags(&pb.Expression_Literal{LiteralType: &pb.Expression_Literal_EmptyMap{EmptyMap: &pb.Type_Map{Key: cl(), Value: pbList(nNul, 0, cl()), Nullability: n, TypeVariationReference: v}}}, nul, v))
				}
			}
			// The literal's own nullability and variation are authoritative over
			// the copies inside an empty list or map type.
			for _, outer := range []struct {
				nul bool
				v   uint32
			}{{false, 0}, {true, 0}, {false, 7}, {true, 7}} {
				on := nReq
				if outer.nul {
					on = nNul
				}
				for _, n := range []pb.Type_Nullability{nReq, nNul, nUns} {
					for _, v := range []uint32{0, 9} {
						judgeProtoLitAs(t, flags(&pb.Expression_Literal{LiteralType: &pb.Expression_Literal_EmptyList{EmptyList: &pb.Type_List{Type: cl(), Nullability: n, TypeVariationReference: v}}}, outer.nul, outer.v),
							flags(&pb.Expression_Literal{LiteralType: &pb.Expression_Literal_EmptyList{EmptyList: &pb.Type_List{Type: cl(), Nullability: on, TypeVariationReference: outer.v}}}, outer.nul, outer.v))
						judgeProtoLitAs(t, flags(&pb.Expression_Literal{LiteralType: &pb.Expression_Literal_EmptyMap{EmptyMap: &pb.Type_Map{Key: cl(), Value: cl(), Nullability: n, TypeVariationReference: v}}}, outer.nul, outer.v),
							flags(&pb.Expression_Literal{LiteralType: &pb.Expression_Literal_EmptyMap{EmptyMap: &pb.Type_Map{Key: cl(), Value: cl(), Nullability: on, TypeVariationReference: outer.v}}}, outer.nul, outer.v))
					}
				}
			}
			gt := types.TypeFromProto(cl())
			judgeLit(t, expr.NewNullLiteral(gt), flags(&pb.Expression_Literal{LiteralType: &pb.Expression_Literal_Null{Null: types.TypeToProto(gt.WithNullability(types.NullabilityNullable))}}, true, 0))
			for _, nul := range []bool{false, true} {
				n := nReq
				if nul {
					n = nNul
				}
				el := flags(&pb.Expression_Literal{LiteralType: &pb.Expression_Literal_EmptyList{EmptyList: &pb.Type_List{Type: cl(), Nullability: n}}}, nul, 0)
				judgeLit(t, expr.NewEmptyListLiteral(gt, nul), el)
				if l, err := literal.NewEmptyList(gt, nul); err != nil {
					t.Failf("NewEmptyList: %v", err)
				} else {
					judgeLit(t, l, el)
				}
				gv := types.TypeFromProto(pbList(nNul, 0, cl()))
				em := flags(&pb.Expression_Literal{LiteralType: &pb.Expression_Literal_EmptyMap{EmptyMap: &pb.Type_Map{Key: cl(), Value: pbList(nNul, 0, cl()), Nullability: n}}}, nul, 0)
				judgeLit(t, expr.NewEmptyMapLiteral(gt, gv, nul), em)
				if l, err := literal.NewEmptyMap(gt, gv, nul); err != nil {
					t.Failf("NewEmptyMap: %v", err)
				} else {
					judgeLit(t, l, em)
				}
			}
		}, "typed", show(ty))
	}
	// Malformed messages, alone and at every nesting position.
	for _, m := range badLits() {
		c.Case(func(t *T) {
			judgeBad(t, m.mk())
			for _, w := range ctxs {
				judgeBad(t, w.f(m.mk()))
				for _, w2 := range ctxs {
					judgeBad(t, w2.f(w.f(m.mk())))
				}
			}
			good := &pb.Expression_Literal{LiteralType: &pb.Expression_Literal_I32{I32: 9}}
			judgeBad(t, litList(good, m.mk()))
			judgeBad(t, litMap(good, good, m.mk(), good))
			judgeBad(t, litMap(good, good, good, m.mk()))
		}, "bad", m.name)
	}
	c08construct(c)
}

// c08construct: literals made from Go values.
func c08construct(c *Ctx) {
	one := func(name string, mk func(nullable bool) (expr.Literal, error), want *pb.Expression_Literal, value any) {
		for _, nul := range []bool{false, true} {
			c.Case(func(t *T) {
				l, err := mk(nul)
				if want == nil {
					if err == nil {
						t.Failf("%s accepted as %T %v", name, l, l)
					}
					return
				}
				if err != nil || l == nil {
					t.Failf("%s rejected: %v", name, err)
					return
				}
				judgeLit(t, l, flags(proto.Clone(want).(*pb.Expression_Literal), nul, 0))
				if value != nil {
					f := reflect.ValueOf(l)
					for f.Kind() == reflect.Ptr {
						f = f.Elem()
					}
					g := f.FieldByName("Value")
					if !g.IsValid() || !reflect.DeepEqual(g.Interface(), value) {
						if x, ok := value.(float64); !ok || !math.IsNaN(x) {
							t.Failf("%s holds %v, want %v", name, g, value)
						}
					}
				}
			}, "construct", name, nul)
		}
	}
	L := func(x *pb.Expression_Literal) *pb.Expression_Literal { return x }
	for _, v := range []bool{false, true} {
		w := &pb.Expression_Literal{LiteralType: &pb.Expression_Literal_Boolean{Boolean: v}}
		one(fmt.Sprint("NewBool", v), func(n bool) (expr.Literal, error) { return literal.NewBool(v, n), nil }, w, v)
		one(fmt.Sprint("NewLiteral bool", v), func(n bool) (expr.Literal, error) { return expr.NewLiteral(v, n) }, w, v)
	}
	for _, v := range []int64{0, 1, -1, 127, -128, 32767, -32768, math.MaxInt32, math.MinInt32, math.MaxInt64, math.MinInt64} {
		if v == int64(int8(v)) {
			w := L(&pb.Expression_Literal{LiteralType: &pb.Expression_Literal_I8{I8: int32(v)}})
			one(fmt.Sprint("NewInt8 ", v), func(n bool) (expr.Literal, error) { return literal.NewInt8(int8(v), n), nil }, w, int8(v))
			one(fmt.Sprint("NewLiteral i8 ", v), func(n bool) (expr.Literal, error) { return expr.NewLiteral(int8(v), n) }, w, int8(v))
		}
		if v == int64(int16(v)) {
			w := L(&pb.Expression_Literal{LiteralType: &pb.Expression_Literal_I16{I16: int32(v)}})
			one(fmt.Sprint("NewInt16 ", v), func(n bool) (expr.Literal, error) { return literal.NewInt16(int16(v), n), nil }, w, int16(v))
			one(fmt.Sprint("NewLiteral i16 ", v), func(n bool) (expr.Literal, error) { return expr.NewLiteral(int16(v), n) }, w, int16(v))
		}
		if v == int64(int32(v)) {
			w := L(&pb.Expression_Literal{LiteralType: &pb.Expression_Literal_I32{I32: int32(v)}})
			one(fmt.Sprint("NewInt32 ", v), func(n bool) (expr.Literal, error) { return literal.NewInt32(int32(v), n), nil }, w, int32(v))
			one(fmt.Sprint("NewLiteral i32 ", v), func(n bool) (expr.Literal, error) { return expr.NewLiteral(int32(v), n) }, w, int32(v))
			wd := L(&pb.Expression_Literal{LiteralType: &pb.Expression_Literal_Date{Date: int32(v)}})
			one(fmt.Sprint("NewDate ", v), func(n bool) (expr.Literal, error) { return literal.NewDate(int(v), n) }, wd, types.Date(v))
			one(fmt.Sprint("NewLiteral date ", v), func(n bool) (expr.Literal, error) { return expr.NewLiteral(types.Date(v), n) }, wd, types.Date(v))
			wy := L(&pb.Expression_Literal{LiteralType: &pb.Expression_Literal_IntervalYearToMonth_{IntervalYearToMonth: ivYear(int32(v), 3)}})
			one(fmt.Sprint("NewIntervalYearsToMonth ", v), func(n bool) (expr.Literal, error) { return literal.NewIntervalYearsToMonth(int32(v), 3, n) }, wy, nil)
			wday := L(&pb.Expression_Literal{LiteralType: &pb.Expression_Literal_IntervalDayToSecond_{IntervalDayToSecond: ivDay(int32(v), -4, 5, 6)}})
			one(fmt.Sprint("NewIntervalDaysToSecond ", v), func(n bool) (expr.Literal, error) { return literal.NewIntervalDaysToSecond(int32(v), -4, 5, n) }, wday, nil)
			for p := int32(-1); p <= 10; p++ {
				wp := L(&pb.Expression_Literal{LiteralType: &pb.Expression_Literal_IntervalDayToSecond_{IntervalDayToSecond: ivDay(int32(v), 4, 5, p)}})
				if p < 0 || p > 9 {
					wp = nil
				}
				one(fmt.Sprint("NewLiteral interval_day ", v, p), func(n bool) (expr.Literal, error) { return expr.NewLiteral(ivDay(int32(v), 4, 5, p), n) }, wp, nil)
			}
			one(fmt.Sprint("compound", v), func(n bool) (expr.Literal, error) {
				nn := types.NullabilityRequired
				if n {
					nn = types.NullabilityNullable
				}
				return expr.IntervalCompoundLiteral{Years: int32(v), Months: 1, Days: 2, Seconds: int32(v), SubSeconds: 7, SubSecondPrecision: 4, Nullability: nn}, nil
			}, &pb.Expression_Literal{LiteralType: &pb.Expression_Literal_IntervalCompound_{IntervalCompound: &pb.Expression_Literal_IntervalCompound{IntervalYearToMonth: ivYear(int32(v), 1), IntervalDayToSecond: ivDay(2, int32(v), 7, 4)}}}, nil)
			one(fmt.Sprint("yeartomonth", v), func(n bool) (expr.Literal, error) {
				nn := types.NullabilityRequired
				if n {
					nn = types.NullabilityNullable
				}
				return expr.IntervalYearToMonthLiteral{Years: int32(v), Months: 3, Nullability: nn}, nil
			}, wy, nil)
		}
		w := L(&pb.Expression_Literal{LiteralType: &pb.Expression_Literal_I64{I64: v}})
		one(fmt.Sprint("NewInt64 ", v), func(n bool) (expr.Literal, error) { return literal.NewInt64(v, n), nil }, w, v)
		one(fmt.Sprint("NewLiteral i64 ", v), func(n bool) (expr.Literal, error) { return expr.NewLiteral(v, n) }, w, v)
		one(fmt.Sprint("NewLiteral ts ", v), func(n bool) (expr.Literal, error) { return expr.NewLiteral(types.Timestamp(v), n) }, &pb.Expression_Literal{LiteralType: &pb.Expression_Literal_Timestamp{Timestamp: v}}, types.Timestamp(v))
		one(fmt.Sprint("NewLiteral tstz ", v), func(n bool) (expr.Literal, error) { return expr.NewLiteral(types.TimestampTz(v), n) }, &pb.Expression_Literal{LiteralType: &pb.Expression_Literal_TimestampTz{TimestampTz: v}}, types.TimestampTz(v))
		one(fmt.Sprint("NewLiteral time ", v), func(n bool) (expr.Literal, error) { return expr.NewLiteral(types.Time(v), n) }, &pb.Expression_Literal{LiteralType: &pb.Expression_Literal_Time{Time: v}}, types.Time(v))
		for p := int32(-1); p <= 10; p++ {
			ok := p >= 0 && p <= 9
			sel := func(l *pb.Expression_Literal) *pb.Expression_Literal {
				if !ok {
					return nil
				}
				return l
			}
			P := types.TimePrecision(p)
			pt := &pb.Expression_Literal_PrecisionTimestamp{Precision: p, Value: v}
			one(fmt.Sprint("NewPrecisionTimestamp", v, p), func(n bool) (expr.Literal, error) { return literal.NewPrecisionTimestamp(P, v, n) }, sel(&pb.Expression_Literal{LiteralType: &pb.Expression_Literal_PrecisionTimestamp_{PrecisionTimestamp: pt}}), v)
			one(fmt.Sprint("NewPrecisionTimestampTz", v, p), func(n bool) (expr.Literal, error) { return literal.NewPrecisionTimestampTz(P, v, n) }, sel(&pb.Expression_Literal{LiteralType: &pb.Expression_Literal_PrecisionTimestampTz{PrecisionTimestampTz: pt}}), v)
			if v >= 0 {
				one(fmt.Sprint("NewPrecisionTime", v, p), func(n bool) (expr.Literal, error) { return literal.NewPrecisionTime(P, v, n) }, sel(&pb.Expression_Literal{LiteralType: &pb.Expression_Literal_PrecisionTime_{PrecisionTime: &pb.Expression_Literal_PrecisionTime{Precision: p, Value: v}}}), v)
			}
		}
	}
	for _, v := range []float64{0, 1.5, -2.25, math.MaxFloat32, math.Inf(1), math.NaN()} {
		w := L(&pb.Expression_Literal{LiteralType: &pb.Expression_Literal_Fp32{Fp32: float32(v)}})
		one(fmt.Sprint("NewFloat32", v), func(n bool) (expr.Literal, error) { return literal.NewFloat32(float32(v), n), nil }, w, nil)
		one(fmt.Sprint("NewLiteral fp32", v), func(n bool) (expr.Literal, error) { return expr.NewLiteral(float32(v), n) }, w, nil)
		w = L(&pb.Expression_Literal{LiteralType: &pb.Expression_Literal_Fp64{Fp64: v}})
		one(fmt.Sprint("NewFloat64", v), func(n bool) (expr.Literal, error) { return literal.NewFloat64(v, n), nil }, w, v)
		one(fmt.Sprint("NewLiteral fp64", v), func(n bool) (expr.Literal, error) { return expr.NewLiteral(v, n) }, w, v)
	}
	for _, v := range []string{"", "a", "abc", "é☃"} {
		w := L(&pb.Expression_Literal{LiteralType: &pb.Expression_Literal_String_{String_: v}})
		one("NewString "+v, func(n bool) (expr.Literal, error) { return literal.NewString(v, n), nil }, w, v)
		one("NewLiteral string "+v, func(n bool) (expr.Literal, error) { return expr.NewLiteral(v, n) }, w, v)
		wf := L(&pb.Expression_Literal{LiteralType: &pb.Expression_Literal_FixedChar{FixedChar: v}})
		one("NewFixedChar "+v, func(n bool) (expr.Literal, error) { return literal.NewFixedChar(v, n) }, wf, types.FixedChar(v))
		wv := L(&pb.Expression_Literal{LiteralType: &pb.Expression_Literal_VarChar_{VarChar: &pb.Expression_Literal_VarChar{Value: v, Length: uint32(utf8.RuneCountInString(v))}}})
		one("NewVarChar "+v, func(n bool) (expr.Literal, error) { return literal.NewVarChar(v, n) }, wv, v)
		b := []byte(v)
		wb := L(&pb.Expression_Literal{LiteralType: &pb.Expression_Literal_Binary{Binary: b}})
		one("NewLiteral binary "+v, func(n bool) (expr.Literal, error) { return expr.NewLiteral(b, n) }, wb, b)
		wfb := L(&pb.Expression_Literal{LiteralType: &pb.Expression_Literal_FixedBinary{FixedBinary: b}})
		one("NewFixedBinary "+v, func(n bool) (expr.Literal, error) { return literal.NewFixedBinary(b, n) }, wfb, types.FixedBinary(b))
	}
	for i := 0; i < 3; i++ {
		var u uuid.UUID
		for j := range u {
			u[j] = byte(i * (j + 1) * 16)
		}
		w := L(&pb.Expression_Literal{LiteralType: &pb.Expression_Literal_Uuid{Uuid: u[:]}})
		one(fmt.Sprint("NewUUID", i), func(n bool) (expr.Literal, error) { return literal.NewUUID(u, n) }, w, types.UUID(u[:]))
		one(fmt.Sprint("NewUUIDFromBytes", i), func(n bool) (expr.Literal, error) { return literal.NewUUIDFromBytes(u[:], n) }, w, types.UUID(u[:]))
		for _, ps := range [][2]int32{{38, 0}, {10, 2}, {0, 0}, {39, 0}, {5, 6}, {5, -1}, {38, 38}, {1, 1}} {
			wd := L(&pb.Expression_Literal{LiteralType: &pb.Expression_Literal_Decimal_{Decimal: &pb.Expression_Literal_Decimal{Value: u[:], Precision: ps[0], Scale: ps[1]}}})
			if ps[0] < 1 || ps[0] > 38 || ps[1] < 0 || ps[1] > ps[0] {
				wd = nil
			}
			one(fmt.Sprint("NewDecimalFromTwosComplement", i, ps), func(n bool) (expr.Literal, error) {
				return literal.NewDecimalFromTwosComplement(u[:], ps[0], ps[1], n)
			}, wd, nil)
		}
		for _, k := range []int{0, 15, 17} {
			one(fmt.Sprint("NewDecimalFromTwosComplement short", k), func(n bool) (expr.Literal, error) {
				return literal.NewDecimalFromTwosComplement(make([]byte, k), 10, 2, n)
			}, nil, nil)
		}
	}
	// Collections from element literals: all element lists up to length 3 over a pool.
	pool := []struct {
		l expr.Literal
		p *pb.Expression_Literal
	}{
		{literal.NewInt32(1, false), &pb.Expression_Literal{LiteralType: &pb.Expression_Literal_I32{I32: 1}}},
		{literal.NewInt32(2, false), &pb.Expression_Literal{LiteralType: &pb.Expression_Literal_I32{I32: 2}}},
		{literal.NewInt32(1, true), flags(&pb.Expression_Literal{LiteralType: &pb.Expression_Literal_I32{I32: 1}}, true, 0)},
		{literal.NewInt64(1, false), &pb.Expression_Literal{LiteralType: &pb.Expression_Literal_I64{I64: 1}}},
		{literal.NewString("a", false), &pb.Expression_Literal{LiteralType: &pb.Expression_Literal_String_{String_: "a"}}},
		{expr.NewNullLiteral(&types.Int32Type{Nullability: types.NullabilityNullable}), flags(&pb.Expression_Literal{LiteralType: &pb.Expression_Literal_Null{Null: &pb.Type{Kind: &pb.Type_I32_{I32: &pb.Type_I32{Nullability: nNul}}}}}, true, 0)},
		{nil, nil},
	}
	var idx [][]int
	for n := 0; n <= 3; n++ {
		cur := make([]int, n)
		for {
			idx = append(idx, append([]int(nil), cur...))
			k := n - 1
			for ; k >= 0; k-- {
				cur[k]++
				if cur[k] < len(pool) {
					break
				}
				cur[k] = 0
			}
			if k < 0 {
				break
			}
		}
	}
	for _, ix := range idx {
		var ls []expr.Literal
		var ps []*pb.Expression_Literal
		uniform, hasNil := true, false
		for _, i := range ix {
			ls = append(ls, pool[i].l)
			ps = append(ps, pool[i].p)
			hasNil = hasNil || pool[i].l == nil
		}
		if !hasNil {
			for _, p := range ps {
				uniform = uniform && proto.Equal(refLitType(p), refLitType(ps[0]))
			}
		}
		ok := !hasNil && uniform && len(ls) > 0
		var wl *pb.Expression_Literal
		if ok {
			wl = litList(ps...)
		}
		one(fmt.Sprint("NewList ", ix), func(n bool) (expr.Literal, error) { return literal.NewList(ls, n) }, wl, nil)
		if !hasNil {
			one(fmt.Sprint("struct ", ix), func(n bool) (expr.Literal, error) { return expr.NewLiteral(expr.StructLiteralValue(ls), n) }, litStruct(ps...), nil)
			if len(ls) > 0 {
				one(fmt.Sprint("NewUserDefinedLiteral ", ix), func(n bool) (expr.Literal, error) {
					return literal.NewUserDefinedLiteral(5, expr.StructLiteralValue(ls), n, []types.TypeParam{types.IntegerParameter(3), types.StringParameter("s")})
				}, &pb.Expression_Literal{LiteralType: &pb.Expression_Literal_UserDefined_{UserDefined: &pb.Expression_Literal_UserDefined{TypeAnchorType: &pb.Expression_Literal_UserDefined_TypeReference{TypeReference: 5},
					TypeParameters: []*pb.Type_Parameter{{Parameter: &pb.Type_Parameter_Integer{Integer: 3}}, {Parameter: &pb.Type_Parameter_String_{String_: "s"}}},
					Val:            &pb.Expression_Literal_UserDefined_Struct{Struct: &pb.Expression_Literal_Struct{Fields: ps}}}}}, nil)
			}
		}
		// maps: the list gives keys, its reverse gives values
		var m expr.MapLiteralValue
		var kv []*pb.Expression_Literal
		for i := range ls {
			j := (i + 1) % len(ls)
			m = append(m, struct{ Key, Value expr.Literal }{ls[i], ls[j]})
			kv = append(kv, ps[i], ps[j])
		}
		var wm *pb.Expression_Literal
		if ok {
			wm = litMap(kv...)
		}
		one(fmt.Sprint("NewMap ", ix), func(n bool) (expr.Literal, error) { return literal.NewMap(m, n) }, wm, nil)
	}
	// long lists and maps, sound or with one other element
	for _, size := range []int{4, 5, 8, 9, 16, 17, 33, 64, 65, 66, 129, 300} {
		for _, at := range []int{-1, 0, 1, 2, size / 2, size - 2, size - 1} {
			for bi := 1; bi < len(pool); bi++ {
				var ls []expr.Literal
				var ps, kv, vk []*pb.Expression_Literal
				var byKey, byValue expr.MapLiteralValue
				for i := range size {
					x, k := pool[0], pool[1]
					if i%2 == 1 {
						x = pool[1]
					}
					if i == at {
						x = pool[bi]
					}
					ls, ps = append(ls, x.l), append(ps, x.p)
					kv, vk = append(kv, x.p, k.p), append(vk, k.p, x.p)
					byKey = append(byKey, struct{ Key, Value expr.Literal }{x.l, k.l})
					byValue = append(byValue, struct{ Key, Value expr.Literal }{k.l, x.l})
				}
				var w, wk, wv *pb.Expression_Literal
				if at < 0 || bi == 1 {
					w, wk, wv = litList(ps...), litMap(kv...), litMap(vk...)
				}
				one(fmt.Sprint("NewList of ", size, at, bi), func(n bool) (expr.Literal, error) { return literal.NewList(ls, n) }, w, nil)
				one(fmt.Sprint("NewMap keys of ", size, at, bi), func(n bool) (expr.Literal, error) { return literal.NewMap(byKey, n) }, wk, nil)
				one(fmt.Sprint("NewMap values of ", size, at, bi), func(n bool) (expr.Literal, error) { return literal.NewMap(byValue, n) }, wv, nil)
			}
		}
	}
	// mixed key and value types in a map
	for _, bad := range []bool{false, true} {
		k2 := literal.NewInt64(9, false)
		w := litMap(pool[0].p, pool[4].p, &pb.Expression_Literal{LiteralType: &pb.Expression_Literal_I64{I64: 9}}, pool[4].p)
		if bad {
			w = nil
		} else {
			k2, w = literal.NewInt32(9, false), litMap(pool[0].p, pool[4].p, &pb.Expression_Literal{LiteralType: &pb.Expression_Literal_I32{I32: 9}}, pool[4].p)
		}
		one(fmt.Sprint("NewMap keys ", bad), func(n bool) (expr.Literal, error) {
			return literal.NewMap(expr.MapLiteralValue{{Key: pool[0].l, Value: pool[4].l}, {Key: k2, Value: pool[4].l}}, n)
		}, w, nil)
		v2 := literal.NewString("z", bad)
		w = litMap(pool[0].p, pool[4].p, pool[1].p, &pb.Expression_Literal{LiteralType: &pb.Expression_Literal_String_{String_: "z"}})
		if bad {
			w = nil
		}
		one(fmt.Sprint("NewMap values ", bad), func(n bool) (expr.Literal, error) {
			return literal.NewMap(expr.MapLiteralValue{{Key: pool[0].l, Value: pool[4].l}, {Key: pool[1].l, Value: v2}}, n)
		}, w, nil)
	}
	c.Case(func(t *T) {
		if _, err := literal.NewEmptyList(nil, false); err == nil {
			t.Failf("NewEmptyList(nil) accepted")
		}
		i := &types.Int32Type{}
		if _, err := literal.NewEmptyMap(nil, i, false); err == nil {
			t.Failf("NewEmptyMap(nil key) accepted")
		}
		if _, err := literal.NewEmptyMap(i, nil, false); err == nil {
			t.Failf("NewEmptyMap(nil value) accepted")
		}
	}, "construct", "empty nil")
}
