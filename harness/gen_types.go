// Shared generators: the bounded type grammar as protobuf messages (the
// specification side of a type).
package main

import (
	"fmt"
	"google.golang.org/protobuf/types/known/emptypb"

	pb "github.com/substrait-io/substrait-protobuf/go/substraitpb"
	"google.golang.org/protobuf/encoding/prototext"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
)

const (
	nReq = pb.Type_NULLABILITY_REQUIRED
	nNul = pb.Type_NULLABILITY_NULLABLE
	nUns = pb.Type_NULLABILITY_UNSPECIFIED
)

// leafKinds returns a maker for every non-nested type kind and parameter value.
type tmaker struct {
	name string
	mk   func(n pb.Type_Nullability, v uint32) *pb.Type
}

func leafMakers() []tmaker {
	var r []tmaker
	add := func(name string, mk func(n pb.Type_Nullability, v uint32) *pb.Type) { r = append(r, tmaker{name, mk}) }
	add("boolean", func(n pb.Type_Nullability, v uint32) *pb.Type {
		return &pb.Type{Kind: &pb.Type_Bool{Bool: &pb.Type_Boolean{Nullability: n, TypeVariationReference: v}}}
	})
	add("i8", func(n pb.Type_Nullability, v uint32) *pb.Type {
		return &pb.Type{Kind: &pb.Type_I8_{I8: &pb.Type_I8{Nullability: n, TypeVariationReference: v}}}
	})
	add("i16", func(n pb.Type_Nullability, v uint32) *pb.Type {
		return &pb.Type{Kind: &pb.Type_I16_{I16: &pb.Type_I16{Nullability: n, TypeVariationReference: v}}}
	})
	add("i32", func(n pb.Type_Nullability, v uint32) *pb.Type {
		return &pb.Type{Kind: &pb.Type_I32_{I32: &pb.Type_I32{Nullability: n, TypeVariationReference: v}}}
	})
	add("i64", func(n pb.Type_Nullability, v uint32) *pb.Type {
		return &pb.Type{Kind: &pb.Type_I64_{I64: &pb.Type_I64{Nullability: n, TypeVariationReference: v}}}
	})
	add("fp32", func(n pb.Type_Nullability, v uint32) *pb.Type {
		return &pb.Type{Kind: &pb.Type_Fp32{Fp32: &pb.Type_FP32{Nullability: n, TypeVariationReference: v}}}
	})
	add("fp64", func(n pb.Type_Nullability, v uint32) *pb.Type {
		return &pb.Type{Kind: &pb.Type_Fp64{Fp64: &pb.Type_FP64{Nullability: n, TypeVariationReference: v}}}
	})
	add("string", func(n pb.Type_Nullability, v uint32) *pb.Type {
		return &pb.Type{Kind: &pb.Type_String_{String_: &pb.Type_String{Nullability: n, TypeVariationReference: v}}}
	})
	add("binary", func(n pb.Type_Nullability, v uint32) *pb.Type {
		return &pb.Type{Kind: &pb.Type_Binary_{Binary: &pb.Type_Binary{Nullability: n, TypeVariationReference: v}}}
	})
	add("timestamp", func(n pb.Type_Nullability, v uint32) *pb.Type {
		return &pb.Type{Kind: &pb.Type_Timestamp_{Timestamp: &pb.Type_Timestamp{Nullability: n, TypeVariationReference: v}}}
	})
	add("date", func(n pb.Type_Nullability, v uint32) *pb.Type {
		return &pb.Type{Kind: &pb.Type_Date_{Date: &pb.Type_Date{Nullability: n, TypeVariationReference: v}}}
	})
	add("time", func(n pb.Type_Nullability, v uint32) *pb.Type {
		return &pb.Type{Kind: &pb.Type_Time_{Time: &pb.Type_Time{Nullability: n, TypeVariationReference: v}}}
	})
	add("interval_year", func(n pb.Type_Nullability, v uint32) *pb.Type {
		return &pb.Type{Kind: &pb.Type_IntervalYear_{IntervalYear: &pb.Type_IntervalYear{Nullability: n, TypeVariationReference: v}}}
	})
	add("timestamp_tz", func(n pb.Type_Nullability, v uint32) *pb.Type {
		return &pb.Type{Kind: &pb.Type_TimestampTz{TimestampTz: &pb.Type_TimestampTZ{Nullability: n, TypeVariationReference: v}}}
	})
	add("uuid", func(n pb.Type_Nullability, v uint32) *pb.Type {
		return &pb.Type{Kind: &pb.Type_Uuid{Uuid: &pb.Type_UUID{Nullability: n, TypeVariationReference: v}}}
	})
	for _, l := range []int32{1, 10, 2147483647} {
		add(fmt.Sprintf("fixedchar<%d>", l), func(n pb.Type_Nullability, v uint32) *pb.Type {
			return &pb.Type{Kind: &pb.Type_FixedChar_{FixedChar: &pb.Type_FixedChar{Length: l, Nullability: n, TypeVariationReference: v}}}
		})
		add(fmt.Sprintf("varchar<%d>", l), func(n pb.Type_Nullability, v uint32) *pb.Type {
			return &pb.Type{Kind: &pb.Type_Varchar{Varchar: &pb.Type_VarChar{Length: l, Nullability: n, TypeVariationReference: v}}}
		})
		add(fmt.Sprintf("fixedbinary<%d>", l), func(n pb.Type_Nullability, v uint32) *pb.Type {
			return &pb.Type{Kind: &pb.Type_FixedBinary_{FixedBinary: &pb.Type_FixedBinary{Length: l, Nullability: n, TypeVariationReference: v}}}
		})
	}
	for _, ps := range [][2]int32{{38, 0}, {10, 2}, {2, 1}, {1, 0}, {38, 38}, {2, 2}} {
		add(fmt.Sprintf("decimal<%d,%d>", ps[0], ps[1]), func(n pb.Type_Nullability, v uint32) *pb.Type {
			return &pb.Type{Kind: &pb.Type_Decimal_{Decimal: &pb.Type_Decimal{Precision: ps[0], Scale: ps[1], Nullability: n, TypeVariationReference: v}}}
		})
	}
	for p := int32(0); p <= 9; p++ {
		add(fmt.Sprintf("precision_time<%d>", p), func(n pb.Type_Nullability, v uint32) *pb.Type {
			return &pb.Type{Kind: &pb.Type_PrecisionTime_{PrecisionTime: &pb.Type_PrecisionTime{Precision: p, Nullability: n, TypeVariationReference: v}}}
		})
		add(fmt.Sprintf("precision_timestamp<%d>", p), func(n pb.Type_Nullability, v uint32) *pb.Type {
			return &pb.Type{Kind: &pb.Type_PrecisionTimestamp_{PrecisionTimestamp: &pb.Type_PrecisionTimestamp{Precision: p, Nullability: n, TypeVariationReference: v}}}
		})
		add(fmt.Sprintf("precision_timestamp_tz<%d>", p), func(n pb.Type_Nullability, v uint32) *pb.Type {
			return &pb.Type{Kind: &pb.Type_PrecisionTimestampTz{PrecisionTimestampTz: &pb.Type_PrecisionTimestampTZ{Precision: p, Nullability: n, TypeVariationReference: v}}}
		})
		add(fmt.Sprintf("interval_day<%d>", p), func(n pb.Type_Nullability, v uint32) *pb.Type {
			q := p
			return &pb.Type{Kind: &pb.Type_IntervalDay_{IntervalDay: &pb.Type_IntervalDay{Precision: &q, Nullability: n, TypeVariationReference: v}}}
		})
		add(fmt.Sprintf("interval_compound<%d>", p), func(n pb.Type_Nullability, v uint32) *pb.Type {
			return &pb.Type{Kind: &pb.Type_IntervalCompound_{IntervalCompound: &pb.Type_IntervalCompound{Precision: p, Nullability: n, TypeVariationReference: v}}}
		})
	}
	return r
}

func pbStruct(n pb.Type_Nullability, v uint32, ts ...*pb.Type) *pb.Type {
	return &pb.Type{Kind: &pb.Type_Struct_{Struct: &pb.Type_Struct{Types: ts, Nullability: n, TypeVariationReference: v}}}
}
func pbList(n pb.Type_Nullability, v uint32, t *pb.Type) *pb.Type {
	return &pb.Type{Kind: &pb.Type_List_{List: &pb.Type_List{Type: t, Nullability: n, TypeVariationReference: v}}}
}
func pbMap(n pb.Type_Nullability, v uint32, k, val *pb.Type) *pb.Type {
	return &pb.Type{Kind: &pb.Type_Map_{Map: &pb.Type_Map{Key: k, Value: val, Nullability: n, TypeVariationReference: v}}}
}
func pbFunc(n pb.Type_Nullability, ret *pb.Type, ps ...*pb.Type) *pb.Type {
	return &pb.Type{Kind: &pb.Type_Func_{Func: &pb.Type_Func{ParameterTypes: ps, ReturnType: ret, Nullability: n}}}
}
func pbUDT(n pb.Type_Nullability, v, ref uint32, ps ...*pb.Type_Parameter) *pb.Type {
	return &pb.Type{Kind: &pb.Type_UserDefined_{UserDefined: &pb.Type_UserDefined{TypeReference: ref, TypeParameters: ps, Nullability: n, TypeVariationReference: v}}}
}

func udtParams(inner []*pb.Type) [][]*pb.Type_Parameter {
	null := &pb.Type_Parameter{Parameter: &pb.Type_Parameter_Null{Null: &emptypb.Empty{}}}
	i := func(v int64) *pb.Type_Parameter {
		return &pb.Type_Parameter{Parameter: &pb.Type_Parameter_Integer{Integer: v}}
	}
	b := func(v bool) *pb.Type_Parameter {
		return &pb.Type_Parameter{Parameter: &pb.Type_Parameter_Boolean{Boolean: v}}
	}
	e := func(v string) *pb.Type_Parameter {
		return &pb.Type_Parameter{Parameter: &pb.Type_Parameter_Enum{Enum: v}}
	}
	s := func(v string) *pb.Type_Parameter {
		return &pb.Type_Parameter{Parameter: &pb.Type_Parameter_String_{String_: v}}
	}
	r := [][]*pb.Type_Parameter{nil, {i(1)}, {i(2)}, {i(-1 << 62)}, {b(true)}, {b(false)}, {e("x")}, {e("y")}, {s("x")}, {s("")}, {i(1), i(2)}, {i(2), i(1)}, {e("x"), s("x"), b(true)}, {null}, {null, i(1)}, {i(1), null}}
	for _, t := range inner {
		r = append(r, []*pb.Type_Parameter{{Parameter: &pb.Type_Parameter_DataType{DataType: t}}})
	}
	return r
}

type ptype struct {
	id string
	p  *pb.Type
}

func mtext(m proto.Message) string {
	b, _ := proto.MarshalOptions{Deterministic: true}.Marshal(m)
	return string(b)
}
func show(m proto.Message) string {
	if m == nil {
		return "<nil>"
	}
	return clip(prototext.MarshalOptions{Multiline: false}.Format(m), 1500)
}

// typeUniverse: leaves x nullability x variation; nested to depth 2 (3 thorough).
func typeUniverse(deep bool) []ptype {
	var r []ptype
	add := func(p *pb.Type) { r = append(r, ptype{clip(prototext.MarshalOptions{}.Format(p), 220), p}) }
	ns := []pb.Type_Nullability{nReq, nNul}
	for _, m := range leafMakers() {
		for _, n := range []pb.Type_Nullability{nReq, nNul, nUns} {
			for _, v := range []uint32{0, 7} {
				add(m.mk(n, v))
			}
		}
	}
	lm := leafMakers()
	pick := func(names ...string) []*pb.Type {
		var out []*pb.Type
		for _, nm := range names {
			for _, m := range lm {
				if m.name == nm {
					out = append(out, m.mk(nReq, 0), m.mk(nNul, 0))
				}
			}
		}
		return out
	}
	inner := pick("i32", "string", "decimal<10,2>", "varchar<10>", "interval_day<3>", "interval_compound<6>", "precision_timestamp_tz<9>", "interval_year")
	inner = append(inner, lm[3].mk(nReq, 7))
	nest := func(pool []*pb.Type) []*pb.Type {
		var out []*pb.Type
		for _, n := range ns {
			for _, v := range []uint32{0, 7} {
				for i, a := range pool {
					out = append(out, pbList(n, v, a))
					out = append(out, pbStruct(n, v, a))
					b := pool[(i*5+3)%len(pool)]
					out = append(out, pbStruct(n, v, a, b), pbMap(n, v, a, b), pbMap(n, v, b, a))
				}
				out = append(out, pbStruct(n, v), pbStruct(n, v, pool...))
			}
			for i, a := range pool {
				out = append(out, pbFunc(n, a), pbFunc(n, a, pool[(i+1)%len(pool)]), pbFunc(n, pool[(i+2)%len(pool)], a, a))
			}
		}
		return out
	}
	d1 := nest(inner)
	for _, n := range ns {
		for _, v := range []uint32{0, 7} {
			for _, ref := range []uint32{0, 1, 2} {
				for _, ps := range udtParams(inner[:4]) {
					d1 = append(d1, pbUDT(n, v, ref, ps...))
				}
			}
		}
	}
	for _, p := range d1 {
		add(p)
	}
	// depth 2: every 7th nested type as the child (every one when deep)
	step := 37
	if deep {
		step = 7
	}
	var d2pool []*pb.Type
	for i := 0; i < len(d1); i += step {
		d2pool = append(d2pool, d1[i])
	}
	d2 := nest(d2pool)
	for _, p := range d2 {
		add(p)
	}
	if deep {
		var d3pool []*pb.Type
		for i := 0; i < len(d2); i += 61 {
			d3pool = append(d3pool, d2[i])
		}
		for _, p := range nest(d3pool) {
			add(p)
		}
	}
	return r
}

// withField returns a copy of the type message with a scalar field of its kind
// message replaced (nullability, precision, length, ...).
func withTypeField(p *pb.Type, field string, val protoreflect.Value) *pb.Type {
	q := proto.Clone(p).(*pb.Type)
	m := q.ProtoReflect()
	fd := m.WhichOneof(m.Descriptor().Oneofs().ByName("kind"))
	if fd == nil {
		return nil
	}
	im := m.Mutable(fd).Message()
	f := im.Descriptor().Fields().ByName(protoreflect.Name(field))
	if f == nil {
		return nil
	}
	im.Set(f, val)
	return q
}

func typeField(p *pb.Type, field string) (protoreflect.Value, bool) {
	m := p.ProtoReflect()
	fd := m.WhichOneof(m.Descriptor().Oneofs().ByName("kind"))
	if fd == nil {
		return protoreflect.Value{}, false
	}
	im := m.Get(fd).Message()
	f := im.Descriptor().Fields().ByName(protoreflect.Name(field))
	if f == nil {
		return protoreflect.Value{}, false
	}
	return im.Get(f), true
}
