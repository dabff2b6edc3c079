// C09: types <-> protobuf, equality, and value semantics of derivations.
package main

import (
	"fmt"
	"reflect"

	"github.com/substrait-io/substrait-go/v8/types"
	pb "github.com/substrait-io/substrait-protobuf/go/substraitpb"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
)

func init() {
	checks["C09"] = &Check{Run: runC09, Quick: 120, Thorough: 700,
		Bounds: "every type kind x 3 nullabilities x variation {0,7} x parameter values; nesting to depth 2 (3 thorough); all ordered pairs of the universe for equality; every derivation on each; struct, func and user-defined types with up to 300 parts (the last and every part changed in turn) and list, map and struct nests up to 40 deep",
		Assume: []string{"an interval_day without explicit precision means precision 6 (microseconds)"}}
}

func toPB(t types.Type) *pb.Type { return types.TypeToProto(t) }

func runC09(c *Ctx) {
	u := typeUniverse(c.Thorough)
	// omitted precision of interval_day
	for _, n := range []pb.Type_Nullability{nReq, nNul} {
		c.Case(func(t *T) {
			ty := types.TypeFromProto(&pb.Type{Kind: &pb.Type_IntervalDay_{IntervalDay: &pb.Type_IntervalDay{Nullability: n}}})
			six := int32(6)
			if got := toPB(ty); !proto.Equal(got, &pb.Type{Kind: &pb.Type_IntervalDay_{IntervalDay: &pb.Type_IntervalDay{Nullability: n, Precision: &six}}}) {
				t.Failf("got %s", show(got))
			}
			t.Validated()
		}, "interval_day default", n)
	}
	for _, x := range u {
		c.Case(func(t *T) { c09one(t, x.p) }, "type", x.id)
	}
	// types with many parts and deep nests
	for _, x := range sizedTypes(c.Thorough) {
		c.Case(func(t *T) {
			c09one(t, x.p)
			// and it differs from the same type with any one part changed
			a := types.TypeFromProto(x.p)
			for i, y := range typeEdits(x.p) {
				b := types.TypeFromProto(y)
				if a.Equals(b) || b.Equals(a) {
					t.Failf("equal to the type with part %d changed", i)
				}
				if g := toPB(b); !proto.Equal(g, y) {
					t.Failf("with part %d changed: round trip gives %s", i, show(g))
				}
			}
		}, "sized", x.id)
	}
	// equality over all pairs
	tys := make([]types.Type, len(u))
	enc := make([]string, len(u))
	for i, x := range u {
		i, x := i, x
		if s := catch(func() { tys[i] = types.TypeFromProto(x.p) }); s != "" {
			tys[i] = nil
		}
		enc[i] = mtext(x.p)
	}
	for i := range u {
		c.Case(func(t *T) {
			if tys[i] == nil {
				t.Failf("cannot be read")
				return
			}
			fresh := types.TypeFromProto(u[i].p)
			if !tys[i].Equals(fresh) || !fresh.Equals(tys[i]) {
				t.Failf("not equal to a second reading of the same message")
			}
			for j := range u {
				if tys[j] == nil {
					continue
				}
				t.c.trans++
				if got, want := tys[i].Equals(tys[j]), enc[i] == enc[j]; got != want {
					t.Failf("Equals(%s , %s) = %v, protobuf forms equal = %v", u[i].id, u[j].id, got, want)
					return
				}
			}
			t.Validated()
		}, "pairs", u[i].id)
	}
	// record types: value semantics under concatenation, sharing a backing array
	small := []*pb.Type{leafMakers()[3].mk(nReq, 0), leafMakers()[7].mk(nNul, 0), leafMakers()[4].mk(nReq, 7), leafMakers()[0].mk(nNul, 0)}
	for na := 0; na <= 3; na++ {
		for nb := 0; nb <= 3; nb++ {
			for extra := 0; extra <= 3; extra++ {
				c.Case(func(t *T) {
					t.Trans(4)
					t.Validated()
					mk := func(n, cap_, off int) ([]types.Type, []string) {
						s := make([]types.Type, 0, n+cap_)
						var e []string
						for i := 0; i < n; i++ {
							s = append(s, types.TypeFromProto(small[(i+off)%4]))
							e = append(e, mtext(small[(i+off)%4]))
						}
						return s, e
					}
					as, ae := mk(na, extra, 0)
					bs, be := mk(nb, extra, 1)
					cs, ce := mk(nb, extra, 2)
					a, b, cc := types.NewRecordTypeFromTypes(as), types.NewRecordTypeFromTypes(bs), types.NewRecordTypeFromTypes(cs)
					ab := a.Concat(*b)
					ac := a.Concat(*cc)
					encs := func(r types.RecordType) (o []string) {
						for _, x := range r.Types() {
							o = append(o, mtext(toPB(x)))
						}
						return
					}
					eq := func(what string, got, want []string) {
						if !reflect.DeepEqual(append([]string{}, got...), append([]string{}, want...)) {
							t.Failf("%s: got %q want %q", what, got, want)
						}
					}
					eq("a+b", encs(ab), append(append([]string{}, ae...), be...))
					eq("a+c", encs(ac), append(append([]string{}, ae...), ce...))
					for _, r := range []types.RecordType{ab, ac} { // writing into a result must not reach the operands
						for i, x := range r.Types() {
							r.Types()[i] = x.WithNullability(types.NullabilityUnspecified)
						}
					}
					eq("a", encs(*a), ae)
					eq("b", encs(*b), be)
					eq("c", encs(*cc), ce)
					if int(a.FieldCount()) != na {
						t.Failf("FieldCount %d", a.FieldCount())
					}
					for i := range ae {
						if mtext(toPB(a.GetFieldRef(int32(i)))) != ae[i] {
							t.Failf("GetFieldRef(%d)", i)
						}
					}
					if !proto.Equal(toPB(a.AsStructType()), pbStruct(nReq, 0, small[:0:0]...)) && na == 0 {
						t.Failf("AsStructType")
					}
				}, "record", na, nb, extra)
			}
		}
	}
	// named structs
	leaf := leafMakers()[3].mk(nReq, 0)
	shapes := []*pb.Type{leaf, pbStruct(nReq, 0, leaf, leaf), pbList(nNul, 0, pbStruct(nReq, 0, leaf)), pbMap(nReq, 0, leaf, pbStruct(nNul, 0, leaf, leaf)),
		pbMap(nReq, 0, pbStruct(nReq, 0, leaf), leaf), pbStruct(nNul, 7, pbStruct(nReq, 0, leaf), leaf), pbList(nReq, 0, pbList(nReq, 0, leaf)), pbStruct(nReq, 0)}
	var nameCount func(p *pb.Type) int
	nameCount = func(p *pb.Type) int {
		switch k := p.Kind.(type) {
		case *pb.Type_Struct_:
			s := 0
			for _, x := range k.Struct.Types {
				s += 1 + nameCount(x)
			}
			return s
		case *pb.Type_List_:
			return nameCount(k.List.Type)
		case *pb.Type_Map_:
			return nameCount(k.Map.Key) + nameCount(k.Map.Value)
		}
		return 0
	}
	for i := -1; i < len(shapes); i++ {
		for j := -1; j < len(shapes); j++ {
			for _, n := range []pb.Type_Nullability{nReq, nNul} {
				for _, v := range []uint32{0, 9} {
					c.Case(func(t *T) {
						t.Trans(3)
						t.Validated()
						var ts []*pb.Type
						if i >= 0 {
							ts = append(ts, shapes[i])
						}
						if j >= 0 {
							ts = append(ts, shapes[j])
						}
						st := pbStruct(n, v, ts...)
						cnt := nameCount(st)
						var names []string
						for k := 0; k < cnt; k++ {
							names = append(names, fmt.Sprintf("n%d", k))
						}
						ns := &pb.NamedStruct{Names: names, Struct: st.GetStruct()}
						got := types.NewNamedStructFromProto(ns)
						if g := got.ToProto(); !proto.Equal(g, ns) {
							t.Failf("round trip: %s want %s", show(g), show(ns))
						}
						if d := got.Struct.DepthFirstNameCount(); d != cnt {
							t.Failf("DepthFirstNameCount %d want %d", d, cnt)
						}
						_ = got.String()
						t.State(mtext(ns))
					}, "named", i, j, n, v)
				}
			}
		}
	}
}

func c09one(t *T, p *pb.Type) {
	orig := proto.Clone(p)
	ty := types.TypeFromProto(p)
	if !proto.Equal(p, orig) {
		t.Failf("reading changed the message")
	}
	if got := toPB(ty); !proto.Equal(got, p) {
		t.Failf("round trip gives %s", show(got))
		return
	}
	t.State(mtext(p))
	t.Validated()
	snap := func(when string) {
		t.c.trans++
		if got := toPB(ty); !proto.Equal(got, orig) {
			t.Failf("%s changed the receiver to %s", when, show(got))
		}
		if !proto.Equal(p, orig) {
			t.Failf("%s changed the source message", when)
		}
	}
	if n, ok := typeField(p, "nullability"); ok {
		if int32(n.Enum()) != int32(ty.GetNullability()) {
			t.Failf("GetNullability %v want %v", ty.GetNullability(), n.Enum())
		}
	}
	if v, ok := typeField(p, "type_variation_reference"); ok && uint32(v.Uint()) != ty.GetTypeVariationReference() {
		t.Failf("GetTypeVariationReference %v want %v", ty.GetTypeVariationReference(), v)
	}
	for _, n := range []types.Nullability{types.NullabilityRequired, types.NullabilityNullable, types.NullabilityUnspecified} {
		want := withTypeField(p, "nullability", protoreflect.ValueOfEnum(protoreflect.EnumNumber(n)))
		d := ty.WithNullability(n)
		if got := toPB(d); !proto.Equal(got, want) {
			t.Failf("WithNullability(%v) gives %s want %s", n, show(got), show(want))
		}
		snap("WithNullability")
		// deriving from the derived one must not reach back either
		d2 := d.WithNullability(types.NullabilityNullable)
		_ = d2
		if got := toPB(d); !proto.Equal(got, want) {
			t.Failf("a second WithNullability changed the first result to %s", show(got))
		}
		if !d.Equals(types.TypeFromProto(want)) {
			t.Failf("WithNullability(%v) result not equal to the same type read from protobuf", n)
		}
	}
	fa := ty.ToProtoFuncArg()
	if !proto.Equal(fa.GetType(), p) {
		t.Failf("function argument form %s", show(fa))
	}
	_ = ty.String()
	_ = ty.ShortString()
	snap("String")
	ps := ty.GetParameters()
	switch k := p.Kind.(type) {
	case *pb.Type_List_:
		checkParams(t, ps, k.List.Type)
	case *pb.Type_Map_:
		checkParams(t, ps, k.Map.Key, k.Map.Value)
	case *pb.Type_Struct_:
		checkParams(t, ps, k.Struct.Types...)
	case *pb.Type_Func_:
		checkParams(t, ps, append(append([]*pb.Type{}, k.Func.ParameterTypes...), k.Func.ReturnType)...)
	case *pb.Type_Decimal_:
		checkInts(t, ps, k.Decimal.Precision, k.Decimal.Scale)
	case *pb.Type_FixedChar_:
		checkInts(t, ps, k.FixedChar.Length)
	case *pb.Type_Varchar:
		checkInts(t, ps, k.Varchar.Length)
	case *pb.Type_FixedBinary_:
		checkInts(t, ps, k.FixedBinary.Length)
	case *pb.Type_PrecisionTime_:
		checkInts(t, ps, k.PrecisionTime.Precision)
	case *pb.Type_PrecisionTimestamp_:
		checkInts(t, ps, k.PrecisionTimestamp.Precision)
	case *pb.Type_PrecisionTimestampTz:
		checkInts(t, ps, k.PrecisionTimestampTz.Precision)
	case *pb.Type_IntervalDay_:
		checkInts(t, ps, k.IntervalDay.GetPrecision())
	case *pb.Type_IntervalCompound_:
		checkInts(t, ps, k.IntervalCompound.Precision)
	case *pb.Type_UserDefined_:
		if len(ps) != len(k.UserDefined.TypeParameters) {
			t.Failf("GetParameters: %d want %d", len(ps), len(k.UserDefined.TypeParameters))
		}
	default:
		checkInts(t, ps)
	}
	// writing into the returned parameter slice must not reach the type
	for i := range ps {
		ps[i] = nil
	}
	snap("GetParameters")
	if f, ok := ty.(types.FixedType); ok {
		for _, l := range []int32{1, 33} {
			want := withTypeField(p, "length", protoreflect.ValueOfInt32(l))
			if got := toPB(f.WithLength(l)); !proto.Equal(got, want) {
				t.Failf("WithLength gives %s", show(got))
			}
			snap("WithLength")
		}
	}
	type retT interface {
		GetReturnType(int32, types.Nullability) types.Type
	}
	if f, ok := ty.(retT); ok {
		field := "precision"
		if _, isFixed := ty.(types.FixedType); isFixed {
			field = "length"
		}
		for _, l := range []int32{1, 9} {
			for _, n := range []types.Nullability{types.NullabilityRequired, types.NullabilityNullable} {
				want := withTypeField(withTypeField(p, field, protoreflect.ValueOfInt32(l)), "nullability", protoreflect.ValueOfEnum(protoreflect.EnumNumber(n)))
				if got := toPB(f.GetReturnType(l, n)); !proto.Equal(got, want) {
					t.Failf("GetReturnType(%d,%v) gives %s want %s", l, n, show(got), show(want))
				}
				snap("GetReturnType")
			}
		}
	}
	if k, ok := p.Kind.(*pb.Type_IntervalCompound_); ok {
		base := types.NewIntervalCompoundType().WithPrecision(types.TimePrecision(k.IntervalCompound.Precision)).WithTypeVariationRef(k.IntervalCompound.TypeVariationReference)
		full := base.WithNullability(types.Nullability(k.IntervalCompound.Nullability)).(types.IntervalCompoundType)
		if !proto.Equal(toPB(full), p) || !proto.Equal(full.ToProto(), p) {
			t.Failf("constructed interval_compound gives %s", show(toPB(full)))
		}
		if !ty.Equals(full) || !full.Equals(ty) {
			t.Failf("constructed interval_compound is not equal to the one read")
		}
		for pr := types.TimePrecision(0); pr <= 9; pr++ {
			want := withTypeField(p, "precision", protoreflect.ValueOfInt32(int32(pr)))
			if got := toPB(full.WithPrecision(pr)); !proto.Equal(got, want) {
				t.Failf("WithPrecision gives %s want %s", show(got), show(want))
			}
		}
		for _, v := range []uint32{0, 7, 8} {
			want := withTypeField(p, "type_variation_reference", protoreflect.ValueOfUint32(v))
			if got := toPB(full.WithTypeVariationRef(v)); !proto.Equal(got, want) {
				t.Failf("WithTypeVariationRef gives %s", show(got))
			}
		}
		if !proto.Equal(toPB(full), p) {
			t.Failf("derivation changed interval_compound")
		}
	}
	if k, ok := p.Kind.(*pb.Type_IntervalYear_); ok {
		full := types.NewIntervalYearToMonthType().WithTypeVariationRef(k.IntervalYear.TypeVariationReference).WithNullability(types.Nullability(k.IntervalYear.Nullability))
		if !proto.Equal(toPB(full), p) {
			t.Failf("constructed interval_year gives %s", show(toPB(full)))
		}
	}
	snap("everything")
}

func checkParams(t *T, ps []any, want ...*pb.Type) {
	if len(ps) != len(want) {
		t.Failf("GetParameters has %d entries, want %d", len(ps), len(want))
		return
	}
	for i, w := range want {
		ty, ok := ps[i].(types.Type)
		if !ok || !proto.Equal(toPB(ty), w) {
			t.Failf("GetParameters[%d] = %v, want %s", i, ps[i], show(w))
		}
	}
}

func checkInts(t *T, ps []any, want ...int32) {
	if len(ps) != len(want) {
		t.Failf("GetParameters has %d entries, want %d", len(ps), len(want))
		return
	}
	for i, w := range want {
		v := reflect.ValueOf(ps[i])
		var n int64
		switch {
		case v.IsValid() && v.CanInt():
			n = v.Int()
		case v.IsValid() && v.CanUint():
			n = int64(v.Uint())
		case v.IsValid():
			fmt.Sscan(fmt.Sprint(ps[i]), &n)
		}
		if n != int64(w) {
			t.Failf("GetParameters[%d] = %v, want %d", i, ps[i], w)
		}
	}
}
