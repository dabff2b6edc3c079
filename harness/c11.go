// C11: a signature matches exactly the argument lists the specification allows;
// C12: return types follow the signature, the nullability rule and the arguments.
package main

import (
	"fmt"
	"math"
	"strconv"
	"strings"
	"sync"

	ext "github.com/substrait-io/substrait-go/v8/extensions"
	"github.com/substrait-io/substrait-go/v8/types"
	pb "github.com/substrait-io/substrait-protobuf/go/substraitpb"
	"google.golang.org/protobuf/reflect/protoreflect"
)

func init() {
	assume := []string{"a user-defined type argument is compared by its parameters only, since a variant has no registry to look its name up",
		"nullability inside function types and user-defined type parameters is not judged under the discrete rule",
		"placeholder conflicts among the extra arguments of an INCONSISTENT variadic parameter are not judged"}
	checks["C11"] = &Check{Run: runC11, Quick: 250, Thorough: 850, Shards: 16,
		Bounds: "1 parameter: every leaf kind and 47 parameter forms x every type of the bounded universe x 3 nullability rules; 2 parameters: all pairs of 47 parameter forms x all pairs of 42 arguments x 3 rules; 3 parameters: all triples over 8 forms x triples over 12 arguments x 3 rules; variadic: min 0..3 x max 0..3 x both consistencies x signatures of up to 2 parameters x argument lists up to 5 over a small universe; every single position 0..6 and -1; scalar, aggregate and window variants; signatures of 4-33 (thorough 65) parameters of 7 patterns x conforming lists and every one-position change of them, variadic lists up to 3 times as long",
		Assume: assume}
	checks["C12"] = &Check{Run: runC12, Quick: 250, Thorough: 850, Shards: 16,
		Bounds: "the signatures and argument lists of C11 (1 and 2 parameters, variadic lists up to 4) x return types over the names of the signature, unknown names, nested and user-defined forms; 3 nullability rules; scalar, aggregate and window variants; signatures of 4-33 (thorough 65) parameters of 7 patterns",
		Assume: append(assume, "the outer nullability of a return type that is a bare non-nullable placeholder is only judged under the mirror rule", "a plain any return type is judged when one parameter mentions any")}
}

// pn is a declared parameter or return type.
type pn struct {
	k    string // leaf kind, list, map, struct, func, udt, any, enum, int, str
	s    string // name of any / udt / str parameter, digits of int
	ints []string
	kids []*pn
	null bool
}

func (p *pn) text() string {
	q := ""
	if p.null {
		q = "?"
	}
	var ks []string
	for _, k := range p.kids {
		ks = append(ks, k.text())
	}
	switch p.k {
	case "any":
		return p.s + q
	case "int", "str":
		return p.s
	case "enum":
		return "enum"
	case "udt":
		if len(ks) == 0 {
			return "u!" + p.s + q
		}
		return "u!" + p.s + q + "<" + strings.Join(ks, ", ") + ">"
	case "func":
		n := len(ks) - 1
		if n == 1 {
			return "func" + q + "<" + ks[0] + " -> " + ks[1] + ">"
		}
		return "func" + q + "<(" + strings.Join(ks[:n], ", ") + ") -> " + ks[n] + ">"
	}
	if len(p.ints) > 0 {
		return p.k + q + "<" + strings.Join(p.ints, ",") + ">"
	}
	if len(ks) > 0 {
		return p.k + q + "<" + strings.Join(ks, ", ") + ">"
	}
	return p.k + q
}

func pl(k string, ints ...string) *pn { return &pn{k: k, ints: ints} }
func pc(k string, kids ...*pn) *pn    { return &pn{k: k, kids: kids} }
func pu(name string, kids ...*pn) *pn { return &pn{k: "udt", s: name, kids: kids} }
func pa(name string) *pn              { return &pn{k: "any", s: name} }
func pi(v int) *pn                    { return &pn{k: "int", s: strconv.Itoa(v)} }
func ps(v string) *pn                 { return &pn{k: "str", s: v} }
func (p *pn) opt() *pn                { q := *p; q.null = true; return &q }
func (p *pn) each(f func(*pn)) {
	f(p)
	for _, k := range p.kids {
		k.each(f)
	}
}

func pnParams() []*pn {
	i32, str := pl("i32"), pl("string")
	dec := pl("decimal", "P", "S")
	return []*pn{i32, i32.opt(), str, pl("boolean"), dec, dec.opt(), pl("decimal", "P", "P"), pl("decimal", "38", "S"), pl("decimal", "P", "0"), pl("decimal", "38", "10"), pl("decimal", "S", "P"),
		pl("varchar", "L1"), pl("varchar", "5"), pl("varchar", "P"), pl("fixedchar", "L1").opt(), pl("fixedbinary", "P"), pl("precision_timestamp", "P"), pl("precision_timestamp", "3"), pl("interval_day", "P"), pl("precision_time", "S"), pl("precision_timestamp_tz", "P"),
		pa("any"), pa("any1"), pa("any1").opt(), pa("any2"), pa("any").opt(),
		pc("list", pa("any1")), pc("list", i32), pc("list", i32.opt()), pc("list", pa("any")).opt(), pc("list", dec), pc("list", pa("any1").opt()), pc("list", pc("list", pa("any1"))),
		pc("map", pa("any1"), pa("any2")), pc("map", pa("any1"), pa("any1")), pc("map", str, pl("varchar", "P")),
		pc("struct", pa("any1"), i32), pc("struct", pa("any1")), pc("struct", pl("varchar", "L1"), pa("any2").opt()), pc("struct", pa("any1"), pa("any1"), dec),
		pc("func", pa("any1"), pa("any2")), pc("func", pa("any1"), pa("any1"), pa("any1")), pc("func", dec, pa("any1")),
		pu("t"), pu("t", pa("any1")), pu("t", pa("any1"), pa("any1")), pu("t", pi(3)), pu("t", ps("x")), pu("t", dec).opt(), &pn{k: "enum"}}
}

// an argument: a concrete type, or an enumeration argument (nil message).
type carg struct {
	p *pb.Type
	t types.Type
}

func mkArg(p *pb.Type) *carg { return &carg{p, types.TypeFromProto(p)} }

var enumArg = &carg{nil, types.CommonEnumType}

func dparam(t *pb.Type) *pb.Type_Parameter {
	return &pb.Type_Parameter{Parameter: &pb.Type_Parameter_DataType{DataType: t}}
}
func iparam(v int64) *pb.Type_Parameter {
	return &pb.Type_Parameter{Parameter: &pb.Type_Parameter_Integer{Integer: v}}
}
func sparam(v string) *pb.Type_Parameter {
	return &pb.Type_Parameter{Parameter: &pb.Type_Parameter_String_{String_: v}}
}

func pbDec(n pb.Type_Nullability, p, s int32) *pb.Type {
	return &pb.Type{Kind: &pb.Type_Decimal_{Decimal: &pb.Type_Decimal{Precision: p, Scale: s, Nullability: n}}}
}
func pbVarchar(n pb.Type_Nullability, l int32) *pb.Type {
	return &pb.Type{Kind: &pb.Type_Varchar{Varchar: &pb.Type_VarChar{Length: l, Nullability: n}}}
}
func pbFchar(n pb.Type_Nullability, l int32) *pb.Type {
	return &pb.Type{Kind: &pb.Type_FixedChar_{FixedChar: &pb.Type_FixedChar{Length: l, Nullability: n}}}
}
func pbFbin(n pb.Type_Nullability, l int32) *pb.Type {
	return &pb.Type{Kind: &pb.Type_FixedBinary_{FixedBinary: &pb.Type_FixedBinary{Length: l, Nullability: n}}}
}
func pbPts(n pb.Type_Nullability, l int32) *pb.Type {
	return &pb.Type{Kind: &pb.Type_PrecisionTimestamp_{PrecisionTimestamp: &pb.Type_PrecisionTimestamp{Precision: l, Nullability: n}}}
}
func pbIday(n pb.Type_Nullability, l int32) *pb.Type {
	return &pb.Type{Kind: &pb.Type_IntervalDay_{IntervalDay: &pb.Type_IntervalDay{Precision: &l, Nullability: n}}}
}

func cargs() (r []*carg) {
	i32, i32n, str, strn := leafT("i32", nReq, 0), leafT("i32", nNul, 0), leafT("string", nReq, 0), leafT("string", nNul, 0)
	i32v := leafT("i32", nReq, 1)
	for _, p := range []*pb.Type{i32, i32n, i32v, str, strn, leafT("boolean", nReq, 0),
		pbDec(nReq, 10, 2), pbDec(nNul, 10, 2), pbDec(nReq, 10, 10), pbDec(nReq, 38, 10), pbDec(nReq, 38, 0), pbDec(nReq, 3, 2),
		pbVarchar(nReq, 5), pbVarchar(nNul, 5), pbVarchar(nReq, 10), pbFchar(nReq, 5), pbFchar(nNul, 10), pbFbin(nReq, 10), pbPts(nReq, 3), pbPts(nReq, 6), pbIday(nReq, 3), pbIday(nNul, 6),
		pbList(nReq, 0, i32), pbList(nNul, 0, i32), pbList(nReq, 0, i32n), pbList(nReq, 0, pbDec(nReq, 10, 2)), pbList(nReq, 0, str), pbList(nReq, 0, pbList(nReq, 0, i32)),
		pbMap(nReq, 0, str, str), pbMap(nReq, 0, i32, strn), pbMap(nReq, 0, str, pbVarchar(nReq, 5)), pbMap(nReq, 0, i32, i32n),
		pbStruct(nReq, 0, i32, i32), pbStruct(nReq, 0, str), pbStruct(nReq, 0, pbVarchar(nReq, 5), i32n), pbStruct(nReq, 0, i32, i32, pbDec(nReq, 10, 2)), pbStruct(nReq, 0, i32, str, pbDec(nReq, 10, 2)),
		pbFunc(nReq, str, i32), pbFunc(nReq, i32, i32, i32), pbFunc(nReq, i32, i32, str), pbFunc(nReq, i32, pbDec(nReq, 10, 2)),
		pbUDT(nReq, 0, 4), pbUDT(nReq, 0, 4, dparam(i32)), pbUDT(nReq, 0, 4, dparam(i32), dparam(i32)), pbUDT(nReq, 0, 4, dparam(i32), dparam(str)), pbUDT(nReq, 0, 4, iparam(3)), pbUDT(nReq, 0, 4, iparam(3+1<<32)), pbUDT(nReq, 0, 4, sparam("x")), pbUDT(nReq, 0, 4, sparam("y")), pbUDT(nNul, 0, 4, dparam(pbDec(nReq, 10, 2)))} {
		r = append(r, mkArg(p))
	}
	return append(r, enumArg)
}

// reference matching ---------------------------------------------------------

type bind struct {
	any  map[string][]*pb.Type // every type a placeholder stands for
	ints map[string][]int64
}

func newBind() *bind { return &bind{map[string][]*pb.Type{}, map[string][]int64{}} }

func pbKind(p *pb.Type) string {
	m := p.ProtoReflect()
	fd := m.WhichOneof(m.Descriptor().Oneofs().ByName("kind"))
	return string(fd.Name())
}

var pbKindName = map[string]string{"bool": "boolean", "varchar": "varchar", "fixed_char": "fixedchar", "fixed_binary": "fixedbinary"}

func pbNull(p *pb.Type) bool {
	v, _ := typeField(p, "nullability")
	return pb.Type_Nullability(v.Enum()) == nNul
}
func pbReq(p *pb.Type) *pb.Type {
	return withTypeField(p, "nullability", protoreflect.ValueOfEnum(protoreflect.EnumNumber(nReq)))
}
func pbWithNull(p *pb.Type, null bool) *pb.Type {
	n := nReq
	if null {
		n = nNul
	}
	return withTypeField(p, "nullability", protoreflect.ValueOfEnum(protoreflect.EnumNumber(n)))
}

func pbInts(p *pb.Type) []int64 {
	var r []int64
	for _, f := range []string{"length", "precision", "scale"} {
		if v, ok := typeField(p, f); ok {
			r = append(r, v.Int())
		}
	}
	return r
}
func pbKids(p *pb.Type) []*pb.Type {
	switch k := p.Kind.(type) {
	case *pb.Type_List_:
		return []*pb.Type{k.List.Type}
	case *pb.Type_Map_:
		return []*pb.Type{k.Map.Key, k.Map.Value}
	case *pb.Type_Struct_:
		return k.Struct.Types
	case *pb.Type_Func_:
		return append(append([]*pb.Type(nil), k.Func.ParameterTypes...), k.Func.ReturnType)
	}
	return nil
}

const (
	yes = iota
	no
	unjudged
)

func worse(a, b int) int {
	if a == no || b == no {
		return no
	}
	if a == unjudged || b == unjudged {
		return unjudged
	}
	return yes
}

// conform: does the argument have the declared shape, collecting what names stand
// for. null: discrete nullability is required; soft: but differences are not judged.
func conform(p *pn, a *pb.Type, null, soft bool, b *bind) int {
	r := yes
	if null && p.k != "int" && p.k != "str" && p.null != pbNull(a) {
		if !soft {
			return no
		}
		r = unjudged
	}
	if p.k == "any" {
		b.any[p.s] = append(b.any[p.s], a)
		return r
	}
	kind := pbKind(a)
	if n, ok := pbKindName[kind]; ok {
		kind = n
	}
	if p.k == "udt" {
		u := a.GetUserDefined()
		if u == nil || len(u.TypeParameters) != len(p.kids) {
			return no
		}
		for i, k := range p.kids {
			tp := u.TypeParameters[i]
			switch k.k {
			case "int":
				v, ok := tp.Parameter.(*pb.Type_Parameter_Integer)
				if !ok || strconv.FormatInt(v.Integer, 10) != k.s {
					return no
				}
			case "str":
				v, ok := tp.Parameter.(*pb.Type_Parameter_String_)
				if !ok || v.String_ != k.s {
					return no
				}
			default:
				v, ok := tp.Parameter.(*pb.Type_Parameter_DataType)
				if !ok {
					return no
				}
				r = worse(r, conform(k, v.DataType, null, true, b))
			}
		}
		return r
	}
	if kind != p.k {
		return no
	}
	if len(p.ints) > 0 {
		vs := pbInts(a)
		for i, s := range p.ints {
			if n, err := strconv.ParseInt(s, 10, 64); err == nil {
				if n != vs[i] {
					return no
				}
			} else {
				b.ints[s] = append(b.ints[s], vs[i])
			}
		}
		return r
	}
	kids := pbKids(a)
	if len(kids) != len(p.kids) {
		return no
	}
	for i, k := range p.kids {
		r = worse(r, conform(k, kids[i], null, soft || p.k == "func", b))
	}
	return r
}

func sameAny(ts []*pb.Type) bool {
	for _, t := range ts {
		if mtext(pbReq(t)) != mtext(pbReq(ts[0])) {
			return false
		}
	}
	return true
}

func (b *bind) consistent() int {
	for n, ts := range b.any {
		if n != "any" && !sameAny(ts) {
			return no
		}
	}
	for _, vs := range b.ints {
		for _, v := range vs {
			if v != vs[0] {
				return no
			}
		}
	}
	return yes
}

type sig struct {
	params   []*pn
	rule     string
	variadic bool
	min, max int
	cons     string
	ret      *pn
	prog     bool // the return type is a program with an assignment that does not matter
}

func (s *sig) at(i int) *pn {
	if i < len(s.params) {
		return s.params[i]
	}
	return s.params[len(s.params)-1]
}

func conformArg(p *pn, a *carg, null bool, b *bind) int {
	if p.k == "enum" || a.p == nil {
		if p.k == "enum" && a.p == nil {
			return yes
		}
		if p.k == "any" {
			return unjudged
		}
		return no
	}
	return conform(p, a.p, null, false, b)
}

// want is the reference decision and the bindings.
func (s *sig) want(args []*carg) (int, *bind) {
	b := newBind()
	if !s.variadic || len(s.params) == 0 {
		if len(args) != len(s.params) {
			return no, b
		}
	} else {
		n := len(args) - (len(s.params) - 1)
		if n < 0 || n < s.min || s.max != 0 && n > s.max {
			return no, b
		}
	}
	r := yes
	extra := newBind()
	for i, a := range args {
		t := b
		if i >= len(s.params) {
			t = extra
		}
		r = worse(r, conformArg(s.at(i), a, s.rule == "DISCRETE", t))
	}
	if r == no {
		return no, b
	}
	if s.variadic && s.cons == "CONSISTENT" {
		for i := len(s.params); i < len(args); i++ {
			x, y := args[len(s.params)-1], args[i]
			if (x.p == nil) != (y.p == nil) || x.p != nil && !sameAny([]*pb.Type{x.p, y.p}) {
				return no, b
			}
		}
	}
	if b.consistent() == no {
		return no, b
	}
	for n, ts := range extra.any {
		if n != "any" && !sameAny(append(append([]*pb.Type(nil), b.any[n]...), ts...)) {
			r = unjudged
		}
	}
	return r, b
}

func (s *sig) wantAt(a *carg, pos int) int {
	if pos < 0 {
		return no
	}
	if pos >= len(s.params) {
		if !s.variadic || len(s.params) == 0 {
			return no
		}
		if s.max != 0 && pos-(len(s.params)-1) >= s.max {
			return no
		}
	}
	b := newBind()
	r := conformArg(s.at(pos), a, s.rule == "DISCRETE", b)
	if r == yes && b.consistent() == no {
		return unjudged
	}
	return r
}

func (s *sig) impl() M {
	l := L{}
	for _, p := range s.params {
		if p.k == "enum" {
			l = append(l, M{"options": L{"A", "B"}})
		} else {
			l = append(l, M{"value": p.text()})
		}
	}
	ret := "i32"
	if s.ret != nil {
		ret = s.ret.text()
	}
	if s.prog {
		ret = "zz = 1 + 1\n" + ret
	}
	im := M{"args": l, "return": ret}
	if s.rule != "" {
		im["nullability"] = s.rule
	}
	if s.variadic {
		im["variadic"] = M{"min": s.min, "max": s.max, "parameterConsistency": s.cons}
	}
	return im
}
func (s *sig) String() string {
	var t []string
	for _, p := range s.params {
		t = append(t, p.text())
	}
	r := "f(" + strings.Join(t, ", ") + ")"
	if s.ret != nil {
		r += " -> " + s.ret.text()
		if s.prog {
			r += " (program)"
		}
	}
	if s.variadic {
		r += fmt.Sprintf(" variadic[%d..%d %s]", s.min, s.max, s.cons)
	}
	return r + " " + s.rule
}

type matcher interface {
	Match([]types.Type) (bool, error)
	MatchAt(types.Type, int) (bool, error)
	ResolveType([]types.Type, ext.Set) (types.Type, error)
	Args() ext.FuncParameterList
	URN() string
}

// c11load gives the variants of the signature: scalar and, if all, aggregate and window.
func c11load(t *T, s *sig, all bool) (r []matcher) {
	doc := M{"urn": "extension:mc:m", "types": L{M{"name": "t"}, M{"name": "w"}}, "scalar_functions": L{c15fn("f", s.impl())}}
	if all {
		a := s.impl()
		a["intermediate"] = "i64"
		w := s.impl()
		w["intermediate"] = "i64"
		doc["aggregate_functions"] = L{c15fn("g", a)}
		doc["window_functions"] = L{c15fn("h", w)}
	}
	c := &ext.Collection{}
	if err := c.Load(strings.NewReader(c15json(doc))); err != nil {
		t.Failf("signature %s does not load: %v", s, err)
		return nil
	}
	for _, v := range c.GetAllScalarFunctions() {
		r = append(r, v)
	}
	if all {
		for _, v := range c.GetAllAggregateFunctions() {
			r = append(r, v)
		}
		for _, v := range c.GetAllWindowFunctions() {
			r = append(r, v)
		}
		if len(r) != 4 {
			t.Failf("signature %s: %d variants found", s, len(r))
		}
	}
	return r
}

func showArgs(args []*carg) string {
	var r []string
	for _, a := range args {
		if a.p == nil {
			r = append(r, "enum")
		} else {
			r = append(r, a.t.String())
		}
	}
	return "(" + strings.Join(r, ", ") + ")"
}

func sigText(v matcher) string { return fmt.Sprint(v.Args()) + paramText(v) }
func paramText(v matcher) string {
	var r []string
	for _, a := range v.Args() {
		if va, ok := a.(ext.ValueArg); ok {
			r = append(r, va.Value.ValueType.String())
		}
	}
	return strings.Join(r, ";")
}

func argsSame(t *T, what any, args []*carg) {
	for _, a := range args {
		if a.p != nil && mtext(types.TypeToProto(a.t)) != mtext(a.p) {
			t.Failf("%v changes an argument to %s", what, a.t)
			a.t = types.TypeFromProto(a.p)
		}
	}
}

func c11judge(t *T, s *sig, vs []matcher, args []*carg) {
	w, _ := s.want(args)
	ts := make([]types.Type, len(args))
	for i, a := range args {
		ts[i] = a.t
	}
	t.Trans(len(vs))
	if w == unjudged {
		t.Outcome("unjudged")
	}
	for k, v := range vs {
		var ok bool
		var err error
		if msg := catch(func() { ok, err = v.Match(ts) }); msg != "" {
			t.Failf("%s (variant %d) with %s panics: %s", s, k, showArgs(args), msg)
			continue
		}
		if ok && err != nil {
			t.Failf("%s with %s: match reported together with an error %v", s, showArgs(args), err)
		}
		if w == unjudged {
			continue
		}
		if ok != (w == yes) {
			t.Failf("%s (variant %d) with %s: match is %v (%v), specification says %v", s, k, showArgs(args), ok, err, w == yes)
		}
	}
	if w == yes {
		t.Outcome("match")
	} else {
		t.Outcome("no match")
	}
	t.Validated()
}

func c11at(t *T, s *sig, vs []matcher, a *carg, pos int) {
	w := s.wantAt(a, pos)
	t.Trans(len(vs))
	for k, v := range vs {
		var ok bool
		var err error
		if msg := catch(func() { ok, err = v.MatchAt(a.t, pos) }); msg != "" {
			t.Failf("%s (variant %d) MatchAt(%s, %d) panics: %s", s, k, a.t, pos, msg)
			continue
		}
		if pos < 0 && err == nil {
			t.Failf("%s: MatchAt at position %d is not an error", s, pos)
		}
		if w != unjudged && (ok && err == nil) != (w == yes) {
			t.Failf("%s (variant %d): MatchAt(%s, %d) is %v (%v), specification says %v", s, k, a.t, pos, ok, err, w == yes)
		}
	}
}

var c11rules = []string{"MIRROR", "DECLARED_OUTPUT", "DISCRETE"}

// tuples enumerates all tuples of the given length.
func tuples[X any](xs []X, n int, f func([]X)) {
	cur := make([]X, n)
	var rec func(int)
	rec = func(i int) {
		if i == n {
			f(cur)
			return
		}
		for _, x := range xs {
			cur[i] = x
			rec(i + 1)
		}
	}
	rec(0)
}

// c11sig checks one signature with the argument lists that gen yields.
func c11sig(t *T, s *sig, all bool, atArgs []*carg, maxPos int, gen func(f func([]*carg))) {
	vs := c11load(t, s, all)
	if len(vs) == 0 {
		return
	}
	before := make([]string, len(vs))
	for i, v := range vs {
		before[i] = sigText(v)
	}
	gen(func(args []*carg) { c11judge(t, s, vs, args) })
	for _, a := range atArgs {
		for pos := -1; pos <= maxPos; pos++ {
			c11at(t, s, vs, a, pos)
		}
	}
	for i, v := range vs {
		if x := sigText(v); x != before[i] {
			t.Failf("matching changes the signature %s from %s to %s", s, before[i], x)
		}
	}
	argsSame(t, s, atArgs)
	t.State(s.String())
}

var c11universe = sync.OnceValue(func() (r []*carg) {
	for _, u := range typeUniverse(false) {
		if v, ok := typeField(u.p, "nullability"); !ok || pb.Type_Nullability(v.Enum()) == nUns {
			continue
		}
		if hasUnspecified(u.p) {
			continue
		}
		r = append(r, mkArg(u.p))
	}
	return r
})

func hasUnspecified(p *pb.Type) bool {
	if v, ok := typeField(p, "nullability"); ok && pb.Type_Nullability(v.Enum()) == nUns {
		return true
	}
	for _, k := range pbKids(p) {
		if hasUnspecified(k) {
			return true
		}
	}
	for _, tp := range p.GetUserDefined().GetTypeParameters() {
		if d := tp.GetDataType(); d != nil && hasUnspecified(d) {
			return true
		}
	}
	return false
}

var c11leafs = []string{"boolean", "i8", "i16", "i32", "i64", "fp32", "fp64", "string", "binary", "timestamp", "timestamp_tz", "date", "time", "interval_year", "uuid"}

// small universes for longer lists
func c11small() (ps []*pn, as []*carg) {
	i32, i32n, str := leafT("i32", nReq, 0), leafT("i32", nNul, 0), leafT("string", nReq, 0)
	ps = []*pn{pl("i32"), pa("any1"), pa("any1").opt(), pa("any2"), pl("decimal", "P", "S"), pl("varchar", "P"), pc("list", pa("any1")), pa("any")}
	for _, p := range []*pb.Type{i32, i32n, str, pbDec(nReq, 10, 2), pbDec(nNul, 10, 3), pbDec(nReq, 5, 2), pbVarchar(nReq, 10), pbVarchar(nReq, 5), pbList(nReq, 0, i32), pbList(nReq, 0, str), pbList(nNul, 0, i32n), leafT("i32", nReq, 1)} {
		as = append(as, mkArg(p))
	}
	return
}

func runC11(c *Ctx) {
	c11sized(c)
	params := pnParams()
	args := cargs()
	// one parameter against everything
	one := append([]*pn(nil), params...)
	for _, k := range c11leafs {
		one = append(one, pl(k), pl(k).opt())
	}
	for _, k := range []string{"fixedchar", "varchar", "fixedbinary", "precision_time", "precision_timestamp", "precision_timestamp_tz", "interval_day"} {
		one = append(one, pl(k, "N"), pl(k, "3"), pl(k, "N").opt())
	}
	for _, rule := range append(c11rules, "") {
		for _, p := range one {
			c.Case(func(t *T) {
				u := c11universe()
				s := &sig{params: []*pn{p}, rule: rule}
				c11sig(t, s, true, args, 2, func(f func([]*carg)) {
					f(nil)
					for _, a := range u {
						f([]*carg{a})
					}
					for _, a := range args {
						f([]*carg{a})
						f([]*carg{a, a})
					}
				})
				argsSame(t, s, u)
				t.Dim("one parameter", s.String())
			}, "one", rule, p.text())
		}
	}
	// two parameters
	for _, rule := range c11rules {
		for i, p := range params {
			for j, q := range params {
				c.Case(func(t *T) {
					s := &sig{params: []*pn{p, q}, rule: rule}
					c11sig(t, s, (i+j)%5 == 0 || c.Thorough, args, 3, func(f func([]*carg)) { tuples(args, 2, f) })
					t.Dim("two parameters", p.text())
				}, "two", rule, p.text(), q.text())
			}
		}
	}
	sp, sa := c11small()
	// three parameters
	for _, rule := range c11rules {
		tuples(sp, 3, func(x []*pn) {
			ps := append([]*pn(nil), x...)
			c.Case(func(t *T) {
				s := &sig{params: ps, rule: rule}
				c11sig(t, s, c.Thorough, nil, 0, func(f func([]*carg)) { tuples(sa, 3, f) })
				t.Dim("three parameters", s.String())
			}, "three", rule, ps[0].text(), ps[1].text(), ps[2].text())
		})
	}
	// no parameters
	// variadic
	maxLen := 4
	if c.Thorough {
		maxLen = 5
	}
	va := sa[:0:0]
	for _, i := range []int{0, 1, 2, 3, 5, 6, 8, 11} {
		va = append(va, sa[i])
	}
	for _, rule := range c11rules {
		for min := 0; min <= 3; min++ {
			for max := 0; max <= 3; max++ {
				for _, cons := range []string{"CONSISTENT", "INCONSISTENT"} {
					for n := 0; n <= 2; n++ {
						tuples(sp, n, func(x []*pn) {
							ps := append([]*pn(nil), x...)
							s := &sig{params: ps, rule: rule, variadic: true, min: min, max: max, cons: cons}
							c.Case(func(t *T) {
								c11sig(t, s, n < 2, va, 6, func(f func([]*carg)) {
									for l := 0; l <= maxLen; l++ {
										u := va
										if l >= 4 {
											u = va[:5]
										}
										tuples(u, l, f)
									}
								})
								t.Dim("variadic", s.String())
							}, "variadic", s.String())
						})
					}
				}
			}
		}
	}
	// invalid arguments
	c.Case(func(t *T) {
		for _, p := range params {
			s := &sig{params: []*pn{p, p}, rule: "MIRROR"}
			for _, v := range c11load(t, s, true) {
				for _, l := range [][]types.Type{{nil, nil}, {args[0].t, nil}, {nil, args[0].t}} {
					var ok bool
					if msg := catch(func() { ok, _ = v.Match(l) }); msg != "" || ok {
						t.Failf("%s with a missing argument: match %v, panic %q", s, ok, msg)
					}
					t.Trans(1)
				}
			}
		}
		t.State("nil")
	}, "nil")
	_ = math.MaxInt32
}
