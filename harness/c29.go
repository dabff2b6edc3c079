// C29: accessors answer with the parts of the message, setters change what they name and nothing else.
package main

import (
	"fmt"
	"strings"

	"github.com/substrait-io/substrait-go/v8/expr"
	"github.com/substrait-io/substrait-go/v8/extensions"
	"github.com/substrait-io/substrait-go/v8/plan"
	"github.com/substrait-io/substrait-go/v8/types"
	pb "github.com/substrait-io/substrait-protobuf/go/substraitpb"
	ext "github.com/substrait-io/substrait-protobuf/go/substraitpb/extensions"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/types/known/anypb"
)

func init() {
	checks["C29"] = &Check{Run: runC29, Quick: 200, Thorough: 850, Shards: 8,
		Bounds: "accessors: every relation of the C01 universe of depth 1 (thorough: 2) and with lists of up to 300 parts, every plan of the C01 universe, every expression of the C06 universe of depth 1 (thorough: 2) and every aggregate and mask in it, each accessor compared with the part of the message, then every slice that is documented as a clone changed and all asked again; setters: on every base relation, with a remapped copy, a copy and the relation read from the same message beside it, all sequences of up to 3 (aggregations: 4) setter calls, the message, columns and accessors of all four compared after every call; aggregate functions, expression references: all sequences of up to 4 setter calls on a function and its clone; expressions with lists of up to 65 parts",
		Assume: []string{"that messages are written as read is decided by C01 and C06; the output mode of a write is compared with the message read"}}
}

// s29 is a comparable form of what an accessor returns.
func s29(v any) string {
	switch x := v.(type) {
	case nil:
		return "nothing"
	case plan.Rel:
		return mtext(x.ToProto())
	case expr.Literal:
		return mtext(x.ToProto())
	case expr.Expression:
		return mtext(x.ToProto())
	case types.Type:
		return mtext(types.TypeToProto(x))
	case *expr.MaskExpression:
		if x == nil {
			return "nothing"
		}
		return mtext(x.ToProto())
	case *expr.AggregateFunction:
		return mtext(x.ToProto())
	case types.NamedStruct:
		return mtext(x.ToProto())
	case proto.Message:
		if !x.ProtoReflect().IsValid() {
			return "nothing"
		}
		return mtext(x)
	}
	return fmt.Sprintf("%#v", v)
}

type acc29 struct {
	t    *T
	what string
}

func (a acc29) eq(name string, got, want any) {
	a.t.Trans(1)
	if g, w := s29(got), s29(want); g != w {
		a.t.Failf("%s: %s is\n    %s\n  the message has\n    %s", a.what, name, g, w)
	}
}

func each29[X, Y any](a acc29, name string, got []X, want []Y, f func(X) any) {
	if len(got) != len(want) {
		a.t.Failf("%s: %s has %d parts, the message %d", a.what, name, len(got), len(want))
		return
	}
	for i := range got {
		a.eq(fmt.Sprintf("%s %d", name, i), f(got[i]), any(want[i]))
	}
}

func rel29(r plan.Rel) any       { return r }
func ex29(e expr.Expression) any { return e }
func orTrue(e *pb.Expression) any { // an absent filter is "true"
	if e == nil {
		return xLit(lBool(true))
	}
	return e
}

func sorts29(a acc29, name string, got []expr.SortField, want []*pb.SortField) {
	each29(a, name, got, want, func(s expr.SortField) any { return s.ToProto() })
	for i := range got {
		if i >= len(want) {
			return
		}
		a.eq(name+" expr", got[i].Expr, want[i].Expr)
		switch k := want[i].SortKind.(type) {
		case *pb.SortField_Direction:
			a.eq(name+" direction", fmt.Sprint(got[i].Kind), fmt.Sprint(types.SortDirection(k.Direction)))
		case *pb.SortField_ComparisonFunctionReference:
			a.eq(name+" comparison", fmt.Sprint(got[i].Kind), fmt.Sprint(types.FunctionRef(k.ComparisonFunctionReference)))
		}
	}
}

func keys29(a acc29, got []*plan.ComparisonJoinKey, left, right []*expr.FieldReference, want []*pb.ComparisonJoinKey) {
	if len(got) != len(want) || len(left) != len(want) || len(right) != len(want) {
		a.t.Failf("%s: %d keys, %d left, %d right, the message has %d", a.what, len(got), len(left), len(right), len(want))
		return
	}
	for i, w := range want {
		a.eq("key left", got[i].Left().ToProtoFieldRef(), w.Left)
		a.eq("key right", got[i].Right().ToProtoFieldRef(), w.Right)
		a.eq("left keys", left[i].ToProtoFieldRef(), w.Left)
		a.eq("right keys", right[i].ToProtoFieldRef(), w.Right)
		c := got[i].Comparison()
		switch k := w.GetComparison().GetInnerType().(type) {
		case *pb.ComparisonJoinKey_ComparisonType_Simple:
			if x, ok := c.(plan.SimpleComparison); !ok || x.Type != k.Simple {
				a.t.Failf("%s: comparison is %#v, the message has %s", a.what, c, k.Simple)
			}
		case *pb.ComparisonJoinKey_ComparisonType_CustomFunctionReference:
			if x, ok := c.(plan.CustomComparison); !ok || x.FunctionReference != k.CustomFunctionReference {
				a.t.Failf("%s: comparison is %#v, the message has function %d", a.what, c, k.CustomFunctionReference)
			}
		default:
			a.t.Failf("%s: comparison is %#v, the message has none", a.what, c)
		}
	}
}

// measures29 compares measures and their filters.
func measures29(a acc29, got []plan.AggRelMeasure, want []*pb.AggregateRel_Measure) {
	if len(got) != len(want) {
		a.t.Failf("%s: %d measures, the message has %d", a.what, len(got), len(want))
		return
	}
	for i := range got {
		a.eq("measure", got[i].Measure(), want[i].Measure)
		a.eq("measure filter", got[i].Filter(), orTrue(want[i].Filter))
		agg29(a, got[i].Measure(), want[i].Measure)
	}
}

// advOf is the place of the advanced extension SetAdvancedExtension of the relation is about.
func advOf(r *pb.Rel) **ext.AdvancedExtension {
	switch x := r.RelType.(type) {
	case *pb.Rel_Read:
		if lf := x.Read.GetLocalFiles(); lf != nil {
			return &lf.AdvancedExtension
		}
		return &x.Read.AdvancedExtension
	case *pb.Rel_Filter:
		return &x.Filter.AdvancedExtension
	case *pb.Rel_Fetch:
		return &x.Fetch.AdvancedExtension
	case *pb.Rel_Sort:
		return &x.Sort.AdvancedExtension
	case *pb.Rel_Project:
		return &x.Project.AdvancedExtension
	case *pb.Rel_Aggregate:
		return &x.Aggregate.AdvancedExtension
	case *pb.Rel_Join:
		return &x.Join.AdvancedExtension
	case *pb.Rel_Cross:
		return &x.Cross.AdvancedExtension
	case *pb.Rel_HashJoin:
		return &x.HashJoin.AdvancedExtension
	case *pb.Rel_MergeJoin:
		return &x.MergeJoin.AdvancedExtension
	case *pb.Rel_Set:
		return &x.Set.AdvancedExtension
	}
	c := commonOf(r)
	if c == nil {
		c = &pb.RelCommon{}
		setCommon(r, c)
	}
	return &c.AdvancedExtension
}

func relAcc29(t *T, what string, r plan.Rel, read *pb.Rel) {
	a := acc29{t, what}
	m := r.ToProto() // C01 decides that this is the message read
	var inputs []*pb.Rel
	c := commonOf(m)
	a.eq("hint", r.Hint(), c.GetHint())
	if e := c.GetEmit(); e != nil {
		mp := r.OutputMapping()
		a.eq("output mapping", fmt.Sprint(mp), fmt.Sprint(e.OutputMapping))
		if mp == nil {
			t.Failf("%s: an emit reports no mapping", what)
		}
		for i := range mp {
			mp[i] = 77
		}
		a.eq("output mapping after a change of the slice", fmt.Sprint(r.OutputMapping()), fmt.Sprint(e.OutputMapping))
	} else if r.OutputMapping() != nil {
		t.Failf("%s: a direct relation reports mapping %v", what, r.OutputMapping())
	}
	a.eq("advanced extension", r.GetAdvancedExtension(), *advOf(proto.Clone(m).(*pb.Rel)))
	type base interface {
		BaseSchema() types.NamedStruct
		Filter() expr.Expression
		BestEffortFilter() expr.Expression
		Projection() *expr.MaskExpression
	}
	if x := m.GetRead(); x != nil {
		b, ok := r.(base)
		if !ok {
			t.Failf("%s: %T is no read", what, r)
			return
		}
		a.eq("base schema", b.BaseSchema(), x.BaseSchema)
		a.eq("filter", b.Filter(), x.Filter)
		a.eq("best effort filter", b.BestEffortFilter(), x.BestEffortFilter)
		a.eq("projection", b.Projection(), x.Projection)
		if x.Projection != nil {
			mask29(a, b.Projection(), x.Projection)
		}
	}
	kind := func(ok bool) bool {
		if !ok {
			t.Failf("%s: is read as %T", what, r)
		}
		return ok
	}
	switch x := m.RelType.(type) {
	case *pb.Rel_Read:
		switch y := x.Read.ReadType.(type) {
		case *pb.ReadRel_NamedTable_:
			if n, ok := r.(*plan.NamedTableReadRel); kind(ok) {
				a.eq("names", fmt.Sprintf("%q", n.Names()), fmt.Sprintf("%q", y.NamedTable.Names))
				a.eq("table extension", n.NamedTableAdvancedExtension(), y.NamedTable.AdvancedExtension)
			}
		case *pb.ReadRel_VirtualTable_:
			if n, ok := r.(*plan.VirtualTableReadRel); kind(ok) {
				a.eq("rows", len(n.Values()), len(y.VirtualTable.Expressions))
				for i, row := range n.Values() {
					each29(a, "row", row, y.VirtualTable.Expressions[i].Fields, ex29)
				}
			}
		case *pb.ReadRel_ExtensionTable_:
			if n, ok := r.(*plan.ExtensionTableReadRel); kind(ok) {
				a.eq("detail", n.Detail(), y.ExtensionTable.Detail)
			}
		case *pb.ReadRel_IcebergTable_:
			_, ok := r.(*plan.IcebergTableReadRel)
			kind(ok)
		case *pb.ReadRel_LocalFiles_:
			if n, ok := r.(*plan.LocalFileReadRel); kind(ok) {
				for i, w := range y.LocalFiles.Items {
					f := n.Item(i)
					a.eq("file", f.ToProto(), w)
					a.eq("file part", fmt.Sprint(f.PartIndex, f.Start, f.Len), fmt.Sprint(w.PartitionIndex, w.Start, w.Length))
					switch o := w.FileFormat.(type) {
					case *pb.ReadRel_LocalFiles_FileOrFiles_Arrow:
						x, ok := f.Format.(*plan.ArrowReadOptions)
						a.eq("format", ok && (*pb.ReadRel_LocalFiles_FileOrFiles_ArrowReadOptions)(x) != nil, true)
					case *pb.ReadRel_LocalFiles_FileOrFiles_Dwrf:
						_, ok := f.Format.(*plan.DwrfReadOptions)
						a.eq("format", ok, true)
					case *pb.ReadRel_LocalFiles_FileOrFiles_Orc:
						_, ok := f.Format.(*plan.OrcReadOptions)
						a.eq("format", ok, true)
					case *pb.ReadRel_LocalFiles_FileOrFiles_Parquet:
						_, ok := f.Format.(*plan.ParquetReadOptions)
						a.eq("format", ok, true)
					case *pb.ReadRel_LocalFiles_FileOrFiles_Text:
						x, ok := f.Format.(*plan.TextReadOptions)
						a.eq("format", ok, true)
						a.eq("text format", (*pb.ReadRel_LocalFiles_FileOrFiles_DelimiterSeparatedTextReadOptions)(x), o.Text)
					case *pb.ReadRel_LocalFiles_FileOrFiles_Extension:
						x, ok := f.Format.(*plan.ExtensionReadOptions)
						a.eq("format", ok, true)
						a.eq("format extension", (*anypb.Any)(x), o.Extension)
					default:
						a.eq("format", f.Format == nil, true)
					}
					var path string
					var pt plan.PathType
					switch u := w.PathType.(type) {
					case *pb.ReadRel_LocalFiles_FileOrFiles_UriFile:
						path, pt = u.UriFile, plan.URIFile
					case *pb.ReadRel_LocalFiles_FileOrFiles_UriFolder:
						path, pt = u.UriFolder, plan.URIFolder
					case *pb.ReadRel_LocalFiles_FileOrFiles_UriPath:
						path, pt = u.UriPath, plan.URIPath
					case *pb.ReadRel_LocalFiles_FileOrFiles_UriPathGlob:
						path, pt = u.UriPathGlob, plan.URIPathGlob
					}
					a.eq("path", fmt.Sprint(f.Path, f.PathType), fmt.Sprint(path, pt))
				}
			}
		}
	case *pb.Rel_Project:
		inputs = []*pb.Rel{x.Project.Input}
		if n, ok := r.(*plan.ProjectRel); kind(ok) {
			a.eq("input", n.Input(), x.Project.Input)
			each29(a, "expression", n.Expressions(), x.Project.Expressions, ex29)
		}
	case *pb.Rel_Filter:
		inputs = []*pb.Rel{x.Filter.Input}
		if n, ok := r.(*plan.FilterRel); kind(ok) {
			a.eq("input", n.Input(), x.Filter.Input)
			a.eq("condition", n.Condition(), x.Filter.Condition)
		}
	case *pb.Rel_Fetch:
		inputs = []*pb.Rel{x.Fetch.Input}
		if n, ok := r.(*plan.FetchRel); kind(ok) {
			a.eq("input", n.Input(), x.Fetch.Input)
			a.eq("offset", n.Offset(), x.Fetch.GetOffset())
			want := x.Fetch.GetCount()
			if x.Fetch.CountMode == nil {
				want = n.Count() // not stated
			}
			a.eq("count", n.Count(), want)
		}
	case *pb.Rel_Sort:
		inputs = []*pb.Rel{x.Sort.Input}
		if n, ok := r.(*plan.SortRel); kind(ok) {
			a.eq("input", n.Input(), x.Sort.Input)
			sorts29(a, "sort", n.Sorts(), x.Sort.Sorts)
		}
	case *pb.Rel_Aggregate:
		inputs = []*pb.Rel{x.Aggregate.Input}
		if n, ok := r.(*plan.AggregateRel); kind(ok) {
			a.eq("input", n.Input(), x.Aggregate.Input)
			each29(a, "grouping expression", n.GroupingExpressions(), x.Aggregate.GroupingExpressions, ex29)
			var sets []string
			for _, g := range x.Aggregate.Groupings {
				sets = append(sets, fmt.Sprint(g.ExpressionReferences))
			}
			var got []string
			for _, g := range n.GroupingReferences() {
				got = append(got, fmt.Sprint(g))
			}
			a.eq("grouping references", fmt.Sprint(got), fmt.Sprint(sets))
			measures29(a, n.Measures(), x.Aggregate.Measures)
		}
	case *pb.Rel_Join:
		inputs = []*pb.Rel{x.Join.Left, x.Join.Right}
		if n, ok := r.(*plan.JoinRel); kind(ok) {
			a.eq("left", n.Left(), x.Join.Left)
			a.eq("right", n.Right(), x.Join.Right)
			a.eq("condition", n.Expr(), x.Join.Expression)
			a.eq("post join filter", n.PostJoinFilter(), orTrue(x.Join.PostJoinFilter))
			a.eq("type", int32(n.Type()), int32(x.Join.Type))
			j := n.JoinedRecordType()
			src := x.Join
			if read != nil {
				src = read.GetJoin() // a write in it may lose its output mode (known finding of C01)
			}
			cols := append(append([]*pb.Type{}, refRelCols(src.Left)...), refRelCols(src.Right)...)
			each29(a, "joined column", j.Types(), cols, func(t types.Type) any { return t })
		}
	case *pb.Rel_Cross:
		inputs = []*pb.Rel{x.Cross.Left, x.Cross.Right}
		if n, ok := r.(*plan.CrossRel); kind(ok) {
			a.eq("left", n.Left(), x.Cross.Left)
			a.eq("right", n.Right(), x.Cross.Right)
		}
	case *pb.Rel_HashJoin:
		inputs = []*pb.Rel{x.HashJoin.Left, x.HashJoin.Right}
		if n, ok := r.(*plan.HashJoinRel); kind(ok) {
			a.eq("left", n.Left(), x.HashJoin.Left)
			a.eq("right", n.Right(), x.HashJoin.Right)
			a.eq("post join filter", n.PostJoinFilter(), orTrue(x.HashJoin.PostJoinFilter))
			a.eq("type", int32(n.Type()), int32(x.HashJoin.Type))
			a.eq("build input", int32(n.BuildInput()), int32(x.HashJoin.BuildInput))
			keys29(a, n.Keys(), n.LeftKeys(), n.RightKeys(), x.HashJoin.Keys)
		}
	case *pb.Rel_MergeJoin:
		inputs = []*pb.Rel{x.MergeJoin.Left, x.MergeJoin.Right}
		if n, ok := r.(*plan.MergeJoinRel); kind(ok) {
			a.eq("left", n.Left(), x.MergeJoin.Left)
			a.eq("right", n.Right(), x.MergeJoin.Right)
			a.eq("post join filter", n.PostJoinFilter(), orTrue(x.MergeJoin.PostJoinFilter))
			a.eq("type", int32(n.Type()), int32(x.MergeJoin.Type))
			keys29(a, n.Keys(), n.LeftKeys(), n.RightKeys(), x.MergeJoin.Keys)
		}
	case *pb.Rel_Set:
		inputs = x.Set.Inputs
		if n, ok := r.(*plan.SetRel); kind(ok) {
			each29(a, "input", n.Inputs(), inputs, rel29)
			a.eq("operation", int32(n.Op()), int32(x.Set.Op))
		}
	case *pb.Rel_Write:
		inputs = []*pb.Rel{x.Write.Input}
		if n, ok := r.(*plan.NamedTableWriteRel); kind(ok) {
			a.eq("input", n.Input(), x.Write.Input)
			a.eq("names", fmt.Sprintf("%q", n.Names()), fmt.Sprintf("%q", x.Write.GetNamedTable().GetNames()))
			a.eq("table extension", n.NamedTableAdvancedExtension(), x.Write.GetNamedTable().GetAdvancedExtension())
			a.eq("schema", n.TableSchema(), x.Write.TableSchema)
			a.eq("operation", int32(n.Op()), int32(x.Write.Op))
			a.eq("create mode", int32(n.CreateMode()), int32(x.Write.CreateMode))
			if read != nil {
				a.eq("output mode", int32(n.OutputMode()), int32(read.GetWrite().GetOutput()))
			}
		}
	case *pb.Rel_ExtensionSingle:
		inputs = []*pb.Rel{x.ExtensionSingle.Input}
		if n, ok := r.(*plan.ExtensionSingleRel); kind(ok) {
			a.eq("input", n.Input(), x.ExtensionSingle.Input)
			a.eq("detail", n.Detail(), x.ExtensionSingle.Detail)
			a.eq("built", n.Definition().Build([]plan.Rel{n.Input()}), x.ExtensionSingle.Detail)
		}
	case *pb.Rel_ExtensionMulti:
		inputs = x.ExtensionMulti.Inputs
		if n, ok := r.(*plan.ExtensionMultiRel); kind(ok) {
			each29(a, "input", n.Inputs(), inputs, rel29)
			a.eq("detail", n.Detail(), x.ExtensionMulti.Detail)
			a.eq("built", n.Definition().Build(n.Inputs()), x.ExtensionMulti.Detail)
		}
	case *pb.Rel_ExtensionLeaf:
		if n, ok := r.(*plan.ExtensionLeafRel); kind(ok) {
			a.eq("detail", n.Detail(), x.ExtensionLeaf.Detail)
			a.eq("built", n.Definition().Build(nil), x.ExtensionLeaf.Detail)
		}
	default:
		t.Failf("%s: no message kind %T", what, m.RelType)
	}
	each29(a, "inputs", r.GetInputs(), inputs, rel29)
	t.Validated()
}

func mask29(a acc29, m *expr.MaskExpression, w *pb.Expression_MaskExpression) {
	a.eq("singular struct", m.MaintainSingularStruct(), w.MaintainSingularStruct)
	items29(a, m.Select(), w.Select.GetStructItems())
	s := m.Select()
	for i := range s {
		s[i] = expr.MaskStructItem{}
	}
	a.eq("mask after a change of the selection", m.ToProto(), w)
}

func items29(a acc29, s expr.MaskStructSelect, w []*pb.Expression_MaskExpression_StructItem) {
	if len(s) != len(w) {
		a.t.Failf("%s: mask of %d items, the message has %d", a.what, len(s), len(w))
		return
	}
	for i := range s {
		a.eq("mask field", s[i].Field(), w[i].Field)
		a.eq("mask item", s[i].ToProto(), w[i])
		child29(a, s[i].Child(), w[i].Child)
	}
}

func child29(a acc29, s expr.MaskSelect, w *pb.Expression_MaskExpression_Select) {
	if w == nil {
		a.eq("no mask child", s == nil, true)
		return
	}
	if s == nil {
		a.t.Failf("%s: no mask child, the message has %s", a.what, show(w))
		return
	}
	a.eq("mask child", s.ToProto(), w)
	switch x := w.Type.(type) {
	case *pb.Expression_MaskExpression_Select_Struct:
		if m, ok := s.(expr.MaskStructSelect); ok {
			items29(a, m, x.Struct.StructItems)
			return
		}
	case *pb.Expression_MaskExpression_Select_List:
		if m, ok := s.(*expr.MaskListSelect); ok {
			for i, it := range m.Selection() {
				v := x.List.Selection[i]
				a.eq("mask list item", it.ToProto(), v)
				switch e := it.(type) {
				case *expr.MaskListElement:
					a.eq("element", e.GetField(), v.GetItem().GetField())
				case *expr.MaskListSlice:
					from, to := e.GetBounds()
					a.eq("slice", fmt.Sprint(from, to), fmt.Sprint(v.GetSlice().GetStart(), v.GetSlice().GetEnd()))
				default:
					a.t.Failf("%s: list item is %T", a.what, it)
				}
			}
			a.eq("mask list items", len(m.Selection()), len(x.List.Selection))
			sel := m.Selection()
			for i := range sel {
				sel[i] = nil
			}
			a.eq("mask list after a change of the selection", m.ToProto(), w)
			child29(a, m.Child(), x.List.Child)
			return
		}
	case *pb.Expression_MaskExpression_Select_Map:
		if m, ok := s.(*expr.MaskMapSelect); ok {
			k, v := expr.MapSelectKey, x.Map.GetKey().GetMapKey()
			if e := x.Map.GetExpression(); e != nil {
				k, v = expr.MapSelectExpr, e.GetMapKeyExpression()
			}
			a.eq("mask key", fmt.Sprint(m.KeyKind(), m.Key()), fmt.Sprint(k, v))
			child29(a, m.Child(), x.Map.Child)
			return
		}
	}
	a.t.Failf("%s: mask child is %T for %s", a.what, s, show(w))
}

type func29 interface {
	Name() string
	CompoundName() string
	ID() extensions.FunctionID
	NArgs() int
	Arg(int) types.FuncArg
	GetArgTypes() []types.Type
	GetOptions() []*types.FunctionOption
	Variadic() *extensions.VariadicBehavior
	SessionDependant() bool
	Deterministic() bool
}

func fn29(a acc29, f func29, ref uint32, args []*pb.FunctionArgument, opts []*pb.FunctionOption) {
	id := extensions.FunctionID{URN: fnNames[ref][0], Name: fnNames[ref][1]}
	a.eq("function id", fmt.Sprint(f.ID().URN), fmt.Sprint(id.URN))
	short, _, _ := strings.Cut(id.Name, ":")
	a.eq("name", f.Name(), short)
	if strings.Contains(id.Name, ":") {
		a.eq("compound name", f.CompoundName(), id.Name)
		a.eq("id", f.ID().Name, id.Name)
	}
	if f.NArgs() != len(args) || len(f.GetArgTypes()) != len(args) {
		a.t.Failf("%s: %d arguments of %d types, the message has %d", a.what, f.NArgs(), len(f.GetArgTypes()), len(args))
		return
	}
	ts := f.GetArgTypes()
	for i, w := range args {
		a.eq(fmt.Sprintf("argument %d", i), f.Arg(i).ToProtoFuncArg(), w)
		switch x := w.ArgType.(type) {
		case *pb.FunctionArgument_Type:
			a.eq("type argument type", ts[i], x.Type)
		case *pb.FunctionArgument_Enum:
			a.eq("enum argument type", fmt.Sprintf("%p", ts[i]), fmt.Sprintf("%p", types.CommonEnumType))
		case *pb.FunctionArgument_Value:
			if e, ok := f.Arg(i).(expr.Expression); ok && e.GetType() != nil {
				a.eq("argument type", ts[i], e.GetType())
			}
		}
	}
	each29(a, "option", f.GetOptions(), opts, func(o *types.FunctionOption) any { return o })
	if g, ok := f.(interface{ GetOption(string) []string }); ok {
		seen := map[string]bool{}
		for _, o := range opts {
			if !seen[o.Name] {
				a.eq("option "+o.Name, fmt.Sprintf("%q", g.GetOption(o.Name)), fmt.Sprintf("%q", o.Preference))
			}
			seen[o.Name] = true
		}
		for _, n := range []string{"", "nothing", "OVERFLOW", "overflo", "overfloww"} {
			if !seen[n] && g.GetOption(n) != nil {
				a.t.Failf("%s: option %q is %v", a.what, n, g.GetOption(n))
			}
		}
	}
	decl := func(v interface {
		Variadic() *extensions.VariadicBehavior
		SessionDependent() bool
		Deterministic() bool
	}) {
		a.eq("variadic", fmt.Sprint(f.Variadic()), fmt.Sprint(v.Variadic()))
		a.eq("session dependent, deterministic", fmt.Sprint(f.SessionDependant(), f.Deterministic()), fmt.Sprint(v.SessionDependent(), v.Deterministic()))
	}
	switch x := f.(type) {
	case *expr.ScalarFunction:
		if v, ok := defColl().GetScalarFunc(id); ok {
			decl(v)
		}
	case *expr.AggregateFunction:
		if v, ok := defColl().GetAggregateFunc(id); ok {
			decl(v)
			i1, e1 := x.IntermediateType()
			i2, e2 := v.Intermediate()
			a.eq("aggregate declaration", fmt.Sprint(x.Decomposable(), x.Ordered(), x.MaxSet(), i1, e1), fmt.Sprint(v.Decomposability(), v.Ordered(), v.MaxSet(), i2, e2))
		}
	case *expr.WindowFunction:
		if v, ok := defColl().GetWindowFunc(id); ok {
			decl(v)
			i1, e1 := x.IntermediateType()
			i2, e2 := v.Intermediate()
			a.eq("window declaration", fmt.Sprint(x.Decomposable(), x.Ordered(), x.MaxSet(), x.WindowType(), i1, e1), fmt.Sprint(v.Decomposability(), v.Ordered(), v.MaxSet(), v.WindowType(), i2, e2))
		}
	}
}

func agg29(a acc29, f *expr.AggregateFunction, m *pb.AggregateFunction) {
	fn29(a, f, m.FunctionReference, m.Arguments, m.Options)
	a.eq("phase, invocation", fmt.Sprint(int32(f.Phase()), int32(f.Invocation())), fmt.Sprint(int32(m.Phase), int32(m.Invocation)))
	a.eq("type", f.GetType(), m.OutputType)
	sorts29(a, "sort", f.Sorts, m.Sorts)
}

func seg29(a acc29, s expr.ReferenceSegment, w *pb.Expression_ReferenceSegment) {
	a.eq("segment", s.ToProto(), w)
	var child *pb.Expression_ReferenceSegment
	switch x := w.ReferenceType.(type) {
	case *pb.Expression_ReferenceSegment_StructField_:
		child = x.StructField.Child
		if f, ok := s.(*expr.StructFieldRef); !ok || f.Field != x.StructField.Field {
			a.t.Failf("%s: segment %#v for %s", a.what, s, show(w))
		}
	case *pb.Expression_ReferenceSegment_ListElement_:
		child = x.ListElement.Child
		if f, ok := s.(*expr.ListElementRef); !ok || f.Offset != x.ListElement.Offset {
			a.t.Failf("%s: segment %#v for %s", a.what, s, show(w))
		}
	case *pb.Expression_ReferenceSegment_MapKey_:
		child = x.MapKey.Child
		if f, ok := s.(*expr.MapKeyRef); !ok || mtext(f.MapKey.ToProtoLiteral()) != mtext(x.MapKey.MapKey) {
			a.t.Failf("%s: segment %#v for %s", a.what, s, show(w))
		}
	}
	if child == nil {
		a.eq("no child", s.GetChild() == nil, true)
		return
	}
	if s.GetChild() == nil {
		a.t.Failf("%s: segment without child for %s", a.what, show(w))
		return
	}
	seg29(a, s.GetChild(), child)
}

// scalar29: a message is a scalar expression when it holds no window function and no lambda outside of relations.
func scalar29(m protoreflect.Message) bool {
	switch x := m.Interface().(type) {
	case *pb.Rel:
		return true
	case *pb.Expression:
		if x.GetWindowFunction() != nil || x.GetLambda() != nil {
			return false
		}
	}
	ok := true
	m.Range(func(f protoreflect.FieldDescriptor, v protoreflect.Value) bool {
		if f.Message() == nil || f.IsMap() {
			return true
		}
		if f.IsList() {
			for i := range v.List().Len() {
				ok = ok && scalar29(v.List().Get(i).Message())
			}
		} else {
			ok = ok && scalar29(v.Message())
		}
		return ok
	})
	return ok
}

// exprAcc29 compares all accessors of an expression, and of those in it.
func exprAcc29(t *T, what string, e expr.Expression) {
	m := e.ToProto() // C06 decides that this is the message read
	a := acc29{t, what + " " + fmt.Sprintf("%T", e)}
	t.State(mtext(m))
	a.eq("scalar", e.IsScalar(), scalar29(m.ProtoReflect()))
	down := func(kids ...expr.Expression) {
		for _, k := range kids {
			if k != nil {
				exprAcc29(t, what, k)
			}
		}
	}
	wrong := func() { t.Failf("%s: expression is %T for %s", what, e, show(m)) }
	switch x := m.RexType.(type) {
	case *pb.Expression_Literal_:
		if l, ok := e.(expr.Literal); ok {
			a.eq("literal", l.ToProtoLiteral(), x.Literal)
			a.eq("scalar", l.IsScalar(), true)
		} else {
			wrong()
		}
	case *pb.Expression_Selection:
		f, ok := e.(*expr.FieldReference)
		if !ok {
			wrong()
			return
		}
		a.eq("field reference", f.ToProtoFieldRef(), x.Selection)
		if d := x.Selection.GetDirectReference(); d != nil {
			if s, ok := f.Reference.(expr.ReferenceSegment); ok {
				seg29(a, s, d)
			} else {
				wrong()
			}
		} else if k := x.Selection.GetMaskedReference(); k != nil {
			if s, ok := f.Reference.(*expr.MaskExpression); ok {
				mask29(a, s, k)
			} else {
				wrong()
			}
		}
		switch r := x.Selection.RootType.(type) {
		case *pb.Expression_FieldReference_Expression:
			k, ok := f.Root.(expr.Expression)
			if !ok {
				wrong()
				return
			}
			a.eq("root", k, r.Expression)
			down(k)
		case *pb.Expression_FieldReference_OuterReference_:
			a.eq("root", fmt.Sprintf("%T %v", f.Root, f.Root), fmt.Sprintf("%T %v", expr.OuterReference(0), r.OuterReference.StepsOut))
		case *pb.Expression_FieldReference_LambdaParameterReference_:
			if l, ok := f.Root.(expr.LambdaParameterReference); !ok || l.StepsOut != r.LambdaParameterReference.StepsOut {
				wrong()
			}
		default:
			a.eq("root", f.Root == expr.RootReference, true)
		}
	case *pb.Expression_ScalarFunction_:
		f, ok := e.(*expr.ScalarFunction)
		if !ok {
			wrong()
			return
		}
		a.eq("function reference", f.FuncRef(), x.ScalarFunction.FunctionReference)
		a.eq("type", f.GetType(), x.ScalarFunction.OutputType)
		fn29(a, f, f.FuncRef(), x.ScalarFunction.Arguments, x.ScalarFunction.Options)
		for i := 0; i < f.NArgs(); i++ {
			if k, ok := f.Arg(i).(expr.Expression); ok {
				down(k)
			}
		}
	case *pb.Expression_WindowFunction_:
		f, ok := e.(*expr.WindowFunction)
		if !ok {
			wrong()
			return
		}
		w := x.WindowFunction
		fn29(a, f, w.FunctionReference, w.Arguments, w.Options)
		a.eq("type", f.GetType(), w.OutputType)
		a.eq("phase, invocation, bounds", fmt.Sprint(int32(f.Phase()), int32(f.Invocation()), int32(f.BoundsType)), fmt.Sprint(int32(w.Phase), int32(w.Invocation), int32(w.BoundsType)))
		sorts29(a, "sort", f.Sorts, w.Sorts)
		each29(a, "partition", f.Partitions, w.Partitions, ex29)
		a.eq("scalar", f.IsScalar(), false)
		bound29(a, "lower", f.LowerBound, w.LowerBound)
		bound29(a, "upper", f.UpperBound, w.UpperBound)
		down(f.Partitions...)
	case *pb.Expression_IfThen_:
		f, ok := e.(*expr.IfThen)
		if !ok {
			wrong()
			return
		}
		a.eq("pairs", f.NIfs(), len(x.IfThen.Ifs))
		for i, w := range x.IfThen.Ifs {
			p := f.IfPair(i)
			a.eq("if", p.If, w.If)
			a.eq("then", p.Then, w.Then)
			down(p.If, p.Then)
		}
		a.eq("else", f.Else(), x.IfThen.Else)
		down(f.Else())
	case *pb.Expression_SwitchExpression_:
		f, ok := e.(*expr.SwitchExpr)
		if !ok {
			wrong()
			return
		}
		a.eq("match", f.MatchExpr(), x.SwitchExpression.Match)
		a.eq("cases", f.NCases(), len(x.SwitchExpression.Ifs))
		for i, w := range x.SwitchExpression.Ifs {
			p := f.Case(i)
			a.eq("case", p.If.ToProtoLiteral(), w.If)
			a.eq("then", p.Then, w.Then)
			down(p.Then)
		}
		a.eq("else", f.Else(), x.SwitchExpression.Else)
		down(f.MatchExpr(), f.Else())
	case *pb.Expression_SingularOrList_:
		f, ok := e.(*expr.SingularOrList)
		if !ok {
			wrong()
			return
		}
		a.eq("value", f.Value, x.SingularOrList.Value)
		each29(a, "option", f.Options, x.SingularOrList.Options, ex29)
		down(append([]expr.Expression{f.Value}, f.Options...)...)
	case *pb.Expression_MultiOrList_:
		f, ok := e.(*expr.MultiOrList)
		if !ok {
			wrong()
			return
		}
		each29(a, "value", f.Value, x.MultiOrList.Value, ex29)
		a.eq("rows", len(f.Options), len(x.MultiOrList.Options))
		for i, w := range x.MultiOrList.Options {
			each29(a, "row", f.Options[i], w.Fields, ex29)
		}
		down(f.Value...)
	case *pb.Expression_Cast_:
		f, ok := e.(*expr.Cast)
		if !ok {
			wrong()
			return
		}
		a.eq("type", f.Type, x.Cast.Type)
		a.eq("type", f.GetType(), x.Cast.Type)
		a.eq("input", f.Input, x.Cast.Input)
		a.eq("failure", int32(f.FailureBehavior), int32(x.Cast.FailureBehavior))
		down(f.Input)
	case *pb.Expression_Nested_:
		n := x.Nested
		switch f := e.(type) {
		case *expr.MapExpr:
			a.eq("nested", fmt.Sprint(f.IsNullable(), f.TypeVariation()), fmt.Sprint(n.Nullable, n.TypeVariationReference))
			a.eq("pairs", len(f.KeyValues), len(n.GetMap().GetKeyValues()))
			for i, w := range n.GetMap().GetKeyValues() {
				a.eq("key", f.KeyValues[i].Key, w.Key)
				a.eq("value", f.KeyValues[i].Value, w.Value)
				down(f.KeyValues[i].Key, f.KeyValues[i].Value)
			}
		case *expr.StructExpr:
			a.eq("nested", fmt.Sprint(f.IsNullable(), f.TypeVariation()), fmt.Sprint(n.Nullable, n.TypeVariationReference))
			each29(a, "field", f.Fields, n.GetStruct().GetFields(), ex29)
			down(f.Fields...)
		case *expr.ListExpr:
			a.eq("nested", fmt.Sprint(f.IsNullable(), f.TypeVariation()), fmt.Sprint(n.Nullable, n.TypeVariationReference))
			each29(a, "value", f.Values, n.GetList().GetValues(), ex29)
			down(f.Values...)
		default:
			wrong()
		}
	case *pb.Expression_DynamicParameter:
		if f, ok := e.(*expr.DynamicParameter); ok {
			a.eq("parameter", f.ParameterReference, x.DynamicParameter.ParameterReference)
			a.eq("type", f.OutputType, x.DynamicParameter.Type)
		} else {
			wrong()
		}
	case *pb.Expression_Lambda_:
		if f, ok := e.(*expr.Lambda); ok {
			a.eq("parameters", f.Parameters, &pb.Type{Kind: &pb.Type_Struct_{Struct: x.Lambda.Parameters}})
			a.eq("body", f.Body, x.Lambda.Body)
			down(f.Body)
		} else {
			wrong()
		}
	case *pb.Expression_Subquery_:
		switch f := e.(type) {
		case *plan.ScalarSubquery:
			a.eq("input", f.Input, x.Subquery.GetScalar().GetInput())
			a.eq("kind", f.GetSubqueryType(), "scalar")
		case *plan.InPredicateSubquery:
			each29(a, "needle", f.Needles, x.Subquery.GetInPredicate().GetNeedles(), ex29)
			a.eq("haystack", f.Haystack, x.Subquery.GetInPredicate().GetHaystack())
			a.eq("kind", f.GetSubqueryType(), "in_predicate")
		case *plan.SetPredicateSubquery:
			a.eq("operation", f.Operation, x.Subquery.GetSetPredicate().GetPredicateOp())
			a.eq("tuples", f.Tuples, x.Subquery.GetSetPredicate().GetTuples())
			a.eq("kind", f.GetSubqueryType(), "set_predicate")
		case *plan.SetComparisonSubquery:
			s := x.Subquery.GetSetComparison()
			a.eq("operations", fmt.Sprint(f.ReductionOp, f.ComparisonOp), fmt.Sprint(s.GetReductionOp(), s.GetComparisonOp()))
			a.eq("left", f.Left, s.GetLeft())
			a.eq("right", f.Right, s.GetRight())
			a.eq("kind", f.GetSubqueryType(), "set_comparison")
		default:
			wrong()
		}
	default:
		wrong()
	}
	t.Validated()
}

func bound29(a acc29, name string, b expr.Bound, w *pb.Expression_WindowFunction_Bound) {
	if w == nil || b == nil {
		a.eq(name+" bound", b == nil, w == nil)
		return
	}
	a.eq(name+" bound", b.ToProto(), w)
	switch k := w.Kind.(type) {
	case *pb.Expression_WindowFunction_Bound_Preceding_:
		a.eq(name+" bound", fmt.Sprintf("%T %d", b, b), fmt.Sprintf("%T %d", expr.PrecedingBound(0), k.Preceding.Offset))
	case *pb.Expression_WindowFunction_Bound_Following_:
		a.eq(name+" bound", fmt.Sprintf("%T %d", b, b), fmt.Sprintf("%T %d", expr.FollowingBound(0), k.Following.Offset))
	case *pb.Expression_WindowFunction_Bound_CurrentRow_:
		a.eq(name+" bound", fmt.Sprintf("%T", b), fmt.Sprintf("%T", expr.CurrentRow{}))
	case *pb.Expression_WindowFunction_Bound_Unbounded_:
		a.eq(name+" bound", fmt.Sprintf("%T", b), fmt.Sprintf("%T", expr.Unbounded{}))
	}
}

func planAcc29(t *T, id string, m *pb.Plan) {
	p, err := plan.FromProtoWithDecoder(m, defColl(), map[string]expr.ExtensionRelDecoder{urlKnownExt: extDec{}})
	if err != nil {
		t.Failf("%s: %v", id, err)
		return
	}
	a := acc29{t, "plan " + id}
	look := func() {
		v := p.Version()
		w := m.Version
		if w == nil {
			w = &pb.Version{}
		}
		a.eq("version", fmt.Sprint(v.GetMajorNumber(), v.GetMinorNumber(), v.GetPatchNumber(), v.GetGitHash(), v.GetProducer()),
			fmt.Sprint(w.MajorNumber, w.MinorNumber, w.PatchNumber, w.GitHash, w.Producer))
		a.eq("type urls", fmt.Sprintf("%q", p.ExpectedTypeURLs()), fmt.Sprintf("%q", m.ExpectedTypeUrls))
		if m.AdvancedExtensions == nil {
			a.eq("advanced extension", s29(p.AdvancedExtension()) == "nothing" || fmt.Sprint(p.AdvancedExtension()) == "<nil>", true)
		} else {
			a.eq("advanced extension", p.AdvancedExtension(), m.AdvancedExtensions)
		}
		rels := p.Relations()
		a.eq("relations", len(rels), len(m.Relations))
		var roots, others []*pb.PlanRel
		for i, w := range m.Relations {
			if i >= len(rels) {
				return
			}
			r := &rels[i]
			a.eq("relation", r.ToProto(), w)
			a.eq("is root", r.IsRoot(), w.GetRoot() != nil)
			if w.GetRoot() != nil {
				roots = append(roots, w)
				if r.Root() == nil {
					t.Failf("plan %s: relation %d has no root", id, i)
					continue
				}
				root29(a, r.Root(), w.GetRoot())
				if r.Rel() != nil {
					t.Failf("plan %s: root %d is a relation, too", id, i)
				}
			} else {
				others = append(others, w)
				a.eq("rel", r.Rel(), w.GetRel())
				if r.Root() != nil {
					t.Failf("plan %s: relation %d is a root, too", id, i)
				}
			}
		}
		each29(a, "root", p.GetRoots(), roots, func(r *plan.Root) any { return r.ToProtoPlanRel() })
		each29(a, "other", p.GetNonRootRelations(), others, func(r plan.Rel) any { return r.ToProtoPlanRel() })
		a.eq("bindings", len(p.ParameterBindings()), len(m.ParameterBindings))
		for i, b := range p.ParameterBindings() {
			a.eq("binding anchor", b.ParameterAnchor, m.ParameterBindings[i].ParameterAnchor)
			a.eq("binding value", b.Value.ToProtoLiteral(), m.ParameterBindings[i].Value)
		}
		for _, d := range m.Extensions {
			f := d.GetExtensionFunction()
			if f == nil {
				continue
			}
			id, ok := p.ExtensionRegistry().DecodeFunc(f.FunctionAnchor)
			a.eq("function", fmt.Sprint(ok, id.Name), fmt.Sprint(true, f.Name))
		}
	}
	look()
	urls, rels, bs := p.ExpectedTypeURLs(), p.Relations(), p.ParameterBindings()
	for i := range urls {
		urls[i] = "changed"
	}
	for i := range rels {
		rels[i] = plan.Relation{}
	}
	for i := range bs {
		bs[i] = plan.DynamicParameterBinding{ParameterAnchor: 999}
	}
	roots, others := p.GetRoots(), p.GetNonRootRelations()
	for i := range roots {
		roots[i] = nil
	}
	for i := range others {
		others[i] = nil
	}
	a.what += ", returned slices changed"
	look()
	t.State(mtext(m))
	t.Validated()
}

func root29(a acc29, r *plan.Root, w *pb.RelRoot) {
	a.eq("root names", fmt.Sprintf("%q", r.Names()), fmt.Sprintf("%q", w.Names))
	a.eq("root input", r.Input(), w.Input)
	rt := r.RecordType()
	a.eq("root columns", fmt.Sprintf("%q", rt.Names), fmt.Sprintf("%q", w.Names))
	each29(a, "root column", rt.Struct.Types, refRelCols(w.Input), func(t types.Type) any { return t })
}

// setters29 explores setter sequences on a relation beside its copies.
func setters29(t *T, p prel, depth int) {
	reg := relReg()
	read := func() plan.Rel {
		r, err := plan.RelFromProto(cloneRel(p.r), reg)
		if err != nil {
			return nil
		}
		return r
	}
	if read() == nil {
		return
	}
	type setter struct {
		id string
		do func(r plan.Rel, m *pb.Rel) string // applies to both; a text is a complaint
	}
	var ss []setter
	for _, v := range []*ext.AdvancedExtension{nil, advExt("new"), advExt("newer")} {
		ss = append(ss, setter{"extension " + s29(v), func(r plan.Rel, m *pb.Rel) string {
			at := advOf(m)
			old := r.SetAdvancedExtension(v)
			if s29(old) != s29(*at) {
				return fmt.Sprintf("SetAdvancedExtension returns %s, it was %s", s29(old), s29(*at))
			}
			*at = v
			return ""
		}})
	}
	if p.r.GetRead() != nil {
		for _, v := range []*pb.Expression_MaskExpression{nil,
			{Select: &pb.Expression_MaskExpression_StructSelect{StructItems: []*pb.Expression_MaskExpression_StructItem{{Field: 1}}}},
			{Select: &pb.Expression_MaskExpression_StructSelect{StructItems: []*pb.Expression_MaskExpression_StructItem{{Field: 1}, {Field: 0}}}, MaintainSingularStruct: true}} {
			ss = append(ss, setter{"projection " + s29(v), func(r plan.Rel, m *pb.Rel) string {
				var k *expr.MaskExpression
				if v != nil {
					k = expr.MaskExpressionFromProto(v)
				}
				r.(interface{ SetProjection(*expr.MaskExpression) }).SetProjection(k)
				m.GetRead().Projection = v
				return ""
			}})
		}
	}
	if ag := p.r.GetAggregate(); ag != nil && len(ag.GroupingExpressions) > 0 {
		in2 := relNamed("other", relColsA()...)
		ss = append(ss, setter{"input", func(r plan.Rel, m *pb.Rel) string {
			in, _ := plan.RelFromProto(cloneRel(in2), reg)
			r.(*plan.AggregateRel).SetInput(in)
			m.GetAggregate().Input = in2
			return ""
		}})
		base := recordOf(relColsA())
		for k, ms := range [][]*pb.AggregateRel_Measure{{}, {aggMeasure(fnSum, leafT("i64", nNul, 0), xLit(lBool(true)), xCol(0))}} {
			ss = append(ss, setter{fmt.Sprint("measures ", k), func(r plan.Rel, m *pb.Rel) string {
				var l []plan.AggRelMeasure
				b := plan.NewBuilder(defColl())
				for _, x := range ms {
					f, err := expr.NewAggregateFunctionFromProto(x.Measure, base, reg)
					if err != nil {
						panic(err)
					}
					c, _ := expr.ExprFromProto(x.Filter, base, reg)
					l = append(l, b.Measure(f, c))
				}
				r.(*plan.AggregateRel).SetMeasures(l)
				m.GetAggregate().Measures = ms
				return ""
			}})
		}
		n := uint32(len(ag.GroupingExpressions))
		for k, sets := range [][][]uint32{{}, {{0}}, {{n - 1}, {}}, {{0, n - 1}}} {
			ss = append(ss, setter{fmt.Sprint("references ", k), func(r plan.Rel, m *pb.Rel) string {
				r.(*plan.AggregateRel).SetGroupingReferences(sets)
				m.GetAggregate().Groupings = nil
				for _, s := range sets {
					m.GetAggregate().Groupings = append(m.GetAggregate().Groupings, &pb.AggregateRel_Grouping{ExpressionReferences: s})
				}
				return ""
			}})
		}
		for k := range 2 {
			ss = append(ss, setter{fmt.Sprint("expressions ", k), func(r plan.Rel, m *pb.Rel) string {
				var l []expr.Expression
				var ps []*pb.Expression
				for i := range n {
					ps = append(ps, xCol(int32(int(i)+k)%2))
				}
				for _, x := range ps {
					e, _ := expr.ExprFromProto(x, base, reg)
					l = append(l, e)
				}
				r.(*plan.AggregateRel).SetGroupingExpressions(l)
				m.GetAggregate().GroupingExpressions = ps
				return ""
			}})
		}
	}
	var walk func(path []int)
	run := func(path []int) {
		r := read()
		type beside struct {
			id   string
			r    plan.Rel
			m    *pb.Rel
			cols string
		}
		var others []beside
		add := func(id string, x plan.Rel, err error) {
			if err == nil && x != nil && x != r {
				others = append(others, beside{id, x, x.ToProto(), ""})
			}
		}
		add("relation read again", read(), nil)
		if n := len(refRelCols(p.r)); n > 0 && !undecoded(p.r) {
			x, err := r.Remap(0)
			add("remapped copy", x, err)
		}
		if x, err := r.Copy(r.GetInputs()...); x != r {
			add("copy", x, err)
		}
		id := func() plan.Rel {
			x, err := r.CopyWithExpressionRewrite(func(e expr.Expression) (expr.Expression, error) {
				if e == nil {
					return nil, nil
				}
				return expr.ExprFromProto(e.ToProto(), recordOf(relColsA()), reg)
			}, r.GetInputs()...)
			if err != nil {
				return nil
			}
			return x
		}
		if len(path) <= 2 {
			var x plan.Rel
			if catch(func() { x = id() }) == "" {
				add("rewritten copy", x, nil)
			}
		}
		m := r.ToProto()
		var names []string
		for _, k := range path {
			names = append(names, ss[k].id)
			if c := ss[k].do(r, m); c != "" {
				t.Failf("%s after %q: %s", p.id, names, c)
			}
			t.Trans(1)
		}
		if g, w := mtext(r.ToProto()), mtext(m); g != w {
			t.Failf("%s after %q is written as\n    %s\n  want\n    %s", p.id, names, g, w)
		}
		what := fmt.Sprintf("%s after %q", p.id, names)
		relAcc29(t, what, r, nil)
		if !undecoded(p.r) && m.GetRead().GetProjection() == nil && p.r.GetAggregate() != nil && m.GetAggregate() != nil && commonOf(m).GetEmit() == nil {
			rt := r.RecordType()
			each29(acc29{t, what}, "column", rt.Types(), refRelCols(m), func(t types.Type) any { return t })
		}
		for _, o := range others {
			if g := mtext(o.r.ToProto()); g != mtext(o.m) {
				t.Failf("%s: the %s changed to\n    %s\n  from\n    %s", what, o.id, g, mtext(o.m))
			}
			// and the other way round
			before := mtext(r.ToProto())
			o.r.SetAdvancedExtension(advExt("beside"))
			if mtext(r.ToProto()) != before {
				t.Failf("%s: a change of the %s changed the relation", what, o.id)
			}
		}
		t.State(mtext(m))
		t.Validated()
	}
	walk = func(path []int) {
		if len(path) > 0 {
			run(path)
		}
		if len(path) == depth {
			return
		}
		for k := range ss {
			walk(append(append([]int{}, path...), k))
		}
	}
	walk(nil)
}

// clones29 explores setters of aggregate functions and expression references.
func clones29(t *T, m *pb.AggregateFunction, depth int) {
	reg := stdReg()
	cols := baseCols()
	base := recordOf(cols)
	args := []struct {
		a types.FuncArg
		p *pb.FunctionArgument
	}{{expr.NewPrimitiveLiteral(int32(7), false), argV(xLit(lI32(7)))}, {types.Enum("SUB"), &pb.FunctionArgument{ArgType: &pb.FunctionArgument_Enum{Enum: "SUB"}}}}
	type st struct {
		f *expr.AggregateFunction
		m *pb.AggregateFunction
	}
	type op struct {
		id string
		do func(s []st) []st
	}
	var ops []op
	for i := range m.Arguments {
		for k, v := range args {
			for who := range 2 {
				ops = append(ops, op{fmt.Sprint("set ", i, k, " of ", who), func(s []st) []st {
					if who < len(s) {
						s[who].f.SetArg(i, v.a)
						s[who].m.Arguments[i] = v.p
					}
					return s
				}})
			}
		}
	}
	ops = append(ops, op{"clone", func(s []st) []st {
		return append(s, st{s[len(s)-1].f.Clone(), proto.Clone(s[len(s)-1].m).(*pb.AggregateFunction)})
	}}, op{"sorts of the clone", func(s []st) []st {
		l := s[len(s)-1]
		for i := range l.f.Sorts {
			l.f.Sorts[i].Kind = types.SortClustered
			l.m.Sorts[i].SortKind = &pb.SortField_Direction{Direction: pb.SortField_SORT_DIRECTION_CLUSTERED}
		}
		return s
	}}, op{"options of the clone", func(s []st) []st {
		l := s[len(s)-1]
		o := l.f.GetOptions()
		for i := range o {
			o[i] = &types.FunctionOption{Name: "changed"}
			l.m.Options[i] = &pb.FunctionOption{Name: "changed"}
		}
		return s
	}})
	var walk func(path []int)
	walk = func(path []int) {
		f, err := expr.NewAggregateFunctionFromProto(proto.Clone(m).(*pb.AggregateFunction), base, reg)
		if err != nil {
			t.Failf("%v: %s", err, show(m))
			return
		}
		s := []st{{f, f.ToProto()}}
		s[0].m = proto.Clone(s[0].m).(*pb.AggregateFunction)
		var names []string
		for _, k := range path {
			names = append(names, ops[k].id)
			s = ops[k].do(s)
			t.Trans(1)
		}
		for i, x := range s {
			if g, w := mtext(x.f.ToProto()), mtext(x.m); g != w {
				t.Failf("function %d after %q is\n    %s\n  want\n    %s", i, names, g, w)
			}
			agg29(acc29{t, fmt.Sprintf("function %d after %q", i, names)}, x.f, x.m)
		}
		t.Validated()
		if len(path) < depth {
			for k := range ops {
				walk(append(append([]int{}, path...), k))
			}
		}
	}
	walk(nil)
}

func runC29(c *Ctx) {
	level := 1
	if c.Thorough {
		level = 2
	}
	for _, p := range append(relUniverse(level), sizedRels(false)...) {
		c.Case(func(t *T) {
			r, err := plan.RelFromProto(cloneRel(p.r), relReg())
			if err != nil {
				t.Failf("%s: %v", p.id, err)
				return
			}
			t.State(mtext(p.r))
			relAcc29(t, p.id, r, p.r)
		}, "rel", p.id)
	}
	for _, p := range planUniverse() {
		c.Case(func(t *T) { planAcc29(t, p.id, p.p) }, "plan", p.id)
	}
	for _, p := range append(exprUniverse(level), sizedExprs(65)...) {
		c.Case(func(t *T) {
			cols := baseCols()
			e, err := expr.ExprFromProto(proto.Clone(p.e).(*pb.Expression), recordOf(cols), stdReg())
			if err != nil {
				t.Failf("%s: %v", p.id, err)
				return
			}
			exprAcc29(t, p.id, e)
		}, "expr", p.id)
	}
	// a window function in the place of every part of every expression
	for _, p := range append(exprUniverse(level), sizedExprs(65)...) {
		c.Case(func(t *T) {
			var all []*pb.Expression
			parts := func(e *pb.Expression) []*pb.Expression {
				all = nil
				walkPB(e, func(m proto.Message) {
					if x, ok := m.(*pb.Expression); ok {
						all = append(all, x)
					}
				})
				return all
			}
			cols := baseCols()
			for i := range parts(p.e) {
				e := proto.Clone(p.e).(*pb.Expression)
				x := parts(e)[i]
				var typ *pb.Type
				if catch(func() { typ = refExprType(x, cols) }) != "" || typ == nil {
					typ = tI32(nReq)
				}
				x.RexType = xWindow(fnRowNum, typ, 0, 0, nil).RexType
				r, err := expr.ExprFromProto(e, recordOf(cols), stdReg())
				if err != nil {
					t.Note("window not allowed")
					continue
				}
				t.Note("window in place")
				exprAcc29(t, fmt.Sprint("window in ", p.id), r)
			}
		}, "window", p.id)
	}
	for i, m := range aggUniverse() {
		c.Case(func(t *T) {
			f, err := expr.NewAggregateFunctionFromProto(proto.Clone(m).(*pb.AggregateFunction), recordOf(baseCols()), stdReg())
			if err != nil {
				t.Failf("%v: %s", err, show(m))
				return
			}
			agg29(acc29{t, "aggregate"}, f, f.ToProto())
		}, "agg", i)
		c.Case(func(t *T) {
			d := 3
			if len(m.Arguments) == 1 {
				d = 4
			}
			clones29(t, m, d)
		}, "clone", i)
	}
	for _, p := range baseRels() {
		c.Case(func(t *T) {
			d := 3
			if p.r.GetAggregate() != nil && !c.Thorough {
				d = 2
			}
			setters29(t, p, d)
		}, "set", p.id)
	}
	c.Case(func(t *T) {
		reg, base := stdReg(), recordOf(baseCols())
		l1, _ := expr.ExprFromProto(xCol(0), base, reg)
		l2, _ := expr.ExprFromProto(xLit(lI32(3)), base, reg)
		ag := aggUniverse()
		m1, _ := expr.NewAggregateFunctionFromProto(ag[0], base, reg)
		m2, _ := expr.NewAggregateFunctionFromProto(ag[len(ag)-1], base, reg)
		var walk func(path []int)
		walk = func(path []int) {
			er := &expr.ExpressionReference{OutputNames: []string{"a", "b"}}
			var we expr.Expression
			var wm *expr.AggregateFunction
			for _, k := range path {
				t.Trans(1)
				switch k {
				case 0:
					er.SetExpr(l1)
					we, wm = l1, nil
				case 1:
					er.SetExpr(l2)
					we, wm = l2, nil
				case 2:
					er.SetMeasure(m1)
					we, wm = nil, m1
				case 3:
					er.SetMeasure(m2)
					we, wm = nil, m2
				}
			}
			want := &pb.ExpressionReference{OutputNames: []string{"a", "b"}}
			if we != nil {
				want.ExprType = &pb.ExpressionReference_Expression{Expression: we.ToProto()}
			}
			if wm != nil {
				want.ExprType = &pb.ExpressionReference_Measure{Measure: wm.ToProto()}
			}
			if er.GetExpr() != we || er.GetMeasure() != wm || mtext(er.ToProto()) != mtext(want) {
				t.Failf("reference after %v is %s, want %s", path, show(er.ToProto()), show(want))
			}
			t.Validated()
			if len(path) < 4 {
				for k := range 4 {
					walk(append(append([]int{}, path...), k))
				}
			}
		}
		walk(nil)
	}, "references")
	// chains of segments
	c.Case(func(t *T) {
		mk := []func() (expr.ReferenceSegment, func(*pb.Expression_ReferenceSegment) *pb.Expression_ReferenceSegment){
			func() (expr.ReferenceSegment, func(*pb.Expression_ReferenceSegment) *pb.Expression_ReferenceSegment) {
				return expr.NewStructFieldRef(2), func(c *pb.Expression_ReferenceSegment) *pb.Expression_ReferenceSegment { return segField(2, c) }
			},
			func() (expr.ReferenceSegment, func(*pb.Expression_ReferenceSegment) *pb.Expression_ReferenceSegment) {
				return expr.NewListElemRef(1), func(c *pb.Expression_ReferenceSegment) *pb.Expression_ReferenceSegment { return segElem(1, c) }
			},
			func() (expr.ReferenceSegment, func(*pb.Expression_ReferenceSegment) *pb.Expression_ReferenceSegment) {
				return expr.NewMapKeyRef(expr.LiteralFromProto(lStr("k"))), func(c *pb.Expression_ReferenceSegment) *pb.Expression_ReferenceSegment {
					return segKey(lStr("k"), c)
				}
			},
		}
		var walk func(path []int)
		walk = func(path []int) {
			var segs []expr.ReferenceSegment
			var wr []func(*pb.Expression_ReferenceSegment) *pb.Expression_ReferenceSegment
			for _, k := range path {
				s, w := mk[k]()
				segs, wr = append(segs, s), append(wr, w)
			}
			got := expr.FlattenRefSegments(segs...)
			t.Trans(1)
			if len(path) == 0 {
				if got != nil {
					t.Failf("no segments give %v", got)
				}
			} else {
				var want *pb.Expression_ReferenceSegment
				for i := len(wr) - 1; i >= 0; i-- {
					want = wr[i](want)
				}
				if got == nil || mtext(got.ToProto()) != mtext(want) {
					t.Failf("segments %v give %v, want %s", path, got, show(want))
				} else {
					seg29(acc29{t, fmt.Sprint("segments ", path)}, got, want)
					if rd := expr.RefSegmentFromProto(want); rd == nil || !rd.Equals(got) {
						t.Failf("segments %v are not equal to those of their message", path)
					}
				}
			}
			t.Validated()
			if len(path) < 5 {
				for k := range mk {
					walk(append(append([]int{}, path...), k))
				}
			}
		}
		walk(nil)
	}, "segments")
}
