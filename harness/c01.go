// C01: plans and relations survive a protobuf round trip unchanged.
package main

import (
	"fmt"
	"strings"

	"github.com/substrait-io/substrait-go/v8/expr"
	"github.com/substrait-io/substrait-go/v8/plan"
	pb "github.com/substrait-io/substrait-protobuf/go/substraitpb"
	ext "github.com/substrait-io/substrait-protobuf/go/substraitpb/extensions"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
)

func init() {
	checks["C01"] = &Check{Run: runC01, Quick: 250, Thorough: 850, Shards: 8,
		Bounds: "every relation kind with every attribute varied (reads of 5 table kinds x paths x formats, all join types of the three joins x keys x comparisons x filters, set operations of 2-3 inputs, grouping-set shapes of 0-3 sets over 0-3 expressions and the older form, writes x create modes, decoded and undecoded extensions), every common part (hint, extension, 8 emit shapes), every relation in every input of every kind (depth 2, thorough: a fixed seventh to depth 3); lists of 4 to 300 parts of every kind (see C02) and all lists of 3-4 (5) grouping sets over two expressions; every one-step edit of every base relation and plan message (each field cleared, set, changed, each oneof member chosen, each list element removed, doubled, swapped, added); plans with 0-3 relations/roots, versions, type URLs, extensions, bindings, and with up to 300 relations or bindings",
		Assume: []string{"messages in deprecated or redundant spellings are judged as the equivalent current message", "expression and type internals are edited by C06, C08, C09"}}
}

// judgeRel reads and writes a relation. must: it has to be accepted.
func judgeRel(t *T, reg expr.ExtensionRegistry, p *pb.Rel, must bool) plan.Rel {
	before := mtext(p)
	rel, err := plan.RelFromProto(p, reg)
	if mtext(p) != before {
		t.Failf("reading modified the message %s", show(p))
	}
	t.Trans(1)
	if err != nil {
		if must {
			t.Failf("valid relation rejected: %v\n  %s", err, show(p))
		}
		return nil
	}
	if rel == nil {
		t.Failf("no relation and no error: %s", show(p))
		return nil
	}
	t.StateBytes([]byte(before))
	q := rel.ToProto()
	want, got := normRel(p, false), normRel(q, true)
	if mtext(got) != mtext(want) {
		if outputDropped(want, got) {
			t.FailKey("write-output-dropped", "the output mode of a write is not written: %s / %s", show(want), show(got))
		} else {
			t.Failf("relation changes in a round trip:\n  in:  %s\n  out: %s", show(want), show(got))
			return rel
		}
	}
	if mtext(rel.ToProto()) != mtext(q) {
		t.Failf("writing twice gives different messages: %s", show(p))
	}
	if pr := rel.ToProtoPlanRel(); mtext(pr) != mtext(&pb.PlanRel{RelType: &pb.PlanRel_Rel{Rel: q}}) {
		t.Failf("as a relation of a plan it is written as %s", show(pr))
	}
	rel2, err := plan.RelFromProto(q, reg)
	if err != nil {
		if outputDropped(want, got) {
			return rel
		}
		t.Failf("the written relation is rejected: %v\n  %s", err, show(q))
		return rel
	}
	if mtext(rel2.ToProto()) != mtext(q) {
		t.Failf("second round trip differs from the first: %s / %s", show(q), show(rel2.ToProto()))
	}
	t.Trans(3)
	t.Validated()
	return rel
}

// outputDropped: the two messages differ only in that outputs of writes are lost.
func outputDropped(want, got proto.Message) bool {
	w := proto.Clone(want)
	n := 0
	walkPB(w, func(m proto.Message) {
		if x, ok := m.(*pb.WriteRel); ok && x.Output != 0 {
			x.Output = 0
			n++
		}
	})
	return n > 0 && mtext(w) == mtext(got)
}

// skipInside: parts whose edits other checks make.
func skipInside(fd protoreflect.FieldDescriptor) bool {
	if fd.Message() == nil {
		return false
	}
	switch fd.Message().FullName() {
	case "substrait.Expression", "substrait.Type", "substrait.Expression.Literal", "google.protobuf.Any":
		return false // edited as a whole; see relEdits
	}
	return false
}

// relEdits: every one-step edit outside the inside of expressions and types.
func relEdits(m proto.Message) []medit {
	var r []medit
	for _, e := range edits(m, skipInside) {
		inside := 0
		for _, s := range e.path {
			if s.fd.Message() == nil {
				continue
			}
			switch s.fd.Message().FullName() {
			case "substrait.Expression", "substrait.Type", "substrait.Expression.Literal", "substrait.Expression.FieldReference", "substrait.AggregateFunction":
				inside++
			}
		}
		if inside == 0 {
			r = append(r, e)
		}
	}
	return r
}

func runC01(c *Ctx) {
	reg := relReg()
	lvl := 2
	if c.Thorough {
		lvl = 3
	}
	for _, x := range append(relUniverse(lvl), sizedRels(c.Thorough)...) {
		c.Case(func(t *T) {
			c.Dim("root", fmt.Sprintf("%T", x.r.RelType))
			judgeRel(t, reg, x.r, true)
		}, "rel", x.id)
	}
	// one-step edits: kept or rejected
	for _, x := range baseRels() {
		if strings.Contains(x.id, "files-") && !strings.HasSuffix(x.id, "-6") && !strings.HasPrefix(x.id, "files-0") {
			continue
		}
		c.Case(func(t *T) {
			for _, e := range relEdits(x.r) {
				p := e.apply(x.r).(*pb.Rel)
				msg := catch(func() { judgeEdited(t, reg, p) })
				if msg != "" {
					t.Failf("panic after %s: %s\n  %s", e, msg, show(p))
				}
			}
		}, "edits", x.id)
	}
	c01Plans(c)
}

func judgeEdited(t *T, reg expr.ExtensionRegistry, p *pb.Rel) {
	judgeRel(t, reg, p, false)
}

func basePlan(rels ...*pb.PlanRel) *pb.Plan {
	d := stdDecls()
	return &pb.Plan{Version: &pb.Version{MajorNumber: 1, MinorNumber: 2, PatchNumber: 3, GitHash: strings.Repeat("a", 40), Producer: "pr"},
		ExtensionUrns: d.urns, Extensions: d.decl, Relations: rels}
}

func planRoot(r *pb.Rel) *pb.PlanRel {
	var names []string
	for i, c := range refRelCols(r) {
		names = append(names, fmt.Sprintf("n%d", i))
		names = append(names, nestedNames(c, fmt.Sprintf("n%d", i))...)
	}
	return &pb.PlanRel{RelType: &pb.PlanRel_Root{Root: &pb.RelRoot{Input: r, Names: names}}}
}
func planOther(r *pb.Rel) *pb.PlanRel { return &pb.PlanRel{RelType: &pb.PlanRel_Rel{Rel: r}} }

type pplan struct {
	id string
	p  *pb.Plan
}

func planUniverse() []pplan {
	a, b := relNamed("a", relColsA()...), relNamed("b", relColsB()...)
	f := relFilter(relNamed("c", relColsA()...), condOn(relColsA(), 0, 1))
	pool := []*pb.PlanRel{planRoot(a), planRoot(b), planOther(f), planOther(a), planRoot(relProject(b, relEmit(2, 0), xLit(lI32(5))))}
	r := []pplan{{"empty", basePlan()}}
	for i, x := range pool {
		r = append(r, pplan{fmt.Sprint(i), basePlan(x)})
		for j, y := range pool {
			r = append(r, pplan{fmt.Sprint(i, j), basePlan(x, y)})
			for k, z := range pool {
				r = append(r, pplan{fmt.Sprint(i, j, k), basePlan(x, y, z)})
			}
		}
	}
	opts := []func(p *pb.Plan){
		func(p *pb.Plan) { p.Version = nil },
		func(p *pb.Plan) { p.Version = &pb.Version{} },
		func(p *pb.Plan) { p.ExpectedTypeUrls = []string{"u1", "u0", "u1"} },
		func(p *pb.Plan) { p.AdvancedExtensions = advExt("p") },
		func(p *pb.Plan) {
			p.ParameterBindings = []*pb.DynamicParameterBinding{{ParameterAnchor: 4, Value: lBool(true)}, {ParameterAnchor: 9, Value: lStr("v")}}
			p.Relations[0] = planRoot(relProject(relFilter(a, xDyn(tBool(), 4)), relDirect(), xDyn(leafT("string", nReq, 0), 9)))
		},
		func(p *pb.Plan) { p.ExtensionUrns, p.Extensions = nil, nil; p.Relations = []*pb.PlanRel{planRoot(a)} },
	}
	for bits := 1; bits < 1<<len(opts); bits++ {
		p := proto.Clone(basePlan(planRoot(a), planOther(f), planRoot(b))).(*pb.Plan)
		for i, o := range opts {
			if bits>>i&1 == 1 {
				o(p)
			}
		}
		r = append(r, pplan{fmt.Sprintf("opts%x", bits), p})
	}
	return r
}

func normPlan(p *pb.Plan, strict bool) *pb.Plan {
	q := normRel(p, strict)
	q.ExtensionUrns, q.Extensions = nil, nil
	return q
}

func judgePlan(t *T, p *pb.Plan, must bool) *plan.Plan {
	before := mtext(p)
	pl, err := plan.FromProtoWithDecoder(p, defColl(), map[string]expr.ExtensionRelDecoder{urlKnownExt: extDec{}})
	if mtext(p) != before {
		t.Failf("reading modified the message %s", show(p))
	}
	t.Trans(1)
	if err != nil {
		if must {
			t.Failf("valid plan rejected: %v\n  %s", err, show(p))
		}
		return nil
	}
	t.StateBytes([]byte(before))
	q, err := pl.ToProto()
	if err != nil {
		t.Failf("plan cannot be written: %v %s", err, show(p))
		return pl
	}
	if w, g := normPlan(p, false), normPlan(q, true); mtext(w) != mtext(g) {
		if outputDropped(w, g) {
			t.FailKey("write-output-dropped", "the output mode of a write is not written: %s", show(p))
			return pl
		} else {
			t.Failf("plan changes in a round trip:\n  in:  %s\n  out: %s", show(w), show(g))
			return pl
		}
	}
	if d := sameDecls(p, q); d != "" {
		t.Failf("extension declarations change in a round trip (%s):\n  in:  %s\n  out: %s", d, show(p), show(q))
	}
	q2, _ := pl.ToProto()
	if mtext(q2) != mtext(q) {
		t.Failf("writing twice gives different messages: %s", show(p))
	}
	pl2, err := plan.FromProtoWithDecoder(q, defColl(), map[string]expr.ExtensionRelDecoder{urlKnownExt: extDec{}})
	if err != nil {
		t.Failf("the written plan is rejected: %v %s", err, show(q))
		return pl
	}
	if q3, err := pl2.ToProto(); err != nil || mtext(q3) != mtext(q) {
		t.Failf("second round trip differs: %s / %s %v", show(q), show(q3), err)
	}
	// what the accessors report
	if v := p.Version; v != nil {
		g := pl.Version()
		if g.GetMajorNumber() != v.MajorNumber || g.GetMinorNumber() != v.MinorNumber || g.GetPatchNumber() != v.PatchNumber || g.GetGitHash() != v.GitHash || g.GetProducer() != v.Producer {
			t.Failf("version is %v, want %v", g, v)
		}
	}
	if fmt.Sprint(pl.ExpectedTypeURLs()) != fmt.Sprint(p.ExpectedTypeUrls) {
		t.Failf("expected type URLs are %v, want %v", pl.ExpectedTypeURLs(), p.ExpectedTypeUrls)
	}
	var roots []*pb.PlanRel
	var others []*pb.PlanRel
	for _, r := range q.Relations {
		if r.GetRoot() != nil {
			roots = append(roots, r)
		} else {
			others = append(others, r)
		}
	}
	if rs := pl.Relations(); len(rs) != len(q.Relations) {
		t.Failf("plan reports %d relations, want %d", len(rs), len(q.Relations))
	} else {
		for i := range rs {
			if rs[i].IsRoot() != (q.Relations[i].GetRoot() != nil) || mtext(rs[i].ToProto()) != mtext(q.Relations[i]) {
				t.Failf("relation %d of the plan is %s, want %s", i, show(rs[i].ToProto()), show(q.Relations[i]))
			}
		}
	}
	gr, go_ := pl.GetRoots(), pl.GetNonRootRelations()
	if len(gr) != len(roots) || len(go_) != len(others) {
		t.Failf("plan reports %d roots and %d others, want %d and %d: %s", len(gr), len(go_), len(roots), len(others), show(p))
	} else {
		for i, r := range gr {
			if mtext(r.ToProtoPlanRel()) != mtext(roots[i]) || fmt.Sprint(r.Names()) != fmt.Sprint(roots[i].GetRoot().Names) {
				t.Failf("root %d is %s, want %s", i, show(r.ToProtoPlanRel()), show(roots[i]))
			}
		}
		for i, r := range go_ {
			if mtext(r.ToProtoPlanRel()) != mtext(others[i]) {
				t.Failf("relation %d is %s, want %s", i, show(r.ToProtoPlanRel()), show(others[i]))
			}
		}
	}
	if bs := pl.ParameterBindings(); len(bs) != len(p.ParameterBindings) {
		t.Failf("plan reports %d bindings, want %d", len(bs), len(p.ParameterBindings))
	} else {
		for i, b := range bs {
			if b.ParameterAnchor != p.ParameterBindings[i].ParameterAnchor || mtext(normLits(&pb.DynamicParameterBinding{Value: b.Value.ToProtoLiteral()})) != mtext(normLits(&pb.DynamicParameterBinding{Value: p.ParameterBindings[i].Value})) {
				t.Failf("binding %d is %v, want %s", i, b, show(p.ParameterBindings[i]))
			}
		}
	}
	t.Trans(4)
	t.Validated()
	return pl
}

func c01Plans(c *Ctx) {
	c01Names(c)
	for _, x := range planUniverse() {
		c.Case(func(t *T) { judgePlan(t, x.p, true) }, "plan", x.id)
	}
	// plans of many relations, names, types and bindings
	for _, n := range []int{4, 5, 8, 9, 16, 17, 33, 65, 129, 300} {
		c.Case(func(t *T) {
			var rels []*pb.PlanRel
			p := basePlan()
			for i := 0; i < n; i++ {
				x := relProject(relFilter(relNamed(fmt.Sprint("t", i), manyCols(1+i%9)...), xDyn(tBool(), uint32(2*i))), relDirect(), xDyn(leafT("string", nReq, 0), uint32(2*i+1)))
				if i%3 == 0 {
					rels = append(rels, planRoot(x))
				} else {
					rels = append(rels, planOther(x))
				}
				p.ExpectedTypeUrls = append(p.ExpectedTypeUrls, fmt.Sprint("u", (i*7)%n))
				p.ParameterBindings = append(p.ParameterBindings, &pb.DynamicParameterBinding{ParameterAnchor: uint32(2*n - 2*i - 2), Value: lBool(i%2 == 0)}, &pb.DynamicParameterBinding{ParameterAnchor: uint32(2*i + 1), Value: lStr(fmt.Sprint(i))})
			}
			p.Relations = rels
			judgePlan(t, p, true)
			judgePlan(t, basePlan(planRoot(relNamed("w", manyCols(n)...))), true)
			judgePlan(t, basePlan(planRoot(relNamed("w", pbStruct(nReq, 0, manyCols(n)...), pbList(nNul, 0, pbStruct(nReq, 0, manyCols(n)...))))), true)
		}, "sized", n)
	}
	// every base relation as a root and as another relation
	for _, x := range baseRels() {
		c.Case(func(t *T) {
			judgePlan(t, basePlan(planRoot(x.r), planOther(x.r)), true)
		}, "planrel", x.id)
	}
	for _, x := range planUniverse() {
		if !strings.HasPrefix(x.id, "opts") && len(x.p.Relations) > 1 {
			continue
		}
		c.Case(func(t *T) {
			for _, e := range relEdits(x.p) {
				if insideRel(e) {
					continue
				}
				p := e.apply(x.p).(*pb.Plan)
				if msg := catch(func() { judgeEditedPlan(t, p) }); msg != "" {
					t.Failf("panic after %s: %s\n  %s", e, msg, show(p))
				}
			}
		}, "planedits", x.id)
	}
}

// c01Names puts functions under every kind of name the collection does not
// declare (and a few it does) where scalar, aggregate and window functions go:
// the reference, the name and the arguments have to survive.
func c01Names(c *Ctx) {
	names := []string{"", ":", "foo", "foo:", "add", "add:", "add:i32", "add:i32_i32", "sum:i32", "foo:any", "foo:any1", "foo:any1_any2", "foo:i32_", "foo:_", "foo:i32:i32", "foo:string", "foo:x_y", "foo:req_i32",
		"foo:bool", "foo:i8", "foo:str", "foo:vbin", "foo:ts", "foo:tstz", "foo:date", "foo:time", "foo:iyear", "foo:iday", "foo:icompound", "foo:uuid", "foo:fchar", "foo:vchar", "foo:fbin",
		"foo:dec", "foo:dec_dec", "foo:pt", "foo:pts", "foo:ptstz", "foo:struct", "foo:list", "foo:map", "foo:func", "foo:u!point", "foo:list<i32>", "foo:decimal<38,0>", "föö:ï"}
	for _, n := range names {
		for _, dup := range []bool{false, true} {
			for _, kind := range []string{"scalar", "aggregate", "window"} {
				c.Case(func(t *T) {
					ref := uint32(40)
					a := relNamed("a", relColsA()...)
					arg := valOn(relColsA(), 0, 1)
					var r *pb.Rel
					switch kind {
					case "scalar":
						r = relProject(a, relEmit(3), xScalar(ref, tI32(pb.Type_NULLABILITY_REQUIRED), nil, argsV([]*pb.Expression{arg, arg})...))
					case "window":
						r = relProject(a, relEmit(3), xWindow(ref, tI32(pb.Type_NULLABILITY_REQUIRED), 1, 1, []*pb.Expression{arg, arg, arg}))
					case "aggregate":
						r = relAgg(a, nil, nil, aggMeasure(ref, tI32(pb.Type_NULLABILITY_REQUIRED), nil, arg, arg))
					}
					p := basePlan(planRoot(r))
					if dup {
						p.Extensions = append(p.Extensions, fnDecl(39, 5, n))
					}
					p.Extensions = append(p.Extensions, fnDecl(ref, 5, n))
					judgePlan(t, p, true)
				}, "name", n, dup, kind)
			}
		}
	}
}

func insideRel(e medit) bool {
	for _, s := range e.path {
		if s.fd.Message() != nil && s.fd.Message().FullName() == "substrait.Rel" {
			return true
		}
	}
	return false
}

func judgeEditedPlan(t *T, p *pb.Plan) { judgePlan(t, p, false) }

var _ = ext.AdvancedExtension{}
