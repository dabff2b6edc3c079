// C02: a relation's output schema is the one the Substrait specification gives.
// C03: emit mappings select the chosen columns and never disturb the relation.
package main

import (
	"fmt"
	"strings"

	"github.com/substrait-io/substrait-go/v8/expr"
	"github.com/substrait-io/substrait-go/v8/plan"
	"github.com/substrait-io/substrait-go/v8/types"
	pb "github.com/substrait-io/substrait-protobuf/go/substraitpb"
	"google.golang.org/protobuf/proto"
)

func init() {
	checks["C02"] = &Check{Run: runC02, Quick: 250, Thorough: 850, Shards: 8,
		Bounds: "every relation of the C01 universe (every kind and attribute, every common part, every relation in every input of every kind; thorough: a fixed part of depth 3): the reported columns against columns computed from the message alone, after each of asking twice, writing, reading again, copying and asking parents; relations with lists of up to 300 parts (columns, emits, expressions, sort fields, measures, grouping expressions, sets of one and of all prefixes, inputs, rows, files, keys), every kind over inputs of 17 and 300 columns, chains of up to 65 relations, and all lists of 3-4 (5) grouping sets over two expressions; every ordered pair of parents sharing one input object, asked in both orders",
		Assume: []string{"the columns of an extension relation that no decoder knows are the guess the library documents", "set operations take inputs of equal schemas, so the nullability rules of the operations agree"}}
	checks["C03"] = &Check{Run: runC03, Quick: 250, Thorough: 850, Shards: 8,
		Bounds: "every base relation (all kinds, attributes and common parts incl. emits) x every sequence of 2 (thorough: 3) remaps over 12 mappings (empty, single, last, identity, reverse, repeated, prefix, and out of range below, at and far above the end), one remap for relations with lists of up to 17 and of 300 parts, each compared with the composed index list; after every step all relations made before, their inputs, the caller's slice and reported mappings are changed or asked again and must be unaffected",
		Assume: []string{"an identity mapping may be written as a direct one"}}
}

func typesText(ts []types.Type) string {
	var s []string
	for _, t := range ts {
		if t == nil {
			s = append(s, "<nil>")
			continue
		}
		s = append(s, mtext(types.TypeToProto(t)))
	}
	return strings.Join(s, "; ")
}
func colsTextOf(ts []*pb.Type) string {
	var s []string
	for _, t := range ts {
		s = append(s, mtext(normTypes(t)))
	}
	return strings.Join(s, "; ")
}

// normTypes: a type in the form the library writes.
func normTypes(t *pb.Type) *pb.Type { return t }

func schemaText(r plan.Rel) string { rt := r.RecordType(); return typesText(rt.Types()) }

// masked gives the relation in which every read has only the columns its mask selects.
func masked(r *pb.Rel) (*pb.Rel, bool) {
	q := cloneRel(r)
	n := false
	walkPB(q, func(m proto.Message) {
		rd, ok := m.(*pb.ReadRel)
		if !ok || rd.Projection == nil || rd.BaseSchema == nil {
			return
		}
		var cols []*pb.Type
		for _, it := range rd.Projection.GetSelect().GetStructItems() {
			cols = append(cols, rd.BaseSchema.Struct.Types[it.Field])
		}
		rd.BaseSchema.Struct.Types, rd.Projection = cols, nil
		n = true
	})
	return q, n
}

func judgeSchema(t *T, p *pb.Rel, rel plan.Rel, what string) {
	got, want := schemaText(rel), colsTextOf(refRelCols(p))
	t.Trans(1)
	q, hasMask := masked(p)
	if hasMask {
		honour := ""
		if catch(func() { honour = colsTextOf(refRelCols(q)) }) == "" && got == honour {
			return
		}
		if got == want {
			if honour != want {
				t.FailKey("read-projection", "%s: the columns of a read ignore its projection: %s", what, show(p))
			}
			return
		}
	}
	if got != want {
		t.Failf("%s: the columns are\n  %s\n want\n  %s\n for %s", what, got, want, show(p))
	}
}

// unreportable: columns of such a relation are not defined (an undecoded
// extension whose emit mapping names columns only the extension knows).
func unreportable(r *pb.Rel) bool {
	bad := false
	walkPB(r, func(m proto.Message) {
		if x, ok := m.(*pb.Rel); ok && undecoded(x) && commonOf(x).GetEmit() != nil {
			n := 0
			if s := x.GetExtensionSingle(); s != nil {
				n = len(refRelCols(s.Input))
			}
			for _, i := range commonOf(x).GetEmit().OutputMapping {
				bad = bad || int(i) >= n
			}
		}
	})
	return bad
}

func runC02(c *Ctx) {
	reg := relReg()
	lvl := 2
	if c.Thorough {
		lvl = 3
	}
	for _, x := range append(relUniverse(lvl), sizedRels(c.Thorough)...) {
		if unreportable(x.r) {
			continue
		}
		c.Case(func(t *T) {
			c.Dim("root", fmt.Sprintf("%T", x.r.RelType))
			rel, err := plan.RelFromProto(x.r, reg)
			if err != nil {
				t.Failf("valid relation rejected: %v %s", err, show(x.r))
				return
			}
			t.State(mtext(x.r))
			msg := mtext(rel.ToProto())
			ins := rel.GetInputs()
			var inS, inM []string
			for _, in := range ins {
				inS, inM = append(inS, schemaText(in)), append(inM, mtext(in.ToProto()))
			}
			judgeSchema(t, x.r, rel, "read from a message")
			rt := rel.RecordType()
			first := typesText(rt.Types())
			if rt.FieldCount() != int32(len(rt.Types())) {
				t.Failf("field count is %d of %d columns: %s", rt.FieldCount(), len(rt.Types()), show(x.r))
			}
			judgeSchema(t, x.r, rel, "asked again")
			if mtext(rel.ToProto()) != msg {
				t.Failf("asking for the schema changed the relation %s", show(x.r))
			}
			for i, in := range ins {
				if schemaText(in) != inS[i] || mtext(in.ToProto()) != inM[i] {
					t.Failf("asking for the schema changed input %d of %s", i, show(x.r))
				}
			}
			if typesText(rt.Types()) != first {
				t.Failf("a reported schema changed afterwards: %s", show(x.r))
			}
			if cp, err := rel.Copy(ins...); err != nil {
				t.Failf("copy with its own inputs failed: %v %s", err, show(x.r))
			} else {
				judgeSchema(t, x.r, cp, "copied")
			}
			// written and read again
			q := rel.ToProto()
			if w, g := normRel(x.r, false), normRel(q, true); mtext(w) != mtext(g) {
				if outputDropped(w, g) {
					return // finding write-output-dropped of C01
				}
			}
			rel2, err := plan.RelFromProto(q, reg)
			if err != nil {
				t.Failf("the written relation is rejected: %v %s", err, show(q))
				return
			}
			judgeSchema(t, x.r, rel2, "written and read again")
			t.Trans(4)
			t.Validated()
		}, "rel", x.id)
	}
	c02Shared(c, reg)
}

// parentsOf lists relations over the inputs: the first variant of every kind and every join type.
func parentsOf(a, b *pb.Rel) []prel {
	var r []prel
	for _, m := range relMakers() {
		switch m.arity {
		case 1:
			v := applyMaker(m, a)
			r = append(r, v[0], v[len(v)-1])
		case 2:
			seen := map[string]bool{}
			for _, v := range applyMaker(m, a, b) {
				ty := fmt.Sprint(m.kind, v.r.GetJoin().GetType(), v.r.GetHashJoin().GetType(), v.r.GetMergeJoin().GetType(), v.r.GetSet().GetOp())
				if !seen[ty] {
					seen[ty] = true
					r = append(r, v)
				}
			}
		}
	}
	return r
}

func c02Shared(c *Ctx, reg expr.ExtensionRegistry) {
	b := relNamed("b", relColsB()...)
	a := relNamed("a", relColsA()...)
	shared := []prel{{"table", a}, {"project", relProject(a, relDirect(), xLit(lI32(1)), xCol(1))},
		{"projemit", relProject(a, relEmit(3, 0), xLit(lI32(1)))},
		{"filter", relFilter(a, condOn(relColsA(), 0, 1))}}
	for _, m := range relMakers() {
		if m.arity == 2 {
			v := applyMaker(m, a, b)
			shared = append(shared, v[0], v[len(v)/2])
		}
		if m.kind == "aggregate" {
			v := applyMaker(m, a)
			shared = append(shared, v[len(v)-1])
		}
	}
	shared = append(shared, prel{"cross3", &pb.Rel{RelType: &pb.Rel_Cross{Cross: &pb.CrossRel{Common: relDirect(), Left: &pb.Rel{RelType: &pb.Rel_Cross{Cross: &pb.CrossRel{Common: relDirect(), Left: a, Right: b}}}, Right: a}}}})
	for si, s := range shared {
		ps := parentsOf(s.r, b)
		for i, p1 := range ps {
			c.Case(func(t *T) {
				l, err := plan.RelFromProto(s.r, reg)
				if err != nil {
					t.Failf("rejected: %v %s", err, show(s.r))
					return
				}
				attach := func(p prel) plan.Rel {
					r, err := plan.RelFromProto(p.r, reg)
					if err != nil {
						t.Failf("rejected: %v %s", err, show(p.r))
						return nil
					}
					ins := append([]plan.Rel{}, r.GetInputs()...)
					for k := range ins {
						if mtext(ins[k].ToProto()) == mtext(l.ToProto()) {
							ins[k] = l
						}
					}
					n, err := r.Copy(ins...)
					if err != nil {
						t.Failf("copy failed: %v %s", err, show(p.r))
						return nil
					}
					return n
				}
				r1 := attach(p1)
				if r1 == nil {
					return
				}
				own, m1 := schemaText(l), mtext(r1.ToProto())
				for j, p2 := range ps {
					r2 := attach(p2)
					if r2 == nil {
						continue
					}
					s1 := r1.RecordType()
					t1 := typesText(s1.Types())
					s2 := r2.RecordType()
					t2 := typesText(s2.Types())
					if typesText(s1.Types()) != t1 {
						t.Failf("asking %s for its schema changed the one reported by %s over the same input", p2.id, p1.id)
					}
					_ = schemaText(r1)
					if typesText(s2.Types()) != t2 {
						t.Failf("asking %s for its schema changed the one reported by %s over the same input", p1.id, p2.id)
					}
					if schemaText(l) != own || mtext(r1.ToProto()) != m1 {
						t.Failf("schemas of %s and %s changed their input or relation", p1.id, p2.id)
					}
					judgeSchema(t, p1.r, r1, "with a shared input")
					judgeSchema(t, p2.r, r2, "with a shared input")
					t.State(fmt.Sprint(si, i, j))
					t.Trans(5)
				}
				t.Validated()
			}, "shared", s.id, p1.id, i)
		}
	}
}

// ---- C03

func mappingsFor(n int32) [][]int32 {
	id, rev := make([]int32, n), make([]int32, n)
	for i := range id {
		id[i], rev[i] = int32(i), n-1-int32(i)
	}
	r := [][]int32{{}, {-1}, {n}, {0, n}, {1 << 30}, {-1 << 31}}
	if n > 0 {
		r = append(r, []int32{0}, id, rev, []int32{n - 1, 0, n - 1}, []int32{0, -1})
		if n > 1 {
			r = append(r, []int32{n - 1}, id[:n-1], append([]int32{n - 1}, id...))
		}
	}
	return r
}

func runC03(c *Ctx) {
	reg := relReg()
	depth := 2
	if c.Thorough {
		depth = 3
	}
	base := baseRels()
	for _, x := range sizedRels(c.Thorough) {
		if n := sizeOf(x.id); n <= 17 || n == 300 {
			base = append(base, x)
		}
	}
	for i, x := range base {
		depth := depth
		if strings.HasPrefix(x.id, "sized-") {
			depth = 1
		}
		if unreportable(x.r) {
			continue
		}
		if strings.HasPrefix(x.id, "files-") && i%9 != 0 {
			continue
		}
		c.Case(func(t *T) {
			rel, err := plan.RelFromProto(x.r, reg)
			if err != nil {
				t.Failf("valid relation rejected: %v %s", err, show(x.r))
				return
			}
			direct := cloneRel(x.r)
			if cm := commonOf(direct); cm.GetEmit() != nil {
				cm.EmitKind = &pb.RelCommon_Direct_{Direct: &pb.RelCommon_Direct{}}
			}
			cols := refRelCols(direct)
			cur := identity(len(cols))
			if em := commonOf(x.r).GetEmit(); em != nil {
				cur = append([]int32{}, em.OutputMapping...)
			}
			remapAll(t, reg, x.r, cols, []plan.Rel{rel}, [][]int32{cur}, depth)
			t.Validated()
		}, "remap", x.id)
	}
}

func identity(n int) []int32 {
	r := make([]int32, n)
	for i := range r {
		r[i] = int32(i)
	}
	return r
}

// remapAll applies every mapping to the last relation of the history.
func remapAll(t *T, reg expr.ExtensionRegistry, p *pb.Rel, cols []*pb.Type, hist []plan.Rel, curs [][]int32, depth int) {
	r, cur := hist[len(hist)-1], curs[len(curs)-1]
	check := func(rel plan.Rel, cur []int32, what string) {
		want := make([]*pb.Type, len(cur))
		for i, k := range cur {
			want[i] = cols[k]
		}
		if g, w := schemaText(rel), colsTextOf(want); g != w {
			t.Failf("%s after %v: columns are\n  %s\n want\n  %s\n for %s", what, curs, g, w, show(p))
		}
		m := rel.OutputMapping()
		if m == nil {
			m = identity(len(cols))
		}
		if fmt.Sprint(m) != fmt.Sprint(cur) {
			t.Failf("%s after %v: the mapping is %v, want %v for %s", what, curs, rel.OutputMapping(), cur, show(p))
		}
		wm := cloneRel(p)
		cm := commonOf(wm)
		if cm == nil {
			setCommon(wm, relDirect())
			cm = commonOf(wm)
		}
		cm.EmitKind = &pb.RelCommon_Emit_{Emit: &pb.RelCommon_Emit{OutputMapping: cur}}
		g, w := normRel(rel.ToProto(), true), normRel(wm, false)
		for _, z := range []*pb.Rel{g, w} {
			if em := commonOf(z).GetEmit(); em != nil && fmt.Sprint(em.OutputMapping) == fmt.Sprint(identity(len(cols))) {
				commonOf(z).EmitKind = &pb.RelCommon_Direct_{Direct: &pb.RelCommon_Direct{}}
			}
		}
		if mtext(g) != mtext(w) && !outputDropped(w, g) {
			t.Failf("%s after %v: written as\n  %s\n want\n  %s", what, curs, show(g), show(w))
		}
	}
	check(r, cur, "mapping")
	t.State(fmt.Sprint(p, curs))
	if len(hist) > depth {
		return
	}
	for _, m := range mappingsFor(int32(len(cur))) {
		arg := append([]int32{}, m...)
		n, err := r.Remap(arg...)
		t.Trans(1)
		valid := true
		var next []int32
		for _, k := range m {
			if k < 0 || int(k) >= len(cur) {
				valid = false
				break
			}
			next = append(next, cur[k])
		}
		if valid != (err == nil) {
			t.Failf("mapping %v after %v: error is %v for %s", m, curs, err, show(p))
			continue
		}
		for i := range hist {
			check(hist[i], curs[i], "an earlier relation")
		}
		if err != nil {
			continue
		}
		for i := range arg {
			arg[i] = 77
		}
		if om := n.OutputMapping(); len(om) > 0 {
			om[0] = 78
		}
		check(n, next, "after changing the caller's slices")
		q := n.ToProto()
		if n2, err := plan.RelFromProto(q, reg); err != nil {
			if len(hist) == 1 && !hasOutputMode(p) {
				t.Failf("mapped relation is rejected when read: %v %s", err, show(q))
			}
		} else if !hasOutputMode(p) {
			check(n2, next, "written and read")
		}
		remapAll(t, reg, p, cols, append(hist[:len(hist):len(hist)], n), append(curs[:len(curs):len(curs)], next), depth)
	}
}

// hasOutputMode: writing loses the output mode of a write (finding of C01).
func hasOutputMode(p *pb.Rel) bool {
	n := false
	walkPB(p, func(m proto.Message) {
		x, ok := m.(*pb.WriteRel)
		n = n || ok && x.Output != 0
	})
	return n
}
