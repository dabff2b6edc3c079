// C05, relations: rewriting and copying relations.
package main

import (
	"errors"
	"fmt"
	"strings"

	"github.com/substrait-io/substrait-go/v8/expr"
	"github.com/substrait-io/substrait-go/v8/plan"
	"github.com/substrait-io/substrait-go/v8/types"
	pb "github.com/substrait-io/substrait-protobuf/go/substraitpb"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
)

// rslot is a place of a relation's own message that holds an expression, a
// field reference (join key) or an input relation.
type rslot struct {
	m   proto.Message
	set func(proto.Message)
}

// relSlots lists the places in message order, not descending into them.
func relSlots(r *pb.Rel) (exprs, keys, inputs []rslot) {
	var walk func(m protoreflect.Message)
	visit := func(v protoreflect.Message, set func(proto.Message)) {
		switch x := v.Interface().(type) {
		case *pb.Expression:
			exprs = append(exprs, rslot{x, set})
		case *pb.Expression_FieldReference:
			keys = append(keys, rslot{x, set})
		case *pb.Rel:
			inputs = append(inputs, rslot{x, set})
		case *pb.Expression_MaskExpression:
		default:
			walk(v)
		}
	}
	walk = func(m protoreflect.Message) {
		fds := m.Descriptor().Fields()
		for i := 0; i < fds.Len(); i++ {
			fd := fds.Get(i)
			if fd.Kind() != protoreflect.MessageKind || fd.IsMap() || !m.Has(fd) {
				continue
			}
			if fd.IsList() {
				l := m.Mutable(fd).List()
				for k := 0; k < l.Len(); k++ {
					visit(l.Get(k).Message(), func(n proto.Message) { l.Set(k, pbVal(n)) })
				}
			} else {
				visit(m.Get(fd).Message(), func(n proto.Message) { m.Set(fd, pbVal(n)) })
			}
		}
	}
	walk(r.ProtoReflect())
	return
}

func c05Rels(c *Ctx) {
	reg := relReg()
	for i, x := range baseRels() {
		if strings.HasPrefix(x.id, "files-") && i%9 != 0 {
			continue
		}
		c.Case(func(t *T) {
			rel, err := plan.RelFromProto(x.r, reg)
			if err != nil {
				t.Failf("valid relation rejected: %v %s", err, show(x.r))
				return
			}
			judgeRelRewrite(t, reg, x.r, rel)
		}, "rel", x.id)
		// with one of the parts missing or different
		c.Case(func(t *T) {
			for _, e := range aside(x.r) {
				if !c.Thorough && !strings.HasPrefix(e.desc, "remove") && !strings.HasPrefix(e.desc, "clear") {
					continue
				}
				p := e.apply(x.r).(*pb.Rel)
				rel, err := plan.RelFromProto(p, reg)
				if err != nil || unreportable(p) {
					t.Note("rejected")
					continue
				}
				t.Note("accepted")
				judgeRelRewrite(t, reg, p, rel)
			}
		}, "aside", x.id)
	}
	for _, x := range sizedRels(false) {
		if sizeOf(x.id) > 9 && !(c.Thorough && sizeOf(x.id) <= 33) || strings.HasPrefix(x.id, "sized-emit") {
			continue
		}
		c.Case(func(t *T) {
			rel, err := plan.RelFromProto(x.r, reg)
			if err != nil {
				t.Failf("valid relation rejected: %v %s", err, show(x.r))
				return
			}
			judgeRelRewrite(t, reg, x.r, rel)
		}, "rel", x.id)
	}
}

func judgeRelRewrite(t *T, reg expr.ExtensionRegistry, p *pb.Rel, rel plan.Rel) {
	base := normRel(rel.ToProto(), true)
	before := mtext(rel.ToProto())
	ins := rel.GetInputs()
	ex, keys, inSlots := relSlots(base)
	if len(inSlots) != len(ins) {
		t.Failf("GetInputs gives %d inputs of %s", len(ins), show(p))
		return
	}
	for i, in := range ins {
		if mtext(normRel(in.ToProto(), true)) != mtext(inSlots[i].m) {
			t.Failf("input %d is %s, want %s", i, show(in.ToProto()), show(inSlots[i].m))
		}
	}
	unchanged := func(what string) {
		if mtext(rel.ToProto()) != before {
			t.Failf("%s changed the original %s into %s", what, show(p), show(rel.ToProto()))
		}
	}
	// all contents, keys after expressions
	content := map[string]bool{}
	var order []string
	for _, s := range append(append([]rslot{}, ex...), keys...) {
		k := mtext(s.m)
		if r, ok := s.m.(*pb.Expression_FieldReference); ok {
			k = mtext(&pb.Expression{RexType: &pb.Expression_Selection{Selection: r}})
		}
		if !content[k] {
			content[k] = true
			order = append(order, k)
		}
	}
	replE := expr.Expression(expr.NewPrimitiveLiteral(int32(4711), true))
	replEM := replE.ToProto()
	mkKey := func() (expr.Expression, *pb.Expression_FieldReference) {
		f, err := expr.NewRootFieldRef(expr.NewStructFieldRef(1), types.NewRecordTypeFromTypes([]types.Type{&types.Int64Type{}, &types.StringType{}}))
		if err != nil {
			t.Failf("cannot make a reference: %v", err)
		}
		return f, f.ToProtoFieldRef()
	}
	keyE, keyM := mkKey()
	isKey := map[string]bool{}
	for _, s := range keys {
		isKey[mtext(&pb.Expression{RexType: &pb.Expression_Selection{Selection: s.m.(*pb.Expression_FieldReference)}})] = true
	}
	// rewriting the expressions whose content is in set
	rewriter := func(set map[string]bool, calls *int, failAt int) plan.RewriteFunc {
		return func(e expr.Expression) (expr.Expression, error) {
			if e == nil {
				return nil, nil
			}
			*calls++
			if *calls == failAt {
				return nil, errors.New("stop here")
			}
			k := mtext(normExpr(e.ToProto()))
			if set[k] {
				if isKey[k] {
					return keyE, nil
				}
				return replE, nil
			}
			return e, nil
		}
	}
	expect := func(set map[string]bool, newIn map[int]*pb.Rel) *pb.Rel {
		w := cloneRel(base)
		e, k, i := relSlots(w)
		for _, s := range e {
			if c := mtext(s.m); set[c] {
				if isKey[c] {
					s.set(&pb.Expression{RexType: &pb.Expression_Selection{Selection: keyM}})
				} else {
					s.set(replEM)
				}
			}
		}
		for _, s := range k {
			if set[mtext(&pb.Expression{RexType: &pb.Expression_Selection{Selection: s.m.(*pb.Expression_FieldReference)}})] {
				s.set(keyM)
			}
		}
		for n, s := range i {
			if r := newIn[n]; r != nil {
				s.set(normRel(r, true))
			}
		}
		return w
	}
	newInputs := func(which func(int) bool) ([]plan.Rel, map[int]*pb.Rel) {
		rs := append([]plan.Rel{}, ins...)
		ms := map[int]*pb.Rel{}
		for i := range ins {
			if which(i) {
				m := relNamed(fmt.Sprintf("z%d", i), refRelCols(inSlots[i].m.(*pb.Rel))...)
				r, err := plan.RelFromProto(m, reg)
				if err != nil {
					t.Failf("rejected %v", err)
					continue
				}
				rs[i], ms[i] = r, r.ToProto()
			}
		}
		return rs, ms
	}
	isExt := base.GetExtensionLeaf() != nil || base.GetExtensionSingle() != nil || base.GetExtensionMulti() != nil
	judge := func(what string, got plan.Rel, err error, want *pb.Rel) {
		t.Trans(1)
		unchanged(what)
		if err != nil {
			t.Failf("%s of %s failed: %v", what, show(p), err)
			return
		}
		if g := normRel(got.ToProto(), true); mtext(g) != mtext(want) {
			t.Failf("%s of %s gives\n  %s\n want\n  %s", what, show(p), show(g), show(want))
		}
	}
	none := map[string]bool{}
	n := 0
	got, err := rel.CopyWithExpressionRewrite(rewriter(none, &n, 0), ins...)
	judge("identity rewrite", got, err, base)
	if err == nil && got != rel {
		t.Failf("identity rewrite of %s gives another relation", show(p))
	}
	if !isExt && n < len(ex)+len(keys) {
		t.Failf("rewriting visits %d of the %d expressions of %s", n, len(ex)+len(keys), show(p))
	}
	visits := n
	for _, k := range order {
		if isExt {
			break
		}
		got, err := rel.CopyWithExpressionRewrite(rewriter(map[string]bool{k: true}, &n, 0), ins...)
		judge("rewriting one expression", got, err, expect(map[string]bool{k: true}, nil))
		t.State(fmt.Sprint(before, k))
	}
	var subsets []map[string]bool
	if len(order) <= 4 && !isExt {
		for b := 0; b < 1<<len(order); b++ {
			s := map[string]bool{}
			for i, k := range order {
				if b>>i&1 == 1 {
					s[k] = true
				}
			}
			subsets = append(subsets, s)
		}
	} else if !isExt {
		subsets = append(subsets, content, none)
	} else {
		subsets = append(subsets, none)
	}
	for _, s := range subsets {
		for b := 0; b < 1<<len(ins); b++ {
			rs, ms := newInputs(func(i int) bool { return b>>i&1 == 1 })
			got, err := rel.CopyWithExpressionRewrite(rewriter(s, &n, 0), rs...)
			judge("rewriting expressions and inputs", got, err, expect(s, ms))
			t.State(fmt.Sprint(before, len(s), b))
			if len(s) == 0 {
				got, err := rel.Copy(rs...)
				judge("copying with new inputs", got, err, expect(none, ms))
				if got == rel {
					t.Failf("copying %s gives the same relation", show(p))
				}
			}
		}
	}
	for at := 1; at <= visits; at++ {
		n = 0
		got, err := rel.CopyWithExpressionRewrite(rewriter(content, &n, at), ins...)
		unchanged("a failed rewrite")
		if err == nil {
			t.Failf("the error of rewriting expression %d of %s is lost: %s", at, show(p), show(got.ToProto()))
		}
		t.Trans(1)
	}
	if len(ins) > 0 && base.GetExtensionMulti() == nil && base.GetSet() == nil {
		for _, w := range [][]plan.Rel{nil, append(append([]plan.Rel{}, ins...), ins[0])} {
			if g, err := rel.Copy(w...); err == nil {
				t.Failf("copying %s with %d inputs gives %s", show(p), len(w), show(g.ToProto()))
			}
			if g, err := rel.CopyWithExpressionRewrite(rewriter(none, &n, 0), w...); err == nil {
				t.Failf("rewriting %s with %d inputs gives %s", show(p), len(w), show(g.ToProto()))
			}
		}
	}
	unchanged("copying with a wrong number of inputs")
	t.Validated()
}
