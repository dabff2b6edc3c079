// Exhaustive one-step edits of a protobuf message: every field of every message
// in the tree is changed, cleared or set; every oneof takes every member; every
// repeated field loses, doubles, swaps and gains an element.
package main

import (
	"fmt"

	pb "github.com/substrait-io/substrait-protobuf/go/substraitpb"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
)

func withNullability(p *pb.Type, n pb.Type_Nullability) *pb.Type {
	return withTypeField(p, "nullability", protoreflect.ValueOfEnum(protoreflect.EnumNumber(n)))
}

// walkPB calls f for a message and every message inside it.
func walkPB(m proto.Message, f func(proto.Message)) {
	if m == nil || !m.ProtoReflect().IsValid() {
		return
	}
	f(m)
	m.ProtoReflect().Range(func(fd protoreflect.FieldDescriptor, v protoreflect.Value) bool {
		if fd.Kind() != protoreflect.MessageKind || fd.IsMap() {
			return true
		}
		if fd.IsList() {
			for i := 0; i < v.List().Len(); i++ {
				walkPB(v.List().Get(i).Message().Interface(), f)
			}
		} else {
			walkPB(v.Message().Interface(), f)
		}
		return true
	})
}

type pstep struct {
	fd  protoreflect.FieldDescriptor
	idx int // -1: singular
}

func pathStr(p []pstep) string {
	s := ""
	for _, x := range p {
		s += "." + string(x.fd.Name())
		if x.idx >= 0 {
			s += fmt.Sprintf("[%d]", x.idx)
		}
	}
	return s
}

func navigate(m protoreflect.Message, p []pstep) protoreflect.Message {
	for _, x := range p {
		if x.idx >= 0 {
			m = m.Mutable(x.fd).List().Get(x.idx).Message()
		} else {
			m = m.Mutable(x.fd).Message()
		}
	}
	return m
}

// scalarAlts: other values of a scalar.
func scalarAlts(fd protoreflect.FieldDescriptor, v protoreflect.Value) []protoreflect.Value {
	var r []protoreflect.Value
	switch fd.Kind() {
	case protoreflect.BoolKind:
		r = append(r, protoreflect.ValueOfBool(!v.Bool()))
	case protoreflect.EnumKind:
		vs := fd.Enum().Values()
		for i := 0; i < vs.Len(); i++ {
			if vs.Get(i).Number() != v.Enum() {
				r = append(r, protoreflect.ValueOfEnum(vs.Get(i).Number()))
			}
		}
		r = append(r, protoreflect.ValueOfEnum(99), protoreflect.ValueOfEnum(-1))
	case protoreflect.Int32Kind, protoreflect.Sint32Kind, protoreflect.Sfixed32Kind:
		for _, d := range []int32{int32(v.Int()) + 1, 0, -1, 1 << 30} {
			if int64(d) != v.Int() {
				r = append(r, protoreflect.ValueOfInt32(d))
			}
		}
	case protoreflect.Int64Kind, protoreflect.Sint64Kind, protoreflect.Sfixed64Kind:
		for _, d := range []int64{v.Int() + 1, 0, -1, 1 << 62} {
			if d != v.Int() {
				r = append(r, protoreflect.ValueOfInt64(d))
			}
		}
	case protoreflect.Uint32Kind, protoreflect.Fixed32Kind:
		for _, d := range []uint32{uint32(v.Uint()) + 1, 0, 1<<32 - 1} {
			if uint64(d) != v.Uint() {
				r = append(r, protoreflect.ValueOfUint32(d))
			}
		}
	case protoreflect.Uint64Kind, protoreflect.Fixed64Kind:
		for _, d := range []uint64{v.Uint() + 1, 0, 1<<64 - 1} {
			if d != v.Uint() {
				r = append(r, protoreflect.ValueOfUint64(d))
			}
		}
	case protoreflect.FloatKind:
		r = append(r, protoreflect.ValueOfFloat32(float32(v.Float())+1))
	case protoreflect.DoubleKind:
		r = append(r, protoreflect.ValueOfFloat64(v.Float()+1))
	case protoreflect.StringKind:
		r = append(r, protoreflect.ValueOfString(v.String()+"z"))
		if v.String() != "" {
			r = append(r, protoreflect.ValueOfString(""))
		}
	case protoreflect.BytesKind:
		b := v.Bytes()
		r = append(r, protoreflect.ValueOfBytes(append(append([]byte{}, b...), 1)))
		if len(b) > 0 {
			r = append(r, protoreflect.ValueOfBytes(b[:len(b)-1]), protoreflect.ValueOfBytes(nil))
			c := append([]byte{}, b...)
			c[0] ^= 1
			r = append(r, protoreflect.ValueOfBytes(c))
		}
	}
	return r
}

type medit struct {
	path []pstep
	desc string
	f    func(m protoreflect.Message)
}

func (e medit) String() string { return pathStr(e.path) + " " + e.desc }
func (e medit) apply(root proto.Message) proto.Message {
	c := proto.Clone(root)
	e.f(navigate(c.ProtoReflect(), e.path))
	return c
}

// edits lists every one-step edit of a message.
func edits(root proto.Message, skip func(fd protoreflect.FieldDescriptor) bool) []medit {
	var r []medit
	var rec func(m protoreflect.Message, path []pstep)
	rec = func(m protoreflect.Message, path []pstep) {
		add := func(desc string, f func(m protoreflect.Message)) {
			r = append(r, medit{append([]pstep(nil), path...), desc, f})
		}
		fds := m.Descriptor().Fields()
		for i := 0; i < fds.Len(); i++ {
			fd := fds.Get(i)
			n := string(fd.Name())
			if skip != nil && skip(fd) || fd.IsMap() {
				continue
			}
			isMsg := fd.Kind() == protoreflect.MessageKind || fd.Kind() == protoreflect.GroupKind
			switch {
			case fd.IsList():
				l := m.Get(fd).List()
				for k := 0; k < l.Len(); k++ {
					add(fmt.Sprintf("remove %s[%d]", n, k), func(m protoreflect.Message) {
						l := m.Mutable(fd).List()
						for j := k; j+1 < l.Len(); j++ {
							l.Set(j, l.Get(j+1))
						}
						l.Truncate(l.Len() - 1)
					})
					add(fmt.Sprintf("double %s[%d]", n, k), func(m protoreflect.Message) {
						l := m.Mutable(fd).List()
						v := l.Get(k)
						if isMsg {
							v = protoreflect.ValueOfMessage(proto.Clone(v.Message().Interface()).ProtoReflect())
						}
						l.Append(v)
					})
					if k+1 < l.Len() {
						add(fmt.Sprintf("swap %s[%d]", n, k), func(m protoreflect.Message) {
							l := m.Mutable(fd).List()
							a, b := l.Get(k), l.Get(k+1)
							if isMsg {
								a = protoreflect.ValueOfMessage(proto.Clone(a.Message().Interface()).ProtoReflect())
								b = protoreflect.ValueOfMessage(proto.Clone(b.Message().Interface()).ProtoReflect())
							}
							l.Set(k, b)
							l.Set(k+1, a)
						})
					}
					if isMsg {
						rec(l.Get(k).Message(), append(path, pstep{fd, k}))
					} else {
						for ai, a := range scalarAlts(fd, l.Get(k)) {
							add(fmt.Sprintf("set %s[%d] alt%d", n, k, ai), func(m protoreflect.Message) { m.Mutable(fd).List().Set(k, a) })
						}
					}
				}
				if l.Len() > 1 {
					add("clear "+n, func(m protoreflect.Message) { m.Clear(fd) })
				}
				add("append empty "+n, func(m protoreflect.Message) {
					l := m.Mutable(fd).List()
					l.Append(l.NewElement())
				})
			case isMsg:
				if m.Has(fd) {
					add("clear "+n, func(m protoreflect.Message) { m.Clear(fd) })
					add("empty "+n, func(m protoreflect.Message) { m.Set(fd, m.NewField(fd)) })
					rec(m.Get(fd).Message(), append(path, pstep{fd, -1}))
				} else {
					add("set empty "+n, func(m protoreflect.Message) { m.Set(fd, m.NewField(fd)) })
				}
			default:
				if fd.ContainingOneof() != nil && !m.Has(fd) {
					add("choose "+n, func(m protoreflect.Message) { m.Set(fd, fd.Default()) })
					continue
				}
				if fd.ContainingOneof() != nil {
					add("clear "+n, func(m protoreflect.Message) { m.Clear(fd) })
				}
				for ai, a := range scalarAlts(fd, m.Get(fd)) {
					add(fmt.Sprintf("set %s alt%d", n, ai), func(m protoreflect.Message) { m.Set(fd, a) })
				}
			}
		}
	}
	rec(root.ProtoReflect(), nil)
	return r
}
