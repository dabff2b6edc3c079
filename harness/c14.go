// C14: extension sets keep anchors unique, stable and resolvable.
package main

import (
	"fmt"
	"math"
	"slices"
	"sort"
	"strings"
	"sync"

	ext "github.com/substrait-io/substrait-go/v8/extensions"
	pb "github.com/substrait-io/substrait-protobuf/go/substraitpb"
	pbe "github.com/substrait-io/substrait-protobuf/go/substraitpb/extensions"
)

func init() {
	checks["C14"] = &Check{Run: runC14, Quick: 250, Thorough: 850, Shards: 16,
		Bounds: "explicit-state exploration of extension set histories: start sets = the empty set and the sets of all declaration messages (URN lists up to 2 over anchors {0,1,2,7,max} x known/unknown URNs incl. the same URN or anchor twice; up to 2 declarations over kind {type, variation, function, none} x anchor {0,1,2,max} x URN reference (declared, dangling) x names); sparse declarations of all kinds; after each accepted start, all request sequences up to depth 1-3 (4 from the empty set; thorough one more) over 3 kinds x 2 URNs x 2 names and a write+read step; after every step the whole set (decode of a probe range, lookups, repeat requests, written form 3 times, reading of the written form) against a reference of anchor maps; sets grown to 1950 ids (thorough 9000) over up to 42 URNs in 6 orders, judged and re-read as they grow",
		Assume: []string{"the values of newly given anchors are free (unique, not 0)", "a message may repeat the same declaration", "an id declared under two anchors keeps both and either may be given for it"}}
}

type c14id struct{ kind, urn, name string }
type c14model struct {
	urns  map[uint32]string
	m     map[string]map[uint32]c14id // kind -> anchor -> id
	given map[c14id]uint32
	ids   map[c14id]bool
}

func (m *c14model) key() string {
	var r []string
	for a, u := range m.urns {
		r = append(r, fmt.Sprint("u", a, u))
	}
	for k, x := range m.m {
		for a, id := range x {
			r = append(r, fmt.Sprint(k, a, id))
		}
	}
	sort.Strings(r)
	return strings.Join(r, ";")
}
func newC14() *c14model {
	return &c14model{urns: map[uint32]string{}, m: map[string]map[uint32]c14id{"type": {}, "var": {}, "func": {}}, given: map[c14id]uint32{}}
}

const c14A = "extension:mc:one"
const c14B = "extension:mc:two"

const c14doc = `
urn: %s
types:
  - name: t0
  - name: t1
type_variations:
  - name: t0
    parent: i32
    description: x
    functions: INHERITS
scalar_functions:
  - name: t0
    impls:
      - args: [{value: i32}]
        return: i32
  - name: t1
    impls:
      - args: [{value: i32}]
        return: i32
      - args: [{value: i64}]
        return: i64
aggregate_functions:
  - name: t2
    impls:
      - args: [{value: i32}]
        return: i32
        nullability: DECLARED_OUTPUT
        decomposable: MANY
        intermediate: i32
`

var c14coll = sync.OnceValue(func() *ext.Collection {
	c := &ext.Collection{}
	for _, u := range append([]string{c14A, c14B}, c14many()...) {
		if err := c.Load(strings.NewReader(fmt.Sprintf(c14doc, u))); err != nil {
			panic(err)
		}
	}
	return c
})

func c14get(s ext.Set, id c14id) uint32 {
	switch id.kind {
	case "type":
		return s.GetTypeAnchor(ext.TypeID{URN: id.urn, Name: id.name})
	case "var":
		return s.GetTypeVariationAnchor(ext.TypeVariationID{URN: id.urn, Name: id.name})
	}
	return s.GetFuncAnchor(ext.FunctionID{URN: id.urn, Name: id.name})
}
func c14dec(s ext.Set, kind string, a uint32) (c14id, bool) {
	switch kind {
	case "type":
		x, ok := s.DecodeType(a)
		return c14id{kind, x.URN, x.Name}, ok
	case "var":
		x, ok := s.DecodeTypeVariation(a)
		return c14id{kind, x.URN, x.Name}, ok
	}
	x, ok := s.DecodeFunc(a)
	return c14id{kind, x.URN, x.Name}, ok
}

func c14msg(us []*pbe.SimpleExtensionURN, ds []*pbe.SimpleExtensionDeclaration) *pb.Plan {
	return &pb.Plan{ExtensionUrns: us, Extensions: ds}
}

// c14read is the reference reading of declarations: nil if they must be rejected.
func c14read(p *pb.Plan) *c14model {
	m := newC14()
	for _, u := range p.ExtensionUrns {
		if v, ok := m.urns[u.ExtensionUrnAnchor]; ok && v != u.Urn {
			return nil
		}
		m.urns[u.ExtensionUrnAnchor] = u.Urn
	}
	for _, d := range p.Extensions {
		var id c14id
		var a, ref uint32
		switch x := d.MappingType.(type) {
		case *pbe.SimpleExtensionDeclaration_ExtensionType_:
			id, a, ref = c14id{"type", "", x.ExtensionType.GetName()}, x.ExtensionType.GetTypeAnchor(), x.ExtensionType.GetExtensionUrnReference()
		case *pbe.SimpleExtensionDeclaration_ExtensionTypeVariation_:
			id, a, ref = c14id{"var", "", x.ExtensionTypeVariation.GetName()}, x.ExtensionTypeVariation.GetTypeVariationAnchor(), x.ExtensionTypeVariation.GetExtensionUrnReference()
		case *pbe.SimpleExtensionDeclaration_ExtensionFunction_:
			id, a, ref = c14id{"func", "", x.ExtensionFunction.GetName()}, x.ExtensionFunction.GetFunctionAnchor(), x.ExtensionFunction.GetExtensionUrnReference()
		default:
			return nil
		}
		u, ok := m.urns[ref]
		if !ok || !c14coll().URNLoaded(u) {
			return nil
		}
		id.urn = u
		if v, ok := m.m[id.kind][a]; ok && v != id {
			return nil
		}
		m.m[id.kind][a] = id
	}
	return m
}

var c14probe = []uint32{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, math.MaxUint32 - 1, math.MaxUint32}

// judge compares a set with the model.
func (m *c14model) judge(t *T, at string, s ext.Set, deep bool) {
	t.State(m.key())
	for _, k := range []string{"type", "var", "func"} {
		for _, a := range c14probe {
			id, ok := c14dec(s, k, a)
			want, wok := m.m[k][a]
			if ok != wok || ok && id != want {
				t.Failf("%s: %s anchor %d decodes to %v, %v; want %v, %v", at, k, a, id, ok, want, wok)
			}
		}
		for a, want := range m.m[k] {
			if id, ok := c14dec(s, k, a); !ok || id != want {
				t.Failf("%s: %s anchor %d decodes to %v, %v; want %v", at, k, a, id, ok, want)
			}
			c14lookup(t, at, s, a, want)
		}
	}
	for _, u := range []string{c14A, c14B, "extension:mc:none", ""} {
		a, ok := s.FindURN(u)
		any := false
		for _, v := range m.urns {
			any = any || v == u
		}
		used := false
		for id := range m.given {
			used = used || id.urn == u
		}
		if ok && !any && !used {
			t.Failf("%s: URN %q has anchor %d but was never declared", at, u, a)
		}
		if !ok && (any || used) {
			t.Failf("%s: URN %q has no anchor", at, u)
		}
	}
	for id, a := range m.given {
		if g := c14get(s, id); g != a {
			t.Failf("%s: anchor of %v is %d, was %d", at, id, g, a)
		}
	}
	us, ds := s.ToProto(c14coll())
	text := mtext(c14msg(us, ds))
	for i := 0; i < 2; i++ {
		us, ds := s.ToProto(c14coll())
		if x := mtext(c14msg(us, ds)); x != text {
			t.Failf("%s: written form varies: %s / %s", at, text, x)
		}
	}
	urns := map[uint32]string{}
	for _, u := range us {
		if v, ok := urns[u.ExtensionUrnAnchor]; ok {
			t.Failf("%s: URN anchor %d is listed twice (%s, %s)", at, u.ExtensionUrnAnchor, v, u.Urn)
		}
		urns[u.ExtensionUrnAnchor] = u.Urn
	}
	for a, u := range m.urns {
		if urns[a] != u {
			t.Failf("%s: URN anchor %d is listed for %q, want %q", at, a, urns[a], u)
		}
	}
	back := c14read(c14msg(us, ds))
	if back == nil {
		t.Failf("%s: the written form is not well formed: %s", at, text)
		return
	}
	n := 0
	for k, x := range m.m {
		n += len(x)
		for a, id := range x {
			if back.m[k][a] != id {
				t.Failf("%s: %s anchor %d is written for %v, want %v", at, k, a, back.m[k][a], id)
			}
		}
	}
	if len(ds) != n {
		t.Failf("%s: %d declarations are written, want %d: %s", at, len(ds), n, text)
	}
	if !deep {
		return
	}
	s2, err := ext.GetExtensionSet(c14msg(us, ds), c14coll())
	if err != nil {
		t.Failf("%s: the written form cannot be read: %v", at, err)
		return
	}
	m2 := newC14()
	m2.urns, m2.m = urns, m.m
	m2.judge(t, at+" > written and read", s2, false)
	us2, ds2 := s2.ToProto(c14coll())
	if x := mtext(c14msg(us2, ds2)); x != text {
		t.Failf("%s: written again: %s / %s", at, text, x)
	}
	for k, x := range m.m {
		for _, id := range x {
			if a := c14get(s2, id); m.m[k][a] != id {
				t.Failf("%s: after reading again %v has anchor %d", at, id, a)
			}
		}
	}
}

func c14lookup(t *T, at string, s ext.Set, a uint32, id c14id) {
	c := c14coll()
	switch id.kind {
	case "type":
		x, ok := s.LookupType(a, c)
		w, wok := c.GetType(ext.TypeID{URN: id.urn, Name: id.name})
		if ok != wok || x.Name != w.Name {
			t.Failf("%s: type %v looked up by anchor: %v %v", at, id, x, ok)
		}
	case "var":
		x, ok := s.LookupTypeVariation(a, c)
		w, wok := c.GetTypeVariation(ext.TypeVariationID{URN: id.urn, Name: id.name})
		if ok != wok || x.Name != w.Name {
			t.Failf("%s: variation %v looked up by anchor: %v %v", at, id, x, ok)
		}
	case "func":
		fid := ext.FunctionID{URN: id.urn, Name: id.name}
		sv, ok := s.LookupScalarFunction(a, c)
		if w, wok := c.GetScalarFunc(fid); ok != wok || sv != w {
			t.Failf("%s: scalar function %v looked up by anchor: %v %v", at, id, sv, ok)
		}
		av, ok := s.LookupAggregateFunction(a, c)
		if w, wok := c.GetAggregateFunc(fid); ok != wok || av != w {
			t.Failf("%s: aggregate function %v looked up by anchor: %v %v", at, id, av, ok)
		}
		wv, ok := s.LookupWindowFunction(a, c)
		if w, wok := c.GetWindowFunc(fid); ok != wok || wv != w {
			t.Failf("%s: window function %v looked up by anchor: %v %v", at, id, wv, ok)
		}
	}
}

// step asks for an id's anchor and updates the model.
func (m *c14model) step(t *T, at string, s ext.Set, id c14id) bool {
	a := c14get(s, id)
	t.Trans(1)
	if p, ok := m.given[id]; ok {
		if p != a {
			t.Failf("%s: anchor of %v is %d, was %d", at, id, a, p)
			return false
		}
		return true
	}
	known := false
	for _, x := range m.m[id.kind] {
		known = known || x == id
	}
	if known {
		if m.m[id.kind][a] != id {
			t.Failf("%s: %v has anchor %d, which was declared for %v", at, id, a, m.m[id.kind][a])
			return false
		}
	} else {
		if x, ok := m.m[id.kind][a]; ok {
			t.Failf("%s: new %v gets anchor %d of %v", at, id, a, x)
			return false
		}
		if a == 0 {
			t.Failf("%s: new %v gets anchor 0", at, id)
			return false
		}
		m.m[id.kind][a] = id
	}
	m.given[id] = a
	return true
}

func c14ops() (r []c14id) {
	for _, k := range []string{"type", "var", "func"} {
		for _, u := range []string{c14A, c14B} {
			for _, n := range []string{"t0", "t1"} {
				if k == "func" && n == "t1" {
					n = "t1:i32"
				}
				r = append(r, c14id{k, u, n})
			}
		}
	}
	return
}

// explore runs all request sequences of the given depth from a start, judging after each.
func c14explore(t *T, label string, start func() (ext.Set, *c14model), depth int) {
	ops := c14ops()
	seq := make([]int, depth)
	for i := range seq {
		seq[i] = 0
	}
	var walk func(d int)
	walk = func(d int) {
		// replay the prefix: sets cannot be copied
		s, m := start()
		at := label
		for i := 0; i < d; i++ {
			o := seq[i]
			if o == len(ops) {
				us, ds := s.ToProto(c14coll())
				s2, err := ext.GetExtensionSet(c14msg(us, ds), c14coll())
				at += " > write+read"
				if err != nil {
					t.Failf("%s: %v", at, err)
					return
				}
				s = s2
				for _, u := range us {
					m.urns[u.ExtensionUrnAnchor] = u.Urn
				}
				m.given = map[c14id]uint32{}
				t.Trans(1)
				continue
			}
			at += fmt.Sprintf(" > %s %s %s", ops[o].kind, ops[o].urn, ops[o].name)
			if !m.step(t, at, s, ops[o]) {
				return
			}
		}
		m.judge(t, at, s, true)
		if d == depth || t.Failed() {
			return
		}
		for o := 0; o <= len(ops); o++ {
			if o == len(ops) && (d == 0 || seq[d-1] == len(ops)) {
				continue
			}
			seq[d] = o
			walk(d + 1)
		}
	}
	walk(0)
}

func c14decl(kind string, a, ref uint32, name string) *pbe.SimpleExtensionDeclaration {
	d := &pbe.SimpleExtensionDeclaration{}
	switch kind {
	case "type":
		d.MappingType = &pbe.SimpleExtensionDeclaration_ExtensionType_{ExtensionType: &pbe.SimpleExtensionDeclaration_ExtensionType{TypeAnchor: a, ExtensionUrnReference: ref, Name: name}}
	case "var":
		d.MappingType = &pbe.SimpleExtensionDeclaration_ExtensionTypeVariation_{ExtensionTypeVariation: &pbe.SimpleExtensionDeclaration_ExtensionTypeVariation{TypeVariationAnchor: a, ExtensionUrnReference: ref, Name: name}}
	case "func":
		d.MappingType = &pbe.SimpleExtensionDeclaration_ExtensionFunction_{ExtensionFunction: &pbe.SimpleExtensionDeclaration_ExtensionFunction{FunctionAnchor: a, ExtensionUrnReference: ref, Name: name}}
	}
	return d
}

func runC14(c *Ctx) {
	depth0, depth1 := 4, 1
	if c.Thorough {
		depth0, depth1 = 5, 2
	}
	ops := c14ops()
	for i := range ops {
		// the empty set: first request fixed per case, to spread the work
		c.Case(func(t *T) {
			c14explore(t, "new set > "+fmt.Sprint(ops[i]), func() (ext.Set, *c14model) {
				s, m := ext.NewSet(), newC14()
				m.step(t, "first", s, ops[i])
				return s, m
			}, depth0-1)
			t.Validated()
		}, "new", i)
	}
	anchors := []uint32{0, 1, 2, 7, math.MaxUint32}
	var urnLists [][]*pbe.SimpleExtensionURN
	urnLists = append(urnLists, nil)
	for _, a := range anchors {
		for _, u := range []string{c14A, c14B, "extension:mc:none"} {
			one := &pbe.SimpleExtensionURN{ExtensionUrnAnchor: a, Urn: u}
			urnLists = append(urnLists, []*pbe.SimpleExtensionURN{one})
			for _, a2 := range anchors {
				for _, u2 := range []string{c14A, c14B} {
					urnLists = append(urnLists, []*pbe.SimpleExtensionURN{one, {ExtensionUrnAnchor: a2, Urn: u2}})
				}
			}
		}
	}
	danchors := []uint32{0, 1, 2, math.MaxUint32}
	kinds := []string{"type", "var", "func"}
	for ui, us := range urnLists {
		refs := map[uint32]bool{3: true}
		for _, u := range us {
			refs[u.ExtensionUrnAnchor] = true
		}
		var rl []uint32
		for r := range refs {
			rl = append(rl, r)
		}
		sort.Slice(rl, func(i, j int) bool { return rl[i] < rl[j] })
		var ds []*pbe.SimpleExtensionDeclaration
		for _, k := range kinds {
			for _, a := range danchors {
				for _, r := range rl {
					if r == 3 && (a != 1 || refs[3] && len(us) > 0 && us[0].ExtensionUrnAnchor == 3) {
						continue
					}
					for _, n := range []string{"t0", "t1"} {
						if k == "func" && n == "t1" {
							n = "t1:i32"
						}
						ds = append(ds, c14decl(k, a, r, n))
					}
				}
			}
		}
		ds = append(ds, c14decl("", 0, 0, ""))
		one := func(t *T, list ...*pbe.SimpleExtensionDeclaration) {
			p := c14msg(us, list)
			t.Trans(1)
			want := c14read(p)
			s, err := ext.GetExtensionSet(p, c14coll())
			if (err == nil) != (want != nil) {
				t.Failf("reading %s: error %v, must be accepted: %v", mtext(p), err, want != nil)
				return
			}
			if err != nil {
				t.State("rejected " + mtext(p))
				return
			}
			_ = s
			d := depth1
			if len(list) < 2 {
				d = depth1 + 1
			}
			c14explore(t, mtext(p), func() (ext.Set, *c14model) {
				s, err := ext.GetExtensionSet(p, c14coll())
				if err != nil {
					t.Failf("read again: %v", err)
					s = ext.NewSet()
				}
				return s, c14read(p)
			}, d)
		}
		c.Case(func(t *T) {
			one(t)
			for _, d := range ds {
				one(t, d)
			}
			t.Validated()
		}, "one", ui)
		for i := range ds {
			c.Case(func(t *T) {
				for _, d2 := range ds {
					one(t, ds[i], d2)
				}
				t.Validated()
			}, "two", ui, i)
		}
	}
	// histories over a sparse start with all kinds, deeper
	for _, base := range []uint32{0, 1, 2, 3, 4, math.MaxUint32 - 2} {
		for _, gap := range []uint32{1, 2, 3} {
			c.Case(func(t *T) {
				var ds []*pbe.SimpleExtensionDeclaration
				for i, k := range kinds {
					for j := uint32(0); j < 2; j++ {
						n := "t0"
						if j == 1 {
							n = []string{"t1", "t1", "t1:i32"}[i]
						}
						ds = append(ds, c14decl(k, base+j*gap, 5, n))
					}
				}
				p := c14msg([]*pbe.SimpleExtensionURN{{ExtensionUrnAnchor: 5, Urn: c14A}, {ExtensionUrnAnchor: base, Urn: c14A}}, ds)
				if base == 5 {
					return
				}
				c14explore(t, mtext(p), func() (ext.Set, *c14model) {
					s, err := ext.GetExtensionSet(p, c14coll())
					if err != nil {
						t.Failf("rejected: %v", err)
						s = ext.NewSet()
					}
					return s, c14read(p)
				}, depth1+2)
				t.Validated()
			}, "sparse", base, gap)
		}
	}
	c14Sized(c)
}

// c14many are further URNs for the sets with many entries.
func c14many() (r []string) {
	for i := 0; i < 40; i++ {
		u := "extension:mc:n"
		if i%2 == 1 { // long names that differ at their ends, and ones that begin with another
			u = "extension:mc:" + strings.Repeat("long-name-", 12)
		}
		r = append(r, fmt.Sprint(u, i))
	}
	return
}

// c14Sized grows sets to hundreds of ids over many URNs, in several orders, judging as they grow.
func c14Sized(c *Ctx) {
	sizes := []int{3, 16, 65}
	if c.Thorough {
		sizes = append(sizes, 150)
	}
	kinds := []string{"type", "var", "func"}
	urns := append([]string{c14B, c14A}, c14many()...)
	for _, names := range sizes {
		for _, nu := range []int{1, 2, 9, 42} {
			if names*nu > 3000 || !c.Thorough && names*nu > 650 {
				continue
			}
			for order := 0; order < 6; order++ {
				c.Case(func(t *T) {
					var ids []c14id
					for i := 0; i < names; i++ {
						for j := 0; j < nu; j++ {
							for k := range kinds {
								ids = append(ids, c14id{kinds[(k+i)%3], urns[(j+i*order)%nu], fmt.Sprint("t", i)})
							}
						}
					}
					switch order {
					case 1:
						slices.Reverse(ids)
					case 2:
						sort.SliceStable(ids, func(a, b int) bool { return ids[a].kind < ids[b].kind })
					case 3:
						sort.SliceStable(ids, func(a, b int) bool { return ids[a].urn < ids[b].urn })
					case 4:
						sort.SliceStable(ids, func(a, b int) bool { return ids[a].name < ids[b].name })
					case 5: // from both ends
						n := make([]c14id, 0, len(ids))
						for a, b := 0, len(ids)-1; a <= b; a, b = a+1, b-1 {
							n = append(n, ids[a])
							if a != b {
								n = append(n, ids[b])
							}
						}
						ids = n
					}
					s, m := ext.NewSet(), newC14()
					at := fmt.Sprintf("%d names, %d URNs, order %d", names, nu, order)
					next := 4
					for i, id := range ids {
						if !m.step(t, fmt.Sprintf("%s, request %d", at, i), s, id) || !m.step(t, at+", again", s, ids[i/2]) {
							return
						}
						if i+1 == next || i+1 == len(ids) {
							m.judge(t, fmt.Sprintf("%s, after %d", at, i+1), s, true)
							next *= 4
							if t.Failed() {
								return
							}
							if i%2 == 1 { // go on from the written form
								us, ds := s.ToProto(c14coll())
								s2, err := ext.GetExtensionSet(c14msg(us, ds), c14coll())
								if err != nil {
									t.Failf("%s, after %d: the written form cannot be read: %v", at, i+1, err)
									return
								}
								s, m.given = s2, map[c14id]uint32{}
								for _, u := range us {
									m.urns[u.ExtensionUrnAnchor] = u.Urn
								}
							}
						}
					}
					t.Validated()
				}, "sized", names, nu, order)
			}
		}
	}
}
