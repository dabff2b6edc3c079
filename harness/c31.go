// C31: extension files written out declare the same again.
package main

import (
	"io/fs"
	"path"
	"strings"

	"github.com/goccy/go-yaml"
	"github.com/substrait-io/substrait"
	ext "github.com/substrait-io/substrait-go/v8/extensions"
)

func init() {
	checks["C31"] = &Check{Run: runC31, Quick: 120, Thorough: 400, Shards: 16,
		Bounds: "documents: those of C15 (every function kind x argument lists up to 2 over 34 argument forms, every attribute of an implementation over its values one and two at a time, spellings of names, lists of up to 2 (thorough 3) function entries), types with every attribute one and two at a time, dependencies and metadata, and every shipped extension file; each is decoded, written out through a pointer and as a value, loaded again, and the text written out once more",
		Assume: []string{"the text is written with the YAML library the package itself reads with"}}
}

func c31write(t *T, what, text string) (out []string) {
	var f ext.SimpleExtensionFile
	if err := yaml.Unmarshal([]byte(text), &f); err != nil {
		t.Failf("%s: not decoded: %v", what, err)
		return
	}
	for _, how := range []string{"pointer", "value"} {
		var b []byte
		var err error
		if msg := catch(func() {
			if how == "pointer" {
				b, err = yaml.Marshal(&f)
			} else {
				b, err = yaml.Marshal(f)
			}
		}); msg != "" {
			t.Failf("%s: writing it (%s) panics: %s", what, how, msg)
			return nil
		}
		t.Trans(1)
		if err != nil {
			t.Failf("%s: writing it (%s) fails: %v", what, how, err)
			return nil
		}
		out = append(out, string(b))
	}
	if out[0] == out[1] {
		out = out[:1]
	}
	// what was written reads as what is written
	var g ext.SimpleExtensionFile
	if err := yaml.Unmarshal([]byte(out[0]), &g); err != nil {
		t.Failf("%s: written as %s, which is not decoded: %v", what, out[0], err)
		return nil
	}
	var again []byte
	if msg := catch(func() { again, _ = yaml.Marshal(&g) }); msg != "" || string(again) != out[0] {
		t.Failf("%s: written as %s, and read and written again as %s%s", what, out[0], again, msg)
	}
	return
}

func c31one(t *T, doc M) {
	text := c15json(doc)
	m := newC15()
	m.add(c15norm(doc))
	for _, w := range c31write(t, text, text) {
		c := &ext.Collection{}
		err, ok := c15load(t, c, w)
		if !ok {
			return
		}
		if err != nil {
			t.Failf("%s: written as %s, which is rejected: %v", text, w, err)
			return
		}
		m.judge(t, text+" written as "+w, c)
		t.State(w)
	}
}

func runC31(c *Ctx) {
	files := substrait.GetSubstraitExtensionsFS()
	ents, err := fs.ReadDir(files, "extensions")
	if err != nil {
		panic(err)
	}
	for _, e := range ents {
		if e.Name() == "unknown.yaml" {
			continue
		}
		c.Case(func(t *T) {
			b, _ := fs.ReadFile(files, path.Join("extensions", e.Name()))
			var d map[string]any
			if err := yaml.Unmarshal(b, &d); err != nil {
				t.Failf("%s: %v", e.Name(), err)
				return
			}
			for _, w := range c31write(t, e.Name(), string(b)) {
				col, m := &ext.Collection{}, newC15()
				if dep, ok := d["dependencies"].(map[string]any); ok && len(dep) > 0 {
					for _, o := range ents {
						ob, _ := fs.ReadFile(files, path.Join("extensions", o.Name()))
						for _, u := range dep {
							if strings.Contains(string(ob), "urn: "+u.(string)+"\n") {
								if err, _ := c15load(t, col, string(ob)); err != nil {
									t.Failf("%s: %v", o.Name(), err)
								}
								var od map[string]any
								_ = yaml.Unmarshal(ob, &od)
								m.add(od)
							}
						}
					}
				}
				if err, ok := c15load(t, col, w); !ok || err != nil {
					t.Failf("%s: rejected when written out: %v", e.Name(), err)
					continue
				}
				m.add(d)
				m.judge(t, e.Name(), col)
				t.State(w)
			}
			t.Validated()
		}, "shipped", e.Name())
	}
	n := 2
	if c.Thorough {
		n = 3
	}
	c15docs(c, n, c31one)
	// types, variations, dependencies, metadata
	type at struct {
		k string
		v any
	}
	ats := []at{{"structure", "i32"}, {"structure", M{"a": "i32", "b": M{"c": "string"}}}, {"structure", "struct<i32, fp64>"}, {"variadic", true}, {"variadic", false}, {"metadata", M{"k": "v"}}, {"metadata", M{"k": L{"a", "b"}, "z": M{"y": "x"}}},
		{"parameters", L{M{"name": "P", "type": "dataType"}}}, {"parameters", L{M{"name": "L", "type": "integer", "min": 1, "max": 9, "description": "d"}, M{"name": "E", "type": "enumeration", "options": L{"A", "B"}, "optional": true}}}, {"parameters", L{M{"name": "s", "type": "string"}, M{"name": "b", "type": "boolean", "optional": false}}}}
	for i, a := range ats {
		c.Case(func(t *T) {
			for _, b := range ats {
				ty := M{"name": "t", a.k: a.v}
				if b.k != a.k {
					ty[b.k] = b.v
				}
				for _, vs := range []L{nil, {M{"name": "v", "parent": "i32", "functions": "INHERITS"}}, {M{"name": "v", "parent": "i32", "functions": "SEPARATE", "description": "x"}, M{"name": "w", "parent": "string", "functions": "INHERITS", "metadata": M{"a": "b"}}}} {
					for _, md := range []M{nil, {"m": "n"}, {"m": M{"n": L{"o"}}}} {
						d := M{"urn": "extension:mc:t", "types": L{ty, M{"name": "u"}}, "scalar_functions": L{c15fn("f", c15impl("u!t", "u!u?"))}}
						if vs != nil {
							d["type_variations"] = vs
						}
						if md != nil {
							d["metadata"] = md
						}
						c31one(t, d)
					}
				}
			}
			t.Validated()
		}, "types", i)
	}
}
