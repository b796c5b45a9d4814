package c06

import (
	"encoding/json"
	"errors"
	"fmt"
	"sort"
	"testing"

	"github.com/buypal/oapi-go/internal/container"
	"github.com/buypal/oapi-go/internal/oapi/resolver"
	"github.com/buypal/oapi-go/internal/oapi/spec"
	"github.com/buypal/oapi-go/internal/pointer"
	"github.com/buypal/oapi-go/verifharness/kit"
	"pgregory.net/rapid"
)

type obj = map[string]interface{}

type export struct {
	Ptr, Kind, Name string
}

type tc struct {
	Doc     obj
	Table   map[string]obj
	Exports []export
}

var kinds = map[string]spec.Entity{
	"schemas": spec.SchemaKind, "responses": spec.ResponseKind, "parameters": spec.ParameterKind, "examples": spec.ExampleKind,
	"requestBodies": spec.RequestBodyKind, "headers": spec.HeaderKind, "securitySchemes": spec.SecuritySchemeKind,
	"links": spec.LinkKind, "callbacks": spec.CallbackKind,
}

var kindNames = []string{"schemas", "schemas", "schemas", "responses", "parameters", "examples", "requestBodies", "securitySchemes", "links", "callbacks", "headers"}

var ptrs = []string{"go://ex.org/m#/A", "go://ex.org/m#/B", "go://ex.org/m#/A/B", "go://ex.org/m/sub#/A", "x://ex.org/m#/A", "go://m#/C/[]/*/x~1y"}

// external says whether text names something outside the document; ok is false where it is no reference at all.
func external(s string) bool {
	for _, p := range []string{"go://", "x://", "http://"} {
		if len(s) >= len(p) && s[:len(p)] == p {
			return true
		}
	}
	return false
}

func gen(t *rapid.T) tc {
	n := rapid.IntRange(1, 5).Draw(t, "pointers")
	known := ptrs[:n]
	c := tc{Table: map[string]obj{}}
	exportKinds := kindNames
	siblings := rapid.Bool().Draw(t, "siblings")
	if !siblings {
		for _, p := range known {
			if rapid.Bool().Draw(t, "exported") {
				if kit.Known("header-component") {
					exportKinds = kindNames[:len(kindNames)-1]
				}
				e := export{Ptr: p, Kind: rapid.SampledFrom(exportKinds).Draw(t, "kind"), Name: kit.Key(t, "name")}
				dup := false
				for _, x := range c.Exports {
					dup = dup || x.Kind == e.Kind && x.Name == e.Name
				}
				if !dup {
					c.Exports = append(c.Exports, e)
				}
			}
		}
	}
	missing := !siblings && rapid.IntRange(0, 3).Draw(t, "mayfail") == 0
	key := func(t *rapid.T, l string) string {
		k := kit.Key(t, l)
		if k == "$ref" || k == "components" {
			k = "x." + k
		}
		return k
	}
	ref := func(t *rapid.T) interface{} {
		k := rapid.IntRange(0, 9).Draw(t, "ref")
		o := obj{}
		switch {
		case k <= 5:
			o["$ref"] = rapid.SampledFrom(known).Draw(t, "to")
		case k == 6:
			o["$ref"] = rapid.SampledFrom([]string{"#/components/schemas/Local", "#/a/b", "other.yaml#/x", "", "#"}).Draw(t, "local")
		case k == 7:
			o["$ref"] = rapid.SampledFrom([]interface{}{true, 1., nil, 0.5}).Draw(t, "odd")
		case k == 8 && missing:
			o["$ref"] = rapid.SampledFrom([]string{"go://unknown#/A", "http://x/y#/z", "go://ex.org/m#/Nope", "go://ex.org/m#bad", "go://%zz"}).Draw(t, "unknown")
		default:
			return kit.Scalar(t, false)
		}
		if siblings && rapid.IntRange(0, 3).Draw(t, "with") == 0 {
			o[key(t, "sibling")] = kit.Scalar(t, false)
			for k := rapid.IntRange(-6, 5).Draw(t, "more siblings"); k > 0; k-- {
				o[fmt.Sprint("more", k)] = kit.Scalar(t, false)
			}
			if rapid.Bool().Draw(t, "refsibling") {
				o[key(t, "sibling2")] = obj{"$ref": rapid.SampledFrom(known).Draw(t, "to2")}
			}
		}
		return o
	}
	c.Doc = kit.Doc(t, kit.DocOpt{Depth: 4, Width: 4, Key: key, Leaf: ref})
	if rapid.Bool().Draw(t, "components") {
		c.Doc["components"] = obj{
			rapid.SampledFrom(kindNames).Draw(t, "ck"): kit.Doc(t, kit.DocOpt{Depth: 2, Width: 3, Leaf: ref, Key: func(t *rapid.T, l string) string { return "Local" + key(t, l) }}),
		}
	}
	for i, e := range c.Exports {
		comps, _ := c.Doc["components"].(obj)
		kind, _ := comps[e.Kind].(obj)
		if len(kind) > 0 && rapid.IntRange(0, 3).Draw(t, "taken") == 0 { // in place of one of the document
			names := []string{}
			for k := range kind {
				names = append(names, k)
			}
			sort.Strings(names)
			name := rapid.SampledFrom(names).Draw(t, "taken name")
			dup := false
			for _, x := range c.Exports {
				dup = dup || x.Kind == e.Kind && x.Name == name
			}
			if !dup {
				c.Exports[i].Name = name
			}
		}
	}
	if rapid.IntRange(0, 9).Draw(t, "root") == 0 {
		if siblings {
			c.Doc["$ref"] = rapid.SampledFrom(known).Draw(t, "rootref")
		} else {
			for _, p := range known {
				if _, ok := c.exported(p); !ok {
					c.Doc = obj{"$ref": p}
				}
			}
		}
	}
	// values: no pointer expands to too much
	for _, p := range known {
		c.Table[p] = kit.Doc(t, kit.DocOpt{Depth: 2, Width: 3, Key: key, Leaf: ref})
		if rapid.IntRange(0, 7).Draw(t, "bare") == 0 {
			c.Table[p] = obj{"$ref": rapid.SampledFrom(known).Draw(t, "alias")}
		}
	}
	return c
}

func (c tc) exported(p string) (export, bool) {
	for _, e := range c.Exports {
		if e.Ptr == p {
			return e, true
		}
	}
	return export{}, false
}

type model struct {
	c        tc
	comps    map[export]interface{}
	fuel     int
	cut      bool
	resolved int
}

var (
	errResolve = errors.New("resolve")
	errFuel    = errors.New("fuel")
)

func token(s string) string {
	out := ""
	for _, r := range []byte(s) {
		switch r {
		case '~':
			out += "~0"
		case '/':
			out += "~1"
		case '%':
			out += "%25"
		default:
			out += string([]byte{r})
		}
	}
	return out
}

func (m *model) expand(v interface{}, path []string) (interface{}, error) {
	if m.fuel--; m.fuel < 0 {
		return nil, errFuel
	}
	switch x := v.(type) {
	case []interface{}:
		out := []interface{}{}
		for _, e := range x {
			n, err := m.expand(e, path)
			if err != nil {
				return nil, err
			}
			out = append(out, n)
		}
		return out, nil
	case obj:
		if s, ok := x["$ref"].(string); ok && external(s) {
			m.resolved++
			val, known := m.c.Table[s]
			if !known {
				return nil, errResolve
			}
			if e, ok := m.c.exported(s); ok {
				if _, begun := m.comps[e]; !begun {
					m.comps[e] = nil
					n, err := m.expand(val, []string{s})
					if err != nil {
						return nil, err
					}
					m.comps[e] = n
				}
				return obj{"$ref": "#/components/" + e.Kind + "/" + token(e.Name)}, nil
			}
			for _, p := range path {
				if p == s {
					m.cut = true
					return obj{}, nil
				}
			}
			return m.expand(val, append(path[:len(path):len(path)], s))
		}
		out := obj{}
		var first error
		for k, e := range x {
			n, err := m.expand(e, path)
			if err != nil {
				if err == errFuel || first == nil {
					first = err
				}
				continue
			}
			out[k] = n
		}
		return out, first
	}
	return v, nil
}

func (c tc) model() (*model, obj, error) {
	m := &model{c: c, comps: map[export]interface{}{}, fuel: 3000}
	v, err := m.expand(kit.Copy(c.Doc), nil)
	if err != nil {
		return m, nil, err
	}
	doc := v.(obj)
	for e, val := range m.comps {
		comps, ok := doc["components"].(obj)
		if !ok {
			comps = obj{}
			doc["components"] = comps
		}
		kind, ok := comps[e.Kind].(obj)
		if !ok {
			kind = obj{}
			comps[e.Kind] = kind
		}
		kind[e.Name] = val
	}
	return m, doc, nil
}

type entity struct{ v obj }

func (entity) Entity() spec.Entity            { return spec.SchemaKind }
func (e entity) MarshalJSON() ([]byte, error) { return json.Marshal(e.v) }

func check(c tc) error {
	_, want, werr := c.model()
	if werr == errFuel {
		return nil
	}
	in, err := container.Make(c.Doc)
	if err != nil {
		return err
	}
	var exps resolver.Exports
	for _, e := range c.Exports {
		exps = append(exps, resolver.Pointer{Entity: resolver.Entity{Entity: kinds[e.Kind], Name: e.Name}, Pointer: pointer.MustParse(e.Ptr)})
	}
	got, err := resolver.Resolve(in, exps, func(p pointer.Pointer) (spec.Entiter, error) {
		v, ok := c.Table[p.String()]
		if !ok {
			return nil, errors.New("unknown")
		}
		return entity{v}, nil
	})
	if d := kit.Diff(kit.Norm(c.Doc), kit.Norm(in.Data())); d != "" {
		return fmt.Errorf("the input changed: %s", d)
	}
	if (err != nil) != (werr != nil) {
		return fmt.Errorf("error %v, want %v", err, werr)
	}
	if err != nil {
		return nil
	}
	if d := kit.Diff(kit.Norm(want), kit.Norm(got.Data())); d != "" {
		return errors.New(d)
	}
	return nil
}

func class(c tc) (i kit.Info) {
	m, _, err := c.model()
	i.Nontrivial = err != errFuel && m.resolved > 0
	i.Label(err == errFuel, "too large (not checked)")
	i.Label(err == errResolve, "failing reference")
	i.Label(m.cut, "recursion cut")
	i.Label(len(m.comps) > 0, "component published")
	_, r := c.Doc["$ref"]
	i.Label(r, "reference at the root")
	return
}

func TestProp(t *testing.T) {
	kit.Run(t, "C06", kit.P[tc]{Name: "resolve", Gen: gen, Check: check, Class: class, Quick: 60000, Thorough: 2000000,
		Rule: "a document, a table of resolvable values referring to each other, and exports; non-trivial: at least one external reference is reached"})
}
