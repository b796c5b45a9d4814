package c13

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"
	"testing"

	"github.com/buypal/oapi-go/internal/container"
	"github.com/buypal/oapi-go/internal/oapi"
	"github.com/buypal/oapi-go/internal/oapi/spec"
	"github.com/buypal/oapi-go/verifharness/kit"
	"github.com/buypal/oapi-go/verifharness/model"
	"pgregory.net/rapid"
)

// Operation defaults fill gaps of exactly the matching operations.

type obj = map[string]interface{}

type direct struct {
	Doc  obj
	Defs obj
}

var ops = []string{"get", "put", "post", "delete", "options", "head", "patch", "trace"}
var noops = []string{"parameters", "summary", "description", "servers", "x-get", "x-ext", "gets", "get.a", ""}
var paths = []string{"/", "/a", "/a/b", "/a.b/c", "/a~b", "/a/{id}", "/a/{id}/b", "/a/{id}.json", "", "/v1/(x)", "/a/*", "/A", "x-get", "x-/a", "/é/{name}", "//", "get:/a", "/x-internal", "/x-get/a", "/get", "/a/b/c/d/e/f/g/h/{id}", "/a b", "/a?b=c", "/{id}/{id}", "/{x}.{y}", "/a/" + strings.Repeat("long", 30)}

func value(t *rapid.T) interface{} { return kit.Value(t, kit.DocOpt{Depth: 2, Width: 2}, 1) }

// operation of a document: fields the defaults have too, and others
func operation(t *rapid.T) interface{} {
	o := obj{}
	for n := rapid.IntRange(0, 4).Draw(t, "n"); n > 0; n-- {
		switch rapid.IntRange(0, 7).Draw(t, "field") {
		case 0:
			o["summary"] = rapid.SampledFrom([]interface{}{"s", "", nil, false}).Draw(t, "v")
		case 1:
			o["responses"] = obj{rapid.SampledFrom([]string{"200", "401", "default"}).Draw(t, "code"): obj{"description": "own"}}
		case 2:
			o["responses"] = obj{"401": obj{"description": "", "content": obj{"text/plain": obj{}}}, "a.b": obj{}}
		case 3:
			o["tags"] = rapid.SampledFrom([]interface{}{[]interface{}{"own"}, []interface{}{}}).Draw(t, "v")
		case 4:
			o["deprecated"] = rapid.Bool().Draw(t, "v")
		case 5:
			o["externalDocs"] = obj{"description": "own"}
		case 6:
			o["security"] = []interface{}{}
		default:
			o[kit.Key(t, "key")] = value(t)
		}
	}
	delete(o, "$ref")
	return o
}

func deflt(t *rapid.T, nr int) obj {
	name := fmt.Sprintf("d%d", rapid.IntRange(0, 1).Draw(t, "name")+nr)
	o := obj{}
	for n := rapid.IntRange(1, 4).Draw(t, "n"); n > 0; n-- {
		switch rapid.IntRange(0, 9).Draw(t, "field") {
		case 0:
			o["summary"] = name
		case 1:
			o["description"] = name
		case 2, 3:
			o["responses"] = obj{rapid.SampledFrom([]string{"200", "401", "default"}).Draw(t, "code"): obj{"description": name, "content": obj{"a/b": obj{"schema": obj{"type": "string", "title": name}}}}}
		case 4:
			o["tags"] = []interface{}{name, "x"}
		case 5:
			o["deprecated"] = true
		case 6:
			o["externalDocs"] = obj{"description": name, "url": "http://" + name}
		case 7:
			o["security"] = []interface{}{obj{name: []interface{}{"r"}}, obj{"other.x": []interface{}{}}}
		case 8:
			o["servers"] = []interface{}{obj{"url": "http://" + name, "description": "d"}}
		default:
			o["operationId"] = name
		}
	}
	return o
}

func gen(t *rapid.T) (c direct) {
	n := func(lo, hi int) int { return rapid.IntRange(lo, hi).Draw(t, "n") }
	c.Doc = kit.Doc(t, kit.DocOpt{Depth: 2, Width: 2})
	delete(c.Doc, "paths")
	c.Defs = obj{}
	ps := obj{}
	names := []string{}
	for k := n(0, 4); k > 0; k-- {
		p := rapid.SampledFrom(paths).Draw(t, "path")
		if _, ok := ps[p]; ok {
			continue
		}
		item := obj{}
		for k := n(0, 3); k > 0; k-- {
			item[rapid.SampledFrom(ops).Draw(t, "method")] = operation(t)
		}
		for k := n(0, 2); k > 0; k-- {
			item[rapid.SampledFrom(noops).Draw(t, "other")] = value(t)
		}
		if n(0, 9) == 9 {
			item["parameters"] = []interface{}{obj{"name": "id"}}
		}
		ps[p] = item
		names = append(names, p)
	}
	if n(0, 19) == 19 { // many paths with a default each
		for k := n(5, 20); k > 0; k-- {
			p := fmt.Sprintf("/many/%d/{id}", k)
			m := rapid.SampledFrom(ops).Draw(t, "method")
			ps[p] = obj{m: operation(t)}
			if n(0, 3) > 0 {
				c.Defs[m+":"+p] = deflt(t, k)
			}
		}
	}
	if len(ps) > 0 || n(0, 1) == 1 {
		c.Doc["paths"] = ps
	}
	for k := n(0, 4); k > 0; k-- {
		p := rapid.SampledFrom(append([]string{"*", "/*", "/a/*", "/a/{name}", "/a/{id}/b", "/a/{id}", "*b", "/v1/(x)", "/v1/x", "/a.b/c", "/aXb/c", "/a", "/{pa}", "/{id}/{id}"}, names...)).Draw(t, "pattern")
		if n(0, 2) == 2 {
			m := rapid.SampledFrom(ops).Draw(t, "prefix")
			if n(0, 1) == 1 {
				m = strings.ToUpper(m)
			}
			p = m + ":" + p
		}
		c.Defs[p] = deflt(t, k)
	}
	return
}

// results: every order in which the matching defaults can be applied to an operation.
func results(op obj, ds []obj) (out []obj) {
	if len(ds) == 0 {
		return []obj{op}
	}
	for i := range ds {
		u, err := kit.Union(op, ds[i], func(a, b interface{}) (interface{}, error) { return a, nil })
		if err != nil {
			panic(err)
		}
		out = append(out, results(u, append(append([]obj{}, ds[:i]...), ds[i+1:]...))...)
	}
	return
}

func check(c direct) error {
	defs := map[string]spec.Operation{}
	raw, _ := json.Marshal(c.Defs)
	if err := json.Unmarshal(raw, &defs); err != nil {
		return fmt.Errorf("defaults %s: %v", raw, err)
	}
	before, _ := json.Marshal(defs)
	cnt, err := container.Make(c.Doc)
	if err != nil {
		return err
	}
	if err := flat(c.Doc, cnt); err != nil {
		return err
	}
	if err := oapi.SetPathsDefaults(cnt, defs); err != nil {
		return fmt.Errorf("fails: %v", err)
	}
	if after, _ := json.Marshal(defs); string(after) != string(before) {
		return fmt.Errorf("the defaults were changed: %s", after)
	}
	b, err := cnt.MarshalJSON()
	if err != nil {
		return err
	}
	var got obj
	if err := json.Unmarshal(b, &got); err != nil {
		return err
	}
	bad := func(d string) error {
		return fmt.Errorf("%s\ndefaults %s\ndoc %s\ngot %s", d, raw, kit.JS(c.Doc), b)
	}
	// operations first, then all the rest
	rest, grest := kit.Copy(c.Doc).(obj), kit.Copy(got).(obj)
	ps, _ := c.Doc["paths"].(obj)
	for p, item := range ps {
		for m, op := range item.(obj) {
			o, ok := op.(obj)
			if !ok || !isOp(m) || strings.HasPrefix(p, "x-") {
				continue
			}
			gp, _ := got["paths"].(obj)
			gi, _ := gp[p].(obj)
			g, ok := gi[m]
			if !ok {
				return bad(fmt.Sprintf("operation %s %s is gone", m, p))
			}
			var ds []obj
			for _, pat := range patterns(c.Defs) {
				if kit.Match(pat, m, p) {
					ds = append(ds, c.Defs[pat].(obj))
				}
			}
			if len(ds) > 3 {
				return nil
			}
			first := ""
			for _, r := range results(o, ds) {
				d := kit.Diff(r, g)
				if d == "" {
					first = ""
					break
				}
				if first == "" {
					first = d
				}
			}
			if first != "" {
				return bad(fmt.Sprintf("operation %s %s: %s", m, p, first))
			}
			delete(rest["paths"].(obj)[p].(obj), m)
			delete(grest["paths"].(obj)[p].(obj), m)
		}
	}
	if d := kit.Diff(rest, grest); d != "" {
		return bad(d)
	}
	return nil
}

// flat checks the list of operations and its matching.
func flat(doc obj, cnt container.Container) error {
	ff, err := oapi.Paths(cnt)
	if err != nil {
		return fmt.Errorf("Paths fails: %v", err)
	}
	want, got := []string{}, []string{}
	ps, _ := doc["paths"].(obj)
	for p, item := range ps {
		if strings.HasPrefix(p, "x-") {
			continue
		}
		for m, v := range item.(obj) {
			if isOp(m) {
				want = append(want, m+" "+p+" "+kit.JS(v))
			}
		}
	}
	for _, f := range ff {
		got = append(got, f.Method+" "+f.Path+" "+kit.JS(kit.Norm(f.Operation.Data())))
		if !cnt.ExistsP(f.Key) || kit.Diff(kit.Norm(cnt.Path(f.Key).Data()), kit.Norm(f.Operation.Data())) != "" {
			return fmt.Errorf("key %q of %s %s does not address the operation", f.Key, f.Method, f.Path)
		}
	}
	sort.Strings(want)
	sort.Strings(got)
	if strings.Join(want, "\n") != strings.Join(got, "\n") {
		return fmt.Errorf("operations are %q, want %q", got, want)
	}
	return nil
}

func isOp(m string) bool {
	for _, o := range ops {
		if strings.EqualFold(o, m) {
			return true
		}
	}
	return false
}

func patterns(m obj) (l []string) {
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return
}

func class(c direct) (i kit.Info) {
	hits, most := 0, 0
	ps, _ := c.Doc["paths"].(obj)
	for p, item := range ps {
		i.Label(strings.HasPrefix(p, "x-"), "extension beside paths")
		for m := range item.(obj) {
			n := 0
			for pat := range c.Defs {
				if isOp(m) && kit.Match(pat, m, p) {
					n++
				}
			}
			hits += n
			if n > most {
				most = n
			}
		}
	}
	i.Nontrivial = hits > 0
	i.Label(hits > 0, "matching operation")
	i.Label(most > 1, "operation matched by several patterns")
	return
}

func TestProp(t *testing.T) {
	kit.Run(t, "C13",
		kit.P[direct]{
			Name:  "defaults",
			Rule:  "documents with operations, path fields and extensions, and up to 4 defaults by pattern; each operation has to be the union with the matching defaults in some order, the rest unchanged, and the list of operations complete; non-trivial: a default matches an operation",
			Gen:   gen,
			Check: check,
			Class: class,
			Quick: 60000, Thorough: 2000000,
		},
		kit.P[model.Case]{
			Name: "scan",
			Rule: "modules with documents and a configuration with operation defaults that refer to types; the document has to be the one of the reference model; non-trivial: references reach composite types",
			Gen: func(t *rapid.T) model.Case {
				return model.All(t, model.Opt{Pkgs: 3, Decls: 3, Fields: 3, Named: 40, Paths: 25, Defaults: true, Docs: 2, Exports: 20, Overrides: 1})
			},
			Check: model.Check,
			Class: model.Class,
			Quick: 1800, Thorough: 30000,
		})
}
