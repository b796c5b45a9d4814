package c12

import (
	"encoding/json"
	"fmt"
	"testing"

	"github.com/buypal/oapi-go/internal/container"
	"github.com/buypal/oapi-go/internal/oapi"
	"github.com/buypal/oapi-go/internal/oapi/spec"
	"github.com/buypal/oapi-go/verifharness/kit"
	"github.com/buypal/oapi-go/verifharness/model"
	"pgregory.net/rapid"
)

// Root document sections combine with the scanned document as specified.

type obj = map[string]interface{}

type direct struct {
	Doc  obj
	Root obj
}

var sections = []string{"info", "components", "externalDocs", "security", "servers", "tags"}

func gen(t *rapid.T) (c direct) {
	c.Doc = kit.Doc(t, kit.DocOpt{Depth: 3, Width: 3})
	c.Root = obj{}
	for _, s := range sections {
		delete(c.Doc, s)
		where := rapid.IntRange(0, 3).Draw(t, s)
		if where&1 != 0 {
			c.Root[s] = model.Section(t, s, "root")
		}
		if where&2 != 0 {
			c.Doc[s] = model.Section(t, s, "doc")
			if l, ok := c.Doc[s].([]interface{}); ok && len(l) == 1 && rapid.IntRange(0, 4).Draw(t, "empty") == 4 {
				c.Doc[s] = []interface{}{}
			}
		}
	}
	delete(c.Doc, "paths")
	if rapid.Bool().Draw(t, "paths") {
		c.Doc["paths"] = obj{"/a": obj{"get": obj{"summary": "s"}}}
	}
	if d, ok := c.Doc["components"].(obj); ok {
		r, _ := c.Root["components"].(obj)
		for k, v := range d { // a clash, mostly of values that differ
			if w, ok := r[k].(obj); ok && rapid.IntRange(0, 5).Draw(t, "clash") == 5 {
				for name := range v.(obj) {
					w[name] = model.Section(t, "components", "root").(obj)[k]
					if m, ok := w[name].(obj); ok {
						for _, x := range m {
							w[name] = x
						}
					} else {
						delete(w, name)
					}
					break
				}
			}
		}
	}
	return
}

func check(c direct) error {
	raw, _ := json.Marshal(c.Root)
	var root spec.OpenAPI
	if err := json.Unmarshal(raw, &root); err != nil {
		return fmt.Errorf("root %s: %v", raw, err)
	}
	cnt, err := container.Make(c.Doc)
	if err != nil {
		return err
	}
	want, werr := model.WithRoot(c.Doc, c.Root)
	if werr == model.ErrUnspecified {
		return nil
	}
	err = oapi.MergeWithRoot(root, cnt)
	if werr != nil {
		if err == nil {
			return fmt.Errorf("a clash (%v) is no error", werr)
		}
		return nil
	}
	if err != nil {
		return fmt.Errorf("fails: %v", err)
	}
	after, _ := json.Marshal(root)
	var root2 spec.OpenAPI
	json.Unmarshal(raw, &root2)
	if before, _ := json.Marshal(root2); string(before) != string(after) {
		return fmt.Errorf("the root document was changed: %s", after)
	}
	b, err := cnt.MarshalJSON()
	if err != nil {
		return err
	}
	var got interface{}
	if err := json.Unmarshal(b, &got); err != nil {
		return err
	}
	if d := model.Same(model.Titled(want, got), got); d != "" {
		return fmt.Errorf("%s\nroot %s\ndoc  %s\ngot  %s", d, raw, kit.JS(c.Doc), b)
	}
	return nil
}

func class(c direct) (i kit.Info) {
	both := 0
	for _, s := range sections {
		_, r := c.Root[s]
		_, d := c.Doc[s]
		i.Label(r && d, s+" on both sides")
		i.Label(r && !d, s+" from the root")
		if r {
			both++
		}
	}
	_, err := model.WithRoot(c.Doc, c.Root)
	i.Label(err == model.ErrUnspecified, "unspecified")
	i.Label(err != nil && err != model.ErrUnspecified, "clash")
	i.Nontrivial = both > 0 && err != model.ErrUnspecified
	return
}

func TestProp(t *testing.T) {
	kit.Run(t, "C12",
		kit.P[direct]{
			Name:  "sections",
			Rule:  "arbitrary documents and root documents with each section on either side, both or none, merged directly; the result has to be the one of the model, or an error for clashing components; non-trivial: the root has a section",
			Gen:   gen,
			Check: check,
			Class: class,
			Quick: 60000, Thorough: 2000000,
		},
		kit.P[model.Case]{
			Name: "scan",
			Rule: "modules with documents and a configuration with root sections that refer to types; the document has to be the one of the reference model; non-trivial: references reach composite types",
			Gen: func(t *rapid.T) model.Case {
				return model.All(t, model.Opt{Pkgs: 3, Decls: 3, Fields: 3, Named: 40, Paths: 25, Root: true, Docs: 2, Exports: 25, Overrides: 1})
			},
			Check: model.Check,
			Class: model.Class,
			Quick: 1800, Thorough: 30000,
		})
}
