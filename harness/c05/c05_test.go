package c05

import (
	"fmt"
	"strings"
	"testing"
	"time"

	"github.com/buypal/oapi-go/verifharness/kit"
	"github.com/buypal/oapi-go/verifharness/model"
	"pgregory.net/rapid"
)

// Recursive types: scanning terminates and output references are closed.

func gen(t *rapid.T) model.Case {
	return model.All(t, model.Opt{Pkgs: 3, Decls: 5, Fields: 4, Named: 75, Paths: 15, Embed: 10, Twins: 10, Exports: rapid.SampledFrom([]int{0, 25, 60}).Draw(t, "exports")})
}

func genRing(t *rapid.T) model.Case {
	return model.Ring(t, model.Opt{Paths: 25, Wide: true, PathExp: true, Exports: rapid.SampledFrom([]int{0, 0, 15, 50}).Draw(t, "exports")})
}

// deeper graphs than the reference model can expand
func genBig(t *rapid.T) model.Case {
	return model.All(t, model.Opt{Pkgs: 3, Decls: 10, Fields: 4, Named: 80, Paths: 10, Embed: 5, Exports: 100})
}

func closed(c model.Case) error {
	if _, err := c.Merged(); err != nil {
		return nil // documents of many packages can collide
	}
	got, err := c.Run()
	if err != nil {
		return fmt.Errorf("the scan fails: %v\n%s", err, c.Source())
	}
	if e := kit.WalkErr(got, func(v interface{}) error {
		m, ok := v.(model.Obj)
		if !ok {
			return nil
		}
		r, ok := m["$ref"].(string)
		if !ok {
			return nil
		}
		p, err := model.ParsePointer(r)
		if err != nil || p.Scheme != "" {
			return fmt.Errorf("reference %q left", r)
		}
		if len(p.Toks) == 3 && p.Toks[0] == "components" && p.Toks[2] != "Doc" {
			var at interface{} = got
			for _, tok := range p.Toks {
				m, ok := at.(model.Obj)
				if !ok {
					return fmt.Errorf("reference %q to nothing", r)
				}
				if at, ok = m[tok]; !ok {
					return fmt.Errorf("reference %q to nothing", r)
				}
			}
		}
		return nil
	}); e != nil {
		return fmt.Errorf("%v\n%s", e, c.Source())
	}
	return nil
}

func classBig(c model.Case) (i kit.Info) {
	n := 0
	for _, p := range c.Pkgs {
		n += len(p.Exports)
	}
	i.Nontrivial = n > 3
	i.Label(n > 8, "more than 8 exports")
	i.Label(strings.Contains(kit.JS(c.Pkgs), "ptr"), "pointers")
	return
}

func TestProp(t *testing.T) {
	kit.Run(t, "C05",
		kit.P[model.Case]{
			Name:    "recursion",
			Rule:    "modules of 1-3 packages of structs and named slices, maps and pointers that mostly refer to each other, exported or not; the document has to be the one of the reference model, which cuts recursion; non-trivial: references reach composite types",
			Gen:     gen,
			Check:   model.Check,
			Class:   model.Class,
			Quick:   2400,
			Timeout: 30 * time.Second, Thorough: 40000,
		},
		kit.P[model.Case]{
			Name:    "rings",
			Rule:    "modules in which 2-12 types form one cycle through fields, pointers, slices, maps and named types of those, with a few chords, some exported; the document has to be the one of the reference model; non-trivial: references reach composite types",
			Gen:     genRing,
			Check:   model.Check,
			Class:   model.Class,
			Quick:   800,
			Timeout: 30 * time.Second, Thorough: 12000,
		},
		kit.P[model.Case]{
			Name:    "closed",
			Rule:    "larger modules of up to 30 mutually recursive types, all exported; no go:// reference may be left and every component reference has to have its component; non-trivial: more than 3 exports",
			Gen:     genBig,
			Check:   closed,
			Class:   classBig,
			Quick:   600,
			Timeout: 60 * time.Second, Thorough: 8000,
		})
}
