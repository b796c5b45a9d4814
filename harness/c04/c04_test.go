package c04

import (
	"testing"

	"github.com/buypal/oapi-go/verifharness/kit"
	"github.com/buypal/oapi-go/verifharness/model"
	"pgregory.net/rapid"
)

// A go:// pointer denotes exactly the type at that location.

func gen(t *rapid.T) model.Case {
	return model.All(t, model.Opt{Time: true, Pkgs: 4, Decls: 4, Fields: 4, Paths: 80, Embed: 10, Twins: 15, Named: 40, Wide: true, Hidden: true, Docs: 2})
}

func genBad(t *rapid.T) model.Case {
	g := model.New(t, model.Opt{Pkgs: 3, Decls: 4, Fields: 4, Paths: 80, Embed: 10, Named: 40, Wide: true, Hidden: true})
	g.Documents()
	g.Lost()
	return g.Finish()
}

func TestProp(t *testing.T) {
	kit.Run(t, "C04",
		kit.P[model.Case]{
			Name:  "paths",
			Rule:  "modules of 1-4 packages whose documents refer to types and to what is found along paths of up to 4 steps (fields, *, []), as full pointers, local shorthands and with percent escapes; the document has to be the one of the reference model; non-trivial: references reach composite types",
			Gen:   gen,
			Check: model.Check,
			Class: model.Class,
			Quick: 2200, Thorough: 35000,
		},
		kit.P[model.Case]{
			Name:  "missing",
			Rule:  "such a module with one reference changed: a step misspelt, dropped, doubled, added or replaced, another package, a package that is not imported, an unexported field; where the reference model finds no type the scan has to fail, else it has to give the model's document; non-trivial as above or it has to fail",
			Gen:   genBad,
			Check: model.Check,
			Class: model.Class,
			Quick: 1200, Thorough: 15000,
		})
}
