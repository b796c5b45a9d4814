package c01

import (
	"testing"

	"github.com/buypal/oapi-go/verifharness/kit"
	"github.com/buypal/oapi-go/verifharness/model"
	"pgregory.net/rapid"
)

// Every referenced Go type yields the schema the type mapping prescribes.

func gen(t *rapid.T) model.Case {
	return model.All(t, model.Opt{Pkgs: 3, Decls: 5, Fields: 4, Embed: 6, Twins: 25, Paths: 25, Time: true, Exports: rapid.SampledFrom([]int{0, 0, 30}).Draw(t, "exports")})
}

func TestProp(t *testing.T) {
	kit.Run(t, "C01",
		kit.P[model.Case]{
			Name:  "types",
			Rule:  "modules of 1-3 packages with named, aliased, defined, nested, anonymous and structurally identical types and documents referring to them and into them; the document has to be the one of the reference model; non-trivial: some reference reaches a composite type",
			Gen:   gen,
			Check: model.Check,
			Class: model.Class,
			Quick: 2400, Thorough: 40000,
		},
		kit.P[model.Case]{
			Name:  "no schema",
			Rule:  "such a module with one function, channel, interface, complex or uintptr type put where a referenced type has it; the scan has to fail; non-trivial: it has to fail, or has references to composite types",
			Gen:   genBad,
			Check: model.Check,
			Class: model.Class,
			Quick: 800, Thorough: 10000,
		})
}

func genBad(t *rapid.T) model.Case {
	g := model.New(t, model.Opt{Pkgs: 2, Decls: 4, Fields: 3, Twins: 10, Paths: 10, Embed: 5})
	g.Spoil()
	g.Documents()
	return g.Finish()
}
