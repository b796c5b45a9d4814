package c02

import (
	"testing"

	"github.com/buypal/oapi-go/verifharness/kit"
	"github.com/buypal/oapi-go/verifharness/model"
	"pgregory.net/rapid"
)

// Struct field tags decide how each field appears in the schema.

func gen(t *rapid.T) model.Case {
	return model.All(t, model.Opt{Time: true, Pkgs: 2, Decls: 5, Fields: 6, Tags: 75, Embed: 25, Paths: 10, Twins: 15, Hidden: true, Named: 35})
}

func genBad(t *rapid.T) model.Case {
	g := model.New(t, model.Opt{Pkgs: 2, Decls: 3, Fields: 4, Tags: 50, Embed: 10, Named: 35})
	g.BadTag()
	g.Documents()
	return g.Finish()
}

func TestProp(t *testing.T) {
	kit.Run(t, "C02",
		kit.P[model.Case]{
			Name:  "tags",
			Rule:  "modules with structs of up to 6 fields of all kinds, most of them with oapi and json tags of several options, embedded, inlined, shadowed and ignored fields; the document has to be the one of the reference model; non-trivial: references reach composite types",
			Gen:   gen,
			Check: model.Check,
			Class: model.Class,
			Quick: 2400, Thorough: 40000,
		},
		kit.P[model.Case]{
			Name:  "malformed",
			Rule:  "such a module with one malformed tag, or option whose value is not a number, boolean or type; the scan has to fail when a referenced type has it; non-trivial as above or it has to fail",
			Gen:   genBad,
			Check: model.Check,
			Class: model.Class,
			Quick: 600, Thorough: 8000,
		})
}
