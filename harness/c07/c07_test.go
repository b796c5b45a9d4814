package c07

import (
	"testing"

	"github.com/buypal/oapi-go/verifharness/kit"
	"github.com/buypal/oapi-go/verifharness/model"
	"pgregory.net/rapid"
)

// Export comments publish exactly the named type under the named component.

func gen(t *rapid.T) model.Case {
	return model.All(t, model.Opt{Time: true, Pkgs: 4, Decls: 4, Fields: 4, Named: 50, Paths: 25, Embed: 10, Twins: 20, Tags: 20, Exports: 60, PathExp: true, Wide: true})
}

func genBad(t *rapid.T) model.Case {
	g := model.New(t, model.Opt{Pkgs: 3, Decls: 4, Fields: 3, Named: 50, Paths: 15, Embed: 10, Exports: 60, PathExp: true})
	g.Exports()
	g.BadExport()
	g.Documents()
	return g.Finish()
}

func TestProp(t *testing.T) {
	kit.Run(t, "C07",
		kit.P[model.Case]{
			Name:  "exports",
			Rule:  "modules of 1-4 packages with export comments in all spellings, in the package of the type and elsewhere, for types and paths into types, and references to exported and other types; the document has to be the one of the reference model; non-trivial: references reach composite types",
			Gen:   gen,
			Check: model.Check,
			Class: model.Class,
			Quick: 2400, Thorough: 40000,
		},
		kit.P[model.Case]{
			Name:  "malformed",
			Rule:  "such a module with one export comment malformed, of a source that does not exist or parse, or repeating a name or type; in a scanned package the scan has to fail; non-trivial as above or it has to fail",
			Gen:   genBad,
			Check: model.Check,
			Class: model.Class,
			Quick: 800, Thorough: 10000,
		})
}
