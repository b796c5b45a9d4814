package c08

import (
	"testing"

	"github.com/buypal/oapi-go/verifharness/kit"
	"github.com/buypal/oapi-go/verifharness/model"
	"pgregory.net/rapid"
)

// Overrides replace exactly the overridden pointers, wherever they occur.

func gen(t *rapid.T) model.Case {
	return model.All(t, model.Opt{Time: true, Pkgs: 3, Decls: 4, Fields: 4, Named: 55, Paths: 25, Embed: 10, Twins: 25, Tags: 15, Overrides: 4, Wide: true,
		Exports: rapid.SampledFrom([]int{0, 0, 40}).Draw(t, "exports")})
}

func TestProp(t *testing.T) {
	kit.Run(t, "C08",
		kit.P[model.Case]{
			Name:  "overrides",
			Rule:  "modules with up to 4 overrides of types and paths into types by schemas and references, which may refer to each other and to exported types; the document has to be the one of the reference model; non-trivial: references reach composite types",
			Gen:   gen,
			Check: model.Check,
			Class: model.Class,
			Quick: 2800, Thorough: 45000,
		})
}
