package c11

import (
	"testing"

	"github.com/buypal/oapi-go/verifharness/kit"
	"github.com/buypal/oapi-go/verifharness/model"
	"pgregory.net/rapid"
)

// The spec files of all imported packages are merged, each exactly once.

func gen(t *rapid.T) model.Case {
	g := model.New(t, model.Opt{Pkgs: 6, Decls: 2, Fields: 2, Named: 30, Docs: 3, Decoys: true, Wide: true, Apart: true})
	g.C.Scan = rapid.SampledFrom([]int{0, 0, 0, 1, 2}).Draw(t, "scan")
	if g.C.Scan >= len(g.C.Pkgs) {
		g.C.Scan = 0
	}
	g.Documents()
	g.Repeat()
	return g.Finish()
}

func genBad(t *rapid.T) model.Case {
	g := model.New(t, model.Opt{Pkgs: 5, Decls: 2, Fields: 2, Named: 30, Docs: 2, Decoys: true, Apart: true})
	g.Documents()
	g.Contradict()
	return g.Finish()
}

func TestProp(t *testing.T) {
	kit.Run(t, "C11",
		kit.P[model.Case]{
			Name:  "union",
			Rule:  "modules of 1-6 packages, some not imported, with up to 3 documents each, decoys, and values stated again by other documents; the document has to be the union the reference model computes; non-trivial: references reach composite types",
			Gen:   gen,
			Check: model.Check,
			Class: model.Class,
			Quick: 2400, Thorough: 40000,
		},
		kit.P[model.Case]{
			Name:  "contradictions",
			Rule:  "such a module where one value of one document is stated differently by another; if both are scanned the scan has to fail; non-trivial as above or it has to fail",
			Gen:   genBad,
			Check: model.Check,
			Class: model.Class,
			Quick: 800, Thorough: 10000,
		})
}
