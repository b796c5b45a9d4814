package c21

import (
	"context"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"testing"
	"time"

	"github.com/buypal/oapi-go"
	"github.com/buypal/oapi-go/verifharness/kit"
	"github.com/buypal/oapi-go/verifharness/model"
	"pgregory.net/rapid"
)

// Invalid inputs are reported as errors, and valid scans succeed.

type obj = map[string]interface{}

func opt(t *rapid.T) model.Opt {
	return model.Opt{Pkgs: 4, Decls: 4, Fields: 4, Named: 45, Twins: 15, Embed: 15, Tags: 40, Paths: 25, Docs: 2, Decoys: true, Wide: true, Overrides: 2, Root: true, Defaults: true, Hidden: true, PathExp: true,
		Exports: rapid.SampledFrom([]int{0, 30, 60}).Draw(t, "exports")}
}

var code = []string{
	"\nfunc x1() int { return \"\" }\n", "\nvar y1 = undefined\n", "\nfunc {\n", "\nvar z1 int = \"s\"\n", "\ntype T9 struct { A Missing }\n", "\ntype T9 T9\n", "\ntype ( T9 struct{ T9 } )\n",
	"\nfunc x1() { var unused int }\n", "\nfunc x1() {}\nfunc x1() {}\n", "\n}\n", "\nconst c1 int = 1.5\n", "\nvar f1 = func() { return 1 }\n", "\n\"string\"\n", "\nimport \"late\"\n",
}

// whole files after "package NAME"
var files = []string{
	"\n\nimport \"unsafe\"\n", "\n\nimport x1 \"unsafe\"\n", "\n\nimport \"errors\"\n\nimport \"errors\"\n", "x\n", "\n\nfunc x1() {\n\tl: ;\n}\n", "\n\nfunc x1() int {\n}\n", "\n\nfunc x1() {\n\tbreak\n}\n",
	"\n\ntype I9 interface {\n\tI9\n}\n", "\n\ntype T9 int\n\nfunc (T9) A() {}\nfunc (T9) A() {}\n", "\n\nfunc (Nothing) A() {}\n", "\n\nimport . \"unsafe\"\n", "\n\nvar a1 = b1\nvar b1 = a1\n", "\n\nfunc init() int { return 1 }\n",
	"\n\nvar x1 [2]int = [3]int{}\n", "\n\nvar x1 = map[[]int]int{}\n", "\n\nvar _ = 1 / 0\n", "\n\nvar x1, x2 = 1\n", "\n\nvar s1 = struct{ A int }{B: 1}\n", "\n\n/* not closed\n", "\n\nvar c1 = 'ab'\n", "\n\nvar u1 uint8 = 256\n",
}

var docs = map[string][]string{
	"oapi.yaml": {"openapi: 3.0.0\n  bad: [", "openapi: '3.0.0", "a: b: c", "openapi: x\n\tpaths: {}", "{", "openapi: *none", "- openapi: x\n -y", "openapi: \"\\q\"", "{openapi: 3.0.0} x", "openapi: 3.0.0\n---\nx-a: 1\n", "openapi: 3.0.0\n---\n: [\n", "{openapi: 3.0.0}\npaths: {}\n"},
	"oapi.yml":  {"openapi: 3.0.0\n  bad: [", "openapi: '3.0.0", "a: b: c"},
	"oapi.json": {"{", "{\"openapi\": \"3.0.0\",}", "{\"openapi\": }", "{\"openapi\": \"3.0.0\"}}", "openapi: 3.0.0", "{'openapi': 1}", "{\"a\": \"\x01\"}", "nul"},
}

var refs = []string{
	"go://%zz#/A", "go://ex.org/m#A", "go://ex.org/m#A/B", "://x#/A", "go://[x#/A", "go:// #/A", "\x7f://x#/A", "%zz", "go://ex.org/m%#/A", "#A",
	"file://x.yaml#/A", "http://ex.org/s.json#/A", "https://ex.org/s.json", "ftp://a#/b", "Go2://ex.org/m#/Item", "goo://ex.org/m#/Item", "g://ex.org/m#/Item", "x-y://ex.org/m#/Item",
	"go://ex.org/m#/", "go://ex.org/m#", "go://ex.org/m", "go://#/", "go://#", "go://", "go:///Item", "go://ex.org/m#//Item", "go://Item", "go://ex.org#/m/Item", "go://ex.org/m#/Nothing", "go://ex.org/none#/Item", "go://fmt#/Stringer", "go://time#/Time/wall", "go://time#/Tim",
}

func genFault(t *rapid.T) (c model.Case) {
	c = model.All(t, opt(t))
	reach := c.Reachable()
	n := func(lo, hi int) int { return rapid.IntRange(lo, hi).Draw(t, "n") }
	at := n(0, len(c.Pkgs)-1)
	if !reach[at] && n(0, 9) > 0 {
		at = c.Scan
	}
	p := &c.Pkgs[at]
	switch kind := n(0, 11); {
	case kind >= 10:
		p.File = "package " + c.PackageName(at) + rapid.SampledFrom(files).Draw(t, "more code")
		if reach[at] {
			c.Fail = "code"
		}
	case kind <= 1:
		p.Extra = rapid.SampledFrom(code).Draw(t, "code")
		if reach[at] {
			c.Fail = "code"
		}
	case kind <= 3:
		f := rapid.SampledFrom([]string{"oapi.yaml", "oapi.yml", "oapi.json"}).Draw(t, "file")
		d := model.DocFile{Name: f, Raw: rapid.SampledFrom(docs[f]).Draw(t, "raw")}
		for i := range p.Docs {
			if p.Docs[i].Name == f {
				p.Docs = append(p.Docs[:i:i], p.Docs[i+1:]...)
				break
			}
		}
		p.Docs = append(p.Docs, d)
	default:
		r := obj{"$ref": rapid.SampledFrom(refs).Draw(t, "ref")}
		var v interface{} = r
		for k := n(0, 3); k > 0; k-- {
			v = rapid.SampledFrom([]interface{}{[]interface{}{"x", v}, obj{"a.b": v}, obj{"$ref": v}, obj{"": v, "x": 1.}}).Draw(t, "around")
		}
		if n(0, 2) > 0 {
			for i := range p.Docs {
				if d, ok := p.Docs[i].Doc.(obj); ok {
					d["x-fault"] = v
				}
			}
			break
		}
		if c.Conf == nil {
			c.Conf = obj{}
		}
		switch n(0, 2) {
		case 0:
			comps, _ := c.Conf["components"].(obj)
			if comps == nil {
				comps = obj{}
				c.Conf["components"] = comps
			}
			sch, _ := comps["schemas"].(obj)
			if sch == nil {
				sch = obj{}
				comps["schemas"] = sch
			}
			sch["Fault"] = rapid.SampledFrom([]interface{}{r, obj{"type": "array", "items": r}, obj{"allOf": []interface{}{obj{"properties": obj{"x.y": r}}}}}).Draw(t, "schema")
		case 1:
			ov, _ := c.Conf["overrides"].(obj)
			if ov == nil {
				ov = obj{}
				c.Conf["overrides"] = ov
			}
			ov[r["$ref"].(string)] = obj{"type": "string"}
		default:
			c.Conf["operations"] = obj{"*": obj{"responses": obj{"599": obj{"description": "fault", "content": obj{"a/b": obj{"schema": r}}}}}}
		}
	}
	return
}

// checkFault: where the model fails the scan has to, else it was no fault.
func checkFault(c model.Case) error {
	if !fails(c) {
		return nil
	}
	return model.Check(c)
}

func fails(c model.Case) bool {
	_, err := c.Expect()
	return err != nil && err != model.ErrUnspecified
}

// ---- directory and context ----

type around struct {
	C     model.Case
	Kind  string
	After int // microseconds
	At    int // the package
}

func genAround(t *rapid.T) (a around) {
	a.C = model.All(t, model.Opt{Pkgs: 3, Decls: 3, Fields: 3, Exports: 20, Paths: 10})
	a.Kind = rapid.SampledFrom([]string{"no directory", "file", "no code", "cancelled", "deadline", "later", "later", "tests only", "wrong module", "only ignored code", "missing import", "import cycle", "two packages", "foreign internal", "imported program", "directory as document", "dangling document", "broken package imported", "import of no package"}).Draw(t, "kind")
	reach := a.C.Reachable()
	a.At = rapid.IntRange(0, len(a.C.Pkgs)-1).Draw(t, "at")
	if !reach[a.At] {
		a.At = a.C.Scan
	}
	a.After = rapid.IntRange(0, 60000).Draw(t, "after")
	return
}

func checkAround(a around) error {
	dir, err := a.C.Write()
	defer os.RemoveAll(dir)
	if err != nil {
		panic(err)
	}
	target := a.C.ScanDir(dir)
	ctx := context.Background()
	mayPass, free := false, "oapi.json"
	put := func(name, s string) {
		p := filepath.Join(dir, name)
		os.MkdirAll(filepath.Dir(p), 0o755)
		if err := os.WriteFile(p, []byte(s), 0o644); err != nil {
			panic(err)
		}
	}
	pkg, path := a.C.PackageName(a.At), a.C.Pkgs[a.At].ImportPath()
	here := a.C.Real(a.C.Pkgs[a.At].Path)
	for _, n := range []string{"oapi.yaml", "oapi.yml"} {
		if _, err := os.Lstat(filepath.Join(dir, here, n)); err != nil {
			free = n
			break
		}
	}
	code := func(imports string) {
		put(filepath.Join(here, "zz.go"), a.C.Real("package "+pkg+"\n\nimport _ \""+imports+"\"\n"))
	}
	switch a.Kind {
	case "missing import":
		code([]string{model.Module + "/missing", "ex.org/elsewhere", "missing"}[a.After%3])
	case "import cycle":
		code(model.Module + "/cyc/le")
		put("cyc/le/a.go", a.C.Real("package le\n\nimport _ \""+path+"\"\n"))
	case "two packages":
		put(filepath.Join(here, "zz.go"), "package another\n")
	case "foreign internal":
		code(model.Module + "/foreign/internal/a")
		put("foreign/internal/a/a.go", "package a\n")
	case "imported program":
		code(model.Module + "/program")
		put("program/a.go", "package main\n\nfunc main() {}\n")
	case "broken package imported":
		code(model.Module + "/broken")
		put("broken/a.go", []string{"package broken\n\nvar x int = \"\"\n", "package broken\n\nfunc {\n", "package\n", ""}[a.After%4])
	case "import of no package":
		put(filepath.Join(here, "zz.go"), "package "+pkg+"\n\nimport \"missing\"\n\nvar _ missing.T\n")
	case "directory as document":
		put(filepath.Join(here, free, "x"), "openapi: 3.0.0\n")
	case "dangling document":
		if err := os.Symlink(filepath.Join(dir, "none"), filepath.Join(dir, here, free)); err != nil {
			panic(err)
		}
	case "no directory":
		target = filepath.Join(target, "none")
	case "file":
		target = filepath.Join(target, "code.go")
	case "no code":
		put("empty/oapi.yaml", "openapi: 3.0.0\n")
		target = filepath.Join(dir, "empty")
	case "tests only":
		put("empty/x_test.go", "package empty\n")
		put("empty/oapi.yaml", "openapi: 3.0.0\n")
		target = filepath.Join(dir, "empty")
		mayPass = true
	case "only ignored code":
		put("empty/x.go", "//go:build never\n// +build never\n\npackage empty\n")
		put("empty/oapi.yaml", "openapi: 3.0.0\n")
		target = filepath.Join(dir, "empty")
	case "wrong module":
		put("go.mod", "modul x\n")
	case "cancelled":
		c, cancel := context.WithCancel(ctx)
		cancel()
		ctx = c
	case "deadline":
		c, cancel := context.WithDeadline(ctx, time.Now().Add(-time.Second))
		defer cancel()
		ctx = c
	case "later":
		c, cancel := context.WithTimeout(ctx, time.Duration(a.After)*time.Microsecond)
		defer cancel()
		ctx = c
		mayPass = true
	}
	o, err := oapi.Scan(ctx, oapi.WithDir(target))
	if err != nil {
		return nil
	}
	got, err := model.Decode(o)
	if err != nil {
		return err
	}
	if !mayPass {
		return fmt.Errorf("%s: the scan has to fail but gives %s", a.Kind, kit.JS(got))
	}
	if a.Kind == "later" {
		want, err := a.C.Expect()
		if err != nil {
			return nil
		}
		if d := model.Same(want, got); d != "" {
			return fmt.Errorf("cancelled after %d microseconds the scan gives another document: %s\n%s", a.After, d, a.C.Source())
		}
	}
	return nil
}

func TestProp(t *testing.T) {
	kit.Run(t, "C21",
		kit.P[model.Case]{
			Name:  "valid",
			Rule:  "modules using everything at once: packages, tags, embedding, exports, overrides, root sections, defaults, decoys; the scan has to give the document of the reference model; non-trivial: references reach composite types",
			Gen:   func(t *rapid.T) model.Case { return model.All(t, opt(t)) },
			Check: model.Check,
			Class: model.Class,
			Quick: 1200, Thorough: 20000,
		},
		kit.P[model.Case]{
			Name:  "faults",
			Rule:  "such a module with one fault: code that does not parse or type-check, a malformed document, an unparsable, foreign or missing reference in a document or the configuration; the scan has to fail; non-trivial: the fault counts, it is in a scanned package and used",
			Gen:   genFault,
			Check: checkFault,
			Class: func(c model.Case) (i kit.Info) {
				i.Nontrivial = fails(c)
				i.Label(c.Fail != "", "code")
				i.Label(strings.Contains(kit.JS(c.Conf), "fault") || strings.Contains(kit.JS(c.Conf), "Fault"), "configuration")
				i.Label(strings.Contains(kit.JS(c.Pkgs), "x-fault"), "document")
				i.Label(strings.Contains(kit.JS(c.Pkgs), "\"r\":"), "malformed document")
				return
			},
			Quick: 1600, Thorough: 25000,
		},
		kit.P[around]{
			Name:  "surroundings",
			Rule:  "valid modules scanned in a directory that is missing, a file or has no code, with a broken go.mod, with imports that cannot be, with documents that are no files, and with contexts cancelled before or during the scan; the scan has to fail, or if cancelled during it may give the right document; every case is non-trivial",
			Gen:   genAround,
			Check: checkAround,
			Class: func(a around) (i kit.Info) {
				i.Nontrivial = true
				i.Label(true, a.Kind)
				return
			},
			Quick: 500, Thorough: 6000,
		})
}
