package c18

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"testing"

	"github.com/buypal/oapi-go/internal/oapi/config"
	"github.com/buypal/oapi-go/verifharness/kit"
	"github.com/buypal/oapi-go/verifharness/model"
	"pgregory.net/rapid"
)

// Configuration files load the same from YAML and JSON, with extension.

type obj = map[string]interface{}

type file struct {
	Path  string // relative to the scratch directory
	Body  obj
	Style uint64
	Raw   *string // literal content instead
	Ext   string  // how the extended file is given: "" (not), "rel", "abs", or literally
}

type tc struct {
	Files []file // each extends the next one, as far as Ext says
	Fail  string // what is wrong, "" for nothing
}

// settings of one file
func settings(t *rapid.T, side string) obj {
	p := func(percent int) bool { return rapid.IntRange(0, 99).Draw(t, "p") >= 100-percent }
	m := obj{}
	for _, k := range []string{"version", "openapi", "format", "dir", "output"} {
		if p(35) {
			m[k] = side + rapid.SampledFrom([]string{k, "", "true", "1.0", "~", "a: b", "é", "a/../b", " x "}).Draw(t, k)
		}
	}
	if p(20) {
		m["exclude"] = rapid.SampledFrom([]interface{}{[]interface{}{side}, []interface{}{"a", side}}).Draw(t, "exclude")
	}
	for _, k := range []string{"info", "components", "externalDocs", "security", "servers", "tags"} {
		if p(30) {
			m[k] = model.Section(t, k, side)
		}
	}
	if p(35) {
		m["overrides"] = obj{}
		for n := rapid.IntRange(1, 3).Draw(t, "n"); n > 0; n-- {
			m["overrides"].(obj)[rapid.SampledFrom([]string{"go://ex.org/m#/A", "go://ex.org/m#/A/B", "go://b.c/d#/X", "x.y", "~", "*"}).Draw(t, "pointer")] =
				rapid.SampledFrom([]interface{}{obj{"type": "string", "title": side}, obj{"$ref": "go://ex.org/" + side + "#/X"}, obj{"properties": obj{"a.b": obj{"title": side}, side: obj{"type": "integer", "minimum": 0.5}}}}).Draw(t, "over")
		}
	}
	if p(35) {
		m["operations"] = obj{}
		for n := rapid.IntRange(1, 3).Draw(t, "n"); n > 0; n-- {
			m["operations"].(obj)[rapid.SampledFrom([]string{"*", "GET:/a/{id}", "/v1/a.b", "/a~b", "/v1/*"}).Draw(t, "pattern")] =
				rapid.SampledFrom([]interface{}{obj{"summary": side}, obj{"tags": []interface{}{side}, "deprecated": true}, obj{"responses": obj{"200": obj{"description": side, "content": obj{"a/b": obj{"schema": obj{"type": "string"}}}}}},
					obj{"responses": obj{side: obj{"description": "d", "content": obj{}}}, "description": side}}).Draw(t, "op")
		}
	}
	return m
}

var dirs = []string{"", "sub", "sub/deep", "other dir", "x.y", "~", "~a", "Sub", "$HOME"}

func gen(t *rapid.T) (c tc) {
	n := rapid.SampledFrom([]int{1, 1, 2, 2, 2, 3, 4}).Draw(t, "files")
	fold := rapid.IntRange(0, 4).Draw(t, "fold") == 0
	for i := 0; i < n; i++ {
		stem := fmt.Sprintf("c%d", i)
		if i > 0 && fold {
			stem = rapid.SampledFrom([]string{"C0", "~c", "c0 ", "é", "C0.x", "%s"}).Draw(t, "stem") + strings.Repeat("_", i-1)
		}
		name := fmt.Sprintf("%s%s", stem, rapid.SampledFrom([]string{".json", ".yaml", ".yml"}).Draw(t, "ext"))
		f := file{Path: filepath.Join(rapid.SampledFrom(dirs).Draw(t, "dir"), name), Body: settings(t, fmt.Sprintf("s%d", i)), Style: rapid.Uint64().Draw(t, "style")}
		if i < n-1 {
			f.Ext = rapid.SampledFrom([]string{"rel", "rel", "abs"}).Draw(t, "how")
		}
		if i > 1 && fold && rapid.Bool().Draw(t, "twin") { // as the one before, but in the other case
			last := c.Files[i-1].Path
			ext := filepath.Ext(last)
			stem := strings.TrimSuffix(filepath.Base(last), ext)
			if up := strings.ToUpper(stem); up != stem {
				f.Path = filepath.Join(filepath.Dir(last), up+ext)
			}
		}
		c.Files = append(c.Files, f)
	}
	return
}

var broken = map[string][]string{
	".json": {"{", "{\"info\": }", "[]", "[{}]", "\"x\"", "5", "true", "{} {}", "{\"a\":1,}", "info: {}"},
	".yaml": {"a: b: c", "- x", "a: [1", "{", "\tx: 1", "x", "5", "a: 'x", "*a", "a: &b {c: *d}", "%bad\n---\n", "{format: json} x", "format: json\n---\nformat: go\n", "dir: .\n---\n- [\n"},
}

var wrong = []obj{
	{"info": "x"}, {"info": []interface{}{}}, {"info": 5.}, {"info": obj{"title": 5.}}, {"info": obj{"contact": "me"}}, {"servers": obj{}}, {"servers": "x"}, {"servers": []interface{}{"x"}},
	{"servers": []interface{}{obj{"url": true}}}, {"security": obj{}}, {"security": []interface{}{"x"}}, {"security": []interface{}{obj{"a": "b"}}}, {"tags": "x"}, {"tags": []interface{}{"x"}}, {"tags": []interface{}{obj{"name": obj{}}}},
	{"externalDocs": []interface{}{}}, {"externalDocs": "u"}, {"components": []interface{}{}}, {"components": obj{"schemas": []interface{}{}}}, {"components": obj{"schemas": obj{"A": "x"}}},
	{"overrides": []interface{}{}}, {"overrides": "x"}, {"overrides": obj{"go://a#/A": "x"}}, {"overrides": obj{"go://a#/A": []interface{}{}}}, {"overrides": obj{"go://a#/A": obj{"type": 5.}}}, {"overrides": obj{"go://a#/A": obj{"properties": []interface{}{}}}},
	{"operations": []interface{}{}}, {"operations": obj{"*": "x"}}, {"operations": obj{"*": obj{"summary": obj{}}}}, {"operations": obj{"*": obj{"tags": "x"}}}, {"operations": obj{"*": obj{"responses": "x"}}},
	{"format": 5.}, {"format": []interface{}{"json"}}, {"dir": true}, {"dir": obj{}}, {"output": 1.5}, {"version": 1.}, {"openapi": 3.}, {"openapi": obj{}}, {"exclude": "x"}, {"exclude": []interface{}{5.}},
	{"extends": 5.}, {"extends": []interface{}{"c1.json"}}, {"extends": obj{}}, {"extends": true},
}

func genBad(t *rapid.T) (c tc) {
	c = gen(t)
	i := rapid.IntRange(0, len(c.Files)-1).Draw(t, "which")
	f := &c.Files[i]
	c.Fail = rapid.SampledFrom([]string{"syntax", "syntax", "type", "type", "type", "missing", "extension", "directory", "cycle"}).Draw(t, "fail")
	switch c.Fail {
	case "syntax":
		ext := filepath.Ext(f.Path)
		if ext == ".yml" {
			ext = ".yaml"
		}
		s := rapid.SampledFrom(broken[ext]).Draw(t, "content")
		f.Raw = &s
	case "type":
		for k, v := range rapid.SampledFrom(wrong).Draw(t, "setting") {
			f.Body[k] = v
			if k == "extends" {
				f.Ext = ""
				c.Files = c.Files[:i+1]
			}
			for j := 0; j < i; j++ {
				delete(c.Files[j].Body, k) // else it is not used
			}
		}
	case "missing":
		c.Files[len(c.Files)-1].Ext = rapid.SampledFrom([]string{"none.yaml", "/nonexistent/x.json", "../none.json", "none/none.yml", "sub"}).Draw(t, "path")
	case "extension":
		c.Files[len(c.Files)-1].Ext = rapid.SampledFrom([]string{"conf.txt", "conf", "conf.YAML", "conf.json.bak"}).Draw(t, "path")
	case "directory":
		c.Files[len(c.Files)-1].Ext = rapid.SampledFrom([]string{".", "..", "dir.yaml", ""}).Draw(t, "path")
		if c.Files[len(c.Files)-1].Ext == "" {
			c.Files[len(c.Files)-1].Ext = "./"
		}
	case "cycle":
		c.Files[len(c.Files)-1].Ext = fmt.Sprintf("cycle%d", i)
	}
	return
}

// write puts the files to a directory, and gives the complete content of each.
func write(c tc, dir string) (paths []string, bodies []obj) {
	abs := func(i int) string { return filepath.Join(dir, c.Files[i].Path) }
	for i, f := range c.Files {
		body := kit.Copy(f.Body).(obj)
		home := filepath.Dir(abs(i))
		rel := func(j int) string {
			r, err := filepath.Rel(home, abs(j))
			if err != nil {
				panic(err)
			}
			return r
		}
		var cyc int
		switch {
		case f.Ext == "":
		case f.Ext == "rel":
			body["extends"] = rel(i + 1)
		case f.Ext == "abs":
			body["extends"] = abs(i + 1)
		default:
			body["extends"] = f.Ext
			if n, _ := fmt.Sscanf(f.Ext, "cycle%d", &cyc); n == 1 {
				body["extends"] = rel(cyc)
			}
		}
		text := ""
		switch {
		case f.Raw != nil:
			text = *f.Raw
		case strings.HasSuffix(f.Path, ".json"):
			text = kit.JSONText(body)
		default:
			text = string(kit.YAML(body, f.Style))
		}
		for _, d := range []string{home, filepath.Join(home, "dir.yaml")} {
			if err := os.MkdirAll(d, 0o755); err != nil {
				panic(err)
			}
		}
		for _, x := range []string{"conf.txt", "conf", "conf.YAML", "conf.json.bak"} {
			if err := os.WriteFile(filepath.Join(home, x), []byte("{}"), 0o644); err != nil {
				panic(err)
			}
		}
		if err := os.WriteFile(abs(i), []byte(text), 0o644); err != nil {
			panic(err)
		}
		paths = append(paths, abs(i))
		bodies = append(bodies, body)
	}
	return
}

func check(c tc) error {
	dir, err := os.MkdirTemp("", "conf")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	paths, bodies := write(c, dir)
	got, err := config.ReadFile(paths[0])
	say := func(format string, args ...interface{}) error {
		s := fmt.Sprintf(format, args...)
		for i, p := range paths {
			b, _ := os.ReadFile(p)
			s += fmt.Sprintf("\n--- %s (extends %q)\n%s", strings.TrimPrefix(p, dir), bodies[i]["extends"], b)
		}
		return fmt.Errorf("%s", s)
	}
	if c.Fail != "" {
		if err == nil {
			b, _ := json.Marshal(got)
			return say("a configuration with a fault (%s) is read as %s", c.Fail, b)
		}
		return nil
	}
	if err != nil {
		return say("fails: %v", err)
	}
	want := bodies[len(bodies)-1]
	for i := len(bodies) - 2; i >= 0; i-- {
		want, _ = kit.Union(bodies[i], want, func(a, b interface{}) (interface{}, error) { return a, nil })
	}
	if err := agrees(got, want); err != nil {
		return say("%v", err)
	}
	if got.FilePath != paths[0] {
		return say("path is %q", got.FilePath)
	}
	// the content alone, and in both languages
	if len(c.Files) == 1 {
		a, err := config.ReadJSON([]byte(kit.JSONText(want)))
		if err != nil {
			return say("ReadJSON: %v", err)
		}
		b, err := config.ReadYAML(kit.YAML(want, c.Files[0].Style))
		if err != nil {
			return say("ReadYAML: %v", err)
		}
		for _, x := range []config.Config{a, b} {
			if err := agrees(x, want); err != nil {
				return say("without a file: %v", err)
			}
		}
	}
	// extended files have not been changed
	for i, f := range c.Files {
		b, err := os.ReadFile(paths[i])
		if err != nil || strings.HasSuffix(f.Path, ".json") && string(b) != kit.JSONText(bodies[i]) {
			return say("file %s was changed", paths[i])
		}
	}
	return nil
}

// agrees compares a configuration with what was written.
func agrees(got config.Config, want obj) error {
	str := map[string]string{"extends": got.ExtendsPath, "version": got.Version, "openapi": got.OpenAPI, "format": got.Format, "dir": got.Dir, "output": got.Output}
	for k, s := range str {
		w, _ := want[k].(string)
		if w != s {
			return fmt.Errorf("%s is %q, want %q", k, s, w)
		}
	}
	for k, v := range map[string]interface{}{"exclude": got.Exclude, "info": got.Info, "servers": got.Servers, "security": got.Security, "tags": got.Tags, "externalDocs": got.ExternalDocs,
		"components": got.Components, "overrides": got.Overrides, "operations": got.Operations} {
		b, err := json.Marshal(v)
		if err != nil {
			return err
		}
		var g interface{}
		if err := json.Unmarshal(b, &g); err != nil {
			return err
		}
		w, has := want[k]
		if !has {
			w = nil
		}
		ww, gg := obj{k: w}, obj{k: g}
		if d := model.Same(model.Titled(ww, gg), gg); d != "" {
			return fmt.Errorf("%s\nis %s, want %s", d, b, kit.JS(w))
		}
	}
	return nil
}

func class(c tc) (i kit.Info) {
	n := 0
	kinds := map[string]bool{}
	for _, f := range c.Files {
		n += len(f.Body)
		kinds[filepath.Ext(f.Path)] = true
		i.Label(f.Ext == "abs", "absolute path")
	}
	i.Label(len(kinds) > 1, "mixed formats")
	i.Label(len(c.Files) > 1, "extends")
	i.Label(len(c.Files) > 2, "chain")
	i.Label(c.Fail != "", c.Fail)
	i.Nontrivial = n > 1 || c.Fail != ""
	return
}

func TestProp(t *testing.T) {
	kit.Run(t, "C18",
		kit.P[tc]{
			Name:  "settings",
			Rule:  "chains of 1-4 configuration files in YAML (several spellings) and JSON, in different directories, extending each other by relative and absolute paths; the settings have to be the deep union; non-trivial: more than one setting",
			Gen:   gen,
			Check: check,
			Class: class,
			Quick: 30000, Thorough: 800000,
		},
		kit.P[tc]{
			Name:  "faults",
			Rule:  "such a chain with one fault: bad syntax, a setting of the wrong type, an extended file that is missing, of unknown extension, a directory or extends itself; reading has to fail; every case is non-trivial",
			Gen:   genBad,
			Check: check,
			Class: class,
			Quick: 20000, Thorough: 400000,
		})
}
