package c23

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"

	"github.com/buypal/oapi-go/internal/container"
	"github.com/buypal/oapi-go/verifharness/kit"
	"pgregory.net/rapid"
)

type obj = map[string]interface{}

type file struct {
	Name    string
	Doc     obj
	As      string // yaml, json, jsonpretty, badyaml, badjson, list, scalar
	Style   uint64
	Garbage string
}

func (f file) bytes() []byte {
	switch f.As {
	case "yaml":
		return kit.YAML(f.Doc, f.Style)
	case "json":
		b, _ := json.Marshal(f.Doc)
		return b
	case "jsonpretty":
		b, _ := json.MarshalIndent(f.Doc, "", "\t")
		return b
	}
	return []byte(f.Garbage)
}

// readable says whether the content decodes under the name's extension; sure is false where unspecified.
func (f file) readable() (good, sure bool) {
	switch filepath.Ext(f.Name) {
	case ".yaml", ".yml":
		// JSON text is YAML except for tabs and a few escapes
		if f.As == "json" {
			for _, b := range f.bytes() {
				if b < 0x20 || b > 0x7e {
					return false, false
				}
			}
		}
		return f.As == "yaml" || f.As == "json", f.As != "jsonpretty"
	case ".json":
		switch f.As {
		case "json", "jsonpretty":
			return true, true
		case "yaml":
			return false, !json.Valid(f.bytes())
		}
		return false, true
	}
	return false, true
}

var (
	badJSON = []string{"", "{", "[]", "[1]", "\"x\"", "1", "true", "{\"a\":}", "{\"a\":1", "{\"a\":1}}", "{\"a\":1} x", "{a: 1}", "{'a': 1}", "a: 1\n", "{\"a\":01}", "\x00"}
	badYAML = []string{"{", "[", "- a\n- b\n", "[1, 2]", "x", "12", "a: b: c", "a: [1", "\"a", "a: 'x", "a: &x 1\nb: *y", "\ta: 1", "a: 1\n\tb: 2", "a: 1\n b: 2\nc", "\x00", "%", "@x: 1", "a: `x`", "{a: 1} x", "{a: 1}\nb: 2\n", "a: 1\n---\nb: 2\n", "a: 1\n---\n: [\n", "---\n---\na: 1\n", "a: 1\n...\n%bad\n", "a: 1\n---\na: 1\n", "a: 1\n--- x\n"}
	stems   = []string{"oapi", "oapi", "a", "b", "A", "x.y", "oapi.yaml", "", "[a]", "a*", "a b", "é", "oapi2", "-", "a\nb", "\\", "~"}
	exts    = []string{".yaml", ".yml", ".json", ".yaml", ".yml", ".json", ".YAML", ".Json", ".txt", "", ".yamlx", ".jso", ".yaml.bak", ".json~", ".toml"}
)

func genFile(t *rapid.T) file {
	f := file{
		Name:  rapid.SampledFrom(stems).Draw(t, "stem") + rapid.SampledFrom(exts).Draw(t, "ext"),
		Doc:   kit.Doc(t, kit.DocOpt{Depth: 4, Width: 3}),
		Style: rapid.Uint64().Draw(t, "style"),
	}
	if f.Name == "" {
		f.Name = "noext"
	}
	if rapid.IntRange(0, 3).Draw(t, "repeat") == 0 {
		kit.Repeat(t, f.Doc)
	}
	e := filepath.Ext(f.Name)
	switch k := rapid.IntRange(0, 9).Draw(t, "as"); {
	case k == 0:
		f.As, f.Garbage = "bad", rapid.SampledFrom(badJSON).Draw(t, "bj")
		if e == ".yaml" || e == ".yml" {
			f.Garbage = rapid.SampledFrom(badYAML).Draw(t, "by")
		}
	case k == 1:
		f.As = "json"
	case e == ".json":
		f.As = rapid.SampledFrom([]string{"json", "json", "jsonpretty", "yaml"}).Draw(t, "jas")
	default:
		f.As = "yaml"
	}
	return f
}

func checkFile(f file) error {
	dir, err := os.MkdirTemp("", "f")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	path := filepath.Join(dir, f.Name)
	if c, err := container.ReadFile(path); err == nil {
		return fmt.Errorf("missing file %q reads as %s", f.Name, kit.JS(c.Data()))
	}
	if err := os.WriteFile(path, f.bytes(), 0o600); err != nil {
		panic(err)
	}
	return f.check(container.ReadFile(path))
}

func (f file) check(c container.Container, err error) error {
	good, sure := f.readable()
	if !sure {
		return nil
	}
	if good != (err == nil) {
		return fmt.Errorf("file %q with content %q: error %v", f.Name, f.bytes(), err)
	}
	if err != nil {
		return nil
	}
	if filepath.Base(c.FilePath()) != f.Name {
		return fmt.Errorf("file %q has path %q", f.Name, c.FilePath())
	}
	return f.same(c)
}

func (f file) same(c container.Container) error {
	if bad := nonString(c.Data()); bad != "" {
		return fmt.Errorf("file %q with content %q: %s", f.Name, f.bytes(), bad)
	}
	if d := kit.Diff(kit.Norm(f.Doc), kit.Norm(c.Data())); d != "" {
		return fmt.Errorf("file %q with content %q: %s", f.Name, f.bytes(), d)
	}
	return nil
}

func nonString(v interface{}) string {
	switch x := v.(type) {
	case obj:
		for _, e := range x {
			if s := nonString(e); s != "" {
				return s
			}
		}
	case []interface{}:
		for _, e := range x {
			if s := nonString(e); s != "" {
				return s
			}
		}
	case map[interface{}]interface{}:
		return fmt.Sprintf("holds %#v", x)
	}
	return ""
}

// ---- directories ----

type dirCase struct {
	Dir      string
	Files    []file
	Patterns []string
	Sub      []string // a directory beside them with files that do not count
	Perm     []int
	More     []file // in other directories
}

var dirNames = []string{"d", "[d]", "[", "d*", "d?", "{a,b}", "a b", "\\d", "[a-", "é", "d.yaml", "*", "[^x]", "-", "$HOME", "%s", "~"}

func genDir(t *rapid.T) dirCase {
	c := dirCase{Dir: rapid.SampledFrom(dirNames).Draw(t, "dir")}
	n := rapid.IntRange(0, 5).Draw(t, "n")
	many := kit.Rare(t, 3)
	if many {
		n = rapid.IntRange(12, 40).Draw(t, "many")
	}
	seen := map[string]bool{}
	for i := 0; i < n; i++ {
		f := genFile(t)
		if many {
			f.Name = fmt.Sprint("f", i*7%n, filepath.Ext(f.Name))
		}
		if f.As == "bad" && rapid.IntRange(0, 2).Draw(t, "keepbad") > 0 {
			f.As = "json"
		}
		if seen[f.Name] {
			continue
		}
		seen[f.Name] = true
		c.Files = append(c.Files, f)
	}
	c.Patterns = rapid.SampledFrom([][]string{nil, nil, {"oapi.yaml", "oapi.yml", "oapi.json"}, {"*.yaml"}, {"*.json"}, {"*.yaml", "*.json"}, {"*.yaml", "oapi.yaml"}, {"oapi.*"}, {"oapi*.yaml", "*.yaml", "oapi.yaml"}, {"*"}, {"nothing.yaml"}, {"a.*", "b.*"}, {"*.y*ml"}}).Draw(t, "patterns")
	if rapid.IntRange(0, 3).Draw(t, "sub") == 0 {
		c.Sub = []string{"sub/oapi.yaml", "sub/x.json"}
	}
	if rapid.IntRange(0, 2).Draw(t, "more") == 0 {
		for n := rapid.IntRange(1, 3).Draw(t, "files elsewhere"); n > 0; n-- {
			c.More = append(c.More, genFile(t))
		}
	}
	c.Perm = rapid.Permutation(order(len(c.Files))).Draw(t, "perm")
	return c
}

func order(n int) (l []int) {
	for i := 0; i < n; i++ {
		l = append(l, i)
	}
	return
}

// star matches text against a pattern whose only special character is '*'.
func star(p, s string) bool {
	if p == "" {
		return s == ""
	}
	if p[0] == '*' {
		for i := 0; i <= len(s); i++ {
			if star(p[1:], s[i:]) {
				return true
			}
		}
		return false
	}
	return s != "" && p[0] == s[0] && star(p[1:], s[1:])
}

func (c dirCase) matching() (m []file) {
	ps := c.Patterns
	if len(ps) == 0 {
		ps = []string{"*.yaml", "*.yml", "*.json"}
	}
	for _, f := range c.Files {
		for _, p := range ps {
			if star(p, f.Name) {
				m = append(m, f)
				break
			}
		}
	}
	return
}

func checkDir(c dirCase) error {
	top, err := os.MkdirTemp("", "d")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(top)
	dir := filepath.Join(top, c.Dir)
	write := func(name string, b []byte) {
		p := filepath.Join(dir, name)
		if err := os.MkdirAll(filepath.Dir(p), 0o700); err != nil {
			panic(err)
		}
		if err := os.WriteFile(p, b, 0o600); err != nil {
			panic(err)
		}
	}
	os.MkdirAll(dir, 0o700)
	// neighbours an unescaped directory name could match instead
	for _, n := range []string{"d", "a", "b", "dx"} {
		if n != c.Dir {
			os.MkdirAll(filepath.Join(top, n), 0o700)
			os.WriteFile(filepath.Join(top, n, "oapi.yaml"), []byte("neighbour: true\n"), 0o600)
		}
	}
	for _, f := range c.Files {
		write(f.Name, f.bytes())
	}
	for _, s := range c.Sub {
		if !strings.Contains(strings.Join(c.Patterns, ","), "*") || len(c.Patterns) == 0 || c.Patterns[0] != "*" {
			write(s, []byte(`{"sub":true}`))
		}
	}
	want := map[string]file{}
	wantErr := false
	for _, f := range c.matching() {
		good, sure := f.readable()
		if !sure {
			return nil
		}
		wantErr = wantErr || !good
		want[f.Name] = f
	}
	cc, err := container.ReadDir(dir, c.Patterns...)
	if (err != nil) != wantErr {
		return fmt.Errorf("ReadDir(%q, %q): error %v, want one: %v", c.Dir, c.Patterns, err, wantErr)
	}
	if err != nil {
		return nil
	}
	var names []string
	seen := map[string]bool{}
	for _, x := range cc {
		n := filepath.Base(x.FilePath())
		names = append(names, n)
		f, ok := want[n]
		if !ok || seen[n] || filepath.Clean(x.FilePath()) != filepath.Join(dir, n) {
			return fmt.Errorf("ReadDir(%q, %q) returns %q, want the files %q", c.Dir, c.Patterns, x.FilePath(), keys(want))
		}
		seen[n] = true
		if err := f.same(x); err != nil {
			return err
		}
	}
	if len(seen) != len(want) {
		return fmt.Errorf("ReadDir(%q, %q) returns %q, want the files %q", c.Dir, c.Patterns, names, keys(want))
	}
	// sorting, from another order, with duplicates
	var in container.Containers
	for _, i := range c.Perm {
		if i < len(cc) {
			in = append(in, cc[i])
			if i == 0 {
				in = append(in, cc[i])
			}
		}
	}
	all := map[string]file{}
	for n, f := range want {
		all[filepath.Join(dir, n)] = f
	}
	for i, f := range c.More { // from other directories
		n := filepath.Join(top, "x", f.Name)
		if i%2 == 1 {
			n = filepath.Join(dir, "x", f.Name)
		}
		if good, sure := f.readable(); !good || !sure {
			continue
		}
		if err := os.MkdirAll(filepath.Dir(n), 0o700); err != nil {
			panic(err)
		}
		if err := os.WriteFile(n, f.bytes(), 0o600); err != nil {
			panic(err)
		}
		if _, ok := all[n]; ok {
			continue
		}
		x, err := container.ReadFile(n)
		if err != nil {
			return fmt.Errorf("ReadFile(%q): %v", n, err)
		}
		in, all[n] = append(in, x), f
	}
	var before, after, sorted []string
	for _, x := range in {
		before = append(before, x.FilePath())
	}
	out := in.Sort()
	for _, x := range in {
		after = append(after, x.FilePath())
	}
	for _, x := range out {
		sorted = append(sorted, x.FilePath())
		if err := all[filepath.Clean(x.FilePath())].same(x); err != nil {
			return fmt.Errorf("after sorting: %v", err)
		}
	}
	if fmt.Sprint(before) != fmt.Sprint(after) {
		return fmt.Errorf("sorting changed the list from %q to %q", before, after)
	}
	sort.Strings(before)
	if fmt.Sprint(before) != fmt.Sprint(sorted) {
		return fmt.Errorf("sorted %q, want %q", sorted, before)
	}
	return nil
}

func keys(m map[string]file) (ks []string) {
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return
}

func TestProp(t *testing.T) {
	kit.Run(t, "C23",
		kit.P[file]{Name: "file", Gen: genFile, Check: checkFile, Quick: 60000, Thorough: 1500000,
			Rule: "one file with generated name, extension, content and format; non-trivial: readable with nested content, or an error is due",
			Class: func(f file) (i kit.Info) {
				g, s := f.readable()
				i.Nontrivial = s && (!g || kit.Depth(f.Doc) >= 2)
				i.Label(g && s, "readable "+filepath.Ext(f.Name))
				i.Label(!g && s, "error due")
				return
			}},
		kit.P[dirCase]{Name: "dir", Gen: genDir, Check: checkDir, Quick: 30000, Thorough: 800000,
			Rule: "a directory with 0-5 files and patterns; non-trivial: at least one file matches",
			Class: func(c dirCase) (i kit.Info) {
				m := c.matching()
				i.Nontrivial = len(m) > 0
				i.Label(len(m) > 1, "several match")
				i.Label(len(m) < len(c.Files), "some do not match")
				i.Label(strings.ContainsAny(c.Dir, "[*?\\{"), "metacharacters in directory")
				return
			}})
}
