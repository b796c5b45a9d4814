// Package model holds generated Go programs with their spec documents and configuration, and a reference
// model of what a scan of them gives. It shares no code with the code under test.
package model

import (
	"encoding/json"
	"fmt"
	"sort"
	"strconv"
	"strings"

	"github.com/buypal/oapi-go/verifharness/kit"
)

type Obj = map[string]interface{}

// Type is a Go type expression.
type Type struct {
	K      string  `json:"k"` // basic name, named, ptr, slice, array, map, struct, time, or something without a schema
	Pkg    int     `json:"p,omitempty"`
	Name   string  `json:"n,omitempty"`
	Len    int     `json:"l,omitempty"`
	Key    string  `json:"m,omitempty"`
	Elem   *Type   `json:"e,omitempty"`
	Fields []Field `json:"f,omitempty"`
}

// Field of a struct.
type Field struct {
	Name     string `json:"n"`
	Embedded bool   `json:"e,omitempty"`
	Type     Type   `json:"t"`
	Tag      *Tag   `json:"g,omitempty"`
}

// Tag of a field. Raw, when set, is the literal tag and makes it malformed.
type Tag struct {
	Oapi   string      `json:"o,omitempty"` // name in the oapi tag
	JSON   string      `json:"j,omitempty"` // name in the json tag
	Opts   [][2]string `json:"x,omitempty"` // options of the oapi tag, in order
	Jopts  []string    `json:"y,omitempty"` // options of the json tag
	Before bool        `json:"b,omitempty"` // json tag before oapi tag
	Raw    string      `json:"r,omitempty"`
	Other  string      `json:"z,omitempty"` // tags for others
}

// Opt returns an option of the oapi tag.
func (g *Tag) Opt(n string) (string, bool) {
	if g == nil {
		return "", false
	}
	for _, o := range g.Opts {
		if o[0] == n {
			return o[1], true
		}
	}
	return "", false
}

func (g *Tag) jopts() []string {
	if g == nil {
		return nil
	}
	return g.Jopts
}

var boolOpts = map[string]bool{"inline": true, "omitempty": true, "nullable": true, "readonly": true, "writeonly": true, "deprecated": true, "unique": true, "required": true}
var intOpts = map[string]bool{"maxlen": true, "minlen": true, "maxitems": true, "minitems": true, "maxprops": true, "minprops": true}
var floatOpts = map[string]bool{"max": true, "min": true, "emax": true, "emin": true, "mulof": true}

// bad reports an option whose value is not of its kind.
func (g *Tag) bad() bool {
	for _, o := range g.Opts {
		var err error
		switch {
		case boolOpts[o[0]] && o[1] != "":
			_, err = strconv.ParseBool(o[1])
		case intOpts[o[0]]:
			_, err = strconv.Atoi(o[1])
		case floatOpts[o[0]]:
			_, err = strconv.ParseFloat(o[1], 64)
		}
		if err != nil {
			return true
		}
	}
	return false
}

func (g *Tag) flag(n string) bool {
	v, ok := g.Opt(n)
	b, err := strconv.ParseBool(v)
	return ok && (v == "" || err == nil && b)
}

func (g *Tag) num(n string) (float64, bool) {
	v, ok := g.Opt(n)
	if !ok {
		return 0, false
	}
	f, err := strconv.ParseFloat(v, 64)
	if err != nil {
		panic("model: number " + v)
	}
	return f, true
}

func (g *Tag) literal() string {
	if g == nil {
		return ""
	}
	s := g.Raw
	if s == "" {
		var oapi, json string
		if g.Oapi != "" || len(g.Opts) > 0 {
			oapi = g.Oapi
			for _, o := range g.Opts {
				oapi += "," + o[0]
				if o[1] != "" {
					v := o[1]
					if o[0] == "pattern" {
						v = "'" + v + "'"
					}
					oapi += ":" + v
				}
			}
			oapi = "oapi:" + strconv.Quote(oapi)
		}
		if g.JSON != "" || len(g.Jopts) > 0 {
			json = "json:" + strconv.Quote(strings.Join(append([]string{g.JSON}, g.Jopts...), ","))
		}
		l := []string{}
		for _, x := range []string{oapi, json} {
			if x != "" {
				l = append(l, x)
			}
		}
		if g.Before && len(l) == 2 {
			l[0], l[1] = l[1], l[0]
		}
		if g.Other != "" {
			l = append(l, g.Other)
			if g.Before {
				l[0], l[len(l)-1] = l[len(l)-1], l[0]
			}
		}
		s = strings.Join(l, " ")
	}
	if s == "" {
		return ""
	}
	if strings.ContainsAny(s, "`\r\n") {
		return " " + strconv.Quote(s)
	}
	return " `" + s + "`"
}

// Decl is a type declaration.
type Decl struct {
	Name  string `json:"n"`
	Alias bool   `json:"a,omitempty"`
	Type  Type   `json:"t"`
}

// Export is an export comment. Source is a path (Item/Field) or a whole pointer.
type Export struct {
	Name   string `json:"n,omitempty"` // "" for the one-argument form
	Source string `json:"s"`
	Raw    string `json:"r,omitempty"` // literal comment instead
	In     bool   `json:"i,omitempty"` // inside of a function
	At     string `json:"a,omitempty"` // other places: top (before the package clause), doc (of the first declaration), line (after code)
	Pad    string `json:"p,omitempty"` // white space after it
}

func (x Export) comment() string {
	s := "//openapi:schema " + x.Source
	if x.Name != "" {
		s = "//openapi:schema " + x.Name + " " + x.Source
	}
	if x.Raw != "" {
		s = x.Raw
	}
	return s + x.Pad
}

// DocFile is a spec document next to the code.
type DocFile struct {
	Name  string      `json:"n"`
	Doc   interface{} `json:"d"`
	Style uint64      `json:"y,omitempty"` // YAML spelling
	Raw   string      `json:"r,omitempty"` // literal content instead
}

// Pkg is a package of the module.
type Pkg struct {
	Path    string    `json:"p"` // relative directory, "" for the root
	Decls   []Decl    `json:"d,omitempty"`
	Imports []int     `json:"i,omitempty"` // blank imports
	Exports []Export  `json:"x,omitempty"`
	Docs    []DocFile `json:"o,omitempty"`
	Extra   string    `json:"e,omitempty"` // extra Go source
	File    string    `json:"f,omitempty"` // extra Go file
	Name    string    `json:"n,omitempty"` // of the package clause
	Split   bool      `json:"s,omitempty"` // over two files
	Noise   int       `json:"z,omitempty"` // bits: things to ignore
	Apart   bool      `json:"m,omitempty"` // a module of its own, somewhere else
}

// Case is a program with its documents and configuration.
type Case struct {
	Pkgs []Pkg  `json:"pkgs"`
	Scan int    `json:"scan,omitempty"`
	Conf Obj    `json:"conf,omitempty"`
	Fail string `json:"fail,omitempty"` // a planted fault: the scan has to fail
	Mod  string `json:"mod,omitempty"`  // path of the module in the files, everything else calls it Module
}

// Real puts the path of the module into a text.
func (c Case) Real(s string) string {
	if c.Mod == "" {
		return s
	}
	return strings.Replace(s, Module, c.Mod, -1)
}

// RealConf is the configuration with the path of the module.
func (c Case) RealConf() Obj {
	if c.Mod == "" || c.Conf == nil {
		return c.Conf
	}
	var o Obj
	if err := json.Unmarshal([]byte(c.Real(kit.JS(c.Conf))), &o); err != nil {
		panic(err)
	}
	return o
}

// Module is the path of generated modules, see Mod.
const Module = "ex.org/m"

// ImportPath of a package.
func (p Pkg) ImportPath() string {
	if p.Path == "" {
		return Module
	}
	return Module + "/" + p.Path
}

type printer struct {
	c       Case
	pkg     int
	imports map[int]bool
	time    bool
}

func (w *printer) expr(t Type) string {
	switch t.K {
	case "named":
		if t.Pkg == w.pkg {
			return t.Name
		}
		w.imports[t.Pkg] = true
		return fmt.Sprintf("pk%d.%s", t.Pkg, t.Name)
	case "time":
		w.time = true
		return "time.Time"
	case "ptr":
		return "*" + w.expr(*t.Elem)
	case "slice":
		return "[]" + w.expr(*t.Elem)
	case "array":
		return fmt.Sprintf("[%d]%s", t.Len, w.expr(*t.Elem))
	case "map":
		return "map[" + t.Key + "]" + w.expr(*t.Elem)
	case "struct":
		var b strings.Builder
		b.WriteString("struct {\n")
		for _, f := range t.Fields {
			if f.Embedded {
				b.WriteString(w.expr(f.Type))
			} else {
				b.WriteString(f.Name + " " + w.expr(f.Type))
			}
			b.WriteString(f.Tag.literal() + "\n")
		}
		b.WriteString("}")
		return b.String()
	case "func":
		return "func(int) string"
	case "chan":
		return "chan int"
	case "iface":
		return "interface{ M() }"
	case "any":
		return "interface{}"
	}
	return t.K
}

// hasKey reports whether t has maps with that type of keys.
func (t Type) hasKey(key string) bool {
	if t.K == "map" && t.Key == key || t.Elem != nil && t.Elem.hasKey(key) {
		return true
	}
	for _, f := range t.Fields {
		if f.Type.hasKey(key) {
			return true
		}
	}
	return false
}

// Files renders the module.
func (c Case) Files() map[string]string {
	fs := map[string]string{"go.mod": "module " + Module + "\n\ngo 1.15\n"}
	for i, p := range c.Pkgs {
		dir := p.Path
		if p.Apart {
			dir = fmt.Sprintf("_other/%d", i)
			fs["go.mod"] += fmt.Sprintf("\nrequire %s v0.0.0\n\nreplace %s => ./%s\n", p.ImportPath(), p.ImportPath(), dir)
			fs[dir+"/go.mod"] = "module " + p.ImportPath() + "\n\ngo 1.15\n"
		}
		if dir != "" {
			dir += "/"
		}
		var one, two []Decl
		for k, d := range p.Decls {
			if p.Split && k%2 == 1 {
				two = append(two, d)
			} else {
				one = append(one, d)
			}
		}
		at := func(in bool, place string) (l []string) {
			for _, x := range p.Exports {
				if x.In == in && x.At == place {
					l = append(l, x.comment())
				}
			}
			return
		}
		tail := at(false, "")
		var body strings.Builder
		if p.Split { // exports stay with the second file
			fs[dir+"more.go"] = c.file(i, two, nil, nil, nil, strings.Join(tail, "\n")+"\n"+p.Extra)
		} else {
			for _, x := range tail {
				body.WriteString(x + "\n")
			}
		}
		if in := at(true, ""); len(in) > 0 {
			body.WriteString("\nfunc exports() {\n\t" + strings.Join(in, "\n\t") + "\n}\n")
		}
		for k, x := range at(false, "line") {
			fmt.Fprintf(&body, "\nconst line%d = %d %s\n", k, k, x)
		}
		for _, k := range [][2]string{{"mapKey", "string"}, {"mapNum", "int32"}} {
			for _, d := range p.Decls {
				if d.Type.hasKey(k[0]) {
					fmt.Fprintf(&body, "\ntype %s %s\n", k[0], k[1])
					break
				}
			}
		}
		if i == c.Scan && i == 0 {
			body.WriteString("\nfunc main() {}\n")
		}
		if p.Noise&1 != 0 {
			body.WriteString("\nconst note = `\n//openapi:schema Missing\n`\n\n// openapi:schema Missing\n\n// see //openapi:schema Missing\n\n//open\n\n//\n")
		}
		if !p.Split {
			body.WriteString(p.Extra)
		}
		fs[dir+"code.go"] = c.file(i, one, p.Imports, at(false, "top"), at(false, "doc"), body.String())
		if p.File != "" {
			fs[dir+"extra.go"] = p.File
		}
		name := c.PackageName(i)
		if p.Noise&2 != 0 {
			fs[dir+"code_test.go"] = "package " + name + "\n\n//openapi:schema Missing\n\ntype inTest int\n"
		}
		if p.Noise&4 != 0 {
			fs[dir+"skipped.go"] = "//go:build ignore\n// +build ignore\n\npackage other\n\n//openapi:schema\n\ntype Item bool\n"
			fs[dir+"code_windows.go"] = "package " + name + "\n\n//openapi:schema Missing\n\ntype Item bool\n"
		}
		if p.Noise&8 != 0 {
			fs[dir+"code.go"] = strings.Replace(fs[dir+"code.go"], "\n", "\r\n", -1)
		}
		for _, d := range p.Docs {
			s := d.Raw
			if s == "" {
				if strings.HasSuffix(d.Name, ".json") {
					s = kit.JSONText(d.Doc)
				} else {
					s = string(kit.YAML(d.Doc, d.Style))
				}
			}
			fs[dir+d.Name] = s
		}
	}
	if c.Mod != "" {
		real := map[string]string{}
		for k, s := range fs {
			real[c.Real(k)] = c.Real(s)
		}
		fs = real
	}
	return fs
}

func (c Case) PackageName(i int) string {
	switch {
	case i == c.Scan && i == 0:
		return "main"
	case c.Pkgs[i].Name != "":
		return c.Pkgs[i].Name
	}
	return fmt.Sprintf("pk%d", i)
}

// file renders a file of a package.
func (c Case) file(i int, decls []Decl, imports []int, top, doc []string, tail string) string {
	w := &printer{c: c, pkg: i, imports: map[int]bool{}}
	var body strings.Builder
	for n, d := range decls {
		eq := ""
		if d.Alias {
			eq = "= "
		}
		if n == 0 && len(doc) > 0 {
			fmt.Fprintf(&body, "// %s is documented.\n%s\n// It is.\n", d.Name, strings.Join(doc, "\n"))
			doc = nil
		}
		fmt.Fprintf(&body, "type %s %s%s\n\n", d.Name, eq, w.expr(d.Type))
	}
	for _, x := range doc {
		body.WriteString(x + "\n")
	}
	body.WriteString(tail)
	var src strings.Builder
	for _, x := range top {
		src.WriteString(x + "\n\n")
	}
	src.WriteString("package " + c.PackageName(i) + "\n\n")
	ks := []int{}
	for k := range w.imports {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	for _, k := range ks {
		fmt.Fprintf(&src, "import pk%d %q\n", k, c.Pkgs[k].ImportPath())
	}
	for _, k := range imports {
		if !w.imports[k] && k != i {
			fmt.Fprintf(&src, "import _ %q\n", c.Pkgs[k].ImportPath())
			w.imports[k] = true
		}
	}
	if w.time {
		src.WriteString("import \"time\"\n")
	}
	return src.String() + "\n" + body.String()
}

// imports lists packages a package imports.
func (c Case) imports(i int) map[int]bool {
	w := &printer{c: c, pkg: i, imports: map[int]bool{}}
	for _, d := range c.Pkgs[i].Decls {
		w.expr(d.Type)
	}
	for _, k := range c.Pkgs[i].Imports {
		if k != i {
			w.imports[k] = true
		}
	}
	return w.imports
}

// Reachable reports which packages a scan visits.
func (c Case) Reachable() map[int]bool {
	seen := map[int]bool{}
	var visit func(int)
	visit = func(i int) {
		if seen[i] {
			return
		}
		seen[i] = true
		for k := range c.imports(i) {
			visit(k)
		}
	}
	visit(c.Scan)
	return seen
}
