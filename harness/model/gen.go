package model

import (
	"fmt"
	"regexp"
	"strconv"
	"strings"

	"pgregory.net/rapid"
)

// Opt tunes the generator of programs.
type Opt struct {
	Pkgs      int // at most
	Decls     int // per package, at most
	Fields    int // per struct, at most
	Tags      int // percent of fields with a tag
	Embed     int // percent of fields that are embedded
	Named     int // percent of type positions that name a declared type
	Twins     int // percent of declarations that repeat the structure of another one
	Paths     int // percent of references that are paths into a type
	Exports   int // percent of declarations that are exported
	PathExp   bool
	Overrides int  // at most
	Time      bool // time.Time in one program of thirty
	NoArrays  bool // for the command, whose loader cannot size arrays
	Hidden    bool // fields without a schema where they must not matter
	Root      bool // configuration with root sections
	Defaults  bool // configuration with operation defaults
	Disagree  bool // defaults that disagree where they overlap
	Docs      int  // documents per package, at most (0: 1)
	Decoys    bool
	Wide      bool // spell references in different ways
	Sites     int  // references per document, at most
	Apart     bool // packages in modules of their own
}

// G is a generator at work.
type G struct {
	T    *rapid.T
	O    Opt
	C    Case
	kind [][]string // of every declaration
	time bool
	seq  int
}

func (g *G) n(lo, hi int) int { return rapid.IntRange(lo, hi).Draw(g.T, "n") }
func (g *G) p(percent int) bool {
	return percent > 0 && rapid.IntRange(0, 99).Draw(g.T, "p") >= 100-percent
}
func (g *G) pick(l []string) string { return rapid.SampledFrom(l).Draw(g.T, "pick") }

const longName = "NobodyWouldWriteANameAsLongAsThisOneByHandButToolsWhichGenerateCodeDoSoAllTheTime"

var typeNames = []string{"Item", "User", "Node", "Order", "Tree", "A", "B", "List", "Größe", "item", "node", "tree", "base", "T1", "Data_2", "Error", longName + "Type", "unexported" + longName}
var fieldNames = []string{"ID", "Name", "Items", "Next", "Data", "Ref", "A", "Zed", "Größe", "Child", "Left", "Right", "count", "hidden", "X_1", "Error", "Type", longName + "Field"}
var dirs = []string{"", "api", "model", "api/v1", "in-ternal", "x.y", "deep/er/est", "model2", "x/" + Module, "Sub/V1", "v1/model", "v2/model", "c++", "a~b", "errors", "internal/errors", "encoding/json", "internal/time", "net/http", "internal/v1/model", "cmd/tool", "testdata2", "main", "internal", "a/b/c/d/e/f/g/h/i/j", "a-very-long-name-of-a-directory-which-nobody-wants-to-type-again-and-again"}

var modules = []string{"app", "Ex.org/App", Module + "/v2", "a.b/c_d-e", "localhost"}
var notModule = regexp.MustCompile(`^$|[+]|/[vV][0-9]+$|^x/`) // cannot be the path of a module
var packageNames = []string{"model", "v1", "api", "x_y"}
var otherTags = []string{`yaml:"other,inline"`, `validate:"required,min=3" db:"-"`, `xml:"-"`, `oapix:"wrong,required" Oapi:"wrong,required"`, `JSON:"wrong,inline"`}
var otherOpts = []string{"optional", "title", "minimum", "example", "default", "description", "Required", "read-only", "mininum"}
var basicNames = []string{"string", "bool", "int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "float32", "float64", "byte", "rune"}
var propNames = []string{"id", "name", "items", "x-y", "näme", "with.dot", "$ref", "a/b", "~t", "Name", "ID", "data", "type", "properties", "[]", "*", "0", "long-" + longName, "läng." + longName}
var hiddenKinds = []string{"func", "chan", "iface", "any", "complex128", "uintptr"}

// New draws packages with declarations.
func New(t *rapid.T, o Opt) *G {
	g := &G{T: t, O: o}
	if o.Pkgs == 0 {
		g.O.Pkgs = 1
	}
	if o.Decls == 0 {
		g.O.Decls = 4
	}
	if o.Fields == 0 {
		g.O.Fields = 4
	}
	g.time = o.Time && g.n(0, 29) == 29
	np := g.n(1, g.O.Pkgs)
	if g.O.Pkgs > 1 && g.p(3) {
		np = g.n(5, 14)
	}
	many := g.p(5)
	paths := rapid.Permutation(dirs).Draw(t, "dirs")
	if g.p(40) {
		for i := range paths {
			if paths[i] == "" {
				paths[0], paths[i] = paths[i], paths[0]
			}
		}
	}
	if g.p(30) {
		g.C.Mod = g.pick(modules)
	}
	for i := 0; i < np; i++ {
		p := Pkg{Path: paths[i]}
		if g.p(30) {
			p.Name = g.pick(packageNames)
		}
		p.Apart = o.Apart && i > 0 && g.p(8) && !notModule.MatchString(p.Path) && (g.C.Mod == "" || strings.Contains(g.C.Mod, "."))
		p.Split = g.p(25)
		if g.p(25) {
			p.Noise = g.n(1, 15)
		}
		nd := g.n(1, g.O.Decls)
		if i > 0 && g.n(0, 9) == 0 {
			nd = 0
		}
		if many && g.p(60) {
			nd = g.n(nd, len(typeNames))
		}
		names := rapid.Permutation(typeNames).Draw(t, "names")
		kinds := []string{}
		for j := 0; j < nd; j++ {
			k := "struct"
			switch x := g.n(0, 99); {
			case x >= 92:
				k = "alias"
			case x >= 80:
				k = "other"
			case x >= 72:
				k = "basic"
			}
			p.Decls = append(p.Decls, Decl{Name: names[j], Alias: k == "alias"})
			kinds = append(kinds, k)
		}
		g.C.Pkgs = append(g.C.Pkgs, p)
		g.kind = append(g.kind, kinds)
	}
	for i := np - 1; i >= 0; i-- {
		for k := i + 1; k < np; k++ {
			if g.p(60) {
				g.C.Pkgs[i].Imports = append(g.C.Pkgs[i].Imports, k)
			}
		}
		for j := len(g.kind[i]) - 1; j >= 0; j-- {
			g.body(i, j)
		}
	}
	if g.p(8) {
		g.ladder()
	}
	if o.Embed > 0 && g.p(5) {
		g.tower()
	}
	if o.Tags > 0 && g.p(5) {
		g.handle()
	}
	g.breakAliases()
	g.tags()
	return g
}

// ladder adds a deeply nested type.
func (g *G) ladder() {
	i := g.n(0, len(g.C.Pkgs)-1)
	g.C.Pkgs[i].Decls = append(g.C.Pkgs[i].Decls, Decl{Name: "Ladder"})
	g.kind[i] = append(g.kind[i], "other")
	j := len(g.kind[i]) - 1
	t := g.typ(i, j, 1, true)
	if g.p(50) { // a type nothing else refers to
		t = Type{K: "named", Pkg: i, Name: "Rung"}
		d := Decl{Name: "Rung", Type: Type{K: "struct", Fields: []Field{{Name: "A", Type: g.typ(i, j, 1, true)}}}}
		if g.p(20) {
			d.Type = Type{K: g.pick(basicNames)}
		}
		g.C.Pkgs[i].Decls = append(g.C.Pkgs[i].Decls, d)
		g.kind[i] = append(g.kind[i], d.Type.K)
		if d.Type.K != "struct" {
			g.kind[i][j+1] = "other"
		}
	}
	for k := g.n(2, 14); k > 0; k-- {
		e := t
		switch x := g.n(0, 9); {
		case x >= 8:
			t = Type{K: "ptr", Elem: &e}
		case x >= 6:
			t = Type{K: "slice", Elem: &e}
		case x >= 4:
			t = Type{K: "map", Key: g.mapKey(), Elem: &e}
		case x >= 3 && !g.O.NoArrays:
			t = Type{K: "array", Len: g.n(0, 3), Elem: &e}
		default:
			t = Type{K: "struct", Fields: []Field{{Name: g.pick([]string{"A", "Next", "Größe"}), Type: e}}}
		}
	}
	g.C.Pkgs[i].Decls[j].Type = t
}

// tower adds structs embedded in one another.
func (g *G) tower() {
	i := g.n(0, len(g.C.Pkgs)-1)
	n := g.n(3, 10)
	for k := 0; k <= n; k++ {
		g.C.Pkgs[i].Decls = append(g.C.Pkgs[i].Decls, Decl{Name: fmt.Sprintf("Level%d", k)})
		g.kind[i] = append(g.kind[i], "struct")
		j := len(g.kind[i]) - 1
		t := Type{K: "struct", Fields: []Field{{Name: fmt.Sprintf("F%d", k), Type: g.typ(i, j, 1, true)}}}
		if g.p(40) {
			t.Fields = append(t.Fields, Field{Name: g.pick([]string{"ID", "Name", "A"}), Type: Type{K: g.pick(basicNames)}})
		}
		if k > 0 {
			e := Type{K: "named", Pkg: i, Name: fmt.Sprintf("Level%d", k-1)}
			if g.p(30) {
				e = Type{K: "ptr", Elem: &Type{K: "named", Pkg: i, Name: e.Name}}
			}
			f := Field{Embedded: true, Type: e}
			if g.p(50) {
				t.Fields = append([]Field{f}, t.Fields...)
			} else {
				t.Fields = append(t.Fields, f)
			}
		}
		g.C.Pkgs[i].Decls[j].Type = t
	}
}

// handle adds a defined pointer to a struct and a field of that type, often
// flattened.
func (g *G) handle() {
	i := g.n(0, len(g.C.Pkgs)-1)
	var at []int
	for j, d := range g.C.Pkgs[i].Decls {
		if d.Type.K == "struct" && !d.Alias {
			at = append(at, j)
		}
	}
	if len(at) == 0 {
		return
	}
	to := g.C.Pkgs[i].Decls[at[g.n(0, len(at)-1)]].Name
	in := &g.C.Pkgs[i].Decls[at[g.n(0, len(at)-1)]].Type
	f := Field{Name: "Via", Type: Type{K: "named", Pkg: i, Name: "Handle"}}
	if g.p(80) {
		f.Tag = &Tag{Opts: [][2]string{{"inline", ""}}}
	}
	in.Fields = append(in.Fields, f)
	g.C.Pkgs[i].Decls = append(g.C.Pkgs[i].Decls, Decl{Name: "Handle", Type: Type{K: "ptr", Elem: &Type{K: "named", Pkg: i, Name: to}}})
	g.kind[i] = append(g.kind[i], "other")
}

func (g *G) mapKey() string {
	return g.pick([]string{"string", "int", "string", "string", "uint8", "int64", "mapKey", "mapNum"})
}

// breakAliases turns the aliases which are part of a cycle into defined types:
// go/types does not accept all of those (go.dev/issue/50729).
func (g *G) breakAliases() {
	find := func(t Type) *Decl {
		for i := range g.C.Pkgs[t.Pkg].Decls {
			if d := &g.C.Pkgs[t.Pkg].Decls[i]; d.Name == t.Name {
				return d
			}
		}
		return nil
	}
	for i := range g.C.Pkgs {
		for j := range g.C.Pkgs[i].Decls {
			d := &g.C.Pkgs[i].Decls[j]
			if !d.Alias {
				continue
			}
			seen, cyclic := map[*Decl]bool{}, false
			var walk func(t Type)
			walk = func(t Type) {
				if t.K == "named" {
					n := find(t)
					cyclic = cyclic || n == d
					if n != nil && !seen[n] {
						seen[n] = true
						walk(n.Type)
					}
				}
				if t.Elem != nil {
					walk(*t.Elem)
				}
				for _, f := range t.Fields {
					walk(f.Type)
				}
			}
			walk(d.Type)
			if cyclic {
				d.Alias = false
				g.kind[i][j] = "other"
			}
		}
	}
}

// names lists what a type position in declaration j of package i can name.
func (g *G) names(i, j int, byvalue bool, kinds string) (out []Type) {
	strict := byvalue || g.kind[i][j] == "alias"
	for k := i; k < len(g.kind); k++ {
		for l, kind := range g.kind[k] {
			name := g.C.Pkgs[k].Decls[l].Name
			if kinds != "" && kind != kinds {
				continue
			}
			if k > i && !isExported(name) {
				continue
			}
			if k == i && l <= j && (strict || kind == "alias") {
				continue
			}
			out = append(out, Type{K: "named", Pkg: k, Name: name})
		}
	}
	return
}

func (g *G) body(i, j int) {
	d := &g.C.Pkgs[i].Decls[j]
	if g.kind[i][j] == "struct" && g.p(g.O.Twins) {
		if t, ok := g.twin(i, j); ok {
			d.Type = t
			return
		}
	}
	switch g.kind[i][j] {
	case "struct":
		if l := g.names(i, j, true, "struct"); len(l) > 0 && g.p(10) {
			d.Type = rapid.SampledFrom(l).Draw(g.T, "defined from")
			return
		}
		d.Type = g.strct(i, j, 2, true)
	case "basic":
		d.Type = Type{K: g.pick(basicNames)}
	case "alias":
		d.Type = g.typ(i, j, 2, true)
	default:
		d.Type = g.typ(i, j, 2, true)
	}
}

// twin repeats the structure of a declaration made already.
func (g *G) twin(i, j int) (Type, bool) {
	var l []Type
	for k := i; k < len(g.kind); k++ {
		for m := range g.kind[k] {
			if g.kind[k][m] != "struct" || k == i && m <= j {
				continue
			}
			t := g.C.Pkgs[k].Decls[m].Type
			if k > i && hasUnexported(t) {
				continue
			}
			l = append(l, t)
		}
	}
	if len(l) == 0 {
		return Type{}, false
	}
	return clone(rapid.SampledFrom(l).Draw(g.T, "twin of")), true
}

func clone(t Type) Type {
	if t.Elem != nil {
		e := clone(*t.Elem)
		t.Elem = &e
	}
	fs := t.Fields
	t.Fields = nil
	for _, f := range fs {
		f.Type = clone(f.Type)
		if f.Tag != nil {
			c := *f.Tag
			c.Opts = append([][2]string{}, c.Opts...)
			f.Tag = &c
		}
		t.Fields = append(t.Fields, f)
	}
	return t
}

func hasUnexported(t Type) bool {
	if t.K == "named" && !isExported(t.Name) {
		return true
	}
	if t.Elem != nil && hasUnexported(*t.Elem) {
		return true
	}
	for _, f := range t.Fields {
		if hasUnexported(f.Type) || !f.Embedded && !isExported(f.Name) {
			return true
		}
	}
	return false
}

func (g *G) typ(i, j, depth int, byvalue bool) Type {
	if g.time && g.p(12) {
		return Type{K: "time"}
	}
	if named := g.O.Named; g.p(named) || named == 0 && g.p(30) {
		if l := g.names(i, j, byvalue, ""); len(l) > 0 {
			return rapid.SampledFrom(l).Draw(g.T, "named")
		}
	}
	x := g.n(0, 99)
	if depth <= 0 {
		x = 0
	}
	elem := func(byvalue bool) *Type {
		t := g.typ(i, j, depth-1, byvalue)
		return &t
	}
	switch {
	case x >= 92:
		return g.strct(i, j, depth-1, byvalue)
	case x >= 78:
		return Type{K: "ptr", Elem: elem(false)}
	case x >= 64:
		return Type{K: "slice", Elem: elem(false)}
	case x >= 50:
		return Type{K: "map", Key: g.mapKey(), Elem: elem(false)}
	case x >= 42 && !g.O.NoArrays:
		return Type{K: "array", Len: g.n(0, 3), Elem: elem(byvalue)}
	}
	return Type{K: g.pick(basicNames)}
}

func (g *G) strct(i, j, depth int, byvalue bool) Type {
	t := Type{K: "struct"}
	n := g.n(0, g.O.Fields)
	if g.p(3) {
		n = g.n(n, len(fieldNames))
	}
	names := rapid.Permutation(fieldNames).Draw(g.T, "fields")
	used := map[string]bool{}
	for k := 0; k < n; k++ {
		f := Field{Name: names[k]}
		if g.p(g.O.Embed) {
			var l []Type
			for _, c := range g.names(i, j, byvalue, "struct") {
				l = append(l, c)
			}
			for _, c := range g.names(i, j, byvalue, "basic") {
				l = append(l, c)
			}
			for _, c := range g.names(i, j, false, "struct") {
				c := c
				l = append(l, Type{K: "ptr", Elem: &c})
			}
			if len(l) > 0 {
				f = Field{Embedded: true, Type: rapid.SampledFrom(l).Draw(g.T, "embedded")}
			}
		}
		name := f.Name
		if f.Embedded {
			name = f.Type.Name
			if f.Type.K == "ptr" {
				name = f.Type.Elem.Name
			}
		} else if g.O.Hidden && g.p(12) {
			f.Type = Type{K: g.pick(hiddenKinds)}
			switch {
			case !isExported(f.Name):
			case g.p(30):
				f.Tag = &Tag{JSON: "-"}
			case g.p(40):
				f.Tag = &Tag{Oapi: "-"}
			default:
				f.Tag = &Tag{Opts: [][2]string{{"type", g.pick(sortedTypes)}}}
			}
		} else {
			f.Type = g.typ(i, j, depth, byvalue)
		}
		if used[name] {
			continue
		}
		used[name] = true
		t.Fields = append(t.Fields, f)
	}
	return t
}

var sortedTypes = func() (l []string) {
	for k := range tagTypes {
		l = append(l, k)
	}
	return sorted(l)
}()

// structs calls fn on every struct type literal, inner ones first.
func (g *G) structs(fn func(t *Type)) {
	var visit func(t *Type)
	visit = func(t *Type) {
		if t.Elem != nil {
			visit(t.Elem)
		}
		for i := range t.Fields {
			visit(&t.Fields[i].Type)
		}
		if t.K == "struct" {
			fn(t)
		}
	}
	for i := range g.C.Pkgs {
		for j := range g.C.Pkgs[i].Decls {
			visit(&g.C.Pkgs[i].Decls[j].Type)
		}
	}
}

func (g *G) num(lo, hi int) string { return strconv.Itoa(g.n(lo, hi)) }

func (g *G) float() string {
	return g.pick([]string{"0", "1", "-1", "0.5", "-2.25", "1e3", "100", "-0.001", "1e21"})
}

// flagValue is one of the spellings of true.
func (g *G) flagValue() string { return g.pick([]string{"", "", "true", "1", "t", "TRUE"}) }

func (g *G) tags() {
	w := &world{c: g.C}
	g.structs(func(t *Type) {
		for k := range t.Fields {
			f := &t.Fields[k]
			if !g.p(g.O.Tags) {
				continue
			}
			tag := f.Tag
			if tag == nil {
				tag = &Tag{}
				f.Tag = tag
			}
			if tag.Oapi == "-" || tag.JSON == "-" {
				continue
			}
			hasType := len(tag.Opts) > 0
			u := w.under(f.Type)
			inner := u
			if u.K == "ptr" {
				inner = w.under(*u.Elem)
			}
			flat := f.Embedded && inner.K == "struct"
			if g.p(45) && !(flat && g.p(70)) {
				tag.Oapi = g.pick(propNames)
			}
			if g.p(35) && !(flat && g.p(70)) {
				tag.JSON = g.pick(propNames)
			}
			tag.Before = g.p(30)
			if g.p(15) {
				tag.Jopts = append(tag.Jopts, "omitempty")
			}
			if g.p(10) {
				tag.Other = g.pick(otherTags)
			}
			if g.p(5) {
				tag.Jopts = append(tag.Jopts, g.pick([]string{"required", "nullable", "readonly"}))
			}
			if !hasType && !f.Embedded {
				if g.p(6) {
					if g.p(50) {
						tag.Oapi = "-"
					} else {
						tag.JSON = "-"
					}
					continue
				}
				if g.p(10) {
					tag.Opts = append(tag.Opts, [2]string{"type", g.pick(sortedTypes)})
					hasType = true
				}
			}
			if inner.K == "struct" && !hasType && g.p(20) {
				if f.Embedded {
					tag.Opts = append(tag.Opts, [2]string{"inline", g.pick([]string{"false", "true"})})
				} else if g.p(50) {
					tag.Opts = append(tag.Opts, [2]string{"inline", g.flagValue()})
				} else {
					tag.Jopts = append(tag.Jopts, "inline")
				}
			}
			tag.Opts = append(tag.Opts, g.options(w, f, hasType)...)
			if g.p(30) {
				tag.Opts = rapid.Permutation(tag.Opts).Draw(g.T, "order")
			}
		}
	})
	// properties promoted from equally deep structs under one name are not specified
	for round := 0; round < 30; round++ {
		clash := false
		g.structs(func(t *Type) {
			if _, c, err := w.visible(*t, Pointer{}); err != nil || !c {
				return
			}
			clash = true
			for k := len(t.Fields) - 1; k >= 0; k-- {
				f := &t.Fields[k]
				if f.Embedded {
					t.Fields = append(t.Fields[:k], t.Fields[k+1:]...)
					return
				}
				if f.Tag != nil && (f.Tag.Oapi != "" || f.Tag.JSON != "" || len(f.Tag.Opts) > 0) {
					f.Tag = nil
					u := w.under(f.Type)
					if _, ok := basics[u.K]; !ok && u.K != "struct" && u.Elem == nil && u.K != "time" {
						f.Tag = &Tag{JSON: "-"}
					}
					return
				}
			}
		})
		if !clash {
			break
		}
	}
}

// options a tag can have where they mean something.
func (g *G) options(w *world, f *Field, typed bool) (out [][2]string) {
	add := func(percent int, name, value string) {
		if !g.p(percent) {
			return
		}
		for _, o := range out {
			if o[0] == name {
				return // written once, layers of a type can share options
			}
		}
		out = append(out, [2]string{name, value})
	}
	add(25, "required", g.pick([]string{"", "true", "1", "false"}))
	leaf := w.leaf(f.Type, 0)
	nullable := true
	if typed {
		leaf = []Type{{K: "typed"}}
		typ, _ := f.Tag.Opt("type")
		if b, ok := tagTypes[typ]; ok {
			leaf = append(leaf, Type{K: b["type"].(string)})
		}
	}
	for _, t := range leaf {
		switch {
		case t.K == "struct" || t.K == "time" || t.K == "?":
			nullable = nullable && len(leaf) > 1 && g.p(50)
			if t.K == "time" || t.K == "?" {
				return out
			}
		}
	}
	if nullable {
		add(15, "nullable", g.pick([]string{"", "true", "false", "0"}))
	}
	if leaf[0].K == "struct" {
		return out // a reference, nothing applies
	}
	add(5, g.pick(otherOpts), g.pick([]string{"", "true", "3", "x"}))
	add(10, "deprecated", g.flagValue())
	add(10, "readonly", g.flagValue())
	add(10, "writeonly", g.pick([]string{"", "true", "false"}))
	add(10, "format", g.pick([]string{"date", "x-fmt", "int64", "email"}))
	seen := map[string]bool{}
	for _, t := range leaf {
		k := t.K
		if b, ok := basics[k]; ok {
			k = b["type"].(string)
		}
		if seen[k] {
			continue
		}
		seen[k] = true
		switch k {
		case "integer", "number":
			if g.p(50) {
				add(30, "min", g.float())
				add(30, "max", g.float())
			} else {
				add(30, "emin", g.float())
				add(30, "emax", g.float())
			}
			add(15, "mulof", g.pick([]string{"2", "0.5", "10", "3"}))
		case "string":
			add(25, "minlen", g.num(0, 3))
			add(25, "maxlen", g.num(0, 30))
			add(15, "pattern", g.pick([]string{"^[a-z]+$", "a,b", ".*", "\\\\d{2,3}", "x y", "[0-9]:[a-z]", " ^lead", "trail ", "^$", "(a|b)", "é{1,3}", "\"q\""}))
		case "slice":
			add(25, "minitems", g.num(0, 3))
			add(25, "maxitems", g.num(0, 30))
			add(15, "unique", g.flagValue())
		case "array":
			add(25, "minitems", g.num(0, 3))
			add(15, "unique", g.flagValue())
		case "map", "object":
			add(25, "minprops", g.num(0, 3))
			add(25, "maxprops", g.num(0, 30))
		}
	}
	return out
}

// leaf lists the layers of a type down to the basic type or struct, underlying types only.
func (w *world) leaf(t Type, depth int) (out []Type) {
	u := w.under(t)
	out = append(out, u)
	if u.Elem != nil {
		if depth > 6 {
			return append(out, Type{K: "?"})
		}
		out = append(out, w.leaf(*u.Elem, depth+1)...)
	}
	return
}

// ---- exports, references, documents ----

// reachable declarations
func (g *G) decls() (out []Type) {
	reach := g.C.Reachable()
	for i, p := range g.C.Pkgs {
		if !reach[i] {
			continue
		}
		for _, d := range p.Decls {
			out = append(out, Type{K: "named", Pkg: i, Name: d.Name})
		}
	}
	return
}

// Pointer draws a pointer to a declaration or into it; ok is false when there is nothing to point to.
func (g *G) Pointer(paths int) (Pointer, Type, bool) {
	l := g.decls()
	if len(l) == 0 {
		return Pointer{}, Type{}, false
	}
	w := &world{c: g.C}
	t := rapid.SampledFrom(l).Draw(g.T, "decl")
	p := w.pointerTo(t)
	if !g.p(paths) {
		return p, t, true
	}
	steps := g.n(1, 4)
	if g.p(20) {
		steps = g.n(5, 14)
	}
	if g.p(30) {
		for _, x := range l {
			if x.Name == "Ladder" || strings.HasPrefix(x.Name, "Level") && g.p(50) {
				t = x
				p = w.pointerTo(t)
			}
		}
	}
	for ; steps > 0; steps-- {
		u := w.under(t)
		switch u.K {
		case "struct":
			var fs []Field
			for _, f := range u.Fields {
				if isExported(w.fieldName(f)) && w.hasSchema(f.Type, 0) {
					fs = append(fs, f)
				}
			}
			if len(fs) == 0 {
				return p, t, true
			}
			f := rapid.SampledFrom(fs).Draw(g.T, "step")
			p, t = p.with(w.fieldName(f)), f.Type
		case "ptr":
			p, t = p.with("*"), *u.Elem
		case "slice", "array", "map":
			p, t = p.with("[]"), *u.Elem
		default:
			return p, t, true
		}
	}
	return p, t, true
}

func (w *world) hasSchema(t Type, depth int) bool {
	u := w.under(t)
	if u.K == "struct" || u.K == "time" || depth > 8 {
		return true
	}
	if _, ok := basics[u.K]; ok {
		return true
	}
	return u.Elem != nil && w.hasSchema(*u.Elem, depth+1)
}

// Spell writes a pointer in a document of package pkg (-1: nowhere).
func (g *G) Spell(p Pointer, pkg int) string {
	if pkg >= 0 && p.Pkg == g.C.Pkgs[pkg].ImportPath() && g.p(50) {
		p.Pkg = ""
	}
	s := p.String()
	if g.O.Wide && g.p(20) {
		i := strings.IndexByte(s, '#')
		at := i + 2 + g.n(0, len(s)-i-3)
		if c := s[at]; c >= 'A' && c <= 'Z' || c >= 'a' && c <= 'z' || c == '*' || c == '[' {
			s = s[:at] + fmt.Sprintf("%%%02X", c) + s[at+1:]
		}
	}
	return s
}

// Site draws a place of a document that refers to types. make gives a reference.
func (g *G) Site(depth int, ref func() interface{}) interface{} {
	x := g.n(0, 99)
	if depth <= 0 {
		x = 0
	}
	sub := func() interface{} { return g.Site(depth-1, ref) }
	switch {
	case x >= 95:
		return Obj{"properties": Obj{"$ref": sub(), "a.b": sub()}}
	case x >= 90:
		return Obj{"properties": Obj{"~1": sub(), "x/y": sub(), "[]": sub()}, "type": "object"}
	case x >= 85:
		return Obj{"allOf": []interface{}{sub(), Obj{"description": "more"}, sub()}}
	case x >= 80:
		return Obj{"type": "array", "items": sub()}
	case x >= 77:
		return []interface{}{[]interface{}{sub()}, "text", sub()}
	case x >= 74:
		return Obj{"$ref": "#/components/schemas/Doc"}
	case x >= 72:
		return Obj{"type": "string"}
	}
	return ref()
}

// Ref draws a reference for a document of package pkg.
func (g *G) Ref(pkg int) func() interface{} {
	return func() interface{} {
		p, _, ok := g.Pointer(g.O.Paths)
		if !ok {
			return Obj{"type": "integer"}
		}
		return Obj{"$ref": g.Spell(p, pkg)}
	}
}

// Operation draws an operation.
func (g *G) Operation(ref func() interface{}) Obj {
	g.seq++
	op := Obj{"operationId": "op" + strconv.Itoa(g.seq), "responses": Obj{"200": Obj{"description": "ok", "content": Obj{
		g.pick([]string{"application/json", "application/vnd.x+json", "*/*"}): Obj{"schema": g.Site(2, ref)}}}}}
	if g.p(30) {
		op["parameters"] = []interface{}{Obj{"name": "q", "in": "query", "schema": g.Site(1, ref)}, Obj{"name": "h", "in": "header", "schema": Obj{"type": "string"}}}
	}
	if g.p(30) {
		op["requestBody"] = Obj{"content": Obj{"application/json": Obj{"schema": g.Site(2, ref)}}}
	}
	if g.p(10) {
		op["x-deep"] = []interface{}{Obj{"a": g.Site(2, ref)}, nil, 1.5}
	}
	if g.p(20) {
		op["tags"] = []interface{}{"t"}
	}
	if g.p(10) {
		op["deprecated"] = true
	}
	return op
}

var itemMethods = []string{"get", "put", "post", "delete", "options", "head", "patch", "trace"}

// Doc draws a document of package pkg.
func (g *G) Doc(pkg, nr int) Obj {
	ref := g.Ref(pkg)
	d := Obj{"openapi": "3.0.0"}
	paths := Obj{}
	for n := g.n(0, 2); n >= 0; n-- {
		item := Obj{}
		for _, m := range rapid.SliceOfNDistinct(rapid.SampledFrom(itemMethods), 1, 2, rapid.ID[string]).Draw(g.T, "methods") {
			item[m] = g.Operation(ref)
		}
		paths[fmt.Sprintf("/p%d/d%d/%s%d", pkg, nr, g.pick([]string{"items", "users/{id}", "a.b", "x~y", "v1/{id}/z"}), n)] = item
	}
	if g.p(30) {
		paths["/shared"] = Obj{itemMethods[(pkg*3+nr)%8]: g.Operation(ref)}
	}
	d["paths"] = paths
	if g.p(40) {
		d["components"] = Obj{"schemas": Obj{fmt.Sprintf("Doc%d.%d", pkg, nr): g.Site(2, ref)}}
	}
	if g.p(20) {
		d["x-ext"+strconv.Itoa(pkg)+strconv.Itoa(nr)] = Obj{"any": g.Site(3, ref), "plain": []interface{}{1.0, "x", nil, true}}
	}
	return d
}

var docFiles = []string{"oapi.yaml", "oapi.yml", "oapi.json"}

// Documents adds spec files.
func (g *G) Documents() {
	max := g.O.Docs
	if max == 0 {
		max = 1
	}
	reach := g.C.Reachable()
	any := false
	for i := range g.C.Pkgs {
		n := g.n(0, max)
		if i == g.C.Scan && n == 0 && g.p(60) {
			n = 1
		}
		files := rapid.Permutation(docFiles).Draw(g.T, "files")
		for k := 0; k < n; k++ {
			any = any || reach[i]
			g.C.Pkgs[i].Docs = append(g.C.Pkgs[i].Docs, DocFile{Name: files[k], Doc: g.Doc(i, k), Style: rapid.Uint64().Draw(g.T, "style")})
		}
		if g.O.Decoys && g.p(40) {
			d := g.Doc(i, 7)
			name := g.pick([]string{"openapi.yaml", "oapi.yaml.bak", "oapi.yaml.txt", "oapi.JSON", "xoapi.yaml", "sub/oapi.yaml", "oapi"})
			if n < 3 && g.p(30) {
				delete(d, "openapi")
				name = files[n]
			}
			d["x-decoy"] = true
			g.C.Pkgs[i].Docs = append(g.C.Pkgs[i].Docs, DocFile{Name: name, Doc: d, Style: rapid.Uint64().Draw(g.T, "style")})
		}
	}
	if !any {
		i := g.C.Scan
		for k := range g.C.Pkgs[i].Docs {
			if docNames[g.C.Pkgs[i].Docs[k].Name] {
				return
			}
		}
		g.C.Pkgs[i].Docs = append(g.C.Pkgs[i].Docs, DocFile{Name: "oapi.yaml", Doc: g.Doc(i, 0), Style: rapid.Uint64().Draw(g.T, "style")})
	}
}

var exportNames = []string{"Thing", "Other", "a.b", "x-1", "Item", "User", "Größe", "under_score", "One", "Two", "Three", "Four", "v1.Item", "name." + longName, "a/b", "~x", "a~1b", "a~0.b", "#x", "%41", "$ref", "paths", "end."}

// Exports adds export comments.
func (g *G) Exports() {
	names := map[string]bool{}
	ptrs := map[string]bool{}
	reach := g.C.Reachable()
	pkgs := []int{}
	for i := range g.C.Pkgs {
		if reach[i] {
			pkgs = append(pkgs, i)
		}
	}
	w := &world{c: g.C}
	add := func(p Pointer, home int) {
		if ptrs[p.key()] {
			return
		}
		x := Export{Source: p.String()}
		switch n := g.n(0, 99); {
		case n >= 85:
			x.In = true
		case n >= 60:
			x.At = g.pick([]string{"top", "doc", "line"})
		}
		if g.p(20) {
			x.Pad = g.pick([]string{" ", "  ", "    "})
		}
		at := home
		if g.p(25) {
			at = rapid.SampledFrom(pkgs).Draw(g.T, "from") // any package can export any type
		}
		if at == home && g.p(80) {
			x.Source = strings.Join(p.Toks, "/")
		}
		name := p.Toks[len(p.Toks)-1]
		if name == "[]" || name == "*" || names[name] || g.p(50) {
			x.Name = g.pick(exportNames)
			for names[x.Name] {
				x.Name += "x"
			}
			name = x.Name
		}
		names[name], ptrs[p.key()] = true, true
		g.C.Pkgs[at].Exports = append(g.C.Pkgs[at].Exports, x)
	}
	percent := g.O.Exports
	if percent > 0 && g.p(10) {
		percent = 95
	}
	for _, t := range g.decls() {
		if g.p(percent) {
			add(w.pointerTo(t), t.Pkg)
		}
	}
	if g.time && g.O.Exports > 0 && g.p(30) && !names["Time"] {
		x := Export{Source: timeTime.String(), Name: g.pick([]string{"", "Moment", "a.Time"})}
		if n := x.Name; !names[n] {
			names[n], names["Time"] = true, true
			at := rapid.SampledFrom(pkgs).Draw(g.T, "from")
			g.C.Pkgs[at].Exports = append(g.C.Pkgs[at].Exports, x)
		}
	}
	if g.O.PathExp && g.p(40) {
		if p, _, ok := g.Pointer(100); ok {
			add(p, g.home(p))
		}
	}
}

func (g *G) home(p Pointer) int {
	for i, k := range g.C.Pkgs {
		if k.ImportPath() == p.Pkg {
			return i
		}
	}
	panic("no package " + p.Pkg)
}

// Overrides adds overrides to the configuration. Pointers at anonymous structs are left out.
func (g *G) Overrides() {
	ov := Obj{}
	w := &world{c: g.C}
	ref := func() interface{} {
		p, _, ok := g.Pointer(g.O.Paths)
		if !ok {
			return Obj{"type": "integer"}
		}
		return Obj{"$ref": g.Spell(p, -1)}
	}
	seen := map[string]bool{}
	most := g.O.Overrides
	if most > 1 && g.p(5) {
		most = 15
	}
	for n := g.n(0, most); n > 0; n-- {
		p, t, ok := g.Pointer(g.O.Paths)
		if !ok || w.unalias(t).K == "struct" || seen[p.key()] {
			continue
		}
		seen[p.key()] = true
		var v interface{}
		switch g.n(0, 6) {
		case 0, 1:
			v = Obj{"type": g.pick([]string{"string", "integer"}), "format": g.pick([]string{"uuid", "x"}), "description": g.pick([]string{"over", "ridden"})}
		case 2, 3:
			v = ref()
		case 4:
			v = Obj{"type": "object", "properties": Obj{"a": ref(), "b.c": Obj{"type": "array", "items": ref()}}, "required": []interface{}{"a"}}
		case 5:
			v = Obj{"oneOf": []interface{}{ref(), Obj{"type": "string", "nullable": true}}}
		default:
			v = Obj{"type": "object", "additionalProperties": ref()}
		}
		ov[g.Spell(p, -1)] = v
	}
	if g.time && g.p(40) {
		ov[timeTime.String()] = rapid.SampledFrom([]interface{}{Obj{"type": "integer", "format": "unix"}, Obj{"type": "string", "format": "date-time", "nullable": true}, ref()}).Draw(g.T, "over time")
	}
	if len(ov) > 0 {
		g.conf()["overrides"] = ov
	}
}

func (g *G) conf() Obj {
	if g.C.Conf == nil {
		g.C.Conf = Obj{}
	}
	return g.C.Conf
}

// All draws a whole case.
func All(t *rapid.T, o Opt) Case {
	g := New(t, o)
	g.Exports()
	g.Documents()
	if g.O.Exports > 0 && g.p(8) {
		g.Taken()
	}
	if o.Overrides > 0 {
		g.Overrides()
	}
	if o.Root {
		g.Root()
	}
	if o.Defaults {
		g.Defaults()
	}
	return g.Finish()
}

// Taken gives a document a component of the name of an export, which takes its place.
func (g *G) Taken() {
	var docs []Obj
	for i := range g.C.Pkgs {
		for k := range g.C.Pkgs[i].Docs {
			if d, ok := g.C.Pkgs[i].Docs[k].Doc.(Obj); ok && d["openapi"] != nil {
				docs = append(docs, d)
			}
		}
	}
	var names []string
	for _, p := range g.C.Pkgs {
		for _, x := range p.Exports {
			n := x.Name
			if n == "" {
				n = x.Source[strings.LastIndex(x.Source, "/")+1:]
			}
			names = append(names, n)
		}
	}
	if len(docs) == 0 || len(names) == 0 {
		return
	}
	d := rapid.SampledFrom(docs).Draw(g.T, "taken in")
	sub := func(o Obj, k string) Obj {
		v, ok := o[k].(Obj)
		if !ok {
			v = Obj{}
			o[k] = v
		}
		return v
	}
	sub(sub(d, "components"), "schemas")[g.pick(names)] = rapid.SampledFrom([]interface{}{Obj{"type": "string", "title": "taken"}, Obj{}, Obj{"type": "object", "properties": Obj{"a.b": Obj{"type": "integer"}}}}).Draw(g.T, "taken")
}

// Finish makes cases small enough to be checked.
func (g *G) Finish() Case {
	g.C.Pkgs[g.C.Scan].Apart = false
	if _, err := g.C.Expect(); err == ErrUnspecified {
		// fewer types, so that what is inlined gets smaller
		for i := range g.C.Pkgs {
			for j := range g.C.Pkgs[i].Decls {
				d := &g.C.Pkgs[i].Decls[j]
				if d.Type.K == "struct" && len(d.Type.Fields) > 2 && !d.Alias {
					d.Type.Fields = d.Type.Fields[:2]
				}
			}
		}
	}
	return g.C
}

// Root adds the root sections to the configuration.
func (g *G) Root() {
	c := g.conf()
	ref := func() interface{} {
		p, _, ok := g.Pointer(g.O.Paths)
		if !ok {
			return Obj{"type": "integer"}
		}
		return Obj{"$ref": g.Spell(p, -1)}
	}
	docs := []*DocFile{}
	reach := g.C.Reachable()
	for i := range g.C.Pkgs {
		for k := range g.C.Pkgs[i].Docs {
			if d := &g.C.Pkgs[i].Docs[k]; reach[i] && docNames[d.Name] {
				docs = append(docs, d)
			}
		}
	}
	// every section on either side, on both or on none
	place := func(name string, make func(side string) interface{}) {
		if g.p(55) {
			c[name] = make("root")
		}
		if g.p(45) && len(docs) > 0 {
			if m, ok := docs[g.n(0, len(docs)-1)].Doc.(Obj); ok {
				if m["openapi"] != nil {
					if name == "components" {
						return // documents have theirs
					}
					m[name] = make("doc")
				}
			}
		}
	}
	place("info", func(side string) interface{} {
		m := Obj{}
		for _, k := range []string{"title", "version", "description", "termsOfService"} {
			if g.p(50) {
				m[k] = side + " " + k
			}
		}
		if g.p(30) {
			m["license"] = Obj{"name": side}
		}
		if g.p(30) {
			m["contact"] = Obj{"name": side, "email": side + "@ex.org"}
			if g.p(50) {
				m["contact"].(Obj)["url"] = "http://" + side
			}
		}
		if side == "doc" || m["title"] == nil && g.p(70) {
			if m["title"] == nil {
				m["title"] = side + " title"
			}
		}
		return m
	})
	place("externalDocs", func(side string) interface{} {
		return Obj{"url": "http://" + side, "description": side}
	})
	place("security", func(side string) interface{} {
		l := []interface{}{}
		for n := g.n(1, 2); n > 0; n-- {
			l = append(l, Obj{side + strconv.Itoa(n): []interface{}{"read", side}})
		}
		return l
	})
	place("servers", func(side string) interface{} {
		l := []interface{}{}
		for n := g.n(1, 3); n > 0; n-- {
			l = append(l, Obj{"url": "http://" + side + strconv.Itoa(n), "description": "d"})
		}
		return l
	})
	place("tags", func(side string) interface{} {
		l := []interface{}{}
		for n := g.n(1, 3); n > 0; n-- {
			l = append(l, Obj{"name": side + strconv.Itoa(n), "description": side})
		}
		return l
	})
	place("components", func(side string) interface{} {
		m := Obj{}
		if g.p(60) {
			m["schemas"] = Obj{"Root1": g.schemaSite(ref), "Root.2": g.schemaSite(ref)}
		}
		if g.p(40) {
			m["responses"] = Obj{"Err": Obj{"description": "e", "content": Obj{"application/json": Obj{"schema": ref()}}}}
		}
		if g.p(40) {
			m["securitySchemes"] = Obj{"root1": Obj{"type": "http", "scheme": "basic"}}
		}
		if g.p(30) {
			m["requestBodies"] = Obj{"Body": Obj{"content": Obj{"application/json": Obj{"schema": ref()}}}}
		}
		return m
	})
}

// schemaSite is a schema in the vocabulary of configuration.
func (g *G) schemaSite(ref func() interface{}) interface{} {
	switch g.n(0, 3) {
	case 0:
		return ref()
	case 1:
		return Obj{"type": "object", "properties": Obj{"a.b": ref(), "c": Obj{"type": "string"}}}
	case 2:
		return Obj{"type": "array", "items": ref()}
	}
	return Obj{"allOf": []interface{}{ref(), Obj{"type": "string", "description": "x"}}}
}

// Defaults adds operation defaults whose patterns match some operations. Defaults agree wherever they overlap.
func (g *G) Defaults() {
	defs := Obj{}
	paths := []string{}
	for _, p := range g.C.Pkgs {
		for _, d := range p.Docs {
			if m, ok := d.Doc.(Obj); ok {
				if ps, ok := m["paths"].(Obj); ok {
					paths = append(paths, keys(ps)...)
				}
			}
		}
	}
	refTo := g.Ref(-1)()
	master := Obj{
		"summary": "default summary", "description": "default", "deprecated": true,
		"externalDocs": Obj{"url": "http://default", "description": "d"},
		"security":     []interface{}{Obj{"def": []interface{}{}}},
		"servers":      []interface{}{Obj{"url": "http://default"}},
		"tags":         []interface{}{"default"},
	}
	responses := Obj{
		"401":     Obj{"description": "no", "content": Obj{"application/json": Obj{"schema": refTo}}},
		"default": Obj{"description": "other", "content": Obj{"application/json": Obj{"schema": Obj{"type": "array", "items": refTo}}}},
		"200":     Obj{"description": "default ok", "content": Obj{"text/plain": Obj{"schema": Obj{"type": "string"}}}},
	}
	most := 3
	if g.O.Disagree {
		most = 6
	}
	for n := g.n(0, most); n > 0; n-- {
		pat := "*"
		if len(paths) > 0 && g.p(70) {
			pat = g.pick(paths)
			switch g.n(0, 4) {
			case 0:
				pat = pat[:strings.LastIndexByte(pat, '/')+1] + "*"
			case 1:
				pat = "/p*"
			case 2:
				if i := strings.LastIndexByte(pat, '/'); i > 0 {
					pat = pat[:i] + "/{name}"
				}
			}
		} else if g.p(30) {
			pat = g.pick([]string{"/nothing", "/p0", "*/items0", "/*/{x}/*", "/shared"})
		}
		if g.p(40) {
			pat = g.pick([]string{"GET", "get", "POST", "Put", "delete", "PATCH", "TRACE", "head", "options"}) + ":" + pat
		}
		op := Obj{}
		for _, k := range keys(master) {
			if g.p(25) {
				op[k] = master[k]
				if s, ok := op[k].(string); ok && g.O.Disagree {
					op[k] = s + strconv.Itoa(n)
				}
			}
		}
		rs := Obj{}
		for _, k := range keys(responses) {
			if g.p(40) {
				rs[k] = responses[k]
			}
		}
		if len(rs) > 0 {
			op["responses"] = rs
		}
		defs[pat] = op
	}
	if len(defs) > 0 {
		g.conf()["operations"] = defs
	}
}
