package model

import (
	"strings"

	"github.com/buypal/oapi-go/verifharness/kit"
	"pgregory.net/rapid"
)

// Class describes a case: its shape, and whether its references get at something composite.
func Class(c Case) (i kit.Info) {
	want, w, err := c.expect()
	i.Label(err == ErrUnspecified, "unspecified or too large")
	i.Label(err != nil && err != ErrUnspecified, "has to fail")
	i.Nontrivial = err != nil && err != ErrUnspecified
	if err != nil {
		return
	}
	refs, deep := 0, false
	for n, p := range c.Pkgs {
		if !c.Reachable()[n] {
			i.Label(true, "unreachable package")
			continue
		}
		i.Label(p.Apart, "module of its own")
		for _, d := range p.Docs {
			kit.Walk(d.Doc, func(_ []string, v interface{}) {
				if m, ok := v.(Obj); ok {
					if s, ok := m["$ref"].(string); ok {
						if p, err := ParsePointer(s); err == nil && p.Scheme != "" {
							refs++
							deep = deep || len(p.Toks) > 1
						}
					}
				}
			})
		}
	}
	i.Nontrivial = refs > 0 && w.nodes > 40
	i.Label(deep, "reference into a type")
	i.Label(len(w.used) > 0, "exported components")
	i.Label(len(w.overrides) > 0, "overrides")
	n := w.nodes
	i.Label(n > 300, "large")
	i.Label(kit.Depth(want) > 14, "deep")
	i.Label(w.cut, "cut recursion")
	i.Label(w.hasTime, "time.Time")
	i.Label(c.has(func(t Type) bool { return t.K == "struct" && len(t.Fields) > 0 && t.Fields[0].Embedded }), "embedding")
	return
}

func (c Case) has(f func(Type) bool) bool {
	found := false
	var visit func(t Type)
	visit = func(t Type) {
		if found = found || f(t); found {
			return
		}
		if t.Elem != nil {
			visit(*t.Elem)
		}
		for _, f := range t.Fields {
			visit(f.Type)
		}
	}
	for _, p := range c.Pkgs {
		for _, d := range p.Decls {
			visit(d.Type)
		}
	}
	return found
}

// Spoil puts a type without a schema somewhere. Documents drawn afterwards may or may not get there.
func (g *G) Spoil() {
	var at []*Type
	seen := map[*Type]bool{}
	g.structs(func(t *Type) {
		for k := range t.Fields {
			f := &t.Fields[k]
			if f.Embedded || f.Tag != nil {
				continue
			}
			x := &f.Type
			for x.Elem != nil {
				at = append(at, x.Elem)
				x = x.Elem
			}
			if !seen[&f.Type] {
				at = append(at, &f.Type)
			}
		}
	})
	for i := range g.C.Pkgs {
		for j := range g.C.Pkgs[i].Decls {
			if k := g.kind[i][j]; k == "other" || k == "basic" {
				at = append(at, &g.C.Pkgs[i].Decls[j].Type)
			}
		}
	}
	if len(at) == 0 {
		g.C.Pkgs[g.C.Scan].Decls = append(g.C.Pkgs[g.C.Scan].Decls, Decl{Name: "Extra", Type: Type{K: g.pick(hiddenKinds)}})
		g.kind[g.C.Scan] = append(g.kind[g.C.Scan], "basic")
		return
	}
	n := rapid.IntRange(0, len(at)-1).Draw(g.T, "spoilt")
	*at[n] = Type{K: g.pick(hiddenKinds)}
}

// BadTag breaks the tag of a field.
func (g *G) BadTag() {
	var at []*Field
	g.structs(func(t *Type) {
		for k := range t.Fields {
			f := &t.Fields[k]
			if !f.Embedded && isExported(f.Name) && (f.Tag == nil || f.Tag.Oapi != "-" && f.Tag.JSON != "-") {
				at = append(at, f)
			}
		}
	})
	if len(at) == 0 {
		return
	}
	f := at[g.n(0, len(at)-1)]
	if f.Tag == nil {
		f.Tag = &Tag{}
	}
	add := func(n, v string) { f.Tag.Opts = append(f.Tag.Opts, [2]string{n, v}) }
	switch g.n(0, 5) {
	case 0:
		f.Tag = &Tag{Raw: g.pick([]string{`oapi`, `oapi:`, `oapi:"x`, `json:x`, `json:"a" oapi`, `oapi: "x"`, `:"x"`, `a b`})}
	case 1:
		opt := g.pick([]string{"maxlen", "minlen", "maxitems", "minitems", "maxprops", "minprops"})
		if _, ok := f.Tag.Opt(opt); !ok {
			add(opt, g.pick([]string{"x", "1.5", "true", "1e3", "0x", "--1", "99999999999999999999"}))
		}
	case 2:
		opt := g.pick([]string{"max", "min", "emax", "emin", "mulof"})
		if _, ok := f.Tag.Opt(opt); !ok {
			add(opt, g.pick([]string{"x", "true", "1e", "1.2.3", "one"}))
		}
	case 3:
		opt := g.pick([]string{"inline", "nullable", "readonly", "writeonly", "deprecated", "unique", "required"})
		if _, ok := f.Tag.Opt(opt); !ok {
			add(opt, g.pick([]string{"x", "2", "yes", "tRue", "01"}))
		}
	default:
		if _, ok := f.Tag.Opt("type"); !ok {
			add("type", g.pick([]string{"strin", "Int", "array", "int128", "String2", "null", "uint128"}))
		}
	}
}

// Lost changes one reference of a document so that it most likely denotes nothing.
func (g *G) Lost() {
	var at []Obj
	var home []int
	reach := g.C.Reachable()
	for i, p := range g.C.Pkgs {
		for _, d := range p.Docs {
			if !reach[i] || !docNames[d.Name] {
				continue
			}
			kit.Walk(d.Doc, func(_ []string, v interface{}) {
				if m, ok := v.(Obj); ok {
					if s, ok := m["$ref"].(string); ok {
						if p, err := ParsePointer(s); err == nil && p.Scheme == "go" {
							at, home = append(at, m), append(home, i)
						}
					}
				}
			})
		}
	}
	if len(at) == 0 {
		return
	}
	n := g.n(0, len(at)-1)
	p, _ := ParsePointer(at[n]["$ref"].(string))
	if p.Pkg == "" {
		p.Pkg = g.C.Pkgs[home[n]].ImportPath()
	}
	w := &world{c: g.C}
	i := g.n(0, len(p.Toks)-1)
	ins := func(i int, tok string) {
		p.Toks = append(p.Toks[:i:i], append([]string{tok}, p.Toks[i:]...)...)
	}
	steps := []string{"*", "[]", "Name", "ID", "Next", "Items", "hidden", "count", "0", "", "elem", "Item"}
	switch g.n(0, 11) {
	case 0, 1:
		ins(len(p.Toks), g.pick(steps))
	case 2:
		ins(i, g.pick(steps))
	case 3:
		p.Toks[i] = g.pick(steps)
	case 4:
		p.Toks[i] += g.pick([]string{"s", " ", "2", "*", "[]"})
	case 5:
		p.Toks[i] = strings.ToLower(p.Toks[i])
	case 6:
		if len(p.Toks) > 1 {
			p.Toks = append(p.Toks[:i:i], p.Toks[i+1:]...)
		}
	case 7:
		p.Pkg += g.pick([]string{"/x", "s", "/", "/..", "2"})
	case 8:
		p.Pkg = g.pick([]string{"ex.org/other", "m", "main", "pk0", "fmt", Module, Module + "/model", Module + "/api"})
	case 9: // a package of the module that is not imported
		p.Pkg = g.C.Pkgs[g.n(0, len(g.C.Pkgs)-1)].ImportPath()
	case 10: // through an unexported field, if there is one
		for _, t := range g.decls() {
			for _, f := range w.under(t).Fields {
				if w.under(t).K == "struct" && !isExported(w.fieldName(f)) {
					p = w.pointerTo(t).with(w.fieldName(f))
				}
			}
		}
	default: // an implicit dereference
		for _, t := range g.decls() {
			for _, f := range w.under(t).Fields {
				if u := w.under(f.Type); u.K == "ptr" {
					for _, f2 := range w.under(*u.Elem).Fields {
						p = w.pointerTo(t).with(w.fieldName(f)).with(w.fieldName(f2))
					}
				}
			}
		}
	}
	at[n]["$ref"] = p.String()
}

// BadExport adds an export comment that is wrong.
func (g *G) BadExport() {
	at := g.n(0, len(g.C.Pkgs)-1)
	p := &g.C.Pkgs[at]
	add := func(x Export) { p.Exports = append(p.Exports, x) }
	l := g.decls()
	w := &world{c: g.C}
	switch n := g.n(0, 7); {
	case n == 0:
		add(Export{Raw: g.pick([]string{"//openapi:schema", "//openapi:schema ", "//openapi:schema a b c", "//openapi:schema A A A A", "//openapi:nothing X"})})
	case n == 1:
		add(Export{Name: "Lost", Source: g.pick([]string{"Missing", "go://ex.org/none#/Item", "go://" + Module + "/zzz#/T", "Item/Missing", "go://" + p.ImportPath() + "#/Missing"})})
	case n == 2:
		add(Export{Name: "Lost", Source: g.pick([]string{"http://x#/A", "go://x#A", "go://%zz#/A", "file://y#/Item"})})
	case n == 3 && len(l) > 0: // a type under two names
		t := rapid.SampledFrom(l).Draw(g.T, "twice")
		a, b := w.pointerTo(t), w.pointerTo(t)
		add(Export{Name: "First", Source: a.String()})
		k := g.n(0, len(g.C.Pkgs)-1)
		g.C.Pkgs[k].Exports = append(g.C.Pkgs[k].Exports, Export{Name: "Second", Source: b.String()})
	case n == 4 && len(l) > 1: // a name of two types
		i := g.n(0, len(l)-2)
		add(Export{Name: "Same", Source: w.pointerTo(l[i]).String()})
		k := g.n(0, len(g.C.Pkgs)-1)
		g.C.Pkgs[k].Exports = append(g.C.Pkgs[k].Exports, Export{Name: "Same", Source: w.pointerTo(l[g.n(i+1, len(l)-1)]).String()})
	case len(p.Exports) > 0:
		add(p.Exports[g.n(0, len(p.Exports)-1)]) // the same comment again
	default:
		add(Export{Name: "Lost", Source: "Missing"})
	}
}

// leaf is a value in a document that is not an object, and its place.
type leaf struct {
	doc  *DocFile
	pkg  int
	path []string
	v    interface{}
}

func (g *G) leaves() (out []leaf) {
	for i := range g.C.Pkgs {
		for k := range g.C.Pkgs[i].Docs {
			d := &g.C.Pkgs[i].Docs[k]
			var visit func(path []string, v interface{})
			visit = func(path []string, v interface{}) {
				m, ok := v.(Obj)
				if !ok {
					out = append(out, leaf{d, i, path, v})
					return
				}
				for _, k := range keys(m) {
					visit(append(path[:len(path):len(path)], k), m[k])
				}
			}
			if docNames[d.Name] {
				visit(nil, d.Doc)
			}
		}
	}
	return
}

// state makes another document state a value. It reports whether the document had none there.
func (g *G) state(l leaf, v interface{}) bool {
	all := g.leaves()
	to := all[g.n(0, len(all)-1)]
	if to.doc == l.doc || len(l.path) == 0 {
		return false
	}
	v = localize(v, g.C.Pkgs[l.pkg].ImportPath())
	if s, ok := v.(string); ok && l.path[len(l.path)-1] == "$ref" {
		v = localize(Obj{"$ref": s}, g.C.Pkgs[l.pkg].ImportPath()).(Obj)["$ref"]
	}
	for i := len(l.path) - 1; i >= 0; i-- {
		v = Obj{l.path[i]: v}
	}
	d, ok := to.doc.Doc.(Obj)
	if !ok {
		return false
	}
	u, err := kit.Union(d, v.(Obj), func(a, b interface{}) (interface{}, error) { return nil, errCollision(a, b) })
	if err == nil {
		to.doc.Doc = u
	}
	return err == nil
}

// Repeat states some values of the documents again in others.
func (g *G) Repeat() {
	for n := g.n(0, 6); n > 0; n-- {
		l := g.leaves()
		x := l[g.n(0, len(l)-1)]
		g.state(x, x.v)
	}
}

// Contradict states one value of a document differently in another.
func (g *G) Contradict() {
	l := g.leaves()
	if len(l) == 0 {
		return
	}
	for try := 0; try < 8; try++ {
		x := l[g.n(0, len(l)-1)]
		if len(x.path) == 0 || x.path[0] == "openapi" && g.p(80) {
			continue
		}
		var v interface{}
		switch w := x.v.(type) {
		case string:
			if x.path[len(x.path)-1] == "$ref" {
				continue
			}
			v = g.pick([]string{w + " ", strings.ToUpper(w) + "!", "", "other", strings.ToUpper(w), strings.ToLower(w), strings.Title(w)})
			if g.p(20) {
				v = Obj{"x": w}
			}
		case float64:
			v = w + 1
			if g.p(20) {
				v = kit.JS(w)
			}
		case bool:
			v = !w
			if g.p(20) {
				v = kit.JS(w)
			}
		case []interface{}:
			switch g.n(0, 4) {
			case 4:
				var up interface{} = swap(w)
				v = up
			case 0:
				v = append(append([]interface{}{}, w...), "more")
			case 1:
				v = append([]interface{}{nil}, w...)
			case 2:
				v = []interface{}{}
			default:
				v = Obj{"0": w}
			}
		default:
			v = g.pick([]string{"", "null"})
		}
		if kit.Diff(v, x.v) == "" {
			continue
		}
		if g.state(x, v) {
			return
		}
	}
}

// swap changes the case of the text in v.
func swap(v interface{}) interface{} {
	switch x := v.(type) {
	case string:
		if u := strings.ToUpper(x); u != x {
			return u
		}
		return strings.ToLower(x)
	case []interface{}:
		out := make([]interface{}, len(x))
		for i, e := range x {
			out[i] = swap(e)
		}
		return out
	}
	return v
}
