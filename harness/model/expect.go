package model

import (
	"errors"
	"fmt"
	"net/url"
	"sort"
	"strconv"
	"strings"

	"github.com/buypal/oapi-go/verifharness/kit"
)

// ErrUnspecified: the properties do not say what the result is.
var ErrUnspecified = errors.New("unspecified")

// Pointer is a reference in normal form.
type Pointer struct {
	Scheme string
	Pkg    string
	Toks   []string
}

func (p Pointer) key() string {
	s := p.Scheme + "|" + p.Pkg
	for _, t := range p.Toks {
		s += "|" + strconv.Quote(t)
	}
	return s
}

func (p Pointer) with(tok string) Pointer {
	p.Toks = append(append([]string{}, p.Toks...), tok)
	return p
}

// String writes a pointer.
func (p Pointer) String() string {
	s := ""
	if p.Scheme != "" {
		s = p.Scheme + "://"
	}
	s += p.Pkg + "#"
	for _, t := range p.Toks {
		s += "/" + escape(t)
	}
	return s
}

func escape(t string) string {
	t = strings.ReplaceAll(strings.ReplaceAll(t, "~", "~0"), "/", "~1")
	return strings.ReplaceAll(t, "%", "%25")
}

// ParsePointer reads a pointer.
func ParsePointer(s string) (Pointer, error) {
	var p Pointer
	frag := ""
	if i := strings.IndexByte(s, '#'); i >= 0 {
		s, frag = s[:i], s[i+1:]
	}
	if i := strings.Index(s, "://"); i >= 0 {
		p.Scheme, s = s[:i], s[i+3:]
	}
	var err error
	if p.Pkg, err = url.PathUnescape(s); err != nil {
		return p, err
	}
	if frag, err = url.PathUnescape(frag); err != nil {
		return p, err
	}
	if frag == "" {
		return p, nil
	}
	if frag[0] != '/' {
		return p, fmt.Errorf("fragment %q", frag)
	}
	for _, t := range strings.Split(frag[1:], "/") {
		p.Toks = append(p.Toks, strings.ReplaceAll(strings.ReplaceAll(t, "~1", "/"), "~0", "~"))
	}
	return p, nil
}

func sorted(l []string) []string {
	sort.Strings(l)
	return l
}

// normal brings references and required lists to one form.
func normal(v interface{}) interface{} {
	switch x := v.(type) {
	case Obj:
		out := Obj{}
		for k, e := range x {
			out[k] = normal(e)
			if s, ok := e.(string); ok && k == "$ref" {
				if p, err := ParsePointer(s); err == nil {
					out[k] = p.String()
				}
			}
			if l, ok := e.([]interface{}); ok && k == "required" {
				names := []string{}
				for _, n := range l {
					s, ok := n.(string)
					if !ok {
						names = nil
						break
					}
					names = append(names, s)
				}
				if len(names) == len(l) {
					m := []interface{}{}
					for _, n := range sorted(names) {
						m = append(m, n)
					}
					out[k] = m
				}
			}
		}
		return out
	case []interface{}:
		out := make([]interface{}, len(x))
		for i, e := range x {
			out[i] = normal(e)
		}
		return out
	}
	return v
}

// ---- types ----

type world struct {
	c         Case
	pkgs      map[string]int
	exports   map[string]string // pointer -> name
	names     map[string]string // name -> pointer
	overrides map[string]interface{}
	used      map[string]interface{}
	nodes     int
	cut       bool // a recursion was cut
	hasTime   bool
}

const budget = 6000

func (w *world) spend(n int) error {
	w.nodes += n
	if w.nodes > budget {
		return ErrUnspecified // too large to be worth a check
	}
	return nil
}

// unalias follows alias declarations.
func (w *world) unalias(t Type) Type {
	for t.K == "named" {
		d := w.decl(t)
		if d == nil || !d.Alias {
			break
		}
		t = d.Type
	}
	return t
}

func (w *world) decl(t Type) *Decl {
	for i := range w.c.Pkgs[t.Pkg].Decls {
		if d := &w.c.Pkgs[t.Pkg].Decls[i]; d.Name == t.Name {
			return d
		}
	}
	return nil
}

// under is the underlying type: no name, no alias.
func (w *world) under(t Type) Type {
	for {
		t = w.unalias(t)
		if t.K != "named" {
			return t
		}
		d := w.decl(t)
		if d == nil {
			return Type{K: "missing"}
		}
		t = d.Type
	}
}

// ident is the same for identical types.
func (w *world) ident(t Type) string {
	t = w.unalias(t)
	switch t.K {
	case "named":
		return fmt.Sprintf("%d.%s", t.Pkg, t.Name)
	case "ptr":
		return "*" + w.ident(*t.Elem)
	case "slice":
		return "[]" + w.ident(*t.Elem)
	case "array":
		return fmt.Sprintf("[%d]%s", t.Len, w.ident(*t.Elem))
	case "map":
		return "map[" + t.Key + "]" + w.ident(*t.Elem)
	case "struct":
		s := "struct{"
		for _, f := range t.Fields {
			s += fmt.Sprintf("%s %v %s %s;", f.Name, f.Embedded, w.ident(f.Type), f.Tag.literal())
		}
		return s + "}"
	case "byte":
		return "uint8"
	case "rune":
		return "int32"
	}
	return t.K
}

func (w *world) pointerTo(t Type) Pointer {
	return Pointer{"go", w.c.Pkgs[t.Pkg].ImportPath(), []string{t.Name}}
}

func isExported(name string) bool {
	r := []rune(name)[0]
	return strings.ToUpper(string(r)) == string(r) && strings.ToLower(string(r)) != string(r)
}

// Find follows a pointer to a type.
func (w *world) find(p Pointer) (Type, error) {
	no := fmt.Errorf("no type %s", p)
	if p.Scheme != "go" || len(p.Toks) == 0 {
		return Type{}, no
	}
	if p.Pkg == "time" && len(p.Toks) == 1 && p.Toks[0] == "Time" {
		return Type{K: "time"}, nil
	}
	i, ok := w.pkgs[p.Pkg]
	if !ok {
		return Type{}, no
	}
	t := Type{K: "named", Pkg: i, Name: p.Toks[0]}
	if w.decl(t) == nil {
		return Type{}, no
	}
	for _, tok := range p.Toks[1:] {
		u := w.under(t)
		switch {
		case u.K == "struct":
			found := false
			for _, f := range u.Fields {
				if w.fieldName(f) == tok && isExported(tok) {
					t, found = f.Type, true
					break
				}
			}
			if !found {
				return Type{}, no
			}
		case u.K == "ptr" && tok == "*", (u.K == "slice" || u.K == "array" || u.K == "map") && tok == "[]":
			t = *u.Elem
		default:
			return Type{}, no
		}
	}
	return w.unalias(t), nil
}

// fieldName is the Go name of a field.
func (w *world) fieldName(f Field) string {
	if !f.Embedded {
		return f.Name
	}
	t := f.Type
	if t.K == "ptr" {
		t = *t.Elem
	}
	if t.K == "time" {
		return "Time"
	}
	if t.K == "named" {
		return t.Name // also of an alias
	}
	return t.K
}

var basics = map[string]Obj{
	"string": {"type": "string"}, "bool": {"type": "boolean"},
	"int": {"type": "integer", "format": "int32"}, "int8": {"type": "integer", "format": "int32"}, "int16": {"type": "integer", "format": "int32"},
	"int32": {"type": "integer", "format": "int32"}, "rune": {"type": "integer", "format": "int32"}, "int64": {"type": "integer", "format": "int64"},
	"uint": {"type": "integer", "format": "int32", "minimum": 0.}, "uint8": {"type": "integer", "format": "int32", "minimum": 0.}, "byte": {"type": "integer", "format": "int32", "minimum": 0.},
	"uint16": {"type": "integer", "format": "int32", "minimum": 0.}, "uint32": {"type": "integer", "format": "int32", "minimum": 0.}, "uint64": {"type": "integer", "format": "int64", "minimum": 0.},
	"float32": {"type": "number", "format": "float"}, "float64": {"type": "number", "format": "double"},
}

// what the type option of a tag may say
var tagTypes = map[string]Obj{
	"string": basics["string"], "bool": basics["bool"], "float32": basics["float32"], "float": basics["float32"], "float64": basics["float64"], "double": basics["float64"],
	"uint": basics["uint"], "uint8": basics["uint8"], "uint16": basics["uint16"], "uint32": basics["uint32"], "uint64": basics["uint64"],
	"int": basics["int"], "int8": basics["int8"], "int16": basics["int16"], "int32": basics["int32"], "integer": basics["int32"], "int64": basics["int64"],
	"base64": {"type": "string", "format": "binary"}, "uuid": {"type": "string", "format": "uuid"}, "password": {"type": "string", "format": "password"},
	"number": {"type": "number"}, "object": {"type": "object"},
}

// constrain applies what a tag says about values.
func constrain(s Obj, g *Tag) Obj {
	s = kit.Copy(s).(Obj)
	num := func(opt, key string) {
		if v, ok := g.num(opt); ok {
			s[key] = v
		}
	}
	switch s["type"] {
	case "integer", "number":
		num("min", "minimum")
		num("max", "maximum")
		num("mulof", "multipleOf")
		if v, ok := g.num("emin"); ok {
			s["minimum"], s["exclusiveMinimum"] = v, true
		}
		if v, ok := g.num("emax"); ok {
			s["maximum"], s["exclusiveMaximum"] = v, true
		}
	case "string":
		num("minlen", "minLength")
		num("maxlen", "maxLength")
		if v, ok := g.Opt("pattern"); ok && v != "" {
			s["pattern"] = v
		}
	case "object":
		num("minprops", "minProperties")
		num("maxprops", "maxProperties")
	case "array":
		num("minitems", "minItems")
		num("maxitems", "maxItems")
		if g.flag("unique") {
			s["uniqueItems"] = true
		}
	}
	return s
}

func setNullable(s Obj, def bool, g *Tag) bool {
	if _, ok := g.Opt("nullable"); ok {
		def = g.flag("nullable")
	}
	delete(s, "nullable")
	if def {
		s["nullable"] = true
	}
	return def
}

var timeTime = Pointer{Scheme: "go", Pkg: "time", Toks: []string{"Time"}}

// schema of a type with references to the structs in it. Where anonymous structs are is known from at.
func (w *world) schema(t Type, at Pointer, seen []string, g *Tag) (Obj, error) {
	if err := w.spend(1); err != nil {
		return nil, err
	}
	t = w.unalias(t)
	if t.K == "named" {
		at = w.pointerTo(t)
	}
	id := w.ident(t)
	for _, s := range seen {
		if s == id {
			return Obj{"$ref": at.String()}, nil
		}
	}
	root := len(seen) == 0
	seen = append(seen[:len(seen):len(seen)], id)
	u := w.under(t)
	if b, ok := basics[u.K]; ok {
		return constrain(b, g), nil
	}
	switch u.K {
	case "time":
		if t.K != "time" {
			return nil, ErrUnspecified
		}
		w.hasTime = true
		if _, over := w.overrides[timeTime.key()]; !root && (over || w.exports[timeTime.key()] != "") {
			return Obj{"$ref": timeTime.String()}, nil
		}
		return Obj{"type": "string"}, nil
	case "struct":
		if root {
			return w.object(t, at, seen)
		}
		return Obj{"$ref": at.String()}, nil
	case "ptr":
		s, err := w.schema(*u.Elem, at.with("*"), seen, g)
		if err != nil {
			return nil, err
		}
		null := setNullable(s, true, g)
		if _, ok := s["$ref"]; !ok || !null {
			return s, nil
		}
		delete(s, "nullable")
		return Obj{"oneOf": []interface{}{s, Obj{"type": "object", "nullable": true}}}, nil
	case "slice", "array":
		e, err := w.schema(*u.Elem, at.with("[]"), seen, g)
		if err != nil {
			return nil, err
		}
		s := constrain(Obj{"type": "array", "items": e}, g)
		if u.K == "array" && u.Len > 0 {
			s["maxItems"] = float64(u.Len)
		}
		setNullable(s, u.K == "slice", g)
		return s, nil
	case "map":
		e, err := w.schema(*u.Elem, at.with("[]"), seen, g)
		if err != nil {
			return nil, err
		}
		s := constrain(Obj{"type": "object", "additionalProperties": e}, g)
		setNullable(s, true, g)
		return s, nil
	}
	return nil, fmt.Errorf("type %s has no schema", u.K)
}

type property struct {
	name  string
	typ   Type
	at    Pointer
	tag   *Tag
	depth int
}

// properties of a struct: its own fields and those of structs embedded or inlined.
func (w *world) properties(t Type, at Pointer, seen []string) ([]property, error) {
	t = w.unalias(t)
	if t.K == "named" {
		at = w.pointerTo(t)
	}
	id := w.ident(t)
	for _, s := range seen {
		if s == id {
			return nil, nil
		}
	}
	seen = append(seen[:len(seen):len(seen)], id)
	var out []property
	for _, f := range w.under(t).Fields {
		if f.Tag != nil && f.Tag.Raw != "" {
			return nil, fmt.Errorf("malformed tag %s", f.Tag.Raw)
		}
		if f.Tag != nil && (f.Tag.Oapi == "-" || f.Tag.JSON == "-") {
			continue
		}
		if f.Tag != nil && f.Tag.bad() {
			return nil, fmt.Errorf("malformed option in tag %s", f.Tag.literal())
		}
		goname := w.fieldName(f)
		name := goname
		if f.Tag != nil && f.Tag.JSON != "" {
			name = f.Tag.JSON
		}
		if f.Tag != nil && f.Tag.Oapi != "" {
			name = f.Tag.Oapi
		}
		inner, star := f.Type, false
		if u := w.under(f.Type); u.K == "ptr" {
			inner, star = *u.Elem, true
		}
		flat := false
		if w.under(inner).K == "struct" {
			flat = f.Embedded && (f.Tag == nil || f.Tag.Oapi == "" && f.Tag.JSON == "")
			for _, o := range f.Tag.jopts() {
				if o == "inline" {
					flat = true
				}
			}
			if _, ok := f.Tag.Opt("inline"); ok {
				flat = f.Tag.flag("inline")
			}
		}
		if !isExported(goname) && !(flat && f.Embedded) {
			continue
		}
		fat := at.with(goname)
		if flat {
			if star {
				fat = fat.with("*")
			}
			l, err := w.properties(inner, fat, seen)
			if err != nil {
				return nil, err
			}
			out = append(out, l...)
			continue
		}
		out = append(out, property{name, f.Type, fat, f.Tag, len(seen)})
	}
	return out, nil
}

func (w *world) visible(t Type, at Pointer) (out []property, clash bool, err error) {
	l, err := w.properties(t, at, nil)
	if err != nil {
		return nil, false, err
	}
	top := map[string]int{}
	count := map[string]int{}
	for _, p := range l {
		if d, ok := top[p.name]; !ok || p.depth < d {
			top[p.name], count[p.name] = p.depth, 0
		}
		if p.depth == top[p.name] {
			count[p.name]++
		}
	}
	for _, p := range l {
		if p.depth == top[p.name] {
			clash = clash || count[p.name] > 1
			out = append(out, p)
		}
	}
	return
}

func (w *world) object(t Type, at Pointer, seen []string) (Obj, error) {
	l, clash, err := w.visible(t, at)
	if err != nil {
		return nil, err
	}
	if clash {
		return nil, ErrUnspecified
	}
	s := Obj{"type": "object"}
	props := Obj{}
	req := []interface{}{}
	for _, p := range l {
		var ps Obj
		if typ, ok := p.tag.Opt("type"); ok && typ != "" {
			b, ok := tagTypes[strings.Trim(typ, " ")]
			if !ok {
				return nil, fmt.Errorf("unknown type option %q", typ)
			}
			ps = constrain(b, p.tag)
		} else if ps, err = w.schema(p.typ, p.at, seen, p.tag); err != nil {
			return nil, err
		}
		if p.tag.flag("required") {
			req = append(req, p.name)
		}
		if _, ok := ps["$ref"]; !ok {
			for opt, key := range map[string]string{"deprecated": "deprecated", "readonly": "readOnly", "writeonly": "writeOnly"} {
				if p.tag.flag(opt) {
					ps[key] = true
				}
			}
			if v, ok := p.tag.Opt("format"); ok && v != "" {
				ps["format"] = v
			}
			if _, ok := p.tag.Opt("nullable"); ok {
				setNullable(ps, false, p.tag)
			}
		}
		props[p.name] = ps
	}
	if len(props) > 0 {
		s["properties"] = props
	}
	if len(req) > 0 {
		s["required"] = req
	}
	return s, nil
}

// ---- documents ----

// value of a pointer; stack holds the pointers being expanded.
func (w *world) value(p Pointer, stack []string) (interface{}, error) {
	k := p.key()
	stack = append(stack[:len(stack):len(stack)], k)
	if o, ok := w.overrides[k]; ok {
		return w.resolve(o, stack)
	}
	t, err := w.find(p)
	if err != nil {
		return nil, err
	}
	s, err := w.schema(t, p, nil, nil)
	if err != nil {
		return nil, err
	}
	return w.resolve(s, stack)
}

func (w *world) resolve(v interface{}, stack []string) (interface{}, error) {
	if err := w.spend(1); err != nil {
		return nil, err
	}
	switch x := v.(type) {
	case Obj:
		if r, ok := x["$ref"].(string); ok {
			p, err := ParsePointer(r)
			if err != nil {
				return nil, err
			}
			if p.Scheme != "" {
				if len(x) > 1 {
					return nil, ErrUnspecified
				}
				return w.reference(p, stack)
			}
		}
		out := Obj{}
		for _, k := range keys(x) {
			e, err := w.resolve(x[k], stack)
			if err != nil {
				return nil, err
			}
			out[k] = e
		}
		return out, nil
	case []interface{}:
		out := make([]interface{}, len(x))
		for i, e := range x {
			var err error
			if out[i], err = w.resolve(e, stack); err != nil {
				return nil, err
			}
		}
		return out, nil
	}
	return v, nil
}

func (w *world) reference(p Pointer, stack []string) (interface{}, error) {
	k := p.key()
	if name, ok := w.exports[k]; ok {
		if _, ok := w.used[name]; !ok {
			w.used[name] = nil
			v, err := w.value(p, nil)
			if err != nil {
				return nil, err
			}
			w.used[name] = v
		}
		return Obj{"$ref": Pointer{Toks: []string{"components", "schemas", name}}.String()}, nil
	}
	for _, s := range stack {
		if s == k {
			w.cut = true
			return Obj{}, nil
		}
	}
	return w.value(p, stack)
}

func keys(m Obj) []string {
	l := make([]string, 0, len(m))
	for k := range m {
		l = append(l, k)
	}
	return sorted(l)
}

var docNames = map[string]bool{"oapi.yaml": true, "oapi.yml": true, "oapi.json": true}

func (c Case) world() (*world, error) {
	w := &world{c: c, pkgs: map[string]int{}, exports: map[string]string{}, names: map[string]string{}, overrides: map[string]interface{}{}, used: map[string]interface{}{}}
	reach := c.Reachable()
	for i, p := range c.Pkgs {
		if reach[i] {
			w.pkgs[p.ImportPath()] = i
		}
	}
	for i, p := range c.Pkgs {
		if !reach[i] {
			continue
		}
		for _, x := range p.Exports {
			if x.Raw != "" {
				return nil, fmt.Errorf("malformed export comment %s", x.Raw)
			}
			ptr := Pointer{Scheme: "go", Pkg: p.ImportPath()}
			if strings.Contains(x.Source, "://") {
				var err error
				if ptr, err = ParsePointer(x.Source); err != nil {
					return nil, err
				}
			} else {
				ptr.Toks = strings.Split(x.Source, "/")
			}
			if _, err := w.find(ptr); err != nil {
				return nil, err
			}
			name := x.Name
			if name == "" {
				name = ptr.Toks[len(ptr.Toks)-1]
			}
			if _, ok := w.exports[ptr.key()]; ok {
				return nil, fmt.Errorf("%s is exported twice", ptr)
			}
			if _, ok := w.names[name]; ok {
				return nil, fmt.Errorf("%s names two types", name)
			}
			w.exports[ptr.key()], w.names[name] = name, ptr.key()
		}
	}
	ov, _ := c.Conf["overrides"].(Obj)
	for k, v := range ov {
		p, err := ParsePointer(k)
		if err != nil {
			return nil, err
		}
		w.overrides[p.key()] = v
	}
	return w, nil
}

// localize spells local shorthands with the package they are in.
func localize(v interface{}, pkg string) interface{} {
	switch x := v.(type) {
	case Obj:
		out := Obj{}
		for k, e := range x {
			out[k] = localize(e, pkg)
			if s, ok := e.(string); ok && k == "$ref" {
				if p, err := ParsePointer(s); err == nil && p.Scheme == "go" {
					if p.Pkg == "" {
						p.Pkg = pkg
					}
					out[k] = p.String()
				}
			}
		}
		return out
	case []interface{}:
		out := make([]interface{}, len(x))
		for i, e := range x {
			out[i] = localize(e, pkg)
		}
		return out
	}
	return v
}

func errCollision(a, b interface{}) error {
	return fmt.Errorf("%s collides with %s", kit.JS(a), kit.JS(b))
}

// Merged is the union of the documents of all packages.
func (c Case) Merged() (Obj, error) {
	doc := Obj{}
	reach := c.Reachable()
	for i, p := range c.Pkgs {
		if !reach[i] {
			continue
		}
		for _, d := range p.Docs {
			if !docNames[d.Name] {
				continue
			}
			if d.Raw != "" {
				return nil, fmt.Errorf("malformed document %s", d.Name)
			}
			m, ok := d.Doc.(Obj)
			if !ok {
				continue
			}
			if _, ok := m["openapi"]; !ok {
				continue
			}
			var err error
			doc, err = kit.Union(doc, localize(m, p.ImportPath()).(Obj), func(a, b interface{}) (interface{}, error) {
				if kit.Diff(normal(a), normal(b)) == "" {
					return a, nil
				}
				return nil, errCollision(a, b)
			})
			if err != nil {
				return nil, err
			}
		}
	}
	return doc, nil
}

// WithRoot adds the sections of the configuration.
func WithRoot(doc, conf Obj) (Obj, error) {
	out := kit.Copy(doc).(Obj)
	for _, k := range []string{"info", "components", "externalDocs", "security", "servers", "tags"} {
		r, in := conf[k]
		if !in || r == nil {
			continue
		}
		d, has := out[k]
		if !has {
			out[k] = kit.Copy(r)
			continue
		}
		u, err := kit.Union(Obj{k: d}, Obj{k: r}, func(a, b interface{}) (interface{}, error) {
			switch k {
			case "info":
				return b, nil
			case "components":
				if kit.Diff(a, b) == "" {
					return nil, ErrUnspecified
				}
				return nil, errCollision(a, b)
			}
			return a, nil
		})
		if err != nil {
			return nil, err
		}
		out[k] = u[k]
	}
	return out, nil
}

var opMethods = map[string]bool{"get": true, "put": true, "post": true, "delete": true, "options": true, "head": true, "patch": true, "trace": true}

// WithDefaults fills operations from defaults by pattern.
func WithDefaults(doc Obj, defs Obj) (Obj, error) {
	out := kit.Copy(doc).(Obj)
	paths, _ := out["paths"].(Obj)
	for path, item := range paths {
		m, ok := item.(Obj)
		if strings.HasPrefix(path, "x-") || !ok {
			continue
		}
		for method, op := range m {
			o, ok := op.(Obj)
			if !ok || !opMethods[strings.ToLower(method)] {
				continue
			}
			for _, pattern := range keys(defs) {
				if !kit.Match(pattern, method, path) {
					continue
				}
				def, _ := defs[pattern].(Obj)
				var err error
				var bad bool
				o, err = kit.Union(o, def, func(a, b interface{}) (interface{}, error) { return a, nil })
				if err != nil {
					return nil, err
				}
				kit.Walk(o, func(_ []string, v interface{}) {
					if x, ok := v.(Obj); ok {
						if _, ok := x["$ref"].(string); ok && len(x) > 1 {
							bad = true // a reference got siblings
						}
					}
				})
				if bad {
					return nil, ErrUnspecified
				}
			}
			m[method] = o
		}
	}
	return out, nil
}

// Expect is the document a scan has to give, or an error if it has to fail.
func (c Case) Expect() (interface{}, error) {
	doc, _, err := c.expect()
	return doc, err
}

func (c Case) expect() (interface{}, *world, error) {
	if c.Fail == "code" {
		return nil, nil, errors.New("the code is broken")
	}
	w, err := c.world()
	if err != nil {
		return nil, nil, err
	}
	doc, err := c.Merged()
	if err != nil {
		return nil, nil, err
	}
	doc, err = WithRoot(doc, c.Conf)
	if err != nil {
		return nil, nil, err
	}
	defs, _ := c.Conf["operations"].(Obj)
	doc, err = WithDefaults(doc, defs)
	if err != nil {
		return nil, nil, err
	}
	out, err := w.resolve(doc, nil)
	if err != nil {
		return nil, nil, err
	}
	res, ok := out.(Obj)
	if !ok {
		return nil, nil, ErrUnspecified
	}
	if len(w.used) > 0 {
		comps, ok := res["components"].(Obj)
		if !ok {
			comps = Obj{}
			res["components"] = comps
		}
		schemas, ok := comps["schemas"].(Obj)
		if !ok {
			schemas = Obj{}
			comps["schemas"] = schemas
		}
		for n, v := range w.used {
			schemas[n] = v // in place of one of the document
		}
	}
	if err := w.spend(0); err != nil {
		return nil, nil, err
	}
	return kit.Norm(res), w, nil
}
