package c22

import (
	"fmt"
	"net/url"
	"reflect"
	"sort"
	"strings"
	"testing"

	"github.com/buypal/oapi-go/internal/oapi/spec"
	"github.com/buypal/oapi-go/verifharness/kit"
	"pgregory.net/rapid"
)

type obj = map[string]interface{}
type list = []interface{}

// args of one call; every operation uses the ones it needs.
type args struct {
	Op    string
	Obj   int // which of the two objects under construction
	S, S2 string
	L     []string
	N     float64
	I     int64
	B     bool
	Subs  []int // sub-objects by number; -1 is nil
	V     interface{}
	Spare bool // the argument slice has spare capacity and is passed again
}

func set(m obj, k string, v interface{}) { m[k] = v }

func sub(m obj, k string) obj {
	x, ok := m[k].(obj)
	if !ok {
		x = obj{}
		m[k] = x
	}
	return x
}

// sub-schemas and their models
var subs = []struct {
	mk func() *spec.Schema
	m  obj
}{
	{func() *spec.Schema { return &spec.Schema{} }, obj{}},
	{spec.BooleanProperty, obj{"type": "boolean"}},
	{spec.Float64Property, obj{"type": "number", "format": "double"}},
	{spec.Float32Property, obj{"type": "number", "format": "float"}},
	{func() *spec.Schema { return spec.FloatFmtProperty("x") }, obj{"type": "number", "format": "x"}},
	{spec.Int8Property, obj{"type": "integer", "format": "int8"}},
	{spec.Int16Property, obj{"type": "integer", "format": "int16"}},
	{spec.Int32Property, obj{"type": "integer", "format": "int32"}},
	{spec.Int64Property, obj{"type": "integer", "format": "int64"}},
	{func() *spec.Schema { return spec.IntFmtProperty("y") }, obj{"type": "integer", "format": "y"}},
	{spec.StringProperty, obj{"type": "string"}},
	{spec.ByteProperty, obj{"type": "string", "format": "byte"}},
	{spec.BinaryProperty, obj{"type": "string", "format": "binary"}},
	{spec.PasswordProperty, obj{"type": "string", "format": "password"}},
	{spec.DateProperty, obj{"type": "string", "format": dateFormat("date", "data"), "example": anything}},
	{spec.DateTimeProperty, obj{"type": "string", "format": dateFormat("date-time", "data-time"), "example": anything}},
	{func() *spec.Schema { return spec.StrFmtProperty("z") }, obj{"type": "string", "format": "z"}},
	{func() *spec.Schema { return spec.MapProperty(spec.BooleanProperty()) }, obj{"type": "object", "additionalProperties": obj{"type": "boolean"}}},
	{func() *spec.Schema { return spec.ArrayProperty(spec.StringProperty()) }, obj{"type": "array", "items": obj{"type": "string"}}},
	{func() *spec.Schema { return spec.AllSchema(spec.StringProperty(), spec.BooleanProperty()) }, obj{"allOf": list{obj{"type": "string"}, obj{"type": "boolean"}}}},
	{func() *spec.Schema { return spec.OneSchema(spec.StringProperty(), spec.BooleanProperty()) }, obj{"oneOf": list{obj{"type": "string"}, obj{"type": "boolean"}}}},
	{func() *spec.Schema { return spec.AnySchema(spec.StringProperty(), spec.BooleanProperty()) }, obj{"anyOf": list{obj{"type": "string"}, obj{"type": "boolean"}}}},
	{func() *spec.Schema { return spec.NotSchema(spec.StringProperty()) }, obj{"not": obj{"type": "string"}}},
	{func() *spec.Schema { return spec.MapProperty(nil) }, obj{"type": "object"}},
	{func() *spec.Schema { return spec.ArrayProperty(nil) }, obj{"type": "array"}},
}

const anything = "\x00anything"

func dateFormat(f, known string) string {
	if kit.Known("date-format") {
		return "\x00or" + f + "|" + known
	}
	return f
}

// wild replaces what is not specified by what is there.
func wild(want, got interface{}) interface{} {
	switch w := want.(type) {
	case obj:
		g, _ := got.(obj)
		out := obj{}
		for k, e := range w {
			out[k] = wild(e, g[k])
		}
		return out
	case list:
		g, _ := got.(list)
		out := list{}
		for i, e := range w {
			var ge interface{}
			if i < len(g) {
				ge = g[i]
			}
			out = append(out, wild(e, ge))
		}
		return out
	case string:
		if w == anything && got != nil {
			return got
		}
		if strings.HasPrefix(w, "\x00or") {
			for _, x := range strings.Split(w[3:], "|") {
				if got == x {
					return got
				}
			}
		}
	}
	return want
}

func schema(i int) *spec.Schema {
	if i < 0 {
		return nil
	}
	return subs[i%len(subs)].mk()
}

func schemaModel(i int) obj { return kit.Copy(subs[i%len(subs)].m).(obj) }

func models(l []int) list {
	out := list{}
	for _, i := range l {
		out = append(out, schemaModel(i))
	}
	return out
}

func spareStrings(l []string) []string {
	x := make([]string, len(l), len(l)+3)
	copy(x, l)
	return x
}

type schemaOp struct {
	name string
	real func(s *spec.Schema, a args) *spec.Schema
	mod  func(m obj, a args)
}

func schemas(a args) []*spec.Schema {
	out := make([]*spec.Schema, 0, len(a.Subs)+2)
	for _, i := range a.Subs {
		out = append(out, schema(i))
	}
	return out
}

func extDocs(m obj, d, u string) {
	if d == "" && u == "" {
		delete(m, "externalDocs")
		return
	}
	x := sub(m, "externalDocs")
	x["description"], x["url"] = d, u
}

func strs(l []string) list {
	out := list{}
	for _, s := range l {
		out = append(out, s)
	}
	return out
}

func app(v interface{}, more list) list {
	l, _ := v.(list)
	return append(append(list{}, l...), more...)
}

var schemaOps = []schemaOp{
	{"WithTitle", func(s *spec.Schema, a args) *spec.Schema { return s.WithTitle(a.S) }, func(m obj, a args) { m["title"] = a.S }},
	{"WithDescription", func(s *spec.Schema, a args) *spec.Schema { return s.WithDescription(a.S) }, func(m obj, a args) { m["description"] = a.S }},
	{"WithProperties", nil, func(m obj, a args) {
		p := obj{}
		for i, k := range a.L {
			if i < len(a.Subs) {
				p[k] = schemaModel(a.Subs[i])
			}
		}
		m["properties"] = p
	}},
	{"WithProperty", func(s *spec.Schema, a args) *spec.Schema { return s.WithProperty(a.S, schema(a.Subs[0])) }, func(m obj, a args) { sub(m, "properties")[a.S] = schemaModel(a.Subs[0]) }},
	{"WithAllOf", nil, func(m obj, a args) { m["allOf"] = models(a.Subs) }},
	{"AddToAllOf", nil, func(m obj, a args) { m["allOf"] = app(m["allOf"], models(a.Subs)) }},
	{"WithMaxProperties", func(s *spec.Schema, a args) *spec.Schema { return s.WithMaxProperties(a.I) }, func(m obj, a args) { m["maxProperties"] = float64(a.I) }},
	{"WithMinProperties", func(s *spec.Schema, a args) *spec.Schema { return s.WithMinProperties(a.I) }, func(m obj, a args) { m["minProperties"] = float64(a.I) }},
	{"WithType", func(s *spec.Schema, a args) *spec.Schema { return s.WithType(spec.OAPIType(a.S), a.S2) }, func(m obj, a args) { m["type"], m["format"] = a.S, a.S2 }},
	{"WithFormat", func(s *spec.Schema, a args) *spec.Schema { return s.WithFormat(a.S) }, func(m obj, a args) { m["format"] = a.S }},
	{"WithDefault", func(s *spec.Schema, a args) *spec.Schema { return s.WithDefault(spec.NewAny(a.V)) }, func(m obj, a args) { m["default"] = a.V }},
	{"WithRequired", nil, func(m obj, a args) { m["required"] = strs(a.L) }},
	{"AddRequired", nil, func(m obj, a args) { m["required"] = app(m["required"], strs(a.L)) }},
	{"WithMaxLength", func(s *spec.Schema, a args) *spec.Schema { return s.WithMaxLength(a.I) }, func(m obj, a args) { m["maxLength"] = float64(a.I) }},
	{"WithMinLength", func(s *spec.Schema, a args) *spec.Schema { return s.WithMinLength(a.I) }, func(m obj, a args) { m["minLength"] = float64(a.I) }},
	{"WithPattern", func(s *spec.Schema, a args) *spec.Schema { return s.WithPattern(a.S) }, func(m obj, a args) { m["pattern"] = a.S }},
	{"WithMultipleOf", func(s *spec.Schema, a args) *spec.Schema { return s.WithMultipleOf(a.N) }, func(m obj, a args) { m["multipleOf"] = a.N }},
	{"WithMaximum", func(s *spec.Schema, a args) *spec.Schema { return s.WithMaximum(a.N, a.B) }, func(m obj, a args) { m["maximum"], m["exclusiveMaximum"] = a.N, a.B }},
	{"WithMinimum", func(s *spec.Schema, a args) *spec.Schema { return s.WithMinimum(a.N, a.B) }, func(m obj, a args) { m["minimum"], m["exclusiveMinimum"] = a.N, a.B }},
	{"WithEnum", nil, func(m obj, a args) { m["enum"] = strs(a.L) }},
	{"WithMaxItems", func(s *spec.Schema, a args) *spec.Schema { return s.WithMaxItems(a.I) }, func(m obj, a args) { m["maxItems"] = float64(a.I) }},
	{"WithMinItems", func(s *spec.Schema, a args) *spec.Schema { return s.WithMinItems(a.I) }, func(m obj, a args) { m["minItems"] = float64(a.I) }},
	{"UniqueValues", func(s *spec.Schema, a args) *spec.Schema { return s.UniqueValues() }, func(m obj, a args) { m["uniqueItems"] = true }},
	{"AllowDuplicates", func(s *spec.Schema, a args) *spec.Schema { return s.AllowDuplicates() }, func(m obj, a args) { m["uniqueItems"] = false }},
	{"AsReadOnly", func(s *spec.Schema, a args) *spec.Schema { return s.AsReadOnly() }, func(m obj, a args) { m["readOnly"] = true }},
	{"AsWritable", func(s *spec.Schema, a args) *spec.Schema { return s.AsWritable() }, func(m obj, a args) { m["readOnly"] = false }},
	{"WithExample", func(s *spec.Schema, a args) *spec.Schema { return s.WithExample(spec.NewAny(a.V)) }, func(m obj, a args) { m["example"] = a.V }},
	{"WithExternalDocs", func(s *spec.Schema, a args) *spec.Schema { return s.WithExternalDocs(a.S, a.S2) }, func(m obj, a args) { extDocs(m, a.S, a.S2) }},
	{"WithXMLName", func(s *spec.Schema, a args) *spec.Schema { return s.WithXMLName(a.S) }, func(m obj, a args) { sub(m, "xml")["name"] = a.S }},
	{"WithXMLNamespace", func(s *spec.Schema, a args) *spec.Schema { return s.WithXMLNamespace(a.S) }, func(m obj, a args) { sub(m, "xml")["namespace"] = a.S }},
	{"WithXMLPrefix", func(s *spec.Schema, a args) *spec.Schema { return s.WithXMLPrefix(a.S) }, func(m obj, a args) { sub(m, "xml")["prefix"] = a.S }},
	{"AsXMLAttribute", func(s *spec.Schema, a args) *spec.Schema { return s.AsXMLAttribute() }, func(m obj, a args) { sub(m, "xml")["attribute"] = true }},
	{"AsXMLElement", func(s *spec.Schema, a args) *spec.Schema { return s.AsXMLElement() }, func(m obj, a args) { sub(m, "xml")["attribute"] = false }},
	{"AsWrappedXML", func(s *spec.Schema, a args) *spec.Schema { return s.AsWrappedXML() }, func(m obj, a args) { sub(m, "xml")["wrapped"] = true }},
	{"AsUnwrappedXML", func(s *spec.Schema, a args) *spec.Schema { return s.AsUnwrappedXML() }, func(m obj, a args) { sub(m, "xml")["wrapped"] = false }},
}

type seq struct{ Ops []args }

func genArgs(t *rapid.T, op string) args {
	a := args{
		Op: op, Obj: rapid.IntRange(0, 1).Draw(t, "obj"),
		S: rapid.SampledFrom([]string{"a", "b", "", "a.b", "é"}).Draw(t, "s"), S2: rapid.SampledFrom([]string{"c", "", "d"}).Draw(t, "s2"),
		N: rapid.SampledFrom([]float64{0, 1, -1.5, 1e9}).Draw(t, "n"), I: int64(rapid.IntRange(0, 5).Draw(t, "i")), B: rapid.Bool().Draw(t, "b"),
		L:     rapid.SliceOfN(rapid.SampledFrom([]string{"a", "b", "c"}), 0, 3).Draw(t, "l"),
		Subs:  rapid.SliceOfN(rapid.IntRange(0, len(subs)-1), 1, 3).Draw(t, "subs"),
		V:     kit.Value(t, kit.DocOpt{Depth: 1, Width: 2}, 1),
		Spare: rapid.Bool().Draw(t, "spare"),
	}
	return a
}

func genSeq(t *rapid.T) seq {
	var s seq
	n := rapid.IntRange(1, 10).Draw(t, "n")
	for i := 0; i < n; i++ {
		s.Ops = append(s.Ops, genArgs(t, rapid.SampledFrom(schemaOps).Draw(t, "op").name))
	}
	return s
}

func checkSeq(q seq) error {
	real := []*spec.Schema{{}, {}}
	model := []obj{{}, {}}
	var argStr [][]string // argument slices of the past and copies of them
	var argStrCopy [][]string
	keep := func(l []string) []string {
		x := spareStrings(l)
		argStr = append(argStr, x)
		argStrCopy = append(argStrCopy, append([]string{}, l...))
		return x
	}
	var argMap []map[string]*spec.Schema
	var argMapCopy []map[string]*spec.Schema
	for n, a := range q.Ops {
		if kit.Known("shared-arguments") {
			a.Spare = false
		}
		var op schemaOp
		for _, o := range schemaOps {
			if o.name == a.Op {
				op = o
			}
		}
		s := real[a.Obj]
		var out *spec.Schema
		switch a.Op {
		case "WithRequired", "AddRequired":
			l := keep(a.L)
			if a.Spare {
				// both objects get the same argument
				l2 := l
				o := real[1-a.Obj]
				if a.Op == "WithRequired" {
					o.WithRequired(l2...)
				} else {
					o.AddRequired(l2...)
				}
				op.mod(model[1-a.Obj], a)
			}
			if a.Op == "WithRequired" {
				out = s.WithRequired(l...)
			} else {
				out = s.AddRequired(l...)
			}
		case "WithAllOf":
			l := schemas(a)
			if a.Spare {
				real[1-a.Obj].WithAllOf(l...)
				op.mod(model[1-a.Obj], a)
			}
			out = s.WithAllOf(l...)
		case "AddToAllOf":
			l := schemas(a)
			if a.Spare {
				real[1-a.Obj].AddToAllOf(l...)
				op.mod(model[1-a.Obj], a)
			}
			out = s.AddToAllOf(l...)
		case "WithEnum":
			var l []spec.Any
			for _, x := range a.L {
				l = append(l, spec.NewAny(x))
			}
			out = s.WithEnum(l...)
		case "WithProperties":
			m := map[string]*spec.Schema{}
			for i, k := range a.L {
				if i < len(a.Subs) {
					m[k] = schema(a.Subs[i])
				}
			}
			argMap = append(argMap, m)
			c := map[string]*spec.Schema{}
			for k, v := range m {
				c[k] = v
			}
			argMapCopy = append(argMapCopy, c)
			if a.Spare {
				real[1-a.Obj].WithProperties(m)
				op.mod(model[1-a.Obj], a)
			}
			out = s.WithProperties(m)
		default:
			out = op.real(s, a)
		}
		if out != s {
			return fmt.Errorf("step %d %s: returns another object", n, a.Op)
		}
		op.mod(model[a.Obj], a)
		for i := range real {
			got := kit.Norm(real[i])
			if d := kit.OASSame("Schema", wild(kit.Norm(model[i]), got), got); d != "" {
				return fmt.Errorf("after step %d %s(%s): schema %d: %s", n, a.Op, kit.JS(a), i, d)
			}
		}
		for i := range argStr {
			if !reflect.DeepEqual(argStr[i], argStrCopy[i]) {
				return fmt.Errorf("after step %d %s: an argument changed from %q to %q", n, a.Op, argStrCopy[i], argStr[i])
			}
		}
		for i := range argMap {
			if !reflect.DeepEqual(argMap[i], argMapCopy[i]) && !kit.Known("shared-arguments") {
				return fmt.Errorf("after step %d %s: an argument map changed from %v to %v", n, a.Op, argMapCopy[i], argMap[i])
			}
		}
	}
	return nil
}

// ---- constructors and the other objects ----

type ctor struct {
	name string
	kind string
	mk   func(a args) interface{}
	mod  func(a args) obj
}

func body(mime string, a args) obj {
	mt := obj{}
	if a.Subs[0] >= 0 {
		mt["schema"] = schemaModel(a.Subs[0])
	}
	return obj{"content": obj{mime: mt}}
}

func param(in string, a args) obj {
	m := obj{"in": in, "name": a.S}
	if in == "path" {
		m["required"] = true
	}
	if a.Subs[0] >= 0 {
		m["schema"] = schemaModel(a.Subs[0])
	}
	return m
}

var ctors = []ctor{
	{"QueryParam", "Parameter", func(a args) interface{} { return spec.QueryParam(a.S, schema(a.Subs[0])) }, func(a args) obj { return param("query", a) }},
	{"HeaderParam", "Parameter", func(a args) interface{} { return spec.HeaderParam(a.S, schema(a.Subs[0])) }, func(a args) obj { return param("header", a) }},
	{"PathParam", "Parameter", func(a args) interface{} { return spec.PathParam(a.S, schema(a.Subs[0])) }, func(a args) obj { return param("path", a) }},
	{"CookieParam", "Parameter", func(a args) interface{} { return spec.CookieParam(a.S, schema(a.Subs[0])) }, func(a args) obj { return param("cookie", a) }},
	{"JSONRequestBody", "RequestBody", func(a args) interface{} { return spec.JSONRequestBody(schema(a.Subs[0])) }, func(a args) obj { return body("application/json", a) }},
	{"XMLRequestBody", "RequestBody", func(a args) interface{} { return spec.XMLRequestBody(schema(a.Subs[0])) }, func(a args) obj { return body("application/xml", a) }},
	{"TextPlainRequestBody", "RequestBody", func(a args) interface{} { return spec.TextPlainRequestBody(schema(a.Subs[0])) }, func(a args) obj { return body("text/plain", a) }},
	{"OctetStreamRequestBody", "RequestBody", func(a args) interface{} { return spec.OctetStreamRequestBody(schema(a.Subs[0])) }, func(a args) obj { return body("application/octet-stream", a) }},
	{"URLEncodedRequestBody", "RequestBody", func(a args) interface{} { return spec.URLEncodedRequestBody(schema(a.Subs[0])) }, func(a args) obj { return body("application/x-www-form-urlencoded", a) }},
	{"FormDataRequestBody", "RequestBody", func(a args) interface{} { return spec.FormDataRequestBody(schema(a.Subs[0])) }, func(a args) obj { return body("multipart/form-data", a) }},
	{"NewRequestBody", "RequestBody", func(a args) interface{} { return spec.NewRequestBody(a.S, schema(a.Subs[0])) }, func(a args) obj { return body(a.S, a) }},
	{"JSONResponse", "Response", func(a args) interface{} { return spec.JSONResponse(schema(a.Subs[0])) }, func(a args) obj { return body("application/json", a) }},
	{"XMLResponse", "Response", func(a args) interface{} { return spec.XMLResponse(schema(a.Subs[0])) }, func(a args) obj { return body("application/xml", a) }},
	{"TextPlainResponse", "Response", func(a args) interface{} { return spec.TextPlainResponse(schema(a.Subs[0])) }, func(a args) obj { return body("text/plain", a) }},
	{"OctetStreamResponse", "Response", func(a args) interface{} { return spec.OctetStreamResponse(schema(a.Subs[0])) }, func(a args) obj { return body("application/octet-stream", a) }},
	{"URLEncodedResponse", "Response", func(a args) interface{} { return spec.URLEncodedResponse(schema(a.Subs[0])) }, func(a args) obj { return body("application/x-www-form-urlencoded", a) }},
	{"FormDataResponse", "Response", func(a args) interface{} { return spec.FormDataResponse(schema(a.Subs[0])) }, func(a args) obj { return body("multipart/form-data", a) }},
	{"NewResponse", "Response", func(a args) interface{} { return spec.NewResponse(a.S, schema(a.Subs[0])) }, func(a args) obj { return body(a.S, a) }},
	{"BasicAuth", "SecurityScheme", func(a args) interface{} { return spec.BasicAuth() }, func(a args) obj { return obj{"type": "http", "scheme": "basic"} }},
	{"BearerAuth", "SecurityScheme", func(a args) interface{} { return spec.BearerAuth(a.S) }, func(a args) obj { return obj{"type": "http", "scheme": "bearer", "bearerFormat": a.S} }},
	{"APIKeyAuth", "SecurityScheme", func(a args) interface{} { return spec.APIKeyAuth(a.S, a.S2) }, func(a args) obj { return obj{"type": "apiKey", "name": a.S, "in": a.S2} }},
	{"OAuth2Implicit", "SecurityScheme", func(a args) interface{} { return spec.OAuth2Implicit(a.S) }, func(a args) obj {
		return obj{"type": "oauth2", "flows": obj{"implicit": obj{"authorizationUrl": a.S}}}
	}},
	{"OAuth2Password", "SecurityScheme", func(a args) interface{} { return spec.OAuth2Password(a.S) }, func(a args) obj {
		return obj{"type": "oauth2", "flows": obj{"password": obj{"tokenUrl": a.S}}}
	}},
	{"OAuth2AuthorizationCode", "SecurityScheme", func(a args) interface{} { return spec.OAuth2AuthorizationCode(a.S) }, func(a args) obj {
		return obj{"type": "oauth2", "flows": obj{"authorizationCode": obj{"tokenUrl": a.S}}}
	}},
	{"OAuth2ClientCredentials", "SecurityScheme", func(a args) interface{} { return spec.OAuth2ClientCredentials(a.S, a.S2) }, func(a args) obj {
		return obj{"type": "oauth2", "flows": obj{"clientCredentials": obj{"authorizationUrl": a.S, "tokenUrl": a.S2}}}
	}},
	{"NewHeader", "Header", func(a args) interface{} { return &spec.Header{} }, func(a args) obj { return obj{} }},
	{"NewXML", "XML", func(a args) interface{} { return &spec.XML{} }, func(a args) obj { return obj{} }},
}

// setters per kind
var setters = map[string][]struct {
	name string
	real func(x interface{}, a args) interface{}
	mod  func(m obj, a args)
}{
	"Parameter": {
		{"WithDescription", func(x interface{}, a args) interface{} { return x.(*spec.Parameter).WithDescription(a.S) }, func(m obj, a args) { m["description"] = a.S }},
		{"WithName", func(x interface{}, a args) interface{} { return x.(*spec.Parameter).WithName(a.S) }, func(m obj, a args) { m["name"] = a.S }},
		{"WithLocation", func(x interface{}, a args) interface{} { return x.(*spec.Parameter).WithLocation(a.S) }, func(m obj, a args) { m["in"] = a.S }},
		{"WithSchema", func(x interface{}, a args) interface{} { return x.(*spec.Parameter).WithSchema(schema(a.Subs[0])) }, func(m obj, a args) {
			delete(m, "schema")
			if a.Subs[0] >= 0 {
				m["schema"] = schemaModel(a.Subs[0])
			}
		}},
		{"AllowsEmptyValues", func(x interface{}, a args) interface{} { return x.(*spec.Parameter).AllowsEmptyValues() }, func(m obj, a args) { m["allowEmptyValue"] = true }},
		{"NoEmptyValues", func(x interface{}, a args) interface{} { return x.(*spec.Parameter).NoEmptyValues() }, func(m obj, a args) { m["allowEmptyValue"] = false }},
		{"AsOptional", func(x interface{}, a args) interface{} { return x.(*spec.Parameter).AsOptional() }, func(m obj, a args) { m["required"] = false }},
	},
	"Header": {
		{"WithDescription", func(x interface{}, a args) interface{} { return x.(*spec.Header).WithDescription(a.S) }, func(m obj, a args) { m["description"] = a.S }},
		{"AllowsEmptyValues", func(x interface{}, a args) interface{} { return x.(*spec.Header).AllowsEmptyValues() }, func(m obj, a args) { m["allowEmptyValue"] = true }},
		{"NoEmptyValues", func(x interface{}, a args) interface{} { return x.(*spec.Header).NoEmptyValues() }, func(m obj, a args) { m["allowEmptyValue"] = false }},
		{"AsOptional", func(x interface{}, a args) interface{} { return x.(*spec.Header).AsOptional() }, func(m obj, a args) { m["required"] = false }},
	},
	"XML": {
		{"WithName", func(x interface{}, a args) interface{} { return x.(*spec.XML).WithName(a.S) }, func(m obj, a args) { m["name"] = a.S }},
		{"WithNamespace", func(x interface{}, a args) interface{} { return x.(*spec.XML).WithNamespace(a.S) }, func(m obj, a args) { m["namespace"] = a.S }},
		{"WithPrefix", func(x interface{}, a args) interface{} { return x.(*spec.XML).WithPrefix(a.S) }, func(m obj, a args) { m["prefix"] = a.S }},
		{"AsAttribute", func(x interface{}, a args) interface{} { return x.(*spec.XML).AsAttribute() }, func(m obj, a args) { m["attribute"] = true }},
		{"AsElement", func(x interface{}, a args) interface{} { return x.(*spec.XML).AsElement() }, func(m obj, a args) { m["attribute"] = false }},
		{"AsWrapped", func(x interface{}, a args) interface{} { return x.(*spec.XML).AsWrapped() }, func(m obj, a args) { m["wrapped"] = true }},
		{"AsUnwrapped", func(x interface{}, a args) interface{} { return x.(*spec.XML).AsUnwrapped() }, func(m obj, a args) { m["wrapped"] = false }},
	},
	"Response": {
		{"WithDescription", func(x interface{}, a args) interface{} { return x.(*spec.Response).WithDescription(a.S) }, func(m obj, a args) { m["description"] = a.S }},
		{"AddHeader", func(x interface{}, a args) interface{} {
			if a.B {
				return x.(*spec.Response).AddHeader(a.S, nil)
			}
			return x.(*spec.Response).AddHeader(a.S, (&spec.Header{}).WithDescription(a.S2))
		}, func(m obj, a args) { add(m, "headers", a, obj{"description": a.S2}) }},
		{"AddContent", func(x interface{}, a args) interface{} {
			if a.B {
				return x.(*spec.Response).AddContent(a.S, nil)
			}
			return x.(*spec.Response).AddContent(a.S, &spec.MediaType{Schema: schema(a.Subs[0])})
		}, func(m obj, a args) {
			mt := obj{}
			if a.Subs[0] >= 0 {
				mt["schema"] = schemaModel(a.Subs[0])
			}
			add(m, "content", a, mt)
		}},
		{"AddLink", func(x interface{}, a args) interface{} {
			if a.B {
				return x.(*spec.Response).AddLink(a.S, nil)
			}
			return x.(*spec.Response).AddLink(a.S, &spec.Link{Description: a.S2})
		}, func(m obj, a args) { add(m, "links", a, obj{"description": a.S2}) }},
		{"RemoveHeader", func(x interface{}, a args) interface{} { return x.(*spec.Response).RemoveHeader(a.S) }, func(m obj, a args) { delete(sub(m, "headers"), a.S) }},
		{"RemoveContent", func(x interface{}, a args) interface{} { return x.(*spec.Response).RemoveContent(a.S) }, func(m obj, a args) { delete(sub(m, "content"), a.S) }},
		{"RemoveLink", func(x interface{}, a args) interface{} { return x.(*spec.Response).RemoveLink(a.S) }, func(m obj, a args) { delete(sub(m, "links"), a.S) }},
	},
}

func add(m obj, coll string, a args, v obj) {
	if a.B {
		delete(sub(m, coll), a.S)
		return
	}
	sub(m, coll)[a.S] = v
}

type objSeq struct {
	Ctor string
	New  args
	Ops  []args
}

func genObj(t *rapid.T) objSeq {
	c := rapid.SampledFrom(ctors).Draw(t, "ctor")
	q := objSeq{Ctor: c.name, New: genArgs(t, c.name)}
	q.New.Subs[0] = rapid.IntRange(-1, len(subs)-1).Draw(t, "schema")
	if ss := setters[c.kind]; len(ss) > 0 {
		n := rapid.IntRange(0, 8).Draw(t, "n")
		for i := 0; i < n; i++ {
			a := genArgs(t, rapid.SampledFrom(ss).Draw(t, "setter").name)
			a.Subs[0] = rapid.IntRange(-1, len(subs)-1).Draw(t, "schema")
			q.Ops = append(q.Ops, a)
		}
	}
	return q
}

func checkObj(q objSeq) error {
	for _, c := range ctors {
		if c.name != q.Ctor {
			continue
		}
		if strings.HasPrefix(c.name, "OAuth2") && kit.Known("oauth2") {
			return nil
		}
		x := c.mk(q.New)
		m := c.mod(q.New)
		cmp := func(what string) error {
			got := kit.Norm(x)
			if d := kit.OASSame(c.kind, wild(kit.Norm(m), got), got); d != "" {
				return fmt.Errorf("after %s: %s", what, d)
			}
			return nil
		}
		if err := cmp(c.name + kit.JS(q.New)); err != nil {
			return err
		}
		for _, a := range q.Ops {
			if a.B && (a.Op == "AddContent" || a.Op == "AddLink") && kit.Known("nil-content") {
				continue
			}
			for _, s := range setters[c.kind] {
				if s.name == a.Op {
					if out := s.real(x, a); out != x {
						return fmt.Errorf("%s returns another object", a.Op)
					}
					s.mod(m, a)
				}
			}
			if err := cmp(a.Op + kit.JS(a)); err != nil {
				return err
			}
		}
	}
	return nil
}

// ---- servers, operations ----

type misc struct {
	URIs []string
	Cap  int
	Ops  []int // which methods a path item has
}

var methods = []string{"get", "put", "post", "delete", "options", "head", "patch", "trace"}

func genMisc(t *rapid.T) misc {
	return misc{
		URIs: rapid.SliceOfN(rapid.SampledFrom([]string{"http://b.org:81/v1", "https://a.org", "/", "/v2", "http://b.org:81/v1", "http://a.org/", "x", "https://c.org:443/v1", "", "http://%zz", ":bad"}), 0, 5).Draw(t, "uris"),
		Cap:  rapid.IntRange(0, 3).Draw(t, "cap"),
		Ops:  rapid.SliceOfNDistinct(rapid.IntRange(0, 7), 0, 8, rapid.ID[int]).Draw(t, "ops"),
	}
}

func uniq(l []string) []string {
	seen := map[string]bool{}
	out := []string{}
	for _, s := range l {
		if !seen[s] {
			seen[s] = true
			out = append(out, s)
		}
	}
	sort.Strings(out)
	return out
}

func checkMisc(c misc) error {
	full := make([]string, len(c.URIs)+c.Cap)
	copy(full, c.URIs)
	for i := len(c.URIs); i < len(full); i++ {
		full[i] = "spare"
	}
	before := append([]string{}, full...)
	servers, err := spec.NewServers(full[:len(c.URIs)]...)
	if !reflect.DeepEqual(before, full) && !kit.Known("new-servers") {
		return fmt.Errorf("NewServers(%q) changed its arguments to %q", before, full)
	}
	wantErr := false
	hosts, paths, ports := []string{"localhost"}, []string{"/"}, []string{""}
	for _, u := range append(append([]string{}, c.URIs...), "/") {
		p, err := url.Parse(u)
		if err != nil {
			wantErr = true
			continue
		}
		if p.Hostname() != "" {
			hosts = append(hosts, p.Hostname())
		}
		if p.Path != "" {
			paths = append(paths, p.Path)
		}
		if p.Port() != "" {
			ports = append(ports, ":"+p.Port())
		}
	}
	if (err != nil) != wantErr {
		return fmt.Errorf("NewServers(%q): error %v", c.URIs, err)
	}
	if err == nil {
		want := uniq(append(append([]string{}, c.URIs...), "/"))
		var got []string
		for i, s := range servers {
			if i < len(servers)-1 {
				got = append(got, s.URL)
			}
		}
		sort.Strings(got)
		if fmt.Sprintf("%q", got) != fmt.Sprintf("%q", want) {
			return fmt.Errorf("NewServers(%q) has the URLs %q, want %q", c.URIs, got, want)
		}
		last := servers[len(servers)-1]
		for name, w := range map[string][]string{"host": hosts, "path": paths, "port": ports, "scheme": {"http://", "https://"}} {
			v := last.Variables[name]
			if v == nil {
				return fmt.Errorf("NewServers(%q) has no variable %q", c.URIs, name)
			}
			g := append([]string{}, v.Enum...)
			sort.Strings(g)
			if fmt.Sprintf("%q", g) != fmt.Sprintf("%q", uniq(w)) {
				return fmt.Errorf("NewServers(%q): variable %q is one of %q, want %q", c.URIs, name, g, uniq(w))
			}
			in := false
			for _, x := range v.Enum {
				in = in || x == v.Default
			}
			if !in {
				return fmt.Errorf("NewServers(%q): default %q of %q is none of %q", c.URIs, v.Default, name, v.Enum)
			}
		}
	}
	var item spec.PathItem
	dst := []**spec.Operation{&item.Get, &item.Put, &item.Post, &item.Delete, &item.Options, &item.Head, &item.Patch, &item.Trace}
	want := map[string]bool{}
	for _, i := range c.Ops {
		*dst[i] = &spec.Operation{OperationID: methods[i]}
		want[methods[i]] = true
	}
	got := map[string]bool{}
	for _, o := range item.Operations() {
		if got[o.OperationID] {
			return fmt.Errorf("operation %s twice", o.OperationID)
		}
		got[o.OperationID] = true
	}
	if !reflect.DeepEqual(got, want) {
		return fmt.Errorf("operations %v, want %v", got, want)
	}
	if n := len(kit.Norm(item).(obj)); n != len(c.Ops) {
		return fmt.Errorf("a path item with operations %v is written as %s", c.Ops, kit.JS(item))
	}
	return nil
}

func TestProp(t *testing.T) {
	kit.ZeroUnset = true
	kit.Run(t, "C22",
		kit.P[seq]{Name: "schema", Gen: genSeq, Check: checkSeq, Quick: 40000, Thorough: 1000000,
			Rule: "1-10 setter calls on two schemas, sharing arguments; compared with their models after every call; non-trivial: at least two calls on one of them",
			Class: func(q seq) (i kit.Info) {
				i.Nontrivial = len(q.Ops) >= 3
				for _, o := range q.Ops {
					i.Label(true, o.Op)
				}
				return
			}},
		kit.P[objSeq]{Name: "object", Gen: genObj, Check: checkObj, Quick: 40000, Thorough: 1000000,
			Rule: "a constructor and 0-8 setters of its kind, compared with a model after every call; non-trivial: all",
			Class: func(q objSeq) (i kit.Info) {
				i.Nontrivial = true
				i.Label(true, q.Ctor)
				return
			}},
		kit.P[misc]{Name: "servers", Gen: genMisc, Check: checkMisc, Quick: 20000, Thorough: 300000,
			Rule: "server lists with duplicates and spare capacity, path items with any methods; non-trivial: at least two URIs",
			Class: func(c misc) (i kit.Info) {
				i.Nontrivial = len(c.URIs) >= 2
				i.Label(len(uniq(c.URIs)) < len(c.URIs), "duplicates")
				return
			}})
}
