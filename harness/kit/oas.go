package kit

import (
	"fmt"
	"sort"
	"strings"

	"pgregory.net/rapid"
)

// The OpenAPI 3.0 vocabulary, written from the specification: kind -> fields.
//
// Types: s string, s! non-empty string that is always there, b boolean (false is the default), e boolean whose
// default depends on other fields, n number, i non-negative integer, a any value, ax any value or expression,
// ap schema or boolean, [s] list of strings, {s} map of strings, sec list of security requirements,
// sec0 same where an empty list says something, [X] list of X, {X} map of X, X object.
type field struct {
	name, typ string
}

var oas = map[string][]field{}

// kinds that may be a reference instead
var refable = map[string]bool{}

func init() {
	def := func(kind string, ref bool, fields string) {
		refable[kind] = ref
		for _, f := range strings.Fields(fields) {
			nt := strings.SplitN(f, ":", 2)
			oas[kind] = append(oas[kind], field{nt[0], nt[1]})
		}
	}
	def("Info", false, "title:s description:s termsOfService:s contact:Contact license:License version:s")
	def("Contact", false, "name:s url:s email:s")
	def("License", false, "name:s! url:s")
	def("Server", false, "url:s! description:s variables:{ServerVariable}")
	def("ServerVariable", false, "enum:[s] default:s! description:s")
	def("Tag", false, "name:s! description:s externalDocs:ExternalDocs")
	def("ExternalDocs", false, "description:s url:s!")
	def("Components", false, "schemas:{Schema} responses:{Response} parameters:{Parameter} examples:{Example} requestBodies:{RequestBody} headers:{Header} securitySchemes:{SecurityScheme} links:{Link} callbacks:{Callback}")
	def("Schema", true, `title:s multipleOf:n maximum:n exclusiveMaximum:b minimum:n exclusiveMinimum:b maxLength:i minLength:i pattern:s maxItems:i minItems:i
		uniqueItems:b maxProperties:i minProperties:i required:[s] enum:[a] type:type allOf:[Schema] oneOf:[Schema] anyOf:[Schema] not:Schema items:Schema
		properties:{Schema} additionalProperties:ap description:s format:s default:a nullable:b discriminator:Discriminator readOnly:b writeOnly:b xml:XML
		externalDocs:ExternalDocs example:a deprecated:b`)
	def("Discriminator", false, "propertyName:s! mapping:{s}")
	def("XML", false, "name:s namespace:s prefix:s attribute:b wrapped:b")
	def("Response", true, "description:s headers:{Header} content:{MediaType} links:{Link}")
	param := "description:s required:b deprecated:b allowEmptyValue:b style:s explode:e allowReserved:b schema:Schema example:a examples:{Example} content:{MediaType}"
	def("Parameter", true, "name:s! in:s! "+param)
	def("Header", true, param)
	def("Example", true, "summary:s description:s value:a externalValue:s")
	def("RequestBody", true, "description:s content:{MediaType} required:b")
	def("MediaType", false, "schema:Schema example:a examples:{Example} encoding:{Encoding}")
	def("Encoding", false, "contentType:s headers:{Header} style:s explode:e allowReserved:b")
	def("SecurityScheme", true, "type:s! description:s name:s in:s scheme:s bearerFormat:s flows:Flows openIdConnectUrl:s")
	def("Flows", false, "implicit:Flow password:Flow clientCredentials:Flow authorizationCode:Flow")
	def("Flow", false, "authorizationUrl:s tokenUrl:s refreshUrl:s scopes:{s}")
	def("Link", true, "operationRef:s operationId:s parameters:{ax} requestBody:ax description:s server:Server")
	def("Callback", true, "") // a map of path items
	def("PathItem", true, `summary:s description:s get:Operation put:Operation post:Operation delete:Operation options:Operation head:Operation patch:Operation
		trace:Operation servers:[Server] parameters:[Parameter]`)
	def("Operation", false, `tags:[s] summary:s description:s externalDocs:ExternalDocs operationId:s parameters:[Parameter] requestBody:RequestBody
		responses:{Response} callbacks:{Callback} deprecated:b security:sec0 servers:[Server]`)
}

// OASOpt tunes the generator of OpenAPI objects.
type OASOpt struct {
	Refs func(t *rapid.T) string // a reference, or "" for none; nil: local references
}

var localRefs = []string{"#/components/schemas/A", "#/components/responses/a.b", "#/components/parameters/a~1b", "#/components/x/a~0b", "other.yaml#/A", "http://ex.org/s.json#/components/schemas/A", "#/a/0/é"}

// OAS draws an object of the kind, with about fuel fields.
func OAS(t *rapid.T, kind string, fuel int, o OASOpt) interface{} {
	f := fuel
	return o.object(t, kind, &f, 0)
}

func (o OASOpt) object(t *rapid.T, kind string, fuel *int, depth int) interface{} {
	m := map[string]interface{}{}
	if refable[kind] && depth > 0 && rapid.IntRange(0, 5).Draw(t, "ref") == 0 {
		r := ""
		if o.Refs != nil {
			r = o.Refs(t)
		} else {
			r = rapid.SampledFrom(localRefs).Draw(t, "to")
		}
		if r != "" {
			m["$ref"] = r
			return m
		}
	}
	if kind == "Callback" {
		return o.mapOf(t, "PathItem", fuel, depth)
	}
	fs := oas[kind]
	pick := map[int]bool{}
	if len(fs) > 0 && *fuel > 0 {
		n := rapid.IntRange(0, 4).Draw(t, "fields")
		for i := 0; i < n; i++ {
			pick[rapid.IntRange(0, len(fs)-1).Draw(t, "field")] = true
		}
	}
	for i, f := range fs {
		if strings.HasSuffix(f.typ, "!") || pick[i] {
			*fuel--
			m[f.name] = o.value(t, f.typ, fuel, depth+1)
		}
	}
	return m
}

func (o OASOpt) mapOf(t *rapid.T, elem string, fuel *int, depth int) interface{} {
	m := map[string]interface{}{}
	n := rapid.IntRange(0, 2).Draw(t, "n")
	for i := 0; i < n && *fuel > 0; i++ {
		k := Key(t, "k")
		if k == "$ref" {
			k = "ref"
		}
		m[k] = o.value(t, elem, fuel, depth+1)
	}
	return m
}

func (o OASOpt) value(t *rapid.T, typ string, fuel *int, depth int) interface{} {
	*fuel--
	switch typ {
	case "s":
		return Text(t, "s")
	case "s!":
		return "x" + Text(t, "s")
	case "type":
		return rapid.SampledFrom([]string{"string", "number", "integer", "boolean", "array", "object"}).Draw(t, "type")
	case "b", "e":
		return rapid.IntRange(0, 2).Draw(t, "b") > 0
	case "n":
		return rapid.SampledFrom([]float64{0, 1, -1, 0.5, -2.25, 100, 1e9, 1e-3, 1.5e21}).Draw(t, "n")
	case "i":
		return float64(rapid.SampledFrom([]int{0, 1, 2, 10, 4294967296}).Draw(t, "i"))
	case "a":
		return Value(t, DocOpt{Depth: 2, Width: 2, Key: anyKey}, 1)
	case "ax":
		return Value(t, DocOpt{Depth: 2, Width: 2, NoNull: true, Key: anyKey}, 1)
	case "ap":
		kind := rapid.IntRange(0, 3).Draw(t, "ap")
		if Known("additional-properties") {
			kind = 2
		}
		switch kind {
		case 0:
			return true
		case 1:
			return false
		}
		return o.object(t, "Schema", fuel, depth)
	case "sec", "sec0":
		l := []interface{}{}
		n := rapid.IntRange(0, 2).Draw(t, "n")
		for i := 0; i < n; i++ {
			m := map[string]interface{}{}
			for _, k := range rapid.SliceOfN(rapid.SampledFrom([]string{"key", "oauth", "a.b"}), 0, 2).Draw(t, "schemes") {
				sc := []interface{}{}
				for _, s := range rapid.SliceOfN(rapid.SampledFrom([]string{"r", "w", "read:all"}), 0, 2).Draw(t, "scopes") {
					sc = append(sc, s)
				}
				m[k] = sc
			}
			l = append(l, m)
		}
		return l
	}
	switch typ[0] {
	case '[':
		l := []interface{}{}
		n := rapid.IntRange(0, 2).Draw(t, "n")
		for i := 0; i < n; i++ {
			l = append(l, o.value(t, typ[1:len(typ)-1], fuel, depth+1))
		}
		return l
	case '{':
		return o.mapOf(t, typ[1:len(typ)-1], fuel, depth)
	}
	return o.object(t, typ, fuel, depth)
}

func anyKey(t *rapid.T, l string) string {
	k := Key(t, l)
	if strings.HasSuffix(k, "$ref") {
		return "ref"
	}
	return k
}

// OASSame compares an object with its reproduction: every field is there with its value and no other is. A field whose
// value is empty and means the same as its absence may be missing.
func OASSame(typ string, want, got interface{}) string { return oasSame("", typ, want, got) }

func oasSame(path, typ string, want, got interface{}) string {
	elem := ""
	switch {
	case typ[0] == '[':
		elem = typ[1 : len(typ)-1]
		w, ok1 := want.([]interface{})
		g, ok2 := got.([]interface{})
		if !ok1 || !ok2 || len(w) != len(g) {
			return fmt.Sprintf("at %q: want %s, got %s", path, JS(want), JS(got))
		}
		for i := range w {
			if d := oasSame(fmt.Sprintf("%s/%d", path, i), elem, w[i], g[i]); d != "" {
				return d
			}
		}
		return ""
	case typ[0] == '{':
		elem = typ[1 : len(typ)-1]
	case typ == "Callback":
		elem = "PathItem"
	case typ == "ap":
		if _, ok := want.(bool); !ok {
			typ = "Schema"
		}
	}
	fields, known := oas[typ]
	if elem == "" && !known {
		return diff(path, want, got)
	}
	w, ok1 := want.(map[string]interface{})
	g, ok2 := got.(map[string]interface{})
	if !ok1 || !ok2 {
		return fmt.Sprintf("at %q: want %s, got %s", path, JS(want), JS(got))
	}
	if r, ok := w["$ref"].(string); ok && refable[typ] {
		if typ == "PathItem" && Known("path-item-ref") && len(g) == 0 {
			return ""
		}
		for k, v := range g {
			if k != "$ref" && !gained(typ, k, v) {
				return fmt.Sprintf("at %q: %q = %s was never written", path, k, JS(v))
			}
		}
		return diff(path+"/$ref", r, g["$ref"])
	}
	ks := map[string]bool{}
	for k := range w {
		ks[k] = true
	}
	for k := range g {
		ks[k] = true
	}
	sorted := make([]string, 0, len(ks))
	for k := range ks {
		sorted = append(sorted, k)
	}
	sort.Strings(sorted)
	for _, k := range sorted {
		ft := elem
		if ft == "" {
			for _, f := range fields {
				if f.name == k {
					ft = f.typ
				}
			}
		}
		wv, in := w[k]
		gv, out := g[k]
		switch {
		case !in:
			if gained(typ, k, gv) {
				continue
			}
			return fmt.Sprintf("at %q: %q = %s was never written", path, k, JS(gv))
		case !out:
			if ft == "ax" && wv == "" && Known("empty-string") {
				continue
			}
			if elem == "" && (idle(ft, wv) || lost(typ, k, wv)) {
				continue
			}
			return fmt.Sprintf("at %q: %q = %s is lost", path, k, JS(wv))
		}
		if ft == "" {
			return fmt.Sprintf("at %q: unknown field %q", path, k)
		}
		if ft == "ax" && wv == "" && gv == nil && Known("empty-string") {
			continue
		}
		if d := oasSame(path+"/"+k, ft, wv, gv); d != "" {
			return d
		}
	}
	return ""
}

// Known findings: fields the object model invents or loses.
var inventions = map[string]bool{
	"RequestBody/content": true, "Response/content": true, "Example/value": true, "Contact/name": true, "Encoding/contentType": true,
	"ExternalDocs/description": true, "Info/title": true, "Info/version": true, "Parameter/name": true, "Parameter/in": true,
	"SecurityScheme/type": true, "XML/name": true,
}

// ZeroUnset makes no difference of a field written with its zero value and one that is not, for those inventions.
var ZeroUnset bool

func gained(typ, k string, v interface{}) bool {
	if ZeroUnset && (inventions[typ+"/"+k] && (v == nil || v == "") || k == "explode" && v == false) {
		return true
	}
	if Known("invented") && inventions[typ+"/"+k] && (v == nil || v == "") {
		return true
	}
	return Known("explode") && k == "explode" && v == false && (typ == "Parameter" || typ == "Header")
}

func lost(typ, k string, v interface{}) bool {
	switch {
	case typ == "Encoding" && k == "explode" && v == false:
		return Known("explode")
	case typ == "Flow" && k == "scopes":
		return Known("scopes")
	case typ == "Operation" && k == "security":
		l, ok := v.([]interface{})
		return ok && len(l) == 0 && Known("no-security")
	}
	return false
}

// idle: the value of a field of this type says nothing.
func idle(typ string, v interface{}) bool {
	switch typ {
	case "s", "s!", "type":
		return v == ""
	case "b":
		return v == false
	case "sec":
		l, ok := v.([]interface{})
		return ok && len(l) == 0
	}
	switch typ[0] {
	case '[':
		l, ok := v.([]interface{})
		return ok && len(l) == 0
	case '{':
		m, ok := v.(map[string]interface{})
		return ok && len(m) == 0
	}
	return false
}

// Prune drops idle fields, the form in which two spellings of an object are equal.
func Prune(typ string, v interface{}) interface{} {
	elem := ""
	switch {
	case typ[0] == '[':
		l, ok := v.([]interface{})
		if !ok {
			return v
		}
		out := []interface{}{}
		for _, e := range l {
			out = append(out, Prune(typ[1:len(typ)-1], e))
		}
		return out
	case typ[0] == '{':
		elem = typ[1 : len(typ)-1]
	case typ == "Callback":
		elem = "PathItem"
	case typ == "ap":
		if _, ok := v.(bool); !ok {
			typ = "Schema"
		}
	}
	fields, known := oas[typ]
	m, ok := v.(map[string]interface{})
	if elem == "" && !known || !ok {
		return v
	}
	if _, ok := m["$ref"].(string); ok && refable[typ] {
		return v
	}
	out := map[string]interface{}{}
	for k, e := range m {
		ft := elem
		if ft == "" {
			for _, f := range fields {
				if f.name == k {
					ft = f.typ
				}
			}
			if ft == "" {
				out[k] = e
				continue
			}
			if idle(ft, e) {
				continue
			}
		}
		out[k] = Prune(ft, e)
	}
	return out
}
