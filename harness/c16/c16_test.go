package c16

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"testing"
	"unsafe"

	"github.com/buypal/oapi-go"
	"github.com/buypal/oapi-go/internal/container"
	"github.com/buypal/oapi-go/internal/oapi/spec"
	"github.com/buypal/oapi-go/verifharness/kit"
	"gopkg.in/yaml.v2"
	"pgregory.net/rapid"
)

// All output formats encode the same document, validly and in order.

type obj = map[string]interface{}

// ---- decoders ----

// ordered decodes JSON and reports the keys of the top level in their order.
func ordered(b []byte) (v interface{}, keys []string, err error) {
	d := json.NewDecoder(bytes.NewReader(b))
	if err = json.Unmarshal(b, &v); err != nil {
		return
	}
	if _, ok := v.(obj); !ok {
		return
	}
	if _, err = d.Token(); err != nil {
		return
	}
	for d.More() {
		t, e := d.Token()
		if e != nil {
			return v, keys, e
		}
		keys = append(keys, t.(string))
		var skip json.RawMessage
		if err = d.Decode(&skip); err != nil {
			return
		}
	}
	if len(keys) != len(v.(obj)) {
		err = fmt.Errorf("keys %q are not distinct", keys)
	}
	return
}

func orderedYAML(b []byte) (v interface{}, keys []string, err error) {
	if err = yaml.UnmarshalStrict(b, &v); err != nil {
		return
	}
	var ms yaml.MapSlice
	if _, ok := v.(map[interface{}]interface{}); ok {
		if err = yaml.Unmarshal(b, &ms); err != nil {
			return
		}
	}
	for _, m := range ms {
		keys = append(keys, fmt.Sprint(m.Key))
	}
	v, err = plain(v)
	return
}

// plain brings a decoded YAML value to the form of JSON. Keys have to be strings.
func plain(v interface{}) (interface{}, error) {
	switch x := v.(type) {
	case map[interface{}]interface{}:
		m := obj{}
		for k, e := range x {
			s, ok := k.(string)
			if !ok {
				return nil, fmt.Errorf("key %v is no string but %T", k, k)
			}
			p, err := plain(e)
			if err != nil {
				return nil, err
			}
			m[s] = p
		}
		return m, nil
	case []interface{}:
		l := []interface{}{}
		for _, e := range x {
			p, err := plain(e)
			if err != nil {
				return nil, err
			}
			l = append(l, p)
		}
		return l, nil
	case int:
		return float64(x), nil
	case int64:
		return float64(x), nil
	case uint64:
		return float64(x), nil
	case nil, bool, string, float64:
		return v, nil
	}
	return nil, fmt.Errorf("value %v of type %T", v, v)
}

// goConst parses a Go file and gives the value of its constant OpenAPIJsonSpec.
func goConst(b []byte) (string, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "x.go", b, parser.ParseComments|parser.AllErrors)
	if err != nil {
		return "", err
	}
	conf := types.Config{FakeImportC: true, Error: func(error) {}}
	pkg, err := conf.Check("x", fset, []*ast.File{f}, nil)
	if err != nil {
		return "", fmt.Errorf("does not type-check: %v", err)
	}
	c, ok := pkg.Scope().Lookup("OpenAPIJsonSpec").(*types.Const)
	if !ok {
		return "", fmt.Errorf("has no constant OpenAPIJsonSpec")
	}
	if c.Val().Kind() != constant.String {
		return "", fmt.Errorf("constant is no string")
	}
	return constant.StringVal(c.Val()), nil
}

// inOrder checks the relative order of the keys that the order lists.
func inOrder(keys, order []string) error {
	last := -1
	for _, k := range keys {
		at := -1
		for i, o := range order {
			if o == k {
				at = i
				break
			}
		}
		if at < 0 {
			continue
		}
		if at < last {
			return fmt.Errorf("key %q comes after %q, keys are %q", k, order[last], keys)
		}
		last = at
	}
	return nil
}

func compare(format string, want interface{}, b []byte, order []string) error {
	var got interface{}
	var keys []string
	var err error
	switch format {
	case "yaml", "yml":
		got, keys, err = orderedYAML(b)
	case "go":
		var s string
		if s, err = goConst(b); err == nil {
			got, keys, err = ordered([]byte(s))
		}
	default:
		got, keys, err = ordered(b)
	}
	if err != nil {
		return fmt.Errorf("format %s is not valid: %v\n%q", format, err, b)
	}
	if d := kit.Diff(want, got); d != "" {
		return fmt.Errorf("format %s decodes to another document: %s\n%q", format, d, b)
	}
	if err := inOrder(keys, order); err != nil {
		return fmt.Errorf("format %s: %v", format, err)
	}
	return nil
}

// ---- Format ----

var formats = []string{"json", "json:pretty", "yaml", "yml", "go"}
var unknown = []string{"", "xml", "JSON", "Yaml", "json:", "json: pretty", "pretty", "go ", "ymls", "yaml:pretty", "json:pretty2", "gofile"}
var top = []string{"openapi", "info", "components", "paths"}

type formatCase struct {
	Doc     obj
	Unknown string
	Scan    bool // go through a scan even if the document can be put into OAPI
}

// document gives an OAPI with the document.
func document(c formatCase) (o oapi.OAPI, ok bool, err error) {
	t := reflect.TypeOf(o)
	field := -1
	for i := 0; i < t.NumField(); i++ {
		switch t.Field(i).Type {
		case reflect.TypeOf(container.Container{}):
			field = i
		case reflect.TypeOf(spec.OpenAPI{}):
		default:
			field, i = -1, t.NumField()
		}
	}
	if field >= 0 && !c.Scan {
		cnt, err := container.Make(c.Doc)
		if err != nil {
			return o, false, err
		}
		f := reflect.ValueOf(&o).Elem().Field(field)
		*(*container.Container)(unsafe.Pointer(f.UnsafeAddr())) = cnt
		return o, true, nil
	}
	if !c.Scan {
		return o, false, nil
	}
	dir, err := os.MkdirTemp("", "fmt")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	for name, s := range map[string]string{"go.mod": "module ex.org/f\n\ngo 1.15\n", "f.go": "package main\n\nfunc main() {}\n", "oapi.json": kit.JSONText(c.Doc)} {
		if err := os.WriteFile(filepath.Join(dir, name), []byte(s), 0o644); err != nil {
			panic(err)
		}
	}
	o, err = oapi.Scan(context.Background(), oapi.WithDir(dir))
	return o, true, err
}

func checkFormat(c formatCase) error {
	o, ok, err := document(c)
	if err != nil {
		return fmt.Errorf("no document: %v\n%s", err, kit.JS(c.Doc))
	}
	if !ok {
		return nil
	}
	for round := 0; round < 2; round++ { // formatting must not change what is formatted
		for _, f := range formats {
			b, err := oapi.Format(f, o)
			if err != nil {
				return fmt.Errorf("format %s fails: %v\n%s", f, err, kit.JS(c.Doc))
			}
			if err := compare(f, interface{}(c.Doc), b, top); err != nil {
				return fmt.Errorf("%v\ndocument %s", err, kit.JS(c.Doc))
			}
		}
	}
	if b, err := oapi.Format(c.Unknown, o); err == nil {
		return fmt.Errorf("format %q gives %q", c.Unknown, b)
	}
	return nil
}

func genFormat(t *rapid.T) (c formatCase) {
	c.Scan = rapid.IntRange(0, 39).Draw(t, "scan") == 39
	o := kit.DocOpt{Depth: 4, Width: 3}
	if c.Scan {
		o.Key = noRef
	}
	c.Doc = kit.Doc(t, o)
	for _, k := range top {
		if rapid.IntRange(0, 3).Draw(t, k) > 0 {
			c.Doc[k] = kit.Value(t, o, 3)
		}
	}
	c.Doc["openapi"] = rapid.SampledFrom([]string{"3.0.0", "3.0.3", "3.1", "x"}).Draw(t, "version")
	c.Doc = drop(c.Doc).(obj)
	if c.Scan {
		delete(c.Doc, "paths")
		delete(c.Doc, "components")
	}
	c.Unknown = rapid.SampledFrom(unknown).Draw(t, "unknown")
	return
}

// drop removes keys that are known not to survive YAML.
func drop(v interface{}) interface{} {
	if !kit.Known("merge-key") {
		return v
	}
	switch x := v.(type) {
	case obj:
		out := obj{}
		for k, e := range x {
			if k != "<<" {
				out[k] = drop(e)
			}
		}
		return out
	case []interface{}:
		for i := range x {
			x[i] = drop(x[i])
		}
	}
	return v
}

func noRef(t *rapid.T, label string) string {
	k := kit.Key(t, label)
	if strings.Contains(k, "$ref") {
		return "ref"
	}
	return k
}

// ---- the ordering encoder alone ----

type sortCase struct {
	Doc    interface{}
	Order  []string
	Indent string
}

func genSort(t *rapid.T) (c sortCase) {
	o := kit.DocOpt{Depth: 3, Width: 4}
	c.Doc = kit.Doc(t, o)
	if rapid.IntRange(0, 9).Draw(t, "root") == 9 {
		c.Doc = kit.Value(t, o, 2)
	}
	c.Doc = drop(c.Doc)
	pool := []string{"a", "b", "openapi", "", "a.b"}
	if m, ok := c.Doc.(obj); ok {
		for k := range m {
			pool = append(pool, k)
		}
		sortStrings(pool)
	}
	c.Order = rapid.SliceOfNDistinct(rapid.SampledFrom(pool), 0, 5, rapid.ID[string]).Draw(t, "order")
	c.Indent = rapid.SampledFrom([]string{"", " ", "  ", "\t"}).Draw(t, "indent")
	return
}

func sortStrings(l []string) {
	for i := range l {
		for j := i; j > 0 && l[j] < l[j-1]; j-- {
			l[j], l[j-1] = l[j-1], l[j]
		}
	}
}

func checkSort(c sortCase) error {
	cnt, err := container.Make(c.Doc)
	if err != nil {
		return err
	}
	m := container.NewSortMarshaller(cnt, container.SortMapMarhsaler(c.Order))
	for _, x := range []struct {
		format string
		enc    func() ([]byte, error)
		order  []string
	}{
		{"json", m.MarshalJSON, c.Order},
		{"json", func() ([]byte, error) { return m.MarshalIndentJSON("", c.Indent) }, c.Order},
		{"yaml", m.MarshalYAML, c.Order},
		{"json", cnt.MarshalJSON, nil},
		{"json", func() ([]byte, error) { return cnt.MarshalIndentJSON("", c.Indent) }, nil},
		{"yaml", cnt.MarshalYAML, nil},
		{"json", func() ([]byte, error) { return cnt.Bytes(), nil }, nil},
	} {
		b, err := x.enc()
		if err != nil {
			return fmt.Errorf("%s fails: %v\n%s", x.format, err, kit.JS(c.Doc))
		}
		if err := compare(x.format, c.Doc, b, x.order); err != nil {
			return fmt.Errorf("%v\nsorted by %q: %s", err, c.Order, kit.JS(c.Doc))
		}
	}
	return nil
}

func classDoc(v interface{}) (i kit.Info) {
	n := 0
	special := false
	kit.Walk(v, func(p []string, v interface{}) {
		n++
		s, _ := v.(string)
		if len(p) > 0 {
			s += p[len(p)-1]
		}
		special = special || strings.ContainsAny(s, "`\n\r\t\x00\"\\\u2028\ufeff")
	})
	i.Nontrivial = n > 4
	i.Label(special, "special characters")
	i.Label(kit.Depth(v) > 3, "deep")
	return
}

func TestProp(t *testing.T) {
	kit.Run(t, "C16",
		kit.P[formatCase]{
			Name:  "formats",
			Rule:  "arbitrary documents formatted in every format, and an unknown one; decoded by independent decoders; non-trivial: more than 4 values",
			Gen:   genFormat,
			Check: checkFormat,
			Class: func(c formatCase) kit.Info {
				i := classDoc(interface{}(c.Doc))
				i.Label(c.Scan, "through a scan")
				return i
			},
			Quick: 20000, Thorough: 600000,
		},
		kit.P[sortCase]{
			Name:  "encoders",
			Rule:  "arbitrary documents and key orders through the ordering encoders and the plain ones; non-trivial: more than 4 values",
			Gen:   genSort,
			Check: checkSort,
			Class: func(c sortCase) kit.Info { return classDoc(c.Doc) },
			Quick: 40000, Thorough: 1500000,
		})
}
