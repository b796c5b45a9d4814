package c19

import (
	"encoding/json"
	"fmt"
	"sort"
	"testing"

	"github.com/buypal/oapi-go/internal/container"
	"github.com/buypal/oapi-go/internal/oapi/config"
	"github.com/buypal/oapi-go/internal/oapi/spec"
	"github.com/buypal/oapi-go/verifharness/kit"
	"pgregory.net/rapid"
)

type obj = map[string]interface{}

var sections = map[string]string{
	"info": "Info", "servers": "[Server]", "security": "sec", "tags": "[Tag]", "externalDocs": "ExternalDocs",
	"components": "Components", "overrides": "{Schema}", "operations": "{Operation}",
}

var names = []string{"info", "servers", "security", "tags", "externalDocs", "components", "components", "components", "overrides", "overrides", "operations", "operations"}

type tc struct {
	Section string
	Value   interface{}
	Style   uint64 // 0: JSON
}

func gen(t *rapid.T) tc {
	c := tc{Section: rapid.SampledFrom(names).Draw(t, "section")}
	typ := sections[c.Section]
	fuel := rapid.IntRange(1, 30).Draw(t, "fuel")
	var o kit.OASOpt
	switch typ[0] {
	case '[', '{':
		elem := typ[1 : len(typ)-1]
		l := []interface{}{}
		m := obj{}
		n := rapid.IntRange(1, 2).Draw(t, "n")
		for i := 0; i < n; i++ {
			v := kit.OAS(t, elem, fuel, o)
			l = append(l, v)
			m[kit.Key(t, "k")] = v
		}
		c.Value = l
		if typ[0] == '{' {
			c.Value = m
		}
	case 's':
		c.Value = []interface{}{obj{"k": []interface{}{"a", "b"}}, obj{}, obj{"x": []interface{}{}, "": []interface{}{""}}}
	default:
		c.Value = kit.OAS(t, typ, fuel, o)
	}
	if rapid.Bool().Draw(t, "yaml") {
		c.Style = rapid.Uint64().Draw(t, "style")
	}
	return c
}

func pick(cfg config.Config, section string) interface{} {
	switch section {
	case "info":
		return cfg.Info
	case "servers":
		return cfg.Servers
	case "security":
		return cfg.Security
	case "tags":
		return cfg.Tags
	case "externalDocs":
		return cfg.ExternalDocs
	case "components":
		return cfg.Components
	case "overrides":
		return cfg.Overrides
	}
	return cfg.Operations
}

func check(c tc) error {
	doc := obj{c.Section: c.Value}
	var cfg config.Config
	var err error
	if c.Style == 0 {
		b, _ := json.Marshal(doc)
		cfg, err = config.ReadJSON(b)
	} else {
		cfg, err = config.ReadYAML(kit.YAML(doc, c.Style))
	}
	if err != nil {
		return fmt.Errorf("configuration %s is rejected: %v", kit.JS(doc), err)
	}
	v := pick(cfg, c.Section)
	want := kit.Norm(c.Value)
	cnt, err := container.Make(v)
	if err != nil {
		return fmt.Errorf("%s cannot be written: %v", kit.JS(doc), err)
	}
	if d := kit.OASSame(sections[c.Section], want, kit.Norm(cnt.Data())); d != "" {
		return fmt.Errorf("%s: %s", c.Section, d)
	}
	for n := range cfg.Operations {
		op := cfg.Operations[n]
		if d := kit.OASSame("Operation", want.(obj)[n], kit.Norm(&op)); d != "" {
			return fmt.Errorf("operation by pointer: %s", d)
		}
	}
	for n := range cfg.Overrides {
		s := cfg.Overrides[n]
		if d := kit.OASSame("Schema", want.(obj)[n], kit.Norm(&s)); d != "" {
			return fmt.Errorf("schema by pointer: %s", d)
		}
	}
	// once more through what was written
	if c.Section == "components" {
		var again spec.Components
		if err := json.Unmarshal(cnt.Bytes(), &again); err != nil {
			return fmt.Errorf("what was written cannot be read: %v", err)
		}
		if d := kit.OASSame("Components", want, kit.Norm(again)); d != "" {
			return fmt.Errorf("second round: %s", d)
		}
	}
	return nil
}

func fields(v interface{}, into map[string]bool) {
	kit.Walk(v, func(p []string, v interface{}) {
		if m, ok := v.(obj); ok {
			for k := range m {
				into[k] = true
			}
		}
	})
}

var watched = []string{"$ref", "scopes", "explode", "additionalProperties", "security", "example", "default", "value", "callbacks", "links", "headers", "content", "requestBody", "discriminator", "xml", "encoding", "enum", "nullable", "variables"}

func class(c tc) (i kit.Info) {
	f := map[string]bool{}
	fields(c.Value, f)
	i.Nontrivial = len(f) >= 3
	i.Label(true, "section "+c.Section)
	sort.Strings(watched)
	for _, w := range watched {
		i.Label(f[w], "field "+w)
	}
	return
}

func TestProp(t *testing.T) {
	kit.Run(t, "C19", kit.P[tc]{Name: "objects", Gen: gen, Check: check, Class: class, Quick: 40000, Thorough: 1500000,
		Rule: "one section of a configuration holding OpenAPI objects, written as JSON or YAML, read and written again; non-trivial: at least three different fields"})
}
