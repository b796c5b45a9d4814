package model

import (
	"fmt"

	"github.com/buypal/oapi-go/verifharness/kit"
	"pgregory.net/rapid"
)

// Section draws a section of a root document; side is part of its values.
func Section(t *rapid.T, name, side string) interface{} {
	n := func(lo, hi int) int { return rapid.IntRange(lo, hi).Draw(t, "n") }
	p := func(percent int) bool { return n(0, 99) >= 100-percent }
	switch name {
	case "info":
		m := Obj{}
		for _, k := range []string{"title", "version", "description", "termsOfService"} {
			if p(50) {
				m[k] = side + " " + k
				if side == "doc" && p(8) {
					m[k] = ""
				} else if p(4) {
					m[k] = " "
				}
			}
		}
		if p(30) {
			m["license"] = Obj{"name": side}
			if p(50) {
				m["license"].(Obj)["url"] = "http://" + side
			}
		}
		if p(30) {
			m["contact"] = Obj{"name": side}
			for _, k := range []string{"email", "url"} {
				if p(50) {
					m["contact"].(Obj)[k] = side + k
				}
			}
		}
		if side == "doc" && p(30) {
			m["x-a.b"] = Obj{"c~d": 1.5, "l": []interface{}{nil, "x"}}
		}
		return m
	case "externalDocs":
		return Obj{"url": "http://" + side, "description": side}
	case "security":
		l := []interface{}{}
		for k := n(1, 3); k > 0; k-- {
			r := Obj{fmt.Sprintf("%s.%d", side, k): []interface{}{}}
			if p(50) {
				r["same"] = []interface{}{"read", side}
			}
			if p(10) {
				r = Obj{}
			}
			l = append(l, r)
		}
		return l
	case "servers":
		l := []interface{}{}
		for k := n(1, 3); k > 0; k-- {
			s := Obj{"url": fmt.Sprintf("http://%s%d/{v}", side, k)}
			if p(40) {
				s["description"] = side
			}
			if p(40) {
				s["variables"] = Obj{"v": Obj{"default": "1", "enum": []interface{}{"1", side}}}
			}
			l = append(l, s)
		}
		return l
	case "tags":
		l := []interface{}{}
		for k := n(1, 3); k > 0; k-- {
			s := Obj{"name": fmt.Sprintf("%s%d", side, k)}
			if p(40) {
				s["externalDocs"] = Obj{"url": "http://" + side, "description": "d"}
			}
			l = append(l, s)
		}
		return l
	}
	m := Obj{}
	named := func(kind string, v func() interface{}) {
		if !p(35) {
			return
		}
		s := Obj{}
		for k := n(1, 2); k > 0; k-- {
			name := kit.Key(t, "name")
			if name == "$ref" {
				name = "ref"
			}
			s[name] = v()
		}
		m[kind] = s
	}
	named("schemas", func() interface{} {
		switch n(0, 2) {
		case 0:
			return Obj{"$ref": "#/components/schemas/" + side}
		case 1:
			return Obj{"type": "object", "title": side, "properties": Obj{"a.b": Obj{"type": "string", "description": side}}}
		}
		return Obj{"type": "string", "title": side, "enum": []interface{}{side, 1.0}}
	})
	named("responses", func() interface{} {
		return Obj{"description": side, "content": Obj{"a/b+json": Obj{"schema": Obj{"type": "string", "title": side}}}}
	})
	named("requestBodies", func() interface{} {
		return Obj{"description": side, "content": Obj{"*/*": Obj{"schema": Obj{"type": "integer", "title": side}}}}
	})
	named("securitySchemes", func() interface{} { return Obj{"type": "http", "scheme": "basic", "description": side} })
	return m
}
