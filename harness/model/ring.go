package model

import (
	"fmt"

	"pgregory.net/rapid"
)

// Ring draws a module in which 2-12 types form one cycle, each referring to the next one in some way, with a few chords
// and entries from another package.
func Ring(t *rapid.T, o Opt) Case {
	g := &G{T: t, O: o}
	n := g.n(2, 12)
	home := g.n(0, 1)
	g.C.Pkgs = make([]Pkg, home+1)
	if home == 1 {
		g.C.Pkgs[1].Path = g.pick([]string{"api", "model", "deep/er/est"})
		g.C.Pkgs[0].Imports = []int{1}
	}
	name := func(i int) string { return fmt.Sprintf("T%d", (i%n)+1) }
	named := func(i int) Type { return Type{K: "named", Pkg: home, Name: name(i)} }
	p := &g.C.Pkgs[home]
	var extra []Decl
	around := func(to Type, direct bool) Type {
		wrap := func(k string, t Type) Type {
			w := Type{K: k, Elem: &t}
			if k == "map" {
				w.Key = "string"
			}
			return w
		}
		switch x := g.n(0, 9); {
		case x >= 8:
			d := Decl{Name: fmt.Sprintf("L%d", len(extra)), Type: wrap(g.pick([]string{"slice", "map", "ptr"}), to)}
			extra = append(extra, d)
			return Type{K: "named", Pkg: home, Name: d.Name}
		case x >= 7:
			return wrap(g.pick([]string{"slice", "map", "ptr"}), wrap(g.pick([]string{"slice", "map", "ptr"}), to))
		case x >= 4 || !direct:
			return wrap(g.pick([]string{"slice", "map", "ptr"}), to)
		}
		return to
	}
	hollow := 15 // percent of the types which are no structs
	if g.p(10) {
		hollow = 100
	}
	for i := 0; i < n; i++ {
		if g.p(hollow) {
			to := named(i + 1)
			k := g.pick([]string{"slice", "map", "ptr"})
			t := Type{K: k, Elem: &to}
			if k == "map" {
				t.Key = "string"
			}
			p.Decls = append(p.Decls, Decl{Name: name(i), Type: t})
			continue
		}
		s := Type{K: "struct", Fields: []Field{{Name: "Next", Type: around(named(i+1), i < n-1)}}}
		if g.p(30) {
			s.Fields = append(s.Fields, Field{Name: "V", Type: Type{K: g.pick(basicNames)}})
		}
		if g.p(12) {
			s.Fields = append(s.Fields, Field{Name: "Chord", Type: around(named(g.n(0, n-1)), false)})
		}
		p.Decls = append(p.Decls, Decl{Name: name(i), Type: s})
	}
	if home == 1 && g.p(70) {
		g.C.Pkgs[0].Decls = []Decl{{Name: "Entry", Type: Type{K: "struct", Fields: []Field{{Name: "A", Type: named(g.n(0, n-1))}, {Name: "B", Type: around(named(g.n(0, n-1)), true)}}}}}
	}
	p.Decls = append(p.Decls, extra...)
	g.Exports()
	g.Documents()
	return g.Finish()
}
