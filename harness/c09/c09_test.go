package c09

import (
	"fmt"
	"reflect"
	"sort"
	"strconv"
	"testing"

	"github.com/buypal/oapi-go/internal/container"
	"github.com/buypal/oapi-go/verifharness/kit"
	"pgregory.net/rapid"
)

type obj = map[string]interface{}

// ---- histories ----

type op struct {
	Kind   string // make, new, read, loose, clone, makefrom, set, setfrom, merge, poke, pokevalue
	I, J   int
	Keys   []string
	Val    interface{}
	Policy string
	Style  uint64 // of text
}

type hist struct{ Ops []op }

func genKeys(t *rapid.T, docs []interface{}, i int) []string {
	// half of the time an existing path of the document
	if len(docs) > 0 && rapid.Bool().Draw(t, "existing") {
		var paths [][]string
		kit.Walk(docs[i%len(docs)], func(p []string, v interface{}) {
			if len(p) > 0 {
				paths = append(paths, p)
			}
		})
		if len(paths) > 0 {
			p := append([]string{}, rapid.SampledFrom(paths).Draw(t, "path")...)
			if rapid.IntRange(0, 2).Draw(t, "extend") == 0 {
				p = append(p, kit.Key(t, "k"))
			}
			return p
		}
	}
	n := rapid.IntRange(1, 4).Draw(t, "nk")
	var ks []string
	for j := 0; j < n; j++ {
		ks = append(ks, kit.Key(t, "k"))
	}
	return ks
}

// get follows keys in the model; arrays by canonical index.
func get(v interface{}, keys []string) (interface{}, bool) {
	for _, k := range keys {
		switch x := v.(type) {
		case obj:
			e, ok := x[k]
			if !ok {
				return nil, false
			}
			v = e
		case []interface{}:
			n, err := strconv.Atoi(k)
			if err != nil || n < 0 || n >= len(x) {
				return nil, false
			}
			v = x[n]
		default:
			return nil, false
		}
	}
	return v, true
}

type verdict int

const (
	ok verdict = iota
	collides
	unspecified
)

// set changes the model. An array accepts only an existing index; "*" and "-" in arrays are wildcards of the library.
func set(v interface{}, keys []string, val interface{}) (interface{}, verdict) {
	if len(keys) == 0 {
		return val, ok
	}
	switch x := v.(type) {
	case nil:
		m := obj{}
		return set(m, keys, val)
	case obj:
		e, present := x[keys[0]]
		if !present && len(keys) > 1 {
			e = nil
		}
		n, vd := set(e, keys[1:], val)
		if vd != ok {
			return v, vd
		}
		out := obj{}
		for k, e := range x {
			out[k] = e
		}
		out[keys[0]] = n
		return out, ok
	case []interface{}:
		n, err := strconv.Atoi(keys[0])
		if err != nil || strconv.Itoa(n) != keys[0] {
			return v, unspecified
		}
		if n < 0 || n >= len(x) {
			return v, collides
		}
		if x[n] == nil && len(keys) > 1 {
			return v, unspecified
		}
		e, vd := set(x[n], keys[1:], val)
		if vd != ok {
			return v, vd
		}
		out := append([]interface{}{}, x...)
		out[n] = e
		return out, ok
	}
	return v, collides
}

func genHist(t *rapid.T) hist {
	var h hist
	var docs []interface{} // what the documents will be: only used to draw meaningful paths
	n := rapid.IntRange(1, 10).Draw(t, "n")
	do := kit.DocOpt{Depth: 3, Width: 3}
	for k := 0; k < n; k++ {
		o := op{Kind: rapid.SampledFrom([]string{"make", "read", "loose", "new", "clone", "makefrom", "set", "set", "set", "set", "setfrom", "setfrom", "merge", "merge", "poke", "poke", "pokevalue"}).Draw(t, "kind")}
		if len(docs) == 0 {
			if o.Kind != "read" && o.Kind != "loose" {
				o.Kind = "make"
			}
		} else {
			o.I = rapid.IntRange(0, len(docs)-1).Draw(t, "i")
			o.J = rapid.IntRange(0, len(docs)-1).Draw(t, "j")
		}
		switch o.Kind {
		case "make", "read", "loose":
			d := kit.Doc(t, do)
			if rapid.Bool().Draw(t, "repeat") {
				kit.Repeat(t, d)
			}
			o.Val, o.Style = d, rapid.Uint64().Draw(t, "style")
			docs = append(docs, o.Val)
		case "new":
			docs = append(docs, obj{})
		case "clone", "makefrom":
			docs = append(docs, docs[o.I])
		case "set":
			o.Keys = genKeys(t, docs, o.I)
			o.Val = kit.Value(t, do, 2)
			if d, vd := set(docs[o.I], o.Keys, o.Val); vd == ok {
				docs[o.I] = d
			}
		case "setfrom":
			o.Keys = genKeys(t, docs, o.I)
			if d, vd := set(docs[o.I], o.Keys, docs[o.J]); vd == ok {
				docs[o.I] = d
			}
		case "merge":
			o.Policy = rapid.SampledFrom([]string{"default", "override"}).Draw(t, "policy")
		case "poke", "pokevalue":
			o.Keys = genKeys(t, docs, o.I)
			o.Val = kit.Scalar(t, false)
		}
		h.Ops = append(h.Ops, o)
	}
	return h
}

// pokeAt writes v into the object or array at keys[:len-1], in place; reports whether it did.
func pokeAt(root interface{}, keys []string, v interface{}) bool {
	p, found := get(root, keys[:len(keys)-1])
	if !found {
		return false
	}
	last := keys[len(keys)-1]
	switch x := p.(type) {
	case obj:
		x[last] = v
		return true
	case []interface{}:
		n, err := strconv.Atoi(last)
		if err != nil || strconv.Itoa(n) != last || n < 0 || n >= len(x) {
			return false
		}
		x[n] = v
		return true
	}
	return false
}

// scramble changes every object and list of v whose number is not n, in place.
func scramble(v interface{}, n int, val interface{}) {
	k := 0
	var walk func(v interface{})
	walk = func(v interface{}) {
		mine := k != n
		k++
		switch x := v.(type) {
		case obj:
			keys := make([]string, 0, len(x))
			for key := range x {
				keys = append(keys, key)
			}
			sort.Strings(keys)
			for _, key := range keys {
				walk(x[key])
			}
			if mine {
				for key := range x {
					x[key] = val
				}
				x["scrambled"] = val
			}
		case []interface{}:
			for _, e := range x {
				walk(e)
			}
			if mine {
				for i := range x {
					x[i] = val
				}
			}
		}
	}
	walk(v)
}

// loose copies plain JSON, inner objects become maps with keys of any type.
func loose(v interface{}) interface{} {
	m, ok := v.(obj)
	if !ok {
		return looser(v)
	}
	out := obj{}
	for k, e := range m {
		out[k] = looser(e)
	}
	return out
}

func looser(v interface{}) interface{} {
	switch x := v.(type) {
	case obj:
		out := map[interface{}]interface{}{}
		for k, e := range x {
			out[k] = looser(e)
		}
		return out
	case []interface{}:
		out := make([]interface{}, len(x))
		for i, e := range x {
			out[i] = looser(e)
		}
		return out
	}
	return v
}

func checkHist(h hist) error {
	var real []container.Container
	var model []interface{}
	var values []interface{} // values handed over earlier, still owned by the caller
	add := func(c container.Container, m interface{}) {
		real = append(real, c)
		model = append(model, kit.Copy(m))
	}
	for k, o := range h.Ops {
		what := fmt.Sprintf("step %d %s(%d, %d, keys %q, %s)", k, o.Kind, o.I, o.J, o.Keys, kit.JS(o.Val))
		switch o.Kind {
		case "new":
			add(container.New(), obj{})
		case "make":
			v := kit.Copy(o.Val)
			c, err := container.Make(v)
			if err != nil {
				return fmt.Errorf("%s: %v", what, err)
			}
			add(c, o.Val)
			values = append(values, v)
		case "read":
			// equal parts of a YAML document can be one part with an alias
			var c container.Container
			var err error
			if o.Style%4 == 0 {
				c, err = container.ReadJSON([]byte(kit.JSONText(o.Val)))
			} else {
				c, err = container.ReadYAML(kit.YAML(o.Val, o.Style))
			}
			if err != nil {
				return fmt.Errorf("%s: %v", what, err)
			}
			add(c, o.Val)
		case "loose":
			// as decoders of YAML make them
			v, same := loose(o.Val), loose(o.Val)
			c, err := container.Make(v)
			if err != nil {
				return fmt.Errorf("%s: %v", what, err)
			}
			if !reflect.DeepEqual(v, same) {
				return fmt.Errorf("%s changes its argument to %#v", what, v)
			}
			add(c, o.Val)
		case "clone":
			add(real[o.I].Clone(), model[o.I])
		case "makefrom":
			var src interface{} = real[o.I]
			if k%2 == 1 {
				src = &real[o.I]
			}
			c, err := container.Make(src)
			if err != nil {
				return fmt.Errorf("%s: %v", what, err)
			}
			add(c, model[o.I])
		case "set", "setfrom":
			val := o.Val
			var arg interface{}
			if o.Kind == "setfrom" {
				val = model[o.J]
				arg = real[o.J]
			} else {
				v := kit.Copy(o.Val)
				values = append(values, v)
				arg = v
			}
			d, vd := set(model[o.I], o.Keys, kit.Copy(val))
			if vd == unspecified {
				continue
			}
			err := real[o.I].SetP(container.SliceToDotPath(o.Keys), arg)
			if (err != nil) != (vd == collides) {
				return fmt.Errorf("%s on %s: error %v", what, kit.JS(model[o.I]), err)
			}
			if vd == ok {
				model[o.I] = kit.Copy(d)
				p := container.SliceToDotPath(o.Keys)
				if !real[o.I].ExistsP(p) {
					return fmt.Errorf("%s: path %q does not exist afterwards", what, p)
				}
				if x := kit.Diff(val, kit.Norm(real[o.I].Path(p).Data())); x != "" {
					return fmt.Errorf("%s: reading path %q: %s", what, p, x)
				}
			}
		case "merge":
			fn := func(d, s interface{}) (interface{}, error) { return d, nil }
			rf := container.MergeDefault
			if o.Policy == "override" {
				fn = func(d, s interface{}) (interface{}, error) { return s, nil }
				rf = container.MergeOverride
			}
			a, ok1 := model[o.I].(obj)
			b, ok2 := model[o.J].(obj)
			if !ok1 || !ok2 {
				continue
			}
			m, _ := kit.Union(a, b, fn)
			if err := real[o.I].Merge(real[o.J], rf); err != nil {
				return fmt.Errorf("%s: %v", what, err)
			}
			model[o.I] = m
		case "poke":
			// in place, in container I only
			if pokeAt(real[o.I].Data(), o.Keys, o.Val) {
				pokeAt(model[o.I], o.Keys, o.Val)
			}
		case "pokevalue":
			if len(values) > 0 {
				v := values[(o.I+o.J)%len(values)]
				pokeAt(v, o.Keys, o.Val)
				scramble(v, o.I, o.Val)
			}
		}
		for i := range real {
			if x := kit.Diff(model[i], kit.Norm(real[i].Data())); x != "" {
				return fmt.Errorf("after %s: container %d: %s", what, i, x)
			}
		}
	}
	return nil
}

// ---- addressing ----

type addr struct {
	Doc  obj
	Keys []string // probe
	Key  string   // extracted key
}

func genAddr(t *rapid.T) addr {
	key := rapid.SampledFrom([]string{"$ref", "$ref", "xx", "a.b", "~", "", "x.$ref", "~1", "*", "a/b"}).Draw(t, "key")
	d := kit.Doc(t, kit.DocOpt{Depth: 4, Width: 4, Key: func(t *rapid.T, l string) string {
		if rapid.IntRange(0, 3).Draw(t, "isit") == 0 {
			return key
		}
		return kit.Key(t, l)
	}})
	if kit.Rare(t, 2) { // indices of several digits
		l := make([]interface{}, rapid.IntRange(11, 130).Draw(t, "long"))
		for i := range l {
			l[i] = obj{key: float64(i)}
		}
		d[kit.Key(t, "long array")] = l
	}
	return addr{Doc: d, Key: key, Keys: genKeys(t, []interface{}{d}, 0)}
}

func checkAddr(c addr) error {
	cnt, err := container.Make(c.Doc)
	if err != nil {
		return err
	}
	// every existing path is found and reads as what is there
	var bad error
	type place struct {
		path string
		val  interface{}
	}
	var want []place
	count := 0
	kit.Walk(c.Doc, func(p []string, v interface{}) {
		if bad != nil || len(p) == 0 {
			return
		}
		count++
		s := container.SliceToDotPath(p)
		if !cnt.ExistsP(s) {
			bad = fmt.Errorf("keys %q: path %q does not exist", p, s)
			return
		}
		v2 := cnt.Path(s)
		if x := kit.Diff(v, kit.Norm(v2.Data())); x != "" {
			bad = fmt.Errorf("keys %q: path %q reads %s", p, s, x)
			return
		}
		if v2.IsNil() != (v == nil) {
			bad = fmt.Errorf("keys %q: IsNil is %v for %s", p, v2.IsNil(), kit.JS(v))
			return
		}
		cm, err := v2.ChildrenMap()
		m, isobj := v.(obj)
		if (err == nil) != (isobj || v == nil) || len(cm) != len(m) {
			bad = fmt.Errorf("keys %q: ChildrenMap of %s is %v, %v", p, kit.JS(v), cm, err)
			return
		}
		for k, e := range m {
			if x := kit.Diff(e, kit.Norm(cm[k].Data())); x != "" {
				bad = fmt.Errorf("keys %q: child %q: %s", p, k, x)
				return
			}
		}
		switch v.(type) {
		case obj, []interface{}:
			return
		}
		parent, _ := get(c.Doc, p[:len(p)-1])
		if _, isobj := parent.(obj); isobj && p[len(p)-1] == c.Key {
			want = append(want, place{s, v})
		}
	})
	if bad != nil {
		return bad
	}
	// a path that does not exist is not found
	inArray := false
	for i := range c.Keys {
		if v, found := get(c.Doc, c.Keys[:i]); found {
			_, a := v.([]interface{})
			inArray = inArray || a
		}
	}
	if !inArray {
		s := container.SliceToDotPath(c.Keys)
		_, found := get(c.Doc, c.Keys)
		if cnt.ExistsP(s) != found {
			return fmt.Errorf("keys %q: path %q exists: %v, want %v", c.Keys, s, cnt.ExistsP(s), found)
		}
	}
	// extraction
	ms, err := container.ExtractKey(cnt, c.Key)
	if err != nil {
		return fmt.Errorf("ExtractKey(%q): %v", c.Key, err)
	}
	got := []place{}
	for _, m := range ms {
		got = append(got, place{m.Key, m.Val})
	}
	sort.Slice(got, func(i, j int) bool { return got[i].path < got[j].path })
	sort.Slice(want, func(i, j int) bool { return want[i].path < want[j].path })
	if len(got) != len(want) {
		return fmt.Errorf("ExtractKey(%q) of %s finds %v, want %v", c.Key, kit.JS(c.Doc), got, want)
	}
	for i := range got {
		if got[i].path != want[i].path || kit.Diff(want[i].val, kit.Norm(got[i].val)) != "" {
			return fmt.Errorf("ExtractKey(%q) of %s finds %v, want %v", c.Key, kit.JS(c.Doc), got, want)
		}
	}
	if x := kit.Diff(c.Doc, kit.Norm(cnt.Data())); x != "" {
		return fmt.Errorf("reading changed the document: %s", x)
	}
	return nil
}

func TestProp(t *testing.T) {
	kit.Run(t, "C09",
		kit.P[hist]{Name: "history", Gen: genHist, Check: checkHist, Quick: 60000, Thorough: 2000000,
			Rule: "1-10 operations over a growing set of containers, all compared with their models after every step; non-trivial: at least three operations, one of which sets, merges or pokes",
			Class: func(h hist) (i kit.Info) {
				w := 0
				for _, o := range h.Ops {
					i.Label(true, o.Kind)
					switch o.Kind {
					case "set", "setfrom", "merge", "poke", "pokevalue":
						w++
					}
				}
				i.Nontrivial = len(h.Ops) >= 3 && w > 0
				return
			}},
		kit.P[addr]{Name: "address", Gen: genAddr, Check: checkAddr, Quick: 60000, Thorough: 2000000,
			Rule: "a document with adversarial keys, all its paths and a probe; non-trivial: depth at least 2",
			Class: func(c addr) (i kit.Info) {
				i.Nontrivial = kit.Depth(c.Doc) >= 2
				_, found := get(c.Doc, c.Keys)
				i.Label(found, "probe exists")
				return
			}})
}
