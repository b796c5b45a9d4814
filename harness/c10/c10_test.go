package c10

import (
	"errors"
	"fmt"
	"io/ioutil"
	"math"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"

	"github.com/buypal/oapi-go/internal/container"
	"github.com/buypal/oapi-go/verifharness/kit"
	"pgregory.net/rapid"
)

type obj = map[string]interface{}

type tc struct {
	Docs   []obj
	Policy string // strict, default, override, pair
	Bad    int    // index of the document made uncopyable, or -1
	BadAt  []string
	Files  []int // the file a document is read from, 0 for none
}

var policies = map[string]func(d, s interface{}) (interface{}, error){
	"strict":   func(d, s interface{}) (interface{}, error) { return nil, errors.New("collision") },
	"default":  func(d, s interface{}) (interface{}, error) { return d, nil },
	"override": func(d, s interface{}) (interface{}, error) { return s, nil },
	// shows which value was handed over as which argument
	"equal": func(d, s interface{}) (interface{}, error) {
		if kit.Diff(kit.Norm(d), kit.Norm(s)) == "" {
			return d, nil
		}
		return nil, errors.New("collision")
	},
	"pair": func(d, s interface{}) (interface{}, error) { return obj{"dst": kit.Copy(d), "src": kit.Copy(s)}, nil },
}

func real(p string) container.Merger {
	switch p {
	case "strict":
		return container.MergeStrict
	case "equal":
		return container.MergeEqual
	case "default":
		return container.MergeDefault
	case "override":
		return container.MergeOverride
	}
	return func(d, s interface{}) (interface{}, error) { return policies["pair"](d, s) }
}

func key(t *rapid.T, l string) string {
	if rapid.IntRange(0, 3).Draw(t, "kk") == 0 {
		return kit.Key(t, l)
	}
	return rapid.SampledFrom([]string{"a", "b", "c", "a.b", "~", "~1", "", "*", "0"}).Draw(t, l)
}

func gen(t *rapid.T) tc {
	c := tc{Bad: -1, Policy: rapid.SampledFrom([]string{"strict", "strict", "default", "override", "pair", "equal"}).Draw(t, "policy")}
	n := rapid.IntRange(2, 4).Draw(t, "docs")
	if kit.Rare(t, 5) {
		n = rapid.IntRange(5, 14).Draw(t, "many docs")
	}
	disjoint := c.Policy == "strict" && rapid.Bool().Draw(t, "disjoint")
	for i := 0; i < n; i++ {
		i := i
		d := kit.Doc(t, kit.DocOpt{Depth: 4, Width: 4, Key: func(t *rapid.T, l string) string {
			k := key(t, l)
			if disjoint && rapid.Bool().Draw(t, "own") {
				k += fmt.Sprint(i)
			}
			return k
		}})
		if disjoint { // scalars only under own keys, so that a strict merge can succeed
			d = own(d, i).(obj)
		}
		c.Docs = append(c.Docs, d)
	}
	if c.Policy == "equal" { // later documents state some of the first again
		for i := 1; i < n; i++ {
			if rapid.IntRange(0, 5).Draw(t, "own document") > 0 {
				c.Docs[i] = again(t, c.Docs[0], i).(obj)
			}
		}
	}
	if kit.Rare(t, 8) { // deep inside of a larger document
		path := rapid.SliceOfN(rapid.SampledFrom([]string{"a", "b", "c", "a.b", "~1", ""}), 1, 14).Draw(t, "path")
		for i := range c.Docs {
			for j := len(path) - 1; j >= 0; j-- {
				d := obj{path[j]: c.Docs[i]}
				if rapid.IntRange(0, 4).Draw(t, "sibling") == 0 {
					d[fmt.Sprintf("own%d", i)] = float64(j)
				}
				c.Docs[i] = d
			}
		}
	}
	if kit.Rare(t, 8) {
		c.Files = rapid.SliceOfN(rapid.IntRange(0, 3), n, n).Draw(t, "files")
	}
	if rapid.IntRange(0, 9).Draw(t, "bad") == 0 {
		c.Bad = rapid.IntRange(0, n-1).Draw(t, "which")
		m := c.Docs[c.Bad]
		for {
			ks := []string{}
			for _, k := range []string{"a", "b", "c", ""} {
				if _, ok := m[k].(obj); ok {
					ks = append(ks, k)
				}
			}
			if len(ks) == 0 || rapid.Bool().Draw(t, "stop") {
				break
			}
			k := rapid.SampledFrom(ks).Draw(t, "into")
			c.BadAt = append(c.BadAt, k)
			m = m[k].(obj)
		}
	}
	return c
}

// again repeats parts of v, rarely not quite.
func again(t *rapid.T, v interface{}, i int) interface{} {
	switch x := v.(type) {
	case obj:
		out := obj{}
		ks := make([]string, 0, len(x))
		for k := range x {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			switch p := rapid.IntRange(0, 9).Draw(t, "part"); {
			case p > 2:
				out[k] = again(t, x[k], i)
			case p == 2:
				out[fmt.Sprint(k, i)] = x[k]
			}
		}
		return out
	case string:
		if kit.Rare(t, 4) {
			return rapid.SampledFrom([]string{strings.ToUpper(x), strings.ToLower(x), x + " ", strings.TrimSpace(x)}).Draw(t, "alike")
		}
	case float64:
		if kit.Rare(t, 2) {
			return rapid.SampledFrom([]interface{}{x + 1, fmt.Sprint(x), 2 - x}).Draw(t, "other number")
		}
	case []interface{}:
		if kit.Rare(t, 4) {
			if len(x) > 0 && rapid.Bool().Draw(t, "less") {
				return kit.Copy(x[1:])
			}
			return append(kit.Copy(x).([]interface{}), nil)
		}
		out := []interface{}{}
		for _, e := range x {
			if s, ok := e.(string); ok {
				e = again(t, s, i)
			}
			out = append(out, kit.Copy(e))
		}
		return out
	}
	return v
}

func own(v interface{}, i int) interface{} {
	m, ok := v.(obj)
	if !ok {
		return v
	}
	out := obj{}
	for k, e := range m {
		if em, ok := e.(obj); ok {
			out[k] = own(em, i)
		} else {
			out[fmt.Sprintf("%s-%d", k, i)] = e
		}
	}
	return out
}

func model(docs []obj, policy string) (obj, error) {
	acc := obj{}
	for _, d := range docs {
		var err error
		acc, err = kit.Union(acc, d, policies[policy])
		if err != nil {
			return nil, err
		}
	}
	return acc, nil
}

func data(c container.Container) interface{} { return kit.Norm(c.Data()) }

// scribble changes every object and array inside v in place.
func scribble(v interface{}) {
	switch x := v.(type) {
	case obj:
		for _, e := range x {
			scribble(e)
		}
		for k := range x {
			delete(x, k)
		}
		x["scribbled"] = true
	case []interface{}:
		for i, e := range x {
			scribble(e)
			x[i] = "scribbled"
		}
	}
}

// read reads the document from a file, which can have held another one before.
func read(name string, d obj) (c container.Container, err error) {
	name = filepath.Join(os.TempDir(), name)
	defer os.Remove(name)
	if err = ioutil.WriteFile(name, []byte(kit.JSONText(d)), 0644); err == nil {
		c, err = container.ReadFile(name)
	}
	return
}

func check(c tc) error {
	mk := func() container.Containers {
		var cc container.Containers
		for i, d := range c.Docs {
			x, err := container.Make(d)
			if i < len(c.Files) && c.Files[i] > 0 {
				x, err = read(fmt.Sprintf("%d.json", c.Files[i]), d)
			}
			if err != nil {
				panic(err)
			}
			cc = append(cc, x)
		}
		return cc
	}
	docs := mk()
	if c.Bad >= 0 {
		m := docs[c.Bad].Data().(obj)
		for _, k := range c.BadAt {
			m = m[k].(obj)
		}
		m["uncopyable"] = math.Inf(1)
		if got, err := docs.Merge(container.MergeDefault); err == nil {
			return fmt.Errorf("merging a document that cannot be copied gives %s and no error", kit.JS(data(got)))
		}
		return nil
	}
	want, werr := model(c.Docs, c.Policy)
	got, err := docs.Merge(real(c.Policy))
	for i, d := range docs {
		if x := kit.Diff(kit.Norm(c.Docs[i]), data(d)); x != "" {
			return fmt.Errorf("%s merge changed document %d: %s", c.Policy, i, x)
		}
	}
	if (werr != nil) != (err != nil) {
		return fmt.Errorf("%s merge: error %v, want %v", c.Policy, err, werr)
	}
	if err == nil {
		if x := kit.Diff(kit.Norm(want), data(got)); x != "" {
			return fmt.Errorf("%s merge: %s", c.Policy, x)
		}
	}
	// step by step into the first document
	docs2 := mk()
	dst := docs2[0]
	err2 := error(nil)
	for _, s := range docs2[1:] {
		if err2 = dst.Merge(s, real(c.Policy)); err2 != nil {
			break
		}
	}
	if (werr != nil) != (err2 != nil) {
		return fmt.Errorf("%s merge into the first: error %v, want %v", c.Policy, err2, werr)
	}
	for i, d := range docs2[1:] {
		if x := kit.Diff(kit.Norm(c.Docs[i+1]), data(d)); x != "" {
			return fmt.Errorf("%s merge into the first changed source %d: %s", c.Policy, i+1, x)
		}
	}
	if err2 != nil {
		return nil
	}
	if x := kit.Diff(kit.Norm(want), data(dst)); x != "" {
		return fmt.Errorf("%s merge into the first: %s", c.Policy, x)
	}
	// sources and results share nothing
	for _, d := range docs2[1:] {
		scribble(d.Data())
	}
	for _, d := range docs {
		scribble(d.Data())
	}
	if x := kit.Diff(kit.Norm(want), data(dst)); x != "" {
		return fmt.Errorf("%s merge: changing a source afterwards changed the result: %s", c.Policy, x)
	}
	if x := kit.Diff(kit.Norm(want), data(got)); x != "" {
		return fmt.Errorf("%s merge of a list: changing a source afterwards changed the result: %s", c.Policy, x)
	}
	return nil
}

func overlap(a, b obj) (nested, collide bool) {
	for k, x := range a {
		y, ok := b[k]
		if !ok {
			continue
		}
		xm, ok1 := x.(obj)
		ym, ok2 := y.(obj)
		if ok1 && ok2 {
			nested = true
			_, c := overlap(xm, ym)
			collide = collide || c
		} else {
			collide = true
		}
	}
	return
}

func class(c tc) (i kit.Info) {
	n, k := false, false
	for j := range c.Docs {
		for l := 0; l < j; l++ {
			a, b := overlap(c.Docs[l], c.Docs[j])
			n, k = n || a, k || b
		}
	}
	i.Nontrivial = n || k
	i.Label(n, "objects merged recursively")
	i.Label(k, "collision")
	i.Label(len(c.Docs) > 4, "many documents")
	i.Label(kit.Depth(map[string]interface{}(c.Docs[0])) > 7, "deep documents")
	i.Label(c.Policy == "strict" && !k, "strict without collision")
	if c.Policy == "equal" && k {
		_, err := model(c.Docs, c.Policy)
		i.Label(err == nil, "all collisions of equal values")
	}
	i.Label(len(c.Files) > 0, "read from files")
	i.Label(c.Bad >= 0, "uncopyable document")
	i.Label(true, "policy "+c.Policy)
	return
}

func TestProp(t *testing.T) {
	kit.Run(t, "C10", kit.P[tc]{Name: "merge", Gen: gen, Check: check, Class: class, Quick: 60000, Thorough: 2000000,
		Rule: "2-4 documents over few keys and a policy; non-trivial: two of them have a key in common"})
}
