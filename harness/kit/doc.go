package kit

import (
	"encoding/json"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"unicode/utf8"

	"pgregory.net/rapid"
)

// Norm brings a value to its plain JSON form (maps, slices, float64, string, bool, nil).
func Norm(v interface{}) interface{} {
	b, err := json.Marshal(v)
	must(err)
	var x interface{}
	must(json.Unmarshal(b, &x))
	return x
}

// Copy deep-copies plain JSON.
func Copy(v interface{}) interface{} {
	switch x := v.(type) {
	case map[string]interface{}:
		m := make(map[string]interface{}, len(x))
		for k, e := range x {
			m[k] = Copy(e)
		}
		return m
	case []interface{}:
		s := make([]interface{}, len(x))
		for i, e := range x {
			s[i] = Copy(e)
		}
		return s
	}
	return v
}

// JS renders a value for a message.
func JS(v interface{}) string {
	b, err := json.Marshal(v)
	if err != nil {
		return fmt.Sprintf("%#v", v)
	}
	if len(b) > 3000 {
		b = append(b[:3000], "..."...)
	}
	return string(b)
}

// Diff reports the first difference of two plain JSON values, or "".
func Diff(want, got interface{}) string { return diff("", want, got) }

func diff(path string, want, got interface{}) string {
	switch w := want.(type) {
	case map[string]interface{}:
		g, ok := got.(map[string]interface{})
		if !ok {
			return fmt.Sprintf("at %q: want %s, got %s", path, JS(want), JS(got))
		}
		keys := map[string]bool{}
		for k := range w {
			keys[k] = true
		}
		for k := range g {
			keys[k] = true
		}
		ks := make([]string, 0, len(keys))
		for k := range keys {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			wv, wok := w[k]
			gv, gok := g[k]
			switch {
			case !wok:
				return fmt.Sprintf("at %q: unexpected key %q = %s", path, k, JS(gv))
			case !gok:
				return fmt.Sprintf("at %q: missing key %q = %s", path, k, JS(wv))
			}
			if d := diff(path+"/"+k, wv, gv); d != "" {
				return d
			}
		}
		return ""
	case []interface{}:
		g, ok := got.([]interface{})
		if !ok || len(g) != len(w) {
			return fmt.Sprintf("at %q: want %s, got %s", path, JS(want), JS(got))
		}
		for i := range w {
			if d := diff(fmt.Sprintf("%s/%d", path, i), w[i], g[i]); d != "" {
				return d
			}
		}
		return ""
	}
	if !reflect.DeepEqual(want, got) {
		return fmt.Sprintf("at %q: want %s, got %s", path, JS(want), JS(got))
	}
	return ""
}

// Weird are keys and tokens that stress path escaping.
var Weird = []string{
	"", ".", "..", "~", "~0", "~1", "~01", "~10", "/", "//", "*", "-", "0", "1", "01", "-1", "a.b", "a/b", "~.", ".~", "a~1b",
	"/v1/items", "/v1/file.json", "application/json", "application/vnd.x+json", "$ref", "x.$ref", "#", "%", "%2F", "%zz", "a b", "é", "\u00e9\u0301",
	"\"", "'", "`", "\\", "\n", "\t", "\r", "\x00", "\x01", "\x7f", "\u2028", "\ufeff", "😀", "<", ">", "&", "200", "true", "null", "yes", "1.0", "1e3", "{id}", "[]", "k: v", "- a", "? b", "!x", "|",
	"\\u003c", "\\u0026amp;", "\\n", "\\\"", "<a href=\"x\">&amp;</a>", "${HOME}", "$1", "{{.}}", "%!s(int=1)",
	"go://x#/Y", "key,", "a:b", "@", "=", "<<",
}

// Rare is true in so many percent of the cases.
func Rare(t *rapid.T, percent int) bool { return rapid.IntRange(0, 99).Draw(t, "rare") >= 100-percent }

// Long draws a long string of letters.
func Long(t *rapid.T, label string) string {
	return strings.Repeat(rapid.SampledFrom([]string{"a", "Ab", "abc", "a.b", "é"}).Draw(t, label), rapid.IntRange(10, 100).Draw(t, label+"len"))
}

// Key draws an object key: mostly short letters, often adversarial.
func Key(t *rapid.T, label string) string {
	switch rapid.IntRange(0, 9).Draw(t, label+"k") {
	case 0, 1, 2, 3, 4, 5:
		return rapid.StringMatching(`[a-d]{1,2}`).Draw(t, label)
	case 6, 7, 8:
		return rapid.SampledFrom(Weird).Draw(t, label)
	}
	if Rare(t, 10) {
		return Long(t, label)
	}
	return Text(t, label)
}

// Text draws any valid UTF-8 string.
func Text(t *rapid.T, label string) string {
	switch rapid.IntRange(0, 4).Draw(t, label+"t") {
	case 0, 1:
		return rapid.StringMatching(`[a-z]{0,6}`).Draw(t, label)
	case 2:
		return rapid.SampledFrom(Weird).Draw(t, label)
	case 3:
		return strings.Join(rapid.SliceOfN(rapid.SampledFrom(Weird), 1, 3).Draw(t, label), "")
	}
	if Rare(t, 5) {
		return Long(t, label)
	}
	s := rapid.StringN(0, 8, -1).Draw(t, label)
	if !utf8.ValidString(s) {
		s = strings.ToValidUTF8(s, "?")
	}
	return s
}

// DocOpt tunes the document generator.
type DocOpt struct {
	Depth  int
	Width  int
	Key    func(t *rapid.T, label string) string
	NoNull bool
	Leaf   func(t *rapid.T) interface{} // optional replacement of scalar leaves
}

// Doc draws a JSON object.
func Doc(t *rapid.T, o DocOpt) map[string]interface{} {
	return object(t, o, o.Depth)
}

func object(t *rapid.T, o DocOpt, depth int) map[string]interface{} {
	key := o.Key
	if key == nil {
		key = Key
	}
	n := rapid.IntRange(0, o.Width).Draw(t, "n")
	m := map[string]interface{}{}
	if Rare(t, 2) { // many members
		n = rapid.IntRange(8, 40).Draw(t, "many")
		depth = 2
	}
	for i := 0; i < n; i++ {
		m[key(t, "key")] = Value(t, o, depth-1)
	}
	return m
}

// Repeat puts a copy of an object or array in d at another place of d.
func Repeat(t *rapid.T, d map[string]interface{}) {
	var parts []interface{}
	Walk(d, func(p []string, v interface{}) {
		switch v.(type) {
		case map[string]interface{}, []interface{}:
			if len(p) > 0 {
				parts = append(parts, v)
			}
		}
	})
	if len(parts) == 0 {
		return
	}
	for n := rapid.IntRange(1, 3).Draw(t, "repeat"); n > 0; n-- {
		v := Copy(parts[rapid.IntRange(0, len(parts)-1).Draw(t, "part")])
		switch in := parts[rapid.IntRange(0, len(parts)-1).Draw(t, "in")].(type) {
		case map[string]interface{}:
			in[fmt.Sprintf("again%d", n)] = v
		default:
			d[fmt.Sprintf("again%d", n)] = v
		}
	}
}

// Value draws any JSON value.
func Value(t *rapid.T, o DocOpt, depth int) interface{} {
	k := rapid.IntRange(0, 9).Draw(t, "vk")
	if depth <= 0 && k < 5 {
		k = 9
	}
	if depth > 0 && Rare(t, 2) { // deeply nested
		v := Value(t, o, 1)
		for i := rapid.IntRange(4, 16).Draw(t, "levels"); i > 0; i-- {
			if rapid.IntRange(0, 3).Draw(t, "list") == 0 {
				v = []interface{}{v}
				continue
			}
			key := o.Key
			if key == nil {
				key = Key
			}
			v = map[string]interface{}{key(t, "key"): v}
		}
		return v
	}
	switch {
	case k < 3:
		return object(t, o, depth)
	case k < 5:
		n := rapid.IntRange(0, o.Width).Draw(t, "an")
		if Rare(t, 4) { // many elements
			n = rapid.IntRange(8, 40).Draw(t, "many")
			depth = 2
		}
		a := make([]interface{}, 0, n)
		for i := 0; i < n; i++ {
			a = append(a, Value(t, o, depth-1))
		}
		return a
	}
	if o.Leaf != nil {
		return o.Leaf(t)
	}
	return Scalar(t, o.NoNull)
}

// Scalar draws a JSON scalar.
func Scalar(t *rapid.T, noNull bool) interface{} {
	switch rapid.IntRange(0, 6).Draw(t, "sk") {
	case 0, 1:
		return Text(t, "s")
	case 2:
		return rapid.Bool().Draw(t, "b")
	case 3:
		return float64(rapid.IntRange(-1000, 1000).Draw(t, "i"))
	case 4:
		return rapid.SampledFrom([]float64{0, 0.5, -1.25, 1e21, 1e-7, 4294967296, 9007199254740991, 1.5e300, 3}).Draw(t, "f")
	case 5:
		if !noNull {
			return nil
		}
		return "x"
	}
	return rapid.SampledFrom([]string{"", "a", "null", "true", "1", "1.0", "~", "2020-01-01", "2020-01-01T00:00:00Z", "0x10", "0o7", "010", "1_000", ".inf", "NaN", "yes", "on", "y", "=", "<<", "- a", "a: b", "#c", " lead", "trail ", "a\nb\n", "\n", "`", "a`b"}).Draw(t, "ss")
}

// Walk calls fn on every value with its key path.
func Walk(v interface{}, fn func(path []string, v interface{})) { walk(nil, v, fn) }

func walk(path []string, v interface{}, fn func([]string, interface{})) {
	fn(path, v)
	switch x := v.(type) {
	case map[string]interface{}:
		ks := make([]string, 0, len(x))
		for k := range x {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			walk(append(append([]string{}, path...), k), x[k], fn)
		}
	case []interface{}:
		for i, e := range x {
			walk(append(append([]string{}, path...), fmt.Sprint(i)), e, fn)
		}
	}
}

// WalkErr calls fn on every value until it gives an error.
func WalkErr(v interface{}, fn func(v interface{}) error) (err error) {
	Walk(v, func(_ []string, v interface{}) {
		if err == nil {
			err = fn(v)
		}
	})
	return
}

// Depth is the nesting depth of a value.
func Depth(v interface{}) int {
	d := 0
	switch x := v.(type) {
	case map[string]interface{}:
		for _, e := range x {
			if k := Depth(e) + 1; k > d {
				d = k
			}
		}
	case []interface{}:
		for _, e := range x {
			if k := Depth(e) + 1; k > d {
				d = k
			}
		}
	}
	return d
}

// JSONText writes plain JSON without HTML escaping.
func JSONText(v interface{}) string {
	var b strings.Builder
	e := json.NewEncoder(&b)
	e.SetEscapeHTML(false)
	must(e.Encode(v))
	return b.String()
}
