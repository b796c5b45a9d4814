package c15

import (
	"encoding/json"
	"fmt"
	"net/url"
	"reflect"
	"strings"
	"testing"
	"unicode/utf8"

	"github.com/buypal/oapi-go/internal/pointer"
	"github.com/buypal/oapi-go/verifharness/kit"
	"pgregory.net/rapid"
)

// RFC 6901
func rfcEscape(tok string) string {
	var b strings.Builder
	for i := 0; i < len(tok); i++ {
		switch tok[i] {
		case '~':
			b.WriteString("~0")
		case '/':
			b.WriteString("~1")
		default:
			b.WriteByte(tok[i])
		}
	}
	return b.String()
}

func rfcUnescape(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if s[i] == '~' && i+1 < len(s) && (s[i+1] == '0' || s[i+1] == '1') {
			b.WriteByte("~/"[s[i+1]-'0'])
			i++
			continue
		}
		b.WriteByte(s[i])
	}
	return b.String()
}

func same(a, b []string) bool { return len(a) == 0 && len(b) == 0 || reflect.DeepEqual(a, b) }

// ---- round trips ----

type tc struct {
	URL    string
	Tokens []string
}

var urls = []string{"", "go://github.com/org/repo/pkg", "go://x", "go://", "go://a.b/c.d", "file:///tmp/x.yaml", "http://example.com/a/b?q=1&r=2", "https://u:p@h:8080/x", "doc.json", "../a/b.json", "/abs", "go://github.com/org/repo/.examples/config", "http://h/a%20b", "http://h/a%2Fb", "http://h/?x=%23", "http://h/a?", "//h/p", "http://u@h/", "http://[::1]:80/x", "http://h"}

func gen(t *rapid.T) tc {
	var c tc
	c.URL = rapid.SampledFrom(urls).Draw(t, "url")
	if rapid.IntRange(0, 3).Draw(t, "genurl") == 0 {
		c.URL = "go://" + rapid.StringMatching(`[a-z]{1,5}(\.[a-z]{2,3})?(/[a-zA-Z0-9._-]{1,6}){0,4}`).Draw(t, "pkg")
	}
	n := rapid.IntRange(0, 5).Draw(t, "n")
	if kit.Rare(t, 5) {
		n = rapid.IntRange(6, 40).Draw(t, "many")
	}
	for i := 0; i < n; i++ {
		c.Tokens = append(c.Tokens, kit.Text(t, "tok"))
	}
	return c
}

func (c tc) build() (pointer.Pointer, error) {
	u, err := url.Parse(c.URL)
	if err != nil {
		return pointer.Pointer{}, err
	}
	return pointer.Pointer{URL: *u, Fragment: append(pointer.Fragment{}, c.Tokens...)}, nil
}

func (c tc) is(p pointer.Pointer) error {
	p2 := p.URL
	p2.Fragment, p2.RawFragment = "", ""
	w, _ := url.Parse(c.URL)
	if got := p2.String(); got != w.String() {
		return fmt.Errorf("URL is %q, want %q", got, w.String())
	}
	if !same(p.Fragment, c.Tokens) {
		return fmt.Errorf("tokens are %q, want %q", []string(p.Fragment), c.Tokens)
	}
	return nil
}

func check(c tc) error {
	p, err := c.build()
	if err != nil {
		return nil
	}
	s := p.String()
	q, err := pointer.Parse(s)
	if err != nil {
		return fmt.Errorf("%q does not parse: %v (tokens %q)", s, err, c.Tokens)
	}
	if err := c.is(q); err != nil {
		return fmt.Errorf("through text %q: %w", s, err)
	}
	if q.String() != s {
		return fmt.Errorf("prints as %q, then %q", s, q.String())
	}
	// a struct field of the object model
	type holder struct {
		Ref *pointer.Pointer `json:"$ref"`
	}
	b, err := json.Marshal(holder{&p})
	if err != nil {
		return fmt.Errorf("pointer %q does not marshal: %v", s, err)
	}
	var plain map[string]string
	if err := json.Unmarshal(b, &plain); err != nil || plain["$ref"] != s {
		return fmt.Errorf("JSON %s is not the text %q", b, s)
	}
	var h holder
	if err := json.Unmarshal(b, &h); err != nil {
		return fmt.Errorf("JSON %s does not unmarshal: %v", b, err)
	}
	if err := c.is(*h.Ref); err != nil {
		return fmt.Errorf("through JSON %s: %w", b, err)
	}
	// any JSON spelling of the same string
	esc := escapeJSON(s)
	var h2 holder
	if err := json.Unmarshal([]byte(`{"$ref":`+esc+`}`), &h2); err != nil {
		return fmt.Errorf("JSON %s does not unmarshal: %v", esc, err)
	}
	if err := c.is(*h2.Ref); err != nil {
		return fmt.Errorf("through JSON %s: %w", esc, err)
	}
	// fragments
	want := ""
	for _, t := range c.Tokens {
		want += "/" + rfcEscape(t)
	}
	if got := p.Fragment.String(); got != want {
		return fmt.Errorf("fragment of %q prints as %q, RFC 6901 says %q", c.Tokens, got, want)
	}
	f, err := pointer.NewFragment(want)
	if err != nil || !same(f, c.Tokens) {
		return fmt.Errorf("fragment %q parses to %q, %v, want %q", want, []string(f), err, c.Tokens)
	}
	cl := p.Clone()
	if err := c.is(cl); err != nil {
		return fmt.Errorf("clone: %w", err)
	}
	if len(cl.Fragment) > 0 {
		cl.Fragment[0] += "changed"
		cl.Path += "/changed"
		if err := c.is(p); err != nil {
			return fmt.Errorf("changing the clone changed the original: %w", err)
		}
	}
	if ext := p.IsExternal(); ext != (strings.Contains(c.URL, "://")) {
		return fmt.Errorf("IsExternal of %q is %v", s, ext)
	}
	if strings.HasPrefix(c.URL, "go://") {
		if got := p.PkgPath(); got != strings.TrimPrefix(c.URL, "go://") {
			return fmt.Errorf("package path of %q is %q", s, got)
		}
	}
	pp := pointer.NewPointers([]pointer.Pointer{p, q})
	if len(pp) != 1 || pp[s].String() != s {
		return fmt.Errorf("pointer set of two equal pointers: %v", pp)
	}
	return nil
}

// escapeJSON spells every character that may be escaped, escaped.
func escapeJSON(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for _, r := range s {
		switch {
		case r == '/':
			b.WriteString(`\/`)
		case r > 0xffff:
			r -= 0x10000
			fmt.Fprintf(&b, `\u%04x\u%04x`, 0xd800+(r>>10), 0xdc00+(r&0x3ff))
		case r < 0x80 && (r >= 'a' && r <= 'z'):
			b.WriteRune(r)
		default:
			fmt.Fprintf(&b, `\u%04x`, r)
		}
	}
	b.WriteByte('"')
	return b.String()
}

func class(c tc) (i kit.Info) {
	odd := false
	for _, t := range c.Tokens {
		odd = odd || strings.ContainsAny(t, "~/%#\"\\ ") || t == ""
	}
	i.Nontrivial = len(c.Tokens) > 0
	i.Label(odd, "token that needs escaping")
	i.Label(c.URL == "", "local")
	i.Label(len(c.Tokens) == 0, "no tokens")
	return
}

// ---- derivation histories ----

type op struct {
	Kind string // new, newptr, desc, raw, replace, clone, poke
	From int
	Toks []string
	Text string
	N    int
}

type hist struct{ Ops []op }

func genHist(t *rapid.T) hist {
	var h hist
	n := rapid.IntRange(1, 14).Draw(t, "n")
	for i := 0; i < n; i++ {
		o := op{Kind: rapid.SampledFrom([]string{"new", "newptr", "desc", "desc", "raw", "raw", "raw", "replace", "replace", "clone", "poke"}).Draw(t, "kind")}
		if i == 0 && o.Kind != "newptr" {
			o.Kind = "new"
		}
		if i > 0 {
			o.From = rapid.IntRange(0, i-1).Draw(t, "from")
		}
		switch o.Kind {
		case "new", "raw":
			o.Toks = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) string { return kit.Text(t, "tok") }), 0, 3).Draw(t, "toks")
		case "desc":
			k := rapid.IntRange(0, 3).Draw(t, "k")
			var ts []string
			for j := 0; j < k; j++ {
				ts = append(ts, rfcEscape(kit.Text(t, "tok")))
			}
			o.Text = strings.Join(ts, "/")
			if rapid.Bool().Draw(t, "slash") {
				o.Text = "/" + o.Text
			}
		case "replace", "poke":
			o.N = rapid.IntRange(-1, 5).Draw(t, "at")
			o.Text = kit.Text(t, "el")
		}
		h.Ops = append(h.Ops, o)
	}
	return h
}

func checkHist(h hist) error {
	var real []pointer.Fragment
	var model [][]string
	add := func(f pointer.Fragment, m []string) {
		real = append(real, f)
		model = append(model, append([]string{}, m...))
	}
	for k, o := range h.Ops {
		var src pointer.Fragment
		var m []string
		if len(real) > 0 {
			src, m = real[o.From%len(real)], model[o.From%len(real)]
		}
		what := fmt.Sprintf("step %d %+v on %q", k, o, m)
		switch o.Kind {
		case "new":
			add(append(pointer.Fragment{}, o.Toks...), o.Toks)
		case "newptr":
			add(pointer.NewPointer().Fragment, nil)
		case "raw":
			add(src.RawDescendant(o.Toks...), append(append([]string{}, m...), o.Toks...))
		case "desc":
			f, err := src.Descendant(o.Text)
			if err != nil {
				return fmt.Errorf("%s: %v", what, err)
			}
			var ts []string
			for _, x := range strings.Split(strings.TrimPrefix(o.Text, "/"), "/") {
				ts = append(ts, rfcUnescape(x))
			}
			base := m
			if len(m) == 1 && m[0] == "" {
				base = nil // "/" counts as the root
			}
			add(f, append(append([]string{}, base...), ts...))
		case "replace":
			f, err := src.Replace(o.N, o.Text)
			if o.N < 0 || o.N >= len(m) {
				if err == nil {
					return fmt.Errorf("%s: no error", what)
				}
				add(pointer.Fragment{}, nil)
				break
			}
			if err != nil {
				return fmt.Errorf("%s: %v", what, err)
			}
			nm := append([]string{}, m...)
			nm[o.N] = o.Text
			add(f, nm)
		case "clone":
			add(src.Clone(), m)
		case "poke":
			// write into a clone in place
			f := src.Clone()
			nm := append([]string{}, m...)
			if o.N >= 0 && o.N < len(f) {
				f[o.N] = o.Text
				nm[o.N] = o.Text
			}
			add(f, nm)
		}
		for i := range real {
			if !same(real[i], model[i]) {
				return fmt.Errorf("after %s: pointer %d is %q, was %q", what, i, []string(real[i]), model[i])
			}
			if real[i].Len() != len(model[i]) || real[i].IsEmpty() != (len(model[i]) == 0) {
				return fmt.Errorf("after %s: pointer %d: Len %d IsEmpty %v for %q", what, i, real[i].Len(), real[i].IsEmpty(), model[i])
			}
			hd, ok := real[i].Head()
			la, ok2 := real[i].Last()
			ta, ok3 := real[i].Tail()
			if n := len(model[i]); n == 0 && (ok || ok2 || ok3) || n > 0 && (!ok || !ok2 || !ok3 || hd != model[i][0] || la != model[i][n-1] || ta != la) {
				return fmt.Errorf("after %s: pointer %d: Head %q,%v Last %q,%v Tail %q,%v of %q", what, i, hd, ok, la, ok2, ta, ok3, model[i])
			}
		}
	}
	return nil
}

// ---- arbitrary text ----

type text struct{ S string }

func genText(t *rapid.T) text {
	soup := []string{"#", "/", "~", "~0", "~1", "%", "%2F", "%zz", "%25", "go:", "//", "a", "b", ".", ":", "@", "?", "[", "]", "\x00", "\x7f", "é", " ", "\"", "go://x#", "#/"}
	if rapid.IntRange(0, 3).Draw(t, "s") == 0 {
		return text{rapid.String().Draw(t, "any")}
	}
	return text{strings.Join(rapid.SliceOfN(rapid.SampledFrom(soup), 0, 8).Draw(t, "soup"), "")}
}

func checkText(c text) error {
	p, err := pointer.Parse(c.S)
	u, uerr := url.Parse(c.S)
	frag := ""
	if uerr == nil {
		frag = u.Fragment
	}
	valid := uerr == nil && (frag == "" || frag[0] == '/')
	if valid != (err == nil) {
		return fmt.Errorf("Parse(%q): error %v; valid: %v", c.S, err, valid)
	}
	f, ferr := pointer.NewFragment(c.S)
	if (ferr == nil) != (c.S == "" || c.S[0] == '/') {
		return fmt.Errorf("NewFragment(%q) = %q, %v", c.S, []string(f), ferr)
	}
	if utf8.ValidString(c.S) {
		var jp pointer.Pointer
		b, _ := json.Marshal(c.S)
		jerr := json.Unmarshal(b, &jp)
		if (jerr == nil) != valid {
			return fmt.Errorf("JSON %s: error %v; valid: %v", b, jerr, valid)
		}
	}
	// not strings
	for _, s := range []string{"5", "true", "{}", "[]"} {
		var jp pointer.Pointer
		if err := json.Unmarshal([]byte(s), &jp); err == nil {
			return fmt.Errorf("JSON %s accepted as a pointer: %q", s, jp.String())
		}
	}
	if err != nil {
		return nil
	}
	var want []string
	if frag != "" {
		for _, x := range strings.Split(frag[1:], "/") {
			want = append(want, rfcUnescape(x))
		}
	}
	if !same(p.Fragment, want) {
		return fmt.Errorf("Parse(%q) has tokens %q, want %q", c.S, []string(p.Fragment), want)
	}
	// net/url does not print every URL it parses so that it parses again; such URLs are no pointers of interest
	u.Fragment, u.RawFragment = "", ""
	if v, err := url.Parse(u.String()); err != nil || v.String() != u.String() {
		return nil
	}
	q, err := pointer.Parse(p.String())
	if err != nil {
		return fmt.Errorf("Parse(%q) prints as %q, which does not parse: %v", c.S, p.String(), err)
	}
	if !same(q.Fragment, want) {
		return fmt.Errorf("Parse(%q) prints as %q with tokens %q, want %q", c.S, p.String(), []string(q.Fragment), want)
	}
	return nil
}

func TestProp(t *testing.T) {
	kit.Run(t, "C15",
		kit.P[tc]{Name: "roundtrip", Gen: gen, Check: check, Class: class, Quick: 80000, Thorough: 3000000,
			Rule: "URL and up to 5 arbitrary tokens; non-trivial: at least one token"},
		kit.P[hist]{Name: "derive", Gen: genHist, Check: checkHist, Quick: 80000, Thorough: 3000000,
			Rule: "1-14 derivation steps over a growing pool, every earlier pointer re-read after each; non-trivial: at least two derivations",
			Class: func(h hist) (i kit.Info) {
				n := 0
				for _, o := range h.Ops {
					if o.Kind != "new" && o.Kind != "newptr" {
						n++
					}
				}
				i.Nontrivial = n >= 2
				i.Label(n >= 5, "five or more derivations")
				return
			}},
		kit.P[text]{Name: "text", Gen: genText, Check: checkText, Quick: 80000, Thorough: 3000000,
			Rule: "arbitrary text; non-trivial: contains a fragment",
			Class: func(c text) (i kit.Info) {
				i.Nontrivial = strings.Contains(c.S, "#")
				_, err := url.Parse(c.S)
				i.Label(err != nil, "not a URL")
				return
			}})
}
