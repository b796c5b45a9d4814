package c14

import (
	"fmt"
	"strings"
	"sync"
	"testing"

	"github.com/buypal/oapi-go/internal/route"
	"github.com/buypal/oapi-go/verifharness/kit"
	"pgregory.net/rapid"
)

type call struct{ Pattern, Method, Path string }

type tc struct {
	Calls      []call
	Concurrent bool
}

// ---- generator ----

var names = []string{"id", "itemId", "ab", "petID2", "user", "aVeryLongNameOfAParameterWhichNobodyWouldTypeTwice"}
var lits = []string{"/", "/", "v1", "items", "Items", "a", "b", "B", "0", ".", ".json", "+", "(", ")", "[", "]", "[]", "^", "$", "|", "?", "\\", "\\d", "\\Q", "\\E", "{", "}", "{}", "{2}", "{1,}", "a|b", ".+", "(?i)", "~", "%20", "é", ":", "GET:", "-", "_", "&", ",", " ", "[a-z]", "{{", "}}", "#"}

func genCall(t *rapid.T) call {
	var pat, path strings.Builder
	n := rapid.IntRange(0, 7).Draw(t, "n")
	if kit.Rare(t, 4) {
		n = rapid.IntRange(8, 40).Draw(t, "many")
	}
	for i := 0; i < n; i++ {
		switch rapid.IntRange(0, 5).Draw(t, "piece") {
		case 0:
			pat.WriteString("{" + rapid.SampledFrom(names).Draw(t, "name") + "}")
			path.WriteString(rapid.SampledFrom([]string{"1", "abc", "{id}", "a.b", "x-y", "é", "(", "*", "", "a/b", "itemId"}).Draw(t, "seg"))
		case 1:
			pat.WriteString("*")
			path.WriteString(rapid.SampledFrom([]string{"", "x", "/a/b", "//", "anything", ".", "$"}).Draw(t, "any"))
		default:
			l := rapid.SampledFrom(lits).Draw(t, "lit")
			pat.WriteString(l)
			path.WriteString(l)
		}
	}
	c := call{Pattern: pat.String(), Path: path.String()}
	// mutations
	for k := rapid.IntRange(0, 2).Draw(t, "muts"); k > 0; k-- {
		which := rapid.IntRange(0, 3).Draw(t, "mut")
		target := &c.Path
		if which == 3 {
			target = &c.Pattern
		}
		r := []rune(*target)
		i := rapid.IntRange(0, len(r)).Draw(t, "at")
		ins := []rune(rapid.SampledFrom(lits).Draw(t, "ins"))
		switch {
		case which == 0 && i < len(r):
			r = append(append([]rune{}, r[:i]...), r[i+1:]...)
		case which == 1 && i < len(r):
			r = append(append(append([]rune{}, r[:i]...), ins...), r[i+1:]...)
		default:
			r = append(append(append([]rune{}, r[:i]...), ins...), r[i:]...)
		}
		*target = string(r)
	}
	ms := append([]string{"", "", "get", "GET", "Post", "put", "delete", "patch", "options", "head", "trace", "LINK", "unlink", "FOO", "GET:"}, kit.Methods...)
	if rapid.IntRange(0, 2).Draw(t, "withMethod") > 0 {
		c.Method = rapid.SampledFrom(ms).Draw(t, "method")
	}
	if rapid.IntRange(0, 2).Draw(t, "withPrefix") == 0 {
		m := rapid.SampledFrom(kit.Methods).Draw(t, "prefix")
		switch rapid.IntRange(0, 2).Draw(t, "same") {
		case 0:
			c.Method = m
		case 1:
			c.Method = strings.ToLower(m)
		}
		switch rapid.IntRange(0, 2).Draw(t, "case") {
		case 0:
			m = strings.ToLower(m)
		case 1:
			m = m[:1] + strings.ToLower(m[1:])
		}
		c.Pattern = m + ":" + c.Pattern
	}
	return c
}

// near draws a call which looks like an earlier one: whatever the library remembers
// of the earlier one must not be mistaken for this one.
func near(t *rapid.T, c call) call {
	vary := func(s string) string {
		switch rapid.IntRange(0, 9).Draw(t, "vary") {
		case 0:
			return strings.ToUpper(s)
		case 1:
			return strings.ToLower(s)
		case 2:
			// one letter in the other case
			r := []rune(s)
			if len(r) == 0 {
				return s
			}
			i := rapid.IntRange(0, len(r)-1).Draw(t, "at")
			if u := []rune(strings.ToUpper(string(r[i]))); len(u) == 1 && u[0] != r[i] {
				r[i] = u[0]
			} else if l := []rune(strings.ToLower(string(r[i]))); len(l) == 1 {
				r[i] = l[0]
			}
			return string(r)
		case 3:
			return strings.TrimSuffix(s, "/")
		case 4:
			return s + "/"
		case 5:
			return strings.ReplaceAll(s, "*", ".*")
		case 6:
			return strings.ReplaceAll(s, "*", "{id}")
		case 7:
			return strings.ReplaceAll(strings.ReplaceAll(s, "{id}", "*"), "{itemId}", "*")
		case 8:
			return " " + s
		}
		// two neighbours exchanged
		r := []rune(s)
		if len(r) < 2 {
			return s
		}
		i := rapid.IntRange(0, len(r)-2).Draw(t, "at")
		r[i], r[i+1] = r[i+1], r[i]
		return string(r)
	}
	switch rapid.IntRange(0, 3).Draw(t, "what") {
	case 0:
		c.Pattern = vary(c.Pattern)
	case 1:
		c.Path = vary(c.Path)
	case 2:
		c.Pattern, c.Path = vary(c.Pattern), vary(c.Path)
	case 3:
		c.Method = rapid.SampledFrom(append([]string{""}, kit.Methods...)).Draw(t, "other method")
	}
	return c
}

func gen(t *rapid.T) tc {
	var c tc
	n := rapid.IntRange(1, 5).Draw(t, "calls")
	for i := 0; i < n; i++ {
		k := genCall(t)
		if i > 0 {
			old := c.Calls[rapid.IntRange(0, i-1).Draw(t, "which")]
			switch rapid.IntRange(0, 4).Draw(t, "reuse") {
			case 0:
				k.Pattern = old.Pattern
			case 1:
				k.Path = old.Path
			case 2, 3:
				k = near(t, old)
			}
		}
		c.Calls = append(c.Calls, k)
	}
	c.Concurrent = rapid.IntRange(0, 3).Draw(t, "conc") == 0
	return c
}

func check(c tc) error {
	one := func(k call) error {
		got, err := route.Match(k.Pattern, k.Method, k.Path)
		if err != nil {
			return fmt.Errorf("Match(%q, %q, %q) failed: %v", k.Pattern, k.Method, k.Path, err)
		}
		if w := kit.Match(k.Pattern, k.Method, k.Path); got != w {
			return fmt.Errorf("Match(%q, %q, %q) = %v, want %v", k.Pattern, k.Method, k.Path, got, w)
		}
		return nil
	}
	if c.Concurrent {
		var wg sync.WaitGroup
		errs := make([]error, 4*len(c.Calls))
		for g := range errs {
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() {
					if r := recover(); r != nil {
						errs[g] = fmt.Errorf("panic: %v", r)
					}
				}()
				errs[g] = one(c.Calls[g%len(c.Calls)])
			}()
		}
		wg.Wait()
		for _, e := range errs {
			if e != nil {
				return e
			}
		}
	}
	for _, k := range c.Calls {
		if err := one(k); err != nil {
			return err
		}
	}
	// the answers must not depend on what was asked before
	for i := len(c.Calls) - 1; i >= 0; i-- {
		if err := one(c.Calls[i]); err != nil {
			return fmt.Errorf("asked again: %w", err)
		}
	}
	return nil
}

func class(c tc) (i kit.Info) {
	for _, k := range c.Calls {
		w := kit.Match(k.Pattern, k.Method, k.Path)
		special := strings.ContainsAny(k.Pattern, "{*")
		i.Nontrivial = i.Nontrivial || special && w
		i.Label(w, "matching call")
		i.Label(!w, "non-matching call")
		i.Label(w && special, "matching call with placeholder or star")
		i.Label(strings.ContainsAny(k.Pattern, `.+()[]^$|?\`), "regexp metacharacters in pattern")
	}
	i.Label(c.Concurrent, "concurrent")
	return
}

func TestProp(t *testing.T) {
	kit.Run(t, "C14", kit.P[tc]{
		Name:  "match",
		Rule:  "1-5 calls whose route is built together with the pattern, then mutated; non-trivial: a pattern with a placeholder or star matches",
		Gen:   gen,
		Check: check,
		Class: class,
		Quick: 160000, Thorough: 4000000,
	})
}
