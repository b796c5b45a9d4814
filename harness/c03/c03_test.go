package c03

import (
	"fmt"
	"reflect"
	"strconv"
	"strings"
	"testing"

	"github.com/buypal/oapi-go/tag"
	"github.com/buypal/oapi-go/verifharness/kit"
	"pgregory.net/rapid"
)

// An option as written.
type opt struct {
	Key   string
	Val   string
	Bare  bool // key only
	Quote bool
}

type part struct {
	Key  string // json, oapi, or another tag
	Name string
	Opts []opt
}

type tc struct {
	Parts  []part
	Spaces []int
	Perm   []int // order of the oapi options in the second spelling
}

type kind int

const (
	kBool kind = iota
	kBoolPtr
	kInt
	kFloat
	kString
)

var oapiOpts = []struct {
	key   string
	kind  kind
	field string
}{
	{"inline", kBoolPtr, "Inline"}, {"omitempty", kBool, "OmitEmpty"}, {"nullable", kBoolPtr, "Nullable"},
	{"readonly", kBool, "ReadOnly"}, {"writeonly", kBool, "WriteOnly"}, {"deprecated", kBool, "Deprecated"},
	{"unique", kBool, "UniqItems"}, {"required", kBool, "Required"},
	{"maxlen", kInt, "MaxLen"}, {"minlen", kInt, "MinLen"}, {"maxitems", kInt, "MaxItems"}, {"minitems", kInt, "MinItems"},
	{"maxprops", kInt, "MaxProps"}, {"minprops", kInt, "MinProps"},
	{"pattern", kString, "Pattern"}, {"format", kString, "Format"}, {"type", kString, "Type"},
	{"max", kFloat, "Max"}, {"min", kFloat, "Min"}, {"emax", kFloat, "EMax"}, {"emin", kFloat, "EMin"}, {"mulof", kFloat, "MulOf"},
}

// Names of options the documentation does not have: names other generators
// use, other spellings of the documented ones, and the fields of tag.Tag.
var undocumented = []string{
	"unknownopt", "optional", "title", "description", "example", "default", "enum", "name", "ignore", "skip", "ref", "style",
	"minimum", "maximum", "minlength", "maxlength", "minLength", "maxLength", "minproperties", "maxproperties", "multipleof", "multipleOf",
	"exclusiveminimum", "exclusivemaximum", "exclusiveMin", "exclusiveMax", "uniqueitems", "uniqueItems", "unique_items", "uniqitems",
	"Required", "REQUIRED", "req", "require", "mandatory", "ReadOnly", "readOnly", "read-only", "read_only", "ro", "writeOnly", "write-only", "wo",
	"Deprecated", "deprecate", "obsolete", "Nullable", "null", "nil", "nullabe", "Inline", "embed", "embedded", "flatten", "squash", "omitEmpty", "OmitEmpty", "omitzero",
	"Max", "Min", "MaxLen", "MinLen", "maxLen", "minLen", "maxItems", "minItems", "MaxItems", "MinItems", "maxProps", "minProps",
	"len", "items", "props", "size", "length", "gt", "gte", "lt", "lte", "exmin", "exmax", "Emax", "eMax", "emaximum", "eminimum",
	"mul", "multiple", "mulOf", "MulOf", "Pattern", "regexp", "regex", "Format", "fmt", "Type", "kind", "string", "x-order", "-",
}

func spell(o opt) string {
	if o.Bare {
		return o.Key
	}
	v := o.Val
	if o.Quote {
		v = "'" + strings.ReplaceAll(v, "'", `\'`) + "'"
	}
	return o.Key + ":" + v
}

func (p part) value() string {
	s := p.Name
	for _, o := range p.Opts {
		s += "," + spell(o)
	}
	return s
}

func (c tc) raw() string {
	var b strings.Builder
	for i, p := range c.Parts {
		if i > 0 {
			n := 1
			if i < len(c.Spaces) {
				n = 1 + c.Spaces[i]
			}
			b.WriteString(strings.Repeat(" ", n))
		}
		b.WriteString(p.Key + ":" + strconv.Quote(p.value()))
	}
	return b.String()
}

// want computes the tag and whether it is an error.
func (c tc) want() (tg tag.Tag, bad bool) {
	find := func(key string) *part {
		for i := range c.Parts {
			if c.Parts[i].Key == key {
				return &c.Parts[i] // the first one counts, as in reflect
			}
		}
		return nil
	}
	v := reflect.ValueOf(&tg).Elem()
	apply := func(p *part, only map[string]bool) {
		if p == nil {
			return
		}
		if p.Name == "-" {
			tg.Ignore = true
			return
		}
		if p.Name != "" {
			tg.Name = p.Name
		}
		for _, o := range p.Opts {
			if only != nil && !only[o.Key] {
				continue
			}
			for _, d := range oapiOpts {
				if d.key != o.Key {
					continue
				}
				f := v.FieldByName(d.field)
				switch d.kind {
				case kString:
					f.SetString(o.Val)
				case kInt:
					n, err := strconv.ParseInt(o.Val, 10, 64)
					if o.Bare || err != nil {
						bad = true
						continue
					}
					f.Set(reflect.ValueOf(&n))
				case kFloat:
					n, err := strconv.ParseFloat(o.Val, 64)
					if o.Bare || err != nil {
						bad = true
						continue
					}
					f.Set(reflect.ValueOf(&n))
				case kBool, kBoolPtr:
					b := true
					if !o.Bare && o.Val != "" {
						var err error
						b, err = strconv.ParseBool(o.Val)
						if err != nil {
							bad = true
							continue
						}
					}
					if d.kind == kBool {
						f.SetBool(b)
					} else {
						f.Set(reflect.ValueOf(&b))
					}
				}
			}
		}
	}
	apply(find("json"), map[string]bool{"inline": true, "omitempty": true})
	apply(find("oapi"), nil)
	return
}

func genName(t *rapid.T) string {
	return rapid.SampledFrom([]string{"", "", "name", "created_at", "a-b", "ID", "x.y", "é", "a b", "-", "0", "$ref", "x/y", "~", "required", "min", "a-name-which-is-longer-than-anybody-would-like-to-read-in-a-document"}).Draw(t, "name")
}

func genOpt(t *rapid.T, key string, k kind, badOK bool) opt {
	o := opt{Key: key}
	bad := badOK && rapid.IntRange(0, 19).Draw(t, "bad") == 0
	switch k {
	case kBool, kBoolPtr:
		switch {
		case bad:
			o.Val = rapid.SampledFrom([]string{"maybe", "yes", "2", "tru", "-"}).Draw(t, "v")
		case rapid.Bool().Draw(t, "bare"):
			o.Bare = true
		default:
			o.Val = rapid.SampledFrom([]string{"true", "false", "1", "0", "t", "F", "True", "FALSE"}).Draw(t, "v")
		}
	case kInt:
		if bad {
			o.Val = rapid.SampledFrom([]string{"x", "1.5", "1e3", "9223372036854775808", "--1", "1_0", "0x10"}).Draw(t, "v")
			o.Bare = rapid.IntRange(0, 3).Draw(t, "bare") == 0
		} else {
			o.Val = strconv.FormatInt(rapid.Int64().Draw(t, "v"), 10)
			if rapid.Bool().Draw(t, "small") {
				o.Val = strconv.Itoa(rapid.IntRange(-3, 40).Draw(t, "v2"))
			}
		}
	case kFloat:
		if bad {
			o.Val = rapid.SampledFrom([]string{"x", "1.5.2", "1e", "1e999", "--1", "5px"}).Draw(t, "v")
			o.Bare = rapid.IntRange(0, 3).Draw(t, "bare") == 0
		} else {
			o.Val = rapid.SampledFrom([]string{"0", "1", "-1", "0.5", "-0.25", "1e3", "1E-3", "100", "3.14159", "+7", "12345678901", ".5", "5."}).Draw(t, "v")
		}
	case kString:
		o.Val = rapid.SampledFrom([]string{"string", "uuid", "date-time", "^[a-z]+$", "^a,b$", "it's", "a:b", "", "[0-9]{1,3}", "x y", `^\d+$`, "(a|b)", "(a", "é\"q\"", " lead", "trail ", "`"}).Draw(t, "v")
	}
	if !o.Bare {
		plain := !strings.ContainsAny(o.Val, `,'\()`) && strings.TrimSpace(o.Val) == o.Val
		o.Quote = !plain || rapid.IntRange(0, 2).Draw(t, "quote") == 0
	}
	return o
}

func gen(t *rapid.T) tc {
	var c tc
	badOK := rapid.Bool().Draw(t, "badOK")
	keys := []string{"json", "oapi"}
	switch rapid.IntRange(0, 5).Draw(t, "which") {
	case 0:
		keys = []string{"oapi"}
	case 1:
		keys = []string{"json"}
	case 2:
		keys = []string{"oapi", "json"}
	case 3:
		keys = []string{"yaml", "oapi", "xml", "json", "validate"}
	case 4:
		keys = []string{"bson", "json", "oapi", "oapix"}
	}
	for _, k := range keys {
		p := part{Key: k}
		switch k {
		case "json":
			p.Name = genName(t)
			if rapid.Bool().Draw(t, "jo") {
				p.Opts = append(p.Opts, opt{Key: "omitempty", Bare: true})
			}
			if rapid.IntRange(0, 2).Draw(t, "ji") == 0 {
				p.Opts = append(p.Opts, opt{Key: "inline", Bare: true})
			}
			if rapid.IntRange(0, 3).Draw(t, "js") == 0 {
				p.Opts = append(p.Opts, opt{Key: "string", Bare: true})
			}
			// options of the oapi tag mean nothing in the json tag
			if rapid.IntRange(0, 5).Draw(t, "jx") == 0 {
				p.Opts = append(p.Opts, opt{Key: rapid.SampledFrom([]string{"required", "readonly", "unique", "deprecated"}).Draw(t, "jk"), Bare: true})
			}
		case "oapi":
			p.Name = genName(t)
			n := rapid.IntRange(0, 6).Draw(t, "opts")
			if rapid.IntRange(0, 9).Draw(t, "all") == 0 {
				n = len(oapiOpts)
			}
			perm := rapid.Permutation(seq(len(oapiOpts))).Draw(t, "perm")
			for _, i := range perm[:n] {
				d := oapiOpts[i]
				p.Opts = append(p.Opts, genOpt(t, d.key, d.kind, badOK))
			}
			// options which are not documented mean nothing
			used := map[string]bool{}
			for n := rapid.SampledFrom([]int{0, 0, 0, 1, 1, 2, 3}).Draw(t, "unknown"); n > 0; n-- {
				o := opt{Key: rapid.SampledFrom(undocumented).Draw(t, "key")}
				if used[o.Key] {
					continue
				}
				used[o.Key] = true
				if o.Bare = rapid.Bool().Draw(t, "bare"); !o.Bare {
					o.Val = rapid.SampledFrom([]string{"5", "true", "false", "text", "0", "-1", "1"}).Draw(t, "value")
				}
				at := rapid.IntRange(0, len(p.Opts)).Draw(t, "at")
				p.Opts = append(p.Opts[:at:at], append([]opt{o}, p.Opts[at:]...)...)
			}
		default:
			p.Name = genName(t)
			if rapid.Bool().Draw(t, "ox") {
				p.Opts = append(p.Opts, opt{Key: "required", Bare: true}, opt{Key: "min", Val: "5"})
			}
		}
		c.Parts = append(c.Parts, p)
		c.Spaces = append(c.Spaces, rapid.IntRange(0, 2).Draw(t, "sp"))
	}
	for _, p := range c.Parts {
		if p.Key == "oapi" {
			c.Perm = rapid.Permutation(seq(len(p.Opts))).Draw(t, "reorder")
		}
	}
	return c
}

func seq(n int) []int {
	s := make([]int, n)
	for i := range s {
		s[i] = i
	}
	return s
}

func show(t tag.Tag) string { return kit.JS(t) }

func check(c tc) error {
	run := func(c tc, what string) error {
		raw := c.raw()
		got, err := tag.Parse(raw)
		want, bad := c.want()
		if bad {
			if err == nil {
				return fmt.Errorf("%sParse(%q) = %s without an error, one value is malformed", what, raw, show(got))
			}
			return nil
		}
		if err != nil {
			return fmt.Errorf("%sParse(%q) fails: %v", what, raw, err)
		}
		if want.Ignore {
			if !got.Ignore {
				return fmt.Errorf("%sParse(%q) is not ignored", what, raw)
			}
			return nil
		}
		if !reflect.DeepEqual(got, want) {
			return fmt.Errorf("%sParse(%q) = %s, want %s", what, raw, show(got), show(want))
		}
		return nil
	}
	if err := run(c, ""); err != nil {
		return err
	}
	// the same options in another order
	d := tc{Spaces: c.Spaces}
	for _, p := range c.Parts {
		if p.Key == "oapi" && len(c.Perm) == len(p.Opts) {
			q := part{Key: p.Key, Name: p.Name}
			for _, i := range c.Perm {
				q.Opts = append(q.Opts, p.Opts[i])
			}
			p = q
		}
		d.Parts = append(d.Parts, p)
	}
	return run(d, "reordered: ")
}

func class(c tc) (i kit.Info) {
	_, bad := c.want()
	n := 0
	for _, p := range c.Parts {
		if p.Key == "oapi" {
			n = len(p.Opts)
			for _, o := range p.Opts {
				i.Label(o.Quote, "quoted value")
			}
		}
	}
	i.Nontrivial = n >= 2
	i.Label(bad, "malformed value")
	i.Label(n >= 2, "two or more oapi options")
	i.Label(len(c.Parts) > 1, "several tags")
	return
}

// ---- malformed tags ----

type rawCase struct {
	Raw string
	Bad bool // certainly malformed
}

func genRaw(t *rapid.T) rawCase {
	switch rapid.IntRange(0, 3).Draw(t, "how") {
	case 0:
		// a valid tag followed or cut by something that breaks the syntax
		c := gen(t)
		raw := c.raw()
		switch rapid.IntRange(0, 4).Draw(t, "break") {
		case 0:
			return rawCase{raw[:len(raw)-1], true}
		case 1:
			return rawCase{raw + " oops", true}
		case 2:
			return rawCase{raw + ` x:y`, true}
		case 3:
			return rawCase{raw + ` x:"\q"`, true}
		default:
			return rawCase{`:"a" ` + raw, true}
		}
	case 1:
		return rawCase{Raw: rapid.String().Draw(t, "s")}
	case 2:
		return rawCase{Raw: strings.Repeat(" ", rapid.IntRange(0, 3).Draw(t, "blank"))}
	}
	soup := []string{"json:", "oapi:", `"`, `"`, "'", ",", ":", "-", "(", ")", `\`, `\"`, " ", "min", "5", "required", "pattern", "inline", "x", "true"}
	s := strings.Join(rapid.SliceOfN(rapid.SampledFrom(soup), 0, 14).Draw(t, "soup"), "")
	if rapid.Bool().Draw(t, "wrapped") {
		s = "oapi:" + strconv.Quote(s)
	}
	return rawCase{Raw: s}
}

func checkRaw(c rawCase) error {
	got, err := tag.Parse(c.Raw)
	if c.Bad && err == nil {
		return fmt.Errorf("Parse(%q) = %s without an error", c.Raw, show(got))
	}
	again, err2 := tag.Parse(c.Raw)
	if (err == nil) != (err2 == nil) || err == nil && show(got) != show(again) && !hasNaN(c.Raw) {
		return fmt.Errorf("Parse(%q) differs between calls", c.Raw)
	}
	return nil
}

func hasNaN(s string) bool {
	s = strings.ToLower(s)
	return strings.Contains(s, "nan") || strings.Contains(s, "inf")
}

func TestProp(t *testing.T) {
	kit.Run(t, "C03",
		kit.P[tc]{
			Name: "options", Gen: gen, Check: check, Class: class, Quick: 80000, Thorough: 3000000,
			Rule: "tags assembled from known options in random order; non-trivial: at least two oapi options",
		},
		kit.P[rawCase]{
			Name: "malformed", Gen: genRaw, Check: checkRaw, Quick: 80000, Thorough: 3000000,
			Rule: "broken, blank and arbitrary tag strings; non-trivial: certainly malformed, or parses to something",
			Class: func(c rawCase) (i kit.Info) {
				i.Label(c.Bad, "broken syntax")
				i.Label(strings.TrimSpace(c.Raw) == "", "blank")
				i.Nontrivial = c.Bad || strings.Contains(c.Raw, "oapi:\"")
				return
			},
		})
}
