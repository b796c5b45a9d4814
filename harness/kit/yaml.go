package kit

import (
	"encoding/json"
	"fmt"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

var plainSafe = regexp.MustCompile(`^[a-z][a-z]{3,}$`)
var plainKeyInt = regexp.MustCompile(`^[1-9][0-9]{0,8}$`)

// YAML writes plain JSON as YAML. Style picks among equivalent spellings.
func YAML(v interface{}, style uint64) []byte {
	e := &emitter{s: style | 1}
	if e.pick(3) == 0 {
		e.anchors = map[string]int{}
	}
	e.comments = e.pick(5) == 0
	top := e.pick(8)
	text := e.block(v, 0, true) + "\n"
	switch top {
	case 0:
		text = "---\n" + text
	case 1:
		text = "# a comment: {\n\n---\n" + text + "...\n"
	case 2:
		text = "%YAML 1.1\n--- # go\n" + text
	case 3:
		text = "\n  # indented\n" + text + "\n\n# end"
	case 4:
		text = "\ufeff" + text
	case 5:
		text += "---\n# nothing\n"
	}
	if e.pick(6) == 0 {
		text = strings.ReplaceAll(text, "\n", "\r\n")
	}
	return []byte(text)
}

type emitter struct {
	s        uint64
	comments bool
	anchors  map[string]int // of the objects and arrays written already
}

// anchor gives the alias of a value written before, or the anchor it gets now.
func (e *emitter) anchor(v interface{}) (alias, anchor string) {
	switch x := v.(type) {
	case map[string]interface{}:
		if len(x) == 0 {
			return
		}
	case []interface{}:
		if len(x) == 0 {
			return
		}
	default:
		return
	}
	if e.anchors == nil {
		return
	}
	b, err := json.Marshal(v)
	must(err)
	if n, ok := e.anchors[string(b)]; ok {
		return fmt.Sprintf("*a%d", n), ""
	}
	n := len(e.anchors)
	e.anchors[string(b)] = n
	return "", fmt.Sprintf("&a%d", n)
}

func (e *emitter) pick(n int) int {
	e.s ^= e.s << 13
	e.s ^= e.s >> 7
	e.s ^= e.s << 17
	return int(e.s>>11) % n
}

func (e *emitter) str(s string, key bool) string {
	if plainSafe.MatchString(s) && s != "true" && s != "false" && s != "null" && e.pick(3) > 0 {
		return s
	}
	if key && (plainKeyInt.MatchString(s) || s == "true" || s == "false") && e.pick(2) == 0 {
		return s // a key that YAML takes for an integer or boolean
	}
	if !strings.ContainsFunc(s, func(r rune) bool { return r < 0x20 || r >= 0x7f }) && e.pick(4) == 0 {
		return "'" + strings.ReplaceAll(s, "'", "''") + "'"
	}
	var b strings.Builder
	b.WriteByte('"')
	for _, r := range s {
		switch {
		case r == '"' || r == '\\':
			b.WriteByte('\\')
			b.WriteRune(r)
		case r == '\n':
			b.WriteString(`\n`)
		case r < 0x20 || r == 0x7f:
			fmt.Fprintf(&b, `\x%02x`, r)
		case r < 0x7f:
			b.WriteRune(r)
		case r >= 0xa0 && r < 0x2000 || r >= 0x3000 && r < 0xd000:
			if e.pick(2) == 0 {
				b.WriteRune(r)
			} else {
				fmt.Fprintf(&b, `\u%04x`, r)
			}
		case r <= 0xffff:
			fmt.Fprintf(&b, `\u%04x`, r)
		default:
			fmt.Fprintf(&b, `\U%08x`, r)
		}
	}
	b.WriteByte('"')
	return b.String()
}

func (e *emitter) scalar(v interface{}) string {
	switch x := v.(type) {
	case nil:
		return []string{"null", "~"}[e.pick(2)]
	case string:
		return e.str(x, false)
	case bool:
		return fmt.Sprint(x)
	case float64:
		if x == float64(int64(x)) && x < 1e15 && x > -1e15 {
			return strconv.FormatInt(int64(x), 10)
		}
		return strconv.FormatFloat(x, 'e', -1, 64)
	}
	b, err := json.Marshal(v)
	must(err)
	return string(b)
}

func sortedKeys(m map[string]interface{}) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func (e *emitter) flow(v interface{}) string {
	alias, anchor := e.anchor(v)
	if alias != "" {
		return alias
	}
	if anchor != "" {
		anchor += " "
	}
	return anchor + e.flowed(v)
}

func (e *emitter) flowed(v interface{}) string {
	switch x := v.(type) {
	case map[string]interface{}:
		var p []string
		for _, k := range sortedKeys(x) {
			p = append(p, e.flowKey(k)+": "+e.flow(x[k]))
		}
		return "{" + strings.Join(p, ", ") + "}"
	case []interface{}:
		var p []string
		for _, k := range x {
			p = append(p, e.flow(k))
		}
		return "[" + strings.Join(p, ", ") + "]"
	}
	return e.scalar(v)
}

// long keys need the explicit form
func (e *emitter) flowKey(k string) string {
	s := e.str(k, true)
	if len(s) > 500 {
		return "? " + s + " "
	}
	return s
}

// inner writes a value inside of a block.
func (e *emitter) inner(v interface{}, indent int) string {
	alias, anchor := e.anchor(v)
	if alias != "" {
		return alias
	}
	s := e.block(v, indent, false)
	if anchor != "" {
		s = anchor + " " + s
	}
	if e.comments && e.pick(6) == 0 {
		if strings.HasPrefix(s, "\n") {
			s = "# note: [\n" + strings.Repeat("  ", indent) + "#" + s
		} else if anchor == "" {
			s += " # note }"
		}
	}
	return s
}

func (e *emitter) block(v interface{}, indent int, top bool) string {
	pad := strings.Repeat("  ", indent)
	switch x := v.(type) {
	case map[string]interface{}:
		if len(x) == 0 || !top && e.pick(5) == 0 {
			return e.flowed(v)
		}
		var b strings.Builder
		for i, k := range sortedKeys(x) {
			if i > 0 || !top {
				b.WriteString("\n" + pad)
			}
			if i == 0 && top {
				b.WriteString(pad)
			}
			s := e.str(k, true)
			if len(s) > 500 {
				s = "? " + s + "\n" + pad
			}
			b.WriteString(s + ": " + e.inner(x[k], indent+1))
		}
		return b.String()
	case []interface{}:
		if len(x) == 0 || e.pick(5) == 0 {
			return e.flowed(v)
		}
		var b strings.Builder
		for i, k := range x {
			if i > 0 || !top {
				b.WriteString("\n" + pad)
			}
			b.WriteString("- " + e.inner(k, indent+1))
		}
		return b.String()
	}
	return e.scalar(v)
}
