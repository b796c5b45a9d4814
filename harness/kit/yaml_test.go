package kit

import (
	"bytes"
	"fmt"
	"testing"

	"gopkg.in/yaml.v2"
	"pgregory.net/rapid"
)

// the spellings of a value are read as that value
func TestYAML(t *testing.T) {
	count := map[string]int{}
	rapid.Check(t, func(t *rapid.T) {
		d := Doc(t, DocOpt{Depth: 4, Width: 4})
		b := YAML(d, rapid.Uint64().Draw(t, "style"))
		var v map[string]interface{}
		if err := yaml.Unmarshal(b, &v); err != nil {
			t.Fatalf("%v\n%q", err, b)
		}
		if x := Diff(Norm(d), Norm(Plain(v))); x != "" {
			t.Fatalf("%s\n%q", x, b)
		}
		for _, k := range []string{"*a1", "# note: [", "# note }", "\r\n", "%YAML", "'"} {
			if bytes.Contains(b, []byte(k)) {
				count[k]++
			}
		}
	})
	t.Log(count)
}

func Plain(v interface{}) interface{} {
	switch x := v.(type) {
	case map[interface{}]interface{}:
		m := map[string]interface{}{}
		for k, e := range x {
			m[fmt.Sprint(k)] = Plain(e)
		}
		return m
	case map[string]interface{}:
		m := map[string]interface{}{}
		for k, e := range x {
			m[k] = Plain(e)
		}
		return m
	case []interface{}:
		l := make([]interface{}, len(x))
		for i, e := range x {
			l[i] = Plain(e)
		}
		return l
	}
	return v
}
