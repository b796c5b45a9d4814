From 27e22ba16ac1e165029fc16ded4e8f2dcbdb72bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:21 +0000
Subject: [PATCH 01/49] fix: blank struct tag does not panic

---
 tag/tag.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tag/tag.go b/tag/tag.go
index af4b782..349a123 100644
--- a/tag/tag.go
+++ b/tag/tag.go
@@ -124,6 +124,9 @@ func parseJSONTag(tags *structtag.Tags, meta *Tag) (err error) {
 }
 
 func parseTag(tags *structtag.Tags, tag string) (result *tagparser.Tag) {
+	if tags == nil { // blank tag
+		return nil
+	}
 	oapi, err := tags.Get(tag)
 	if err != nil {
 		return nil
-- 
2.43.0


From 1e7dc3ab999be6d871013240eaf7815f6ae0abf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:21 +0000
Subject: [PATCH 02/49] fix: mulof option sets MulOf

---
 tag/tag.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tag/tag.go b/tag/tag.go
index 349a123..595dfd3 100644
--- a/tag/tag.go
+++ b/tag/tag.go
@@ -89,7 +89,7 @@ func parseOAPITag(tags *structtag.Tags, meta *Tag) (err error) {
 		parseTagFloatPtr(tag, "min", &meta.Min),
 		parseTagFloatPtr(tag, "emax", &meta.EMax),
 		parseTagFloatPtr(tag, "emin", &meta.EMin),
-		parseTagFloatPtr(tag, "mulof", &meta.EMin),
+		parseTagFloatPtr(tag, "mulof", &meta.MulOf),
 	}
 	for _, err := range errs {
 		if err != nil {
-- 
2.43.0


From f9187b6e0c7e64e24f9d168cf544788b3d8e2eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:21 +0000
Subject: [PATCH 03/49] fix: boolean tag options report bad values and keep
 earlier ones when absent

---
 tag/tag.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tag/tag.go b/tag/tag.go
index 595dfd3..d6f9d80 100644
--- a/tag/tag.go
+++ b/tag/tag.go
@@ -198,12 +198,15 @@ func parseTagString(m *tagparser.Tag, tag string, val *string) error {
 
 func parseTagBool(m *tagparser.Tag, tag string, val *bool) (err error) {
 	x, ok := m.Options[tag]
+	if !ok {
+		return
+	}
 	if x == "" {
 		*val = ok
 	} else {
 		*val, err = strconv.ParseBool(x)
 	}
-	return nil
+	return
 }
 
 func parseTagBoolPtr(m *tagparser.Tag, tag string, val **bool) (err error) {
-- 
2.43.0


From 5fca7f8be749a90aa1ca8ca1c56945b0cb8908dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:21 +0000
Subject: [PATCH 04/49] fix: quoted tag values lose their quotes

---
 tag/tag.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tag/tag.go b/tag/tag.go
index d6f9d80..f73a663 100644
--- a/tag/tag.go
+++ b/tag/tag.go
@@ -132,6 +132,9 @@ func parseTag(tags *structtag.Tags, tag string) (result *tagparser.Tag) {
 		return nil
 	}
 	result = tagparser.Parse(oapi.Value())
+	for k, v := range result.Options {
+		result.Options[k], _ = tagparser.Unquote(v)
+	}
 	return result
 }
 
-- 
2.43.0


From 0621ccb4fb8b6d81a67e0da60c84fbf04cdaf788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:21 +0000
Subject: [PATCH 05/49] fix: characters after the last placeholder of a route
 pattern are literal

---
 internal/route/route.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/route/route.go b/internal/route/route.go
index 7b12c59..fe28757 100644
--- a/internal/route/route.go
+++ b/internal/route/route.go
@@ -87,7 +87,7 @@ func Match(pattern, method, path string) (bool, error) {
 		}
 		last = j
 	}
-	pettern := strings.Join(append(parts, pattern[last:]), "")
+	pettern := strings.Join(append(parts, regexp.QuoteMeta(pattern[last:])), "")
 	reg, err := compileCached(pettern)
 	if err != nil {
 		return false, err
-- 
2.43.0


From 88703a54e3f37b81ff0e46945faa40d8a88a249e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:42 +0000
Subject: [PATCH 06/49] fix: pointers are encoded and decoded as JSON strings

---
 internal/pointer/pointer.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/internal/pointer/pointer.go b/internal/pointer/pointer.go
index fcf0656..1ef0b29 100644
--- a/internal/pointer/pointer.go
+++ b/internal/pointer/pointer.go
@@ -11,9 +11,9 @@
 package pointer
 
 import (
+	"encoding/json"
 	"fmt"
 	"net/url"
-	"strconv"
 )
 
 const defaultPointerAllocationSize = 32
@@ -71,9 +71,10 @@ func (p *Pointer) UnmarshalJSON(data []byte) error {
 	if data == nil {
 		return nil
 	}
-	t, err := strconv.Unquote(string(data))
+	var t string
+	err := json.Unmarshal(data, &t)
 	if err != nil {
-		t = string(data)
+		return err
 	}
 	x, err := Parse(t)
 	if err != nil {
@@ -84,8 +85,7 @@ func (p *Pointer) UnmarshalJSON(data []byte) error {
 }
 
 func (p *Pointer) MarshalJSON() ([]byte, error) {
-	x := fmt.Sprintf("%q", p.String())
-	return []byte(x), nil
+	return json.Marshal(p.String())
 }
 
 func (p Pointer) String() string {
-- 
2.43.0


From 58d5d06bb50aa01d3cf77d23b22e79bc23232239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:42 +0000
Subject: [PATCH 07/49] fix: percent signs in pointer tokens survive printing

---
 internal/pointer/pointer.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/pointer/pointer.go b/internal/pointer/pointer.go
index 1ef0b29..320c571 100644
--- a/internal/pointer/pointer.go
+++ b/internal/pointer/pointer.go
@@ -14,6 +14,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"net/url"
+	"strings"
 )
 
 const defaultPointerAllocationSize = 32
@@ -90,7 +91,9 @@ func (p *Pointer) MarshalJSON() ([]byte, error) {
 
 func (p Pointer) String() string {
 	p.URL.Fragment = ""
-	return fmt.Sprintf("%s#%s", p.URL.String(), p.Fragment.String())
+	// a percent sign would start an escape sequence when parsed again
+	fragment := strings.Replace(p.Fragment.String(), "%", "%25", -1)
+	return fmt.Sprintf("%s#%s", p.URL.String(), fragment)
 }
 
 func (p Pointer) PkgPath() string {
-- 
2.43.0


From 672acb9558014352e953beb8e5c7c25f76dbd77c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:42 +0000
Subject: [PATCH 08/49] fix: replacing the token after the last is an error

---
 internal/pointer/fragment.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/pointer/fragment.go b/internal/pointer/fragment.go
index 13d854d..0f05685 100644
--- a/internal/pointer/fragment.go
+++ b/internal/pointer/fragment.go
@@ -65,7 +65,7 @@ func (p Fragment) Clone() Fragment {
 
 // Replace will replace element in fragment
 func (p Fragment) Replace(n int, element string) (Fragment, error) {
-	if n > len(p) || n < 0 {
+	if n >= len(p) || n < 0 {
 		return Fragment{}, errors.New("n out of range")
 	}
 	x := p.Clone()
-- 
2.43.0


From 0efa1c039dbc87f27e04f943d1642954adf379bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:42 +0000
Subject: [PATCH 09/49] fix: descendants do not share memory with their
 siblings

---
 internal/pointer/fragment.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/pointer/fragment.go b/internal/pointer/fragment.go
index 0f05685..3d28424 100644
--- a/internal/pointer/fragment.go
+++ b/internal/pointer/fragment.go
@@ -97,7 +97,7 @@ func (p Fragment) Descendant(path string) (Fragment, error) {
 		return dpath, nil
 	}
 
-	return append(p, dpath...), nil
+	return append(p.Clone(), dpath...), nil
 }
 
 // RawDescendant extends the pointer with 1 or more path tokens
@@ -105,7 +105,7 @@ func (p Fragment) Descendant(path string) (Fragment, error) {
 // and assumes the user is directly managing the pointer
 // This allows for much faster pointer management
 func (p Fragment) RawDescendant(path ...string) Fragment {
-	return append(p, path...)
+	return append(p.Clone(), path...)
 }
 
 func unescapeToken(tok string) string {
-- 
2.43.0


From 9e78280f2e457e7b7acf76841f73b9eb9e202f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:14 +0000
Subject: [PATCH 10/49] fix: merging a document that cannot be copied is an
 error

---
 internal/container/merge.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/internal/container/merge.go b/internal/container/merge.go
index 5de0eb1..650ceb1 100644
--- a/internal/container/merge.go
+++ b/internal/container/merge.go
@@ -27,7 +27,11 @@ func MergeOverride(dest, source interface{}) (interface{}, error) {
 // Which ever value is returned becomes the new value in the destination object
 // at the location of the collision.
 func (c Container) Merge(source Container, collisionFn Merger) error {
-	source = source.Clone() // make sure we are not moving pointers
+	// make sure we are not moving pointers
+	data, err := clone(source.Data())
+	if err != nil {
+		return errors.Wrapf(err, "at %s", source.path)
+	}
 
 	var recursiveFnc func(map[string]interface{}, []string) error
 
@@ -74,7 +78,7 @@ func (c Container) Merge(source Container, collisionFn Merger) error {
 		}
 		return nil
 	}
-	if mmap, ok := source.c.Data().(map[string]interface{}); ok {
+	if mmap, ok := data.(map[string]interface{}); ok {
 		return recursiveFnc(mmap, []string{})
 	}
 	return nil
-- 
2.43.0


From 06a0fbb1badf6ab2471561e21b5efa8149bd55e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:27 +0000
Subject: [PATCH 11/49] fix: IsNil of a scalar does not panic

---
 internal/container/container.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/internal/container/container.go b/internal/container/container.go
index c0f28b7..0e25014 100644
--- a/internal/container/container.go
+++ b/internal/container/container.go
@@ -134,7 +134,14 @@ func (c Container) Data() interface{} {
 
 // IsNil reports if underlying value of container is nil.
 func (c Container) IsNil() bool {
-	return c.Data() == nil || reflect.ValueOf(c.Data()).IsNil()
+	v := reflect.ValueOf(c.Data())
+	switch v.Kind() {
+	case reflect.Invalid:
+		return true
+	case reflect.Map, reflect.Slice, reflect.Ptr, reflect.Interface, reflect.Func, reflect.Chan:
+		return v.IsNil()
+	}
+	return false
 }
 
 // FilePath returns file path of given container if was ReadFile was used.
-- 
2.43.0


From 84aa436d39bb42d599317c755d93d9a15d1e8450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:27 +0000
Subject: [PATCH 12/49] fix: tilde is escaped before the dot in dot paths

---
 internal/container/utils.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/container/utils.go b/internal/container/utils.go
index aa46e0c..85bc911 100644
--- a/internal/container/utils.go
+++ b/internal/container/utils.go
@@ -38,8 +38,8 @@ func ExtractKey(c Container, key string) (pp MapSlice, err error) {
 func SliceToDotPath(path []string) string {
 	hierarchy := make([]string, len(path))
 	for i, v := range path {
-		v = strings.Replace(v, ".", "~1", -1)
 		v = strings.Replace(v, "~", "~0", -1)
+		v = strings.Replace(v, ".", "~1", -1)
 		hierarchy[i] = v
 	}
 	return strings.Join(hierarchy, ".")
-- 
2.43.0


From d9e0b213eed564491732cd614958ac2a1df09350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:06 +0000
Subject: [PATCH 13/49] fix: extracted keys are reported with paths that
 address them

---
 internal/container/utils.go | 60 ++++++++++++++++++++++++++-----------
 1 file changed, 42 insertions(+), 18 deletions(-)

diff --git a/internal/container/utils.go b/internal/container/utils.go
index 85bc911..d7cef9f 100644
--- a/internal/container/utils.go
+++ b/internal/container/utils.go
@@ -3,34 +3,58 @@ package container
 import (
 	"encoding/json"
 	"fmt"
+	"sort"
+	"strconv"
 	"strings"
 
 	"github.com/Jeffail/gabs/v2"
 	"github.com/pkg/errors"
 )
 
-// ExtractKey will extract keys from container
+// ExtractKey finds every place in container where given key of an object
+// holds scalar value. Keys of returned items are dot paths (see SliceToDotPath),
+// items come in a stable order.
 func ExtractKey(c Container, key string) (pp MapSlice, err error) {
-	ff, err := c.Flatten()
-	if err != nil {
-		return nil, err
+	data := c.Data()
+	switch data.(type) {
+	case map[string]interface{}, []interface{}:
+	default:
+		return nil, errors.Errorf("failed to extract key %q: not an object or array", key)
 	}
-	var ii int
-	for k, v := range ff {
-		x := strings.Split(k, ".")
-		if len(x) == 0 {
-			continue
-		}
-		if x[len(x)-1] != key {
-			continue
+
+	var walk func(path []string, v interface{})
+
+	walk = func(path []string, v interface{}) {
+		switch x := v.(type) {
+		case map[string]interface{}:
+			keys := make([]string, 0, len(x))
+			for k := range x {
+				keys = append(keys, k)
+			}
+			sort.Strings(keys)
+			for _, k := range keys {
+				p := append(path[:len(path):len(path)], k)
+				switch x[k].(type) {
+				case map[string]interface{}, []interface{}:
+					walk(p, x[k])
+					continue
+				}
+				if k == key {
+					pp = append(pp, MapItem{
+						Key:   SliceToDotPath(p),
+						Val:   x[k],
+						Index: len(pp),
+					})
+				}
+			}
+		case []interface{}:
+			for i, v2 := range x {
+				walk(append(path[:len(path):len(path)], strconv.Itoa(i)), v2)
+			}
 		}
-		pp = append(pp, MapItem{
-			Key:   k,
-			Val:   v,
-			Index: ii,
-		})
-		ii++
 	}
+
+	walk(nil, data)
 	return pp, nil
 }
 
-- 
2.43.0


From ebc22e5e049d6eeeb09c3fd69ab69f9d628a04df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:41 +0000
Subject: [PATCH 14/49] fix: special characters in directory names do not act
 as globs

---
 internal/container/container.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/internal/container/container.go b/internal/container/container.go
index 0e25014..d2a55b3 100644
--- a/internal/container/container.go
+++ b/internal/container/container.go
@@ -6,6 +6,7 @@ import (
 	"path/filepath"
 	"reflect"
 	"sort"
+	"strings"
 
 	"github.com/Jeffail/gabs/v2"
 	"github.com/buypal/oapi-go/internal/logging"
@@ -215,6 +216,15 @@ type Containers []Container
 
 var defaultSearchPatterns = []string{"*.yaml", "*.yml", "*.json"}
 
+// escapeGlob makes glob special characters of a directory match only themselves.
+func escapeGlob(dir string) string {
+	rr := []string{"[", "[[]", "*", "[*]", "?", "[?]"}
+	if filepath.Separator != '\\' {
+		rr = append(rr, "\\", "\\\\")
+	}
+	return strings.NewReplacer(rr...).Replace(dir)
+}
+
 // ReadDir will read director and parse yaml/json files.
 // It is using glob to search for file in given directory.
 // by defaut it will search for yaml,yml,json extension.
@@ -226,7 +236,7 @@ func ReadDir(dir string, patterns ...string) (cc Containers, err error) {
 	}
 
 	for _, s := range patterns {
-		xs, err := filepath.Glob(filepath.Join(dir, s))
+		xs, err := filepath.Glob(filepath.Join(escapeGlob(dir), s))
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 454f69b23320c2f59e78a9b3d7335fe2b4ff2351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:22 +0000
Subject: [PATCH 15/49] fix: a file matching several patterns is read once

---
 internal/container/container.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/internal/container/container.go b/internal/container/container.go
index d2a55b3..3e615e4 100644
--- a/internal/container/container.go
+++ b/internal/container/container.go
@@ -231,6 +231,7 @@ func escapeGlob(dir string) string {
 // But you are free to supply your own if you have different extension.
 func ReadDir(dir string, patterns ...string) (cc Containers, err error) {
 	var ff []string
+	seen := make(map[string]bool)
 	if len(patterns) == 0 {
 		patterns = defaultSearchPatterns
 	}
@@ -240,7 +241,12 @@ func ReadDir(dir string, patterns ...string) (cc Containers, err error) {
 		if err != nil {
 			return nil, err
 		}
-		ff = append(ff, xs...)
+		for _, x := range xs {
+			if !seen[x] {
+				seen[x] = true
+				ff = append(ff, x)
+			}
+		}
 	}
 
 	if len(ff) == 0 {
-- 
2.43.0


From fcc24e1abe3b625d9a9fe2afd2b00e5b7db7d560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:35 +0000
Subject: [PATCH 16/49] fix: reference at the root of a document is replaced

---
 internal/container/container.go | 10 ++++++++++
 internal/oapi/resolver/utils.go |  3 +++
 2 files changed, 13 insertions(+)

diff --git a/internal/container/container.go b/internal/container/container.go
index 3e615e4..1946f41 100644
--- a/internal/container/container.go
+++ b/internal/container/container.go
@@ -174,6 +174,16 @@ func (c Container) SetP(path string, value interface{}) (err error) {
 	return
 }
 
+// Set replaces whole content of container with (cloned) value.
+func (c Container) Set(value interface{}) (err error) {
+	val, err := clone(value)
+	if err != nil {
+		return
+	}
+	_, err = c.c.Set(val)
+	return
+}
+
 // Bytes marshals an element to a JSON []byte blob.
 func (c Container) Bytes() []byte {
 	return c.c.Bytes()
diff --git a/internal/oapi/resolver/utils.go b/internal/oapi/resolver/utils.go
index f95e3bc..2dd5f40 100644
--- a/internal/oapi/resolver/utils.go
+++ b/internal/oapi/resolver/utils.go
@@ -51,6 +51,9 @@ func ReplacePtr(cx container.Container, key string, value interface{}) (err erro
 	if !ok {
 		return errors.New("not a pointer")
 	}
+	if key == "$ref" {
+		return cx.Set(value) // pointer is whole container
+	}
 	err = cx.SetP(path, value)
 	return
 }
-- 
2.43.0


From d02478d83681fb0dd65345a37a33621e00b67647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:36 +0000
Subject: [PATCH 17/49] fix: component names are escaped in paths and
 references

---
 internal/oapi/resolver/utils.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/internal/oapi/resolver/utils.go b/internal/oapi/resolver/utils.go
index 2dd5f40..7d2b60d 100644
--- a/internal/oapi/resolver/utils.go
+++ b/internal/oapi/resolver/utils.go
@@ -18,13 +18,12 @@ type Entity struct {
 
 // Path returns dot path.
 func (pe Entity) Path() string {
-	return fmt.Sprintf("%s.%s", pe.Entity.Path(), pe.Name)
+	return fmt.Sprintf("%s.%s", pe.Entity.Path(), container.SliceToDotPath([]string{pe.Name}))
 }
 
 // Fragment return fragment path
 func (pe Entity) Fragment() pointer.Fragment {
-	f, _ := pe.Entity.Fragment().Descendant(pe.Name)
-	return f
+	return pe.Entity.Fragment().RawDescendant(pe.Name)
 }
 
 // IsScheme reports if entitiy is scheme
-- 
2.43.0


From cbed3951ae1d369c9510d79e64b5ba68d82b201d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:32 +0000
Subject: [PATCH 18/49] fix: exported references are resolved once,
 independently of their place

---
 internal/oapi/resolver/resolver.go | 107 +++++++++++++++++++----------
 1 file changed, 72 insertions(+), 35 deletions(-)

diff --git a/internal/oapi/resolver/resolver.go b/internal/oapi/resolver/resolver.go
index aa43203..24e1f34 100644
--- a/internal/oapi/resolver/resolver.go
+++ b/internal/oapi/resolver/resolver.go
@@ -1,6 +1,8 @@
 package resolver
 
 import (
+	"strings"
+
 	"github.com/buypal/oapi-go/internal/container"
 	"github.com/buypal/oapi-go/internal/oapi/spec"
 	"github.com/buypal/oapi-go/internal/pointer"
@@ -41,9 +43,10 @@ func (r Fn) call(p pointer.Pointer) (container.Container, error) {
 // Resolve will resolve all references (pointers) in given scheme
 func Resolve(c container.Container, exp Exports, fn Fn) (container.Container, error) {
 	r := &resolver{
-		con: c.Clone(),
-		exp: exp,
-		res: fn,
+		con:        c.Clone(),
+		exp:        exp,
+		res:        fn,
+		components: make(map[string]EntityValue),
 	}
 	return r.resolve()
 }
@@ -52,19 +55,42 @@ type resolver struct {
 	con container.Container
 	exp Exports
 	res Fn
+
+	// exported components by its pointer, every one is resolved only once
+	components map[string]EntityValue
 }
 
-func (r resolver) resolve() (container.Container, error) {
-	return r.iterator(r.con, path{}, 0)
+func (r *resolver) resolve() (container.Container, error) {
+	cx, err := r.iterator(r.con, path{})
+	if err != nil {
+		return cx, err
+	}
+	for _, ep := range r.exp {
+		e, ok := r.components[ep.String()]
+		if !ok {
+			continue
+		}
+		err = SetEntity(cx, e.Path(), e)
+		if err != nil {
+			return zero, err
+		}
+	}
+	return cx, nil
 }
 
-func (r resolver) iterator(cx container.Container, pp path, dept int) (container.Container, error) {
+func (r *resolver) iterator(cx container.Container, pp path) (container.Container, error) {
 	refs, err := container.ExtractKey(cx, "$ref")
 	if err != nil {
 		return cx, err
 	}
 
+	var replaced string // prefix of keys of the last replaced object
+
 	for _, v := range refs {
+		if replaced != "" && strings.HasPrefix(v.Key, replaced) {
+			continue
+		}
+
 		s, ok := v.Val.(string)
 		if !ok {
 			continue
@@ -77,56 +103,67 @@ func (r resolver) iterator(cx container.Container, pp path, dept int) (container
 			continue
 		}
 
-		if pp.has(p) {
-			err = r.setRecursive(cx, p, v.Key)
+		if ep, ok := r.exp.Get(p); ok {
+			err = r.export(ep)
+			if err != nil {
+				return zero, err
+			}
+			err = UpdatePtrToLocal(cx, v.Key, ep.Entity.Fragment())
 			if err != nil {
 				return zero, err
 			}
 			continue
 		}
 
-		nc, err := r.res.call(p)
-		if err != nil {
-			return zero, err
+		if pp.has(p) {
+			err = ReplacePtrWithEmptyObject(cx, v.Key)
+		} else {
+			var nc container.Container
+			nc, err = r.value(p, pp)
+			if err != nil {
+				return zero, err
+			}
+			err = ReplacePtr(cx, v.Key, nc)
 		}
-
-		nc, err = r.iterator(nc, append(pp, p), dept+1)
 		if err != nil {
 			return zero, err
 		}
 
-		err = r.set(cx, p, v.Key, nc)
-		if err != nil {
-			return zero, err
+		if v.Key == "$ref" {
+			break // everything has been replaced
 		}
+		replaced = strings.TrimSuffix(v.Key, "$ref")
 	}
 	return cx, nil
 }
 
-// set will set in container key to be a value, if
-// exported sets as global value
-func (r *resolver) set(cx container.Container, ptr pointer.Pointer, key string, value container.Container) (err error) {
-	ep, ok := r.exp.Get(ptr)
-	if !ok {
-		return ReplacePtr(cx, key, value)
-	}
-	e := EntityValue{
-		Entity: ep.Entity,
-		Value:  value,
-	}
-	err = SetEntity(r.con, key, e)
+// value provides resolved value of pointer
+func (r *resolver) value(p pointer.Pointer, pp path) (container.Container, error) {
+	nc, err := r.res.call(p)
 	if err != nil {
-		return
+		return zero, err
 	}
-	return UpdatePtrToLocal(cx, key, e.Fragment())
+	return r.iterator(nc, append(pp, p))
 }
 
-func (r *resolver) setRecursive(cx container.Container, ptr pointer.Pointer, key string) (err error) {
-	ep, ok := r.exp.Get(ptr)
-	if ok && ep.IsScheme() {
-		return UpdatePtrToLocal(cx, key, ep.Entity.Fragment())
+// export resolves value of exported pointer. It does so from empty path,
+// value of component does not depend on a place it is used at.
+func (r *resolver) export(ep Pointer) error {
+	key := ep.String()
+	if _, ok := r.components[key]; ok {
+		return nil // done or in progress
+	}
+	r.components[key] = EntityValue{}
+
+	value, err := r.value(ep.Pointer, path{})
+	if err != nil {
+		return err
+	}
+	r.components[key] = EntityValue{
+		Entity: ep.Entity,
+		Value:  value,
 	}
-	return ReplacePtrWithEmptyObject(cx, key)
+	return nil
 }
 
 type path []pointer.Pointer
-- 
2.43.0


From 60bd62a81f30abd2593b45bbfb4216bd4457b876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:36 +0000
Subject: [PATCH 19/49] fix: keep servers, security and tags of documents

---
 internal/oapi/oapi.go | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/internal/oapi/oapi.go b/internal/oapi/oapi.go
index 9ed7df7..90e16c8 100644
--- a/internal/oapi/oapi.go
+++ b/internal/oapi/oapi.go
@@ -127,23 +127,25 @@ func MergeWithRoot(root spec.OpenAPI, c container.Container) (err error) {
 			continue
 		}
 
+		// Sections are merged under their key, some are not objects.
 		s := container.New()
-
-		err := s.Merge(z, x.merge)
-		if err != nil {
-			return err
-		}
-
-		err = s.Merge(y, x.merge)
-		if err != nil {
-			return err
+		for _, section := range []container.Container{z, y} {
+			if section.IsNil() {
+				continue
+			}
+			p, err := container.Make(map[string]interface{}{
+				x.key: section.Data(),
+			})
+			if err != nil {
+				return err
+			}
+			err = s.Merge(p, x.merge)
+			if err != nil {
+				return err
+			}
 		}
 
-		p, _ := container.Make(map[string]interface{}{
-			x.key: s.Data(),
-		})
-
-		err = c.Merge(p, container.MergeOverride)
+		err := c.Merge(s, container.MergeOverride)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 0a2fd9525a413c9b2148da44731e6f08bdcfd021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:04 +0000
Subject: [PATCH 20/49] fix: operation defaults leave other fields of path
 items alone

---
 internal/oapi/oapi.go | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/internal/oapi/oapi.go b/internal/oapi/oapi.go
index 90e16c8..d663839 100644
--- a/internal/oapi/oapi.go
+++ b/internal/oapi/oapi.go
@@ -1,6 +1,8 @@
 package oapi
 
 import (
+	"strings"
+
 	"github.com/buypal/oapi-go/internal/container"
 	"github.com/buypal/oapi-go/internal/oapi/spec"
 	"github.com/buypal/oapi-go/internal/route"
@@ -33,20 +35,39 @@ func (fp FlattenPaths) Match(pattern string) (xx FlattenPaths, err error) {
 	return
 }
 
+// methods of operations, other fields of path item are not operations.
+var methods = map[string]bool{
+	"get":     true,
+	"put":     true,
+	"post":    true,
+	"delete":  true,
+	"options": true,
+	"head":    true,
+	"patch":   true,
+	"trace":   true,
+}
+
 // Paths will parse paths in oapi container and return array of paths.
+// Fields of paths and path items which are not operations are left out.
 func Paths(cnt container.Container) (ff FlattenPaths, err error) {
 	paths, err := cnt.Path("paths").ChildrenMap()
 	if err != nil {
 		return
 	}
 
-	for path, methods := range paths {
+	for path, item := range paths {
+		if strings.HasPrefix(path, "x-") {
+			continue
+		}
 		var mx map[string]container.Container
-		mx, err = methods.ChildrenMap()
+		mx, err = item.ChildrenMap()
 		if err != nil {
 			return
 		}
 		for m, obj := range mx {
+			if !methods[strings.ToLower(m)] {
+				continue
+			}
 			ff = append(ff, FlattenPath{
 				Method:    m,
 				Path:      path,
-- 
2.43.0


From 1cfc23cad902b41619c7d9733ea97d3da688d72b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:04 +0000
Subject: [PATCH 21/49] fix: operation defaults are applied in fixed order

---
 internal/oapi/oapi.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/internal/oapi/oapi.go b/internal/oapi/oapi.go
index d663839..614b472 100644
--- a/internal/oapi/oapi.go
+++ b/internal/oapi/oapi.go
@@ -1,6 +1,7 @@
 package oapi
 
 import (
+	"sort"
 	"strings"
 
 	"github.com/buypal/oapi-go/internal/container"
@@ -90,7 +91,22 @@ func SetPathsDefaults(cnt container.Container, defops map[string]spec.Operation)
 		return
 	}
 
-	for pattern, override := range defops {
+	// More defaults can match one operation, the one with longest pattern wins.
+	patterns := make([]string, 0, len(defops))
+	for pattern := range defops {
+		patterns = append(patterns, pattern)
+	}
+	sort.Slice(patterns, func(i, j int) bool {
+		a, b := patterns[i], patterns[j]
+		if len(a) != len(b) {
+			return len(a) > len(b)
+		}
+		return a < b
+	})
+
+	for _, pattern := range patterns {
+		override := defops[pattern]
+
 		var ff FlattenPaths
 		ff, err = paths.Match(pattern)
 		if err != nil {
-- 
2.43.0


From 30e1140e115ab7444250f3181e2585a563ad43b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:37 +0000
Subject: [PATCH 22/49] fix: order of top level keys is deterministic

---
 internal/container/sort.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/internal/container/sort.go b/internal/container/sort.go
index e6eb170..0f55635 100644
--- a/internal/container/sort.go
+++ b/internal/container/sort.go
@@ -111,9 +111,16 @@ func (ms MapSlice) Values() (vx []interface{}) {
 
 // sort interface support
 
-func (ms MapSlice) Len() int           { return len(ms) }
-func (ms MapSlice) Less(i, j int) bool { return ms[i].Index < ms[j].Index }
-func (ms MapSlice) Swap(i, j int)      { ms[i], ms[j] = ms[j], ms[i] }
+func (ms MapSlice) Len() int      { return len(ms) }
+func (ms MapSlice) Swap(i, j int) { ms[i], ms[j] = ms[j], ms[i] }
+
+// Less orders by index, items of same index by key.
+func (ms MapSlice) Less(i, j int) bool {
+	if ms[i].Index != ms[j].Index {
+		return ms[i].Index < ms[j].Index
+	}
+	return ms[i].Key < ms[j].Key
+}
 
 // Sort will sort items by index and return copy
 func (ms MapSlice) Sort() MapSlice {
-- 
2.43.0


From c8a2af52ea81f50288854c76bfadc881ea97c1d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:38 +0000
Subject: [PATCH 23/49] fix: top level keys are encoded as JSON strings

---
 internal/container/sort.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/internal/container/sort.go b/internal/container/sort.go
index 0f55635..dd5fedf 100644
--- a/internal/container/sort.go
+++ b/internal/container/sort.go
@@ -3,7 +3,6 @@ package container
 import (
 	"bytes"
 	"encoding/json"
-	"fmt"
 	"sort"
 
 	"gopkg.in/yaml.v2"
@@ -139,7 +138,12 @@ func (ms MapSlice) MarshalJSON() ([]byte, error) {
 		if err != nil {
 			return nil, err
 		}
-		buf.WriteString(fmt.Sprintf("%q:", fmt.Sprintf("%v", mi.Key)))
+		k, err := json.Marshal(mi.Key)
+		if err != nil {
+			return nil, err
+		}
+		buf.Write(k)
+		buf.WriteByte(':')
 		buf.Write(b)
 		if i < len(ms)-1 {
 			buf.Write([]byte{','})
-- 
2.43.0


From 8575c6eede5512942eda4f51b16e1de812ab97cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:39 +0000
Subject: [PATCH 24/49] fix: go format of documents with backticks

---
 temp.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/temp.go b/temp.go
index a38f436..61b07f2 100644
--- a/temp.go
+++ b/temp.go
@@ -2,6 +2,7 @@ package oapi
 
 import (
 	"bytes"
+	"strings"
 	"text/template"
 )
 
@@ -19,7 +20,12 @@ type tpldata struct {
 	OpenAPIJson string
 }
 
+// Characters which cannot be part of raw string literal,
+// in json these can be only inside of strings.
+var rawString = strings.NewReplacer("`", `\u0060`, "\ufeff", `\ufeff`)
+
 func produceGoFile(pkg tpldata) ([]byte, error) {
+	pkg.OpenAPIJson = rawString.Replace(pkg.OpenAPIJson)
 	bx := bytes.NewBuffer([]byte{})
 	err := tpl.Execute(bx, pkg)
 	if err != nil {
-- 
2.43.0


From ee3e4f6e833ef7c9d8a8e8501899a4bce04bc75b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:40 +0000
Subject: [PATCH 25/49] fix: values without JSON representation in
 configuration are errors

---
 internal/oapi/config/config.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/internal/oapi/config/config.go b/internal/oapi/config/config.go
index 0ce1172..fa11601 100644
--- a/internal/oapi/config/config.go
+++ b/internal/oapi/config/config.go
@@ -80,7 +80,7 @@ func ReadYAML(data []byte) (c Config, err error) {
 	if err != nil {
 		return
 	}
-	err = json.Unmarshal(cx.Bytes(), &c)
+	err = decode(cx, &c)
 	return
 }
 
@@ -94,7 +94,7 @@ func ReadJSON(data []byte) (c Config, err error) {
 	if err != nil {
 		return
 	}
-	err = json.Unmarshal(cx.Bytes(), &c)
+	err = decode(cx, &c)
 	if err != nil {
 		return
 	}
@@ -111,7 +111,7 @@ func ReadFile(file string) (c Config, err error) {
 	if err != nil {
 		return
 	}
-	err = json.Unmarshal(cx.Bytes(), &c)
+	err = decode(cx, &c)
 	if err != nil {
 		return
 	}
@@ -119,6 +119,14 @@ func ReadFile(file string) (c Config, err error) {
 	return
 }
 
+func decode(cx container.Container, c *Config) error {
+	data, err := cx.MarshalJSON()
+	if err != nil {
+		return err
+	}
+	return json.Unmarshal(data, c)
+}
+
 func extends(c container.Container, fp string) (err error) {
 	if !c.ExistsP("extends") {
 		return
-- 
2.43.0


From 5cdbfe606f31d078da150a55a7c505e1697f6a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:53 +0000
Subject: [PATCH 26/49] fix: configuration extended by configuration which is
 extended

---
 internal/oapi/config/config.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/internal/oapi/config/config.go b/internal/oapi/config/config.go
index fa11601..b36bef7 100644
--- a/internal/oapi/config/config.go
+++ b/internal/oapi/config/config.go
@@ -6,6 +6,7 @@ import (
 
 	"github.com/buypal/oapi-go/internal/container"
 	"github.com/buypal/oapi-go/internal/oapi/spec"
+	"github.com/pkg/errors"
 )
 
 type Config struct {
@@ -127,7 +128,9 @@ func decode(cx container.Container, c *Config) error {
 	return json.Unmarshal(data, c)
 }
 
-func extends(c container.Container, fp string) (err error) {
+// extends merges extended configuration (which can extend another one) to c,
+// chain is list of configurations being extended.
+func extends(c container.Container, fp string, chain ...string) (err error) {
 	if !c.ExistsP("extends") {
 		return
 	}
@@ -138,9 +141,18 @@ func extends(c container.Container, fp string) (err error) {
 	if !filepath.IsAbs(p) {
 		p = filepath.Join(fp, p)
 	}
+	for _, x := range chain {
+		if x == p {
+			return errors.Errorf("configuration %q extends itself", p)
+		}
+	}
 	ny, err := container.ReadFile(p)
 	if err != nil {
 		return
 	}
+	err = extends(ny, filepath.Dir(p), append(chain, p)...)
+	if err != nil {
+		return
+	}
 	return c.Merge(ny, container.MergeDefault)
 }
-- 
2.43.0


From 23990a85ea94ce8dfe43a14a7538cbb4a3c266cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:55 +0000
Subject: [PATCH 27/49] fix: types of identical structure are different types

---
 internal/oapi/scan/types/point.go |  82 ++++++-------
 internal/oapi/scan/types/scan.go  |  15 +--
 internal/oapi/scan/types/types.go | 184 ++++++++++++------------------
 3 files changed, 123 insertions(+), 158 deletions(-)

diff --git a/internal/oapi/scan/types/point.go b/internal/oapi/scan/types/point.go
index 74579ff..983fd6d 100644
--- a/internal/oapi/scan/types/point.go
+++ b/internal/oapi/scan/types/point.go
@@ -55,21 +55,6 @@ func (p point) equal(p2 point) bool {
 
 type points []point
 
-// Len is part of sort.Interface.
-func (s points) Len() int {
-	return len(s)
-}
-
-// Swap is part of sort.Interface.
-func (s points) Swap(i, j int) {
-	s[i], s[j] = s[j], s[i]
-}
-
-// Less is part of sort.Interface. It is implemented by calling the "by" closure in the sorter.
-func (s points) Less(i, j int) bool {
-	return s[i].Fragment.Len() < s[j].Fragment.Len()
-}
-
 func (s points) filter(compare func(p1 point) bool) (pp points) {
 	for _, p := range s {
 		if compare(p) {
@@ -80,7 +65,7 @@ func (s points) filter(compare func(p1 point) bool) (pp points) {
 }
 
 func (s points) has(p2 point) bool {
-	return s.filter(p2.equal).Len() > 0
+	return len(s.filter(p2.equal)) > 0
 }
 
 func (s points) String() string {
@@ -95,18 +80,15 @@ type pointmap struct {
 	m typeutil.Map
 }
 
-func (tp pointmap) len(t types.Type, r point) bool {
-	return tp.at(t).Len() > 0
-}
-
-func (tp *pointmap) append(t types.Type, p1 point) points {
+// append registers type at given point, reports false if it already is.
+func (tp *pointmap) append(t types.Type, p1 point) bool {
 	pp, _ := tp.m.At(t).(points)
 	if pp.has(p1) {
-		return pp
+		return false
 	}
 	pp = append(pp, p1)
 	tp.m.Set(t, pp)
-	return pp
+	return true
 }
 
 func (tp pointmap) at(t types.Type) points {
@@ -120,13 +102,6 @@ func (tp pointmap) at(t types.Type) points {
 	return pp
 }
 
-func (tp pointmap) iterate(fn func(types.Type, points)) {
-	tp.m.Iterate(func(t types.Type, i interface{}) {
-		pp, _ := i.(points)
-		fn(t, pp)
-	})
-}
-
 func (tp pointmap) each(fn func(types.Type, point)) {
 	tp.m.Iterate(func(t types.Type, i interface{}) {
 		pp, _ := i.(points)
@@ -155,22 +130,49 @@ func (tp pointmap) find(fn func(types.Type, point) bool) (point, types.Type, boo
 	return point{}, nil, false
 }
 
-func (tp pointmap) pick(t types.Type) (point, bool) {
-	pp := tp.at(t)
-	if len(pp) == 0 {
-		return point{}, false
-	}
-	sort.Sort(pp)
-	return pp[0], true
-}
-
+// findType follows pointer from registered type its first element names.
 func (tp pointmap) findType(p1 pointer.Pointer) (types.Type, bool) {
+	if p1.Fragment.IsEmpty() {
+		return nil, false
+	}
+	head := p1.Clone()
+	head.Fragment = head.Fragment[:1]
+	name := head.String()
 	_, t, ok := tp.find(func(key types.Type, p2 point) bool {
-		return p1.String() == p2.Pointer.String()
+		return name == p2.Pointer.String()
 	})
+	for _, token := range p1.Fragment[1:] {
+		if !ok {
+			break
+		}
+		t, ok = step(t, token)
+	}
 	return t, ok
 }
 
+// step follows single element of pointer, which is either name of exported
+// field, "*" (element of pointer) or "[]" (element of slice, array or map).
+func step(t types.Type, token string) (types.Type, bool) {
+	switch u := t.Underlying().(type) {
+	case *types.Struct:
+		for i := 0; i < u.NumFields(); i++ {
+			f := u.Field(i)
+			if f.Exported() && f.Name() == token {
+				return f.Type(), true
+			}
+		}
+	case *types.Pointer:
+		return u.Elem(), token == "*"
+	case *types.Slice:
+		return u.Elem(), token == "[]"
+	case *types.Array:
+		return u.Elem(), token == "[]"
+	case *types.Map:
+		return u.Elem(), token == "[]"
+	}
+	return nil, false
+}
+
 func (tp pointmap) log(log logging.Printer) {
 	m := make(map[string]string)
 	var k []string
diff --git a/internal/oapi/scan/types/scan.go b/internal/oapi/scan/types/scan.go
index 417bdf6..2f937ec 100644
--- a/internal/oapi/scan/types/scan.go
+++ b/internal/oapi/scan/types/scan.go
@@ -24,13 +24,14 @@ func NewScanner(ptrs pointer.Pointers) *Scanner {
 // Resolve will return new pointer and scheme, new pointer might be returned in cases
 // where original pointer is not fully resolved.
 func (r *Scanner) Resolve(ptr pointer.Pointer) (*spec.Schema, error) {
-	tp, _ := r.points.findType(ptr)
-	// pp, ok := r.points.pick(tp)
-	// if !ok {
-	// 	return nil, errors.Errorf("failed to resolve %q", ptr.String())
-	// }
-	sch, err := type2schema(tp, r.points, path{}, tag.Tag{})
-	return sch, err
+	if sch, ok := refStdMapping[ptr.String()]; ok {
+		return &sch, nil
+	}
+	tp, ok := r.points.findType(ptr)
+	if !ok {
+		return nil, errors.Errorf("failed to resolve %q", ptr.String())
+	}
+	return type2schema(tp, r.points, path{at: point{Pointer: ptr}}, tag.Tag{})
 }
 
 func (r *Scanner) log(log logging.Printer) {
diff --git a/internal/oapi/scan/types/types.go b/internal/oapi/scan/types/types.go
index faf4a11..4c0b60d 100644
--- a/internal/oapi/scan/types/types.go
+++ b/internal/oapi/scan/types/types.go
@@ -11,9 +11,12 @@ import (
 	"github.com/pkg/errors"
 )
 
-// collect types will wrap walk providing inital arguments
+// collectTypes registers type of given object and all named types
+// which can be reached from there.
 func collectTypes(t types.Object, m *pointmap) error {
-	return walk(newPoint(t), t.Type(), path{}, m)
+	walk(t.Type(), m)
+	m.append(t.Type(), newPoint(t))
+	return nil
 }
 
 // elementer represents types such as slice, array, map or pointer
@@ -22,130 +25,80 @@ type elementer interface {
 	Elem() types.Type
 }
 
-// if you are digging into this function, I tried to write docs
-// but lets be honest nobody would understand that.
-// But I'll give you some overview at least what it does.
-//
-// I tries to collect pointers (not go pointers but json pointers) ie:
+// walk registers named types under pointers denoting them, ie:
 //   - go://github.com/example/project/pkg/path#/Struct => struct {Filed1 string, Field2 string, Field3 github.com/some/pkg#/Struct}
-//   - go://github.com/example/project/pkg/path#/Struct/Field1 => string
-//   - go://github.com/example/project/pkg/path#/Struct/Field2 => string
-//   - go://github.com/example/project/pkg/path#/Struct/Field3 => github.com/some/pkg#/Struct
 //   - go://github.com/some/pkg#/Struct => struct {Filed1, Field2, ...etc}
 //
-// Later it is save to PtrType (last arg).
-// First argument is pointer to be saved, type and map.
-func walk(r point, t types.Type, p path, m *pointmap) (err error) {
-	t = t.Underlying()
-	m.append(t, r)
-
-	p, visited := p.visit(t)
-	if visited {
+// What is inside of them is found by following the pointer, see findType.
+func walk(t types.Type, m *pointmap) {
+	if named, ok := isNamed(t); ok && !m.append(t, newPoint(named.Obj())) {
 		return
 	}
 
-	type tptr struct {
-		p point
-		t types.Type
-	}
-
-	var next []tptr
-
-	switch u := t.(type) {
+	switch u := t.Underlying().(type) {
 	case *types.Struct:
 		for i := 0; i < u.NumFields(); i++ {
 			field := u.Field(i)
-
-			if !field.Exported() {
+			if !field.Exported() && !field.Embedded() {
 				continue
 			}
-
-			next = append(next, tptr{
-				p: withDescendant(r, field.Name()),
-				t: field.Type(),
-			})
+			walk(field.Type(), m)
 		}
 
-	case *types.Pointer:
-		next = append(next, tptr{
-			p: withPtr(r),
-			t: u.Elem(),
-		})
-
 	case elementer:
-		next = append(next, tptr{
-			p: withArray(r),
-			t: u.Elem(),
-		})
-	}
-
-	for _, e := range next {
-		err = walk(e.p, e.t, p, m)
-		if err != nil {
-			return
-		}
-		named, ok := e.t.(*types.Named)
-		if ok {
-			np := newPoint(named.Obj())
-			err = walk(np, e.t, p, m)
-		}
-		if err != nil {
-			return
-		}
+		walk(u.Elem(), m)
 	}
+}
 
-	return
+// isNamed reports if type is named, that is declared in some package.
+func isNamed(t types.Type) (*types.Named, bool) {
+	named, ok := t.(*types.Named)
+	return named, ok && named.Obj().Pkg() != nil
 }
 
 // path represents list of types going in direction.
 // this is very much handy for cycle detection
-type path []types.Type
-
-func (tp path) String() string {
-	var ss []string
-	for _, x := range tp {
-		ss = append(ss, x.String())
-	}
-	return strings.Join(ss, ", ")
+type path struct {
+	types []types.Type
+	at    point // where the last type is, named types are where they are declared
 }
 
 func (tp path) has(t types.Type) bool {
-	return tp.index(t) >= 0
-}
-
-func (tp path) index(t types.Type) int {
-	for i, tx := range tp {
+	for _, tx := range tp.types {
 		if types.Identical(tx, t) {
-			return i
+			return true
 		}
 	}
-	return -1
+	return false
 }
 
-func (tp path) visit(t types.Type) (p path, visited bool) {
-	if tp.has(t) {
-		return tp, true
+// visit adds type to the path.
+func (tp path) visit(t types.Type) path {
+	if named, ok := isNamed(t); ok {
+		tp.at = newPoint(named.Obj())
 	}
-	return append(tp, t), false
+	tp.types = append(tp.types[:len(tp.types):len(tp.types)], t)
+	return tp
 }
 
 // type2schema will conver type to spec.Scheme
 func type2schema(t types.Type, m pointmap, tp path, tg tag.Tag) (*spec.Schema, error) {
-	t = t.Underlying()
+	visited := tp.has(t)
+	tp = tp.visit(t)
 
-	if tp.has(t) {
+	if visited {
 		return reference2schema(t, m, tp, tg)
 	}
-	tp = append(tp, t)
 
-	switch u := t.(type) {
+	switch u := t.Underlying().(type) {
 
 	// So struct will be converted into object
 	case *types.Struct:
-		if len(tp) == 1 {
-			return struct2schema(u, m, tp)
+		_, std := refStdMapping[tp.at.String()]
+		if len(tp.types) == 1 && !std {
+			return struct2schema(t, m, tp)
 		}
-		return reference2schema(u, m, tp, tg)
+		return reference2schema(t, m, tp, tg)
 
 	case *types.Array:
 		return array2schema(u, m, tp, tg)
@@ -177,15 +130,20 @@ func typeElement2schema(t elementer, m pointmap, tp path, tg tag.Tag) (s *spec.S
 	if types.Identical(t, t.Elem()) {
 		return nil, errors.Errorf("type %q is self referencing identical type", t.String())
 	}
+	if _, ok := t.(*types.Pointer); ok {
+		tp.at = withPtr(tp.at)
+	} else {
+		tp.at = withArray(tp.at)
+	}
 	return type2schema(t.Elem(), m, tp, tg)
 }
 
-func struct2schema(t *types.Struct, m pointmap, tp path) (s *spec.Schema, err error) {
+func struct2schema(t types.Type, m pointmap, tp path) (s *spec.Schema, err error) {
 	s = &spec.Schema{}
 	s.Type = spec.TypeObject
 	s.Properties = make(map[string]*spec.Schema)
 
-	fields, err := collectStructFields(t, path{})
+	fields, err := collectStructFields(t, path{at: tp.at})
 	if err != nil {
 		return
 	}
@@ -196,14 +154,9 @@ func struct2schema(t *types.Struct, m pointmap, tp path) (s *spec.Schema, err er
 		if len(x.tag.Type) != 0 {
 			pschema, err = basicString2schema(x.tag.Type, x.tag)
 		} else {
-			switch z := x.field.Type().Underlying().(type) {
-			// struct
-			case *types.Struct:
-				pschema, err = reference2schema(z, m, tp, x.tag)
-
-			default:
-				pschema, err = type2schema(z, m, tp, x.tag)
-			}
+			ft := tp
+			ft.at = x.at
+			pschema, err = type2schema(x.field.Type(), m, ft, x.tag)
 		}
 
 		if err != nil {
@@ -346,9 +299,9 @@ func AddRefOverride(p pointer.Pointer, s spec.Schema) {
 }
 
 func reference2schema(t types.Type, m pointmap, tp path, tg tag.Tag) (s *spec.Schema, err error) {
-	ptr, ok := m.pick(t)
-	if !ok {
-		return nil, errors.New("failed to resolve sturct")
+	ptr := tp.at
+	if _, ok := isNamed(t); ok && !m.at(t).has(ptr) {
+		return nil, errors.Errorf("failed to resolve type %q", t.String())
 	}
 	if sch, ok := refStdMapping[ptr.String()]; ok {
 		return &sch, nil
@@ -489,13 +442,13 @@ func basicString2schema(t string, tg tag.Tag) (s *spec.Schema, err error) {
 	}
 }
 
-func castInlineStruct(t *types.Var, tg tag.Tag) (*types.Struct, bool) {
-	tx := t.Type().Underlying()
+func castInlineStruct(t *types.Var, tg tag.Tag) (types.Type, bool) {
+	tx := t.Type()
 	// check for pointer
-	if p, ok := tx.(*types.Pointer); ok {
-		tx = p.Elem().Underlying()
+	if p, ok := tx.Underlying().(*types.Pointer); ok {
+		tx = p.Elem()
 	}
-	st, ok := tx.(*types.Struct)
+	_, ok := tx.Underlying().(*types.Struct)
 	if ok {
 		if tg.Inline != nil {
 			ok = *tg.Inline
@@ -503,34 +456,42 @@ func castInlineStruct(t *types.Var, tg tag.Tag) (*types.Struct, bool) {
 			ok = t.Embedded()
 		}
 	}
-	return st, ok
+	return tx, ok
 }
 
 type structField struct {
 	field *types.Var
+	at    point
 	tag   tag.Tag
 }
 
-func collectStructFields(t *types.Struct, p path) (arr []structField, err error) {
+func collectStructFields(t types.Type, p path) (arr []structField, err error) {
 	// prevent cycles
 	if p.has(t) {
 		return []structField{}, nil
 	}
-	p = append(p, t)
-	for i := 0; i < t.NumFields(); i++ {
-		x := t.Field(i)
+	p = p.visit(t)
+	st := t.Underlying().(*types.Struct)
+	for i := 0; i < st.NumFields(); i++ {
+		x := st.Field(i)
 		var tx tag.Tag
-		tx, err = tag.Parse(t.Tag(i))
+		tx, err = tag.Parse(st.Tag(i))
 		if err != nil {
 			return
 		}
 		if tx.Ignore || !x.Exported() {
 			continue
 		}
-		st, ok := castInlineStruct(x, tx)
+		at := withDescendant(p.at, x.Name())
+		inlined, ok := castInlineStruct(x, tx)
 		if ok {
+			px := p
+			px.at = at
+			if _, ok := x.Type().Underlying().(*types.Pointer); ok {
+				px.at = withPtr(at)
+			}
 			var z []structField
-			z, err = collectStructFields(st, p)
+			z, err = collectStructFields(inlined, px)
 			if err != nil {
 				return
 			}
@@ -538,6 +499,7 @@ func collectStructFields(t *types.Struct, p path) (arr []structField, err error)
 		} else {
 			arr = append(arr, structField{
 				field: x,
+				at:    at,
 				tag:   tx,
 			})
 		}
-- 
2.43.0


From d4dfcdd1eff0a50416db05dacadbb3fcdfd5e7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:56 +0000
Subject: [PATCH 28/49] fix: format of a field's type is kept

---
 internal/oapi/scan/types/types.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/oapi/scan/types/types.go b/internal/oapi/scan/types/types.go
index 4c0b60d..78036e7 100644
--- a/internal/oapi/scan/types/types.go
+++ b/internal/oapi/scan/types/types.go
@@ -177,7 +177,9 @@ func struct2schema(t types.Type, m pointmap, tp path) (s *spec.Schema, err error
 		pschema.Deprecated = x.tag.Deprecated
 		pschema.ReadOnly = x.tag.ReadOnly
 		pschema.WriteOnly = x.tag.WriteOnly
-		pschema.Format = x.tag.Format
+		if len(x.tag.Format) > 0 {
+			pschema.Format = x.tag.Format
+		}
 
 		if x.tag.Nullable != nil {
 			pschema.Nullable = *x.tag.Nullable
-- 
2.43.0


From 2305dcb9d110c19a2437a094a309a61d034cd2ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:57 +0000
Subject: [PATCH 29/49] fix: fields of struct type can be required

---
 internal/oapi/scan/types/types.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/internal/oapi/scan/types/types.go b/internal/oapi/scan/types/types.go
index 78036e7..753dc79 100644
--- a/internal/oapi/scan/types/types.go
+++ b/internal/oapi/scan/types/types.go
@@ -170,6 +170,10 @@ func struct2schema(t types.Type, m pointmap, tp path) (s *spec.Schema, err error
 
 		s.Properties[name] = pschema
 
+		if x.tag.Required {
+			s.Required = append(s.Required, name)
+		}
+
 		if pschema.Ref != nil {
 			continue
 		}
@@ -184,10 +188,6 @@ func struct2schema(t types.Type, m pointmap, tp path) (s *spec.Schema, err error
 		if x.tag.Nullable != nil {
 			pschema.Nullable = *x.tag.Nullable
 		}
-
-		if x.tag.Required {
-			s.Required = append(s.Required, name)
-		}
 	}
 
 	return
-- 
2.43.0


From 918a5589c2cdd29163bd74f84aff7f413879d9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:24 +0000
Subject: [PATCH 30/49] fix: fields of embedded unexported structs are promoted

---
 internal/oapi/scan/types/types.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/oapi/scan/types/types.go b/internal/oapi/scan/types/types.go
index 753dc79..2e65953 100644
--- a/internal/oapi/scan/types/types.go
+++ b/internal/oapi/scan/types/types.go
@@ -481,11 +481,15 @@ func collectStructFields(t types.Type, p path) (arr []structField, err error) {
 		if err != nil {
 			return
 		}
-		if tx.Ignore || !x.Exported() {
+		if tx.Ignore {
 			continue
 		}
 		at := withDescendant(p.at, x.Name())
 		inlined, ok := castInlineStruct(x, tx)
+		// exported fields of embedded struct are promoted even if the struct itself is not exported
+		if !x.Exported() && !(ok && x.Embedded()) {
+			continue
+		}
 		if ok {
 			px := p
 			px.at = at
-- 
2.43.0


From 960cd13b4638e0f96e3e8d9aac1c62855dc69542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:25 +0000
Subject: [PATCH 31/49] fix: embedded struct with explicit name is a property

---
 internal/oapi/scan/types/types.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/oapi/scan/types/types.go b/internal/oapi/scan/types/types.go
index 2e65953..1abcdd2 100644
--- a/internal/oapi/scan/types/types.go
+++ b/internal/oapi/scan/types/types.go
@@ -455,7 +455,8 @@ func castInlineStruct(t *types.Var, tg tag.Tag) (types.Type, bool) {
 		if tg.Inline != nil {
 			ok = *tg.Inline
 		} else {
-			ok = t.Embedded()
+			// embedded struct with explicit name is property like any other
+			ok = t.Embedded() && len(tg.Name) == 0
 		}
 	}
 	return tx, ok
-- 
2.43.0


From 106445fc388e24b007545c85e9338529ef5f2c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:26 +0000
Subject: [PATCH 32/49] fix: promoted fields do not replace fields of outer
 struct

---
 internal/oapi/scan/types/types.go | 33 ++++++++++++++++++++++++++-----
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/internal/oapi/scan/types/types.go b/internal/oapi/scan/types/types.go
index 1abcdd2..8a824d3 100644
--- a/internal/oapi/scan/types/types.go
+++ b/internal/oapi/scan/types/types.go
@@ -148,7 +148,7 @@ func struct2schema(t types.Type, m pointmap, tp path) (s *spec.Schema, err error
 		return
 	}
 
-	for _, x := range fields {
+	for _, x := range visibleFields(fields) {
 		var pschema *spec.Schema
 
 		if len(x.tag.Type) != 0 {
@@ -163,10 +163,7 @@ func struct2schema(t types.Type, m pointmap, tp path) (s *spec.Schema, err error
 			return
 		}
 
-		name := x.field.Name()
-		if len(x.tag.Name) > 0 {
-			name = x.tag.Name
-		}
+		name := x.name()
 
 		s.Properties[name] = pschema
 
@@ -466,6 +463,31 @@ type structField struct {
 	field *types.Var
 	at    point
 	tag   tag.Tag
+	depth int // of struct it was promoted from
+}
+
+func (f structField) name() string {
+	if len(f.tag.Name) > 0 {
+		return f.tag.Name
+	}
+	return f.field.Name()
+}
+
+// visibleFields removes promoted fields which are shadowed by field
+// of the same name in less nested struct.
+func visibleFields(fields []structField) (arr []structField) {
+	depths := make(map[string]int)
+	for _, x := range fields {
+		if d, ok := depths[x.name()]; !ok || x.depth < d {
+			depths[x.name()] = x.depth
+		}
+	}
+	for _, x := range fields {
+		if x.depth == depths[x.name()] {
+			arr = append(arr, x)
+		}
+	}
+	return
 }
 
 func collectStructFields(t types.Type, p path) (arr []structField, err error) {
@@ -508,6 +530,7 @@ func collectStructFields(t types.Type, p path) (arr []structField, err error) {
 				field: x,
 				at:    at,
 				tag:   tx,
+				depth: len(p.types),
 			})
 		}
 	}
-- 
2.43.0


From b0b51de9577ad2bc2f9e23ec20853ac7fa59bad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:27 +0000
Subject: [PATCH 33/49] fix: options of fields with type number or object

---
 internal/oapi/scan/types/types.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/internal/oapi/scan/types/types.go b/internal/oapi/scan/types/types.go
index 8a824d3..635f8d0 100644
--- a/internal/oapi/scan/types/types.go
+++ b/internal/oapi/scan/types/types.go
@@ -431,10 +431,13 @@ func basicString2schema(t string, tg tag.Tag) (s *spec.Schema, err error) {
 		s.Format = "password"
 		return s, err
 	case "number":
-		s = &spec.Schema{Type: spec.TypeNumber}
-		return s, nil
+		s, err = basic2schema(types.Float64, tg)
+		s.Format = ""
+		return s, err
 	case "object":
 		s = &spec.Schema{Type: spec.TypeObject}
+		s.MinProperties = tg.MinProps
+		s.MaxProperties = tg.MaxProps
 		return s, nil
 	default:
 		return nil, errors.Errorf("invalid type %q", t)
-- 
2.43.0


From 57cdc9075e7a61cba7baded0997010b7c1b38b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:07 +0000
Subject: [PATCH 34/49] fix: name and errors of schema comments

---
 internal/oapi/scan/cmds/schema.go | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/internal/oapi/scan/cmds/schema.go b/internal/oapi/scan/cmds/schema.go
index 114083f..bfcc02a 100644
--- a/internal/oapi/scan/cmds/schema.go
+++ b/internal/oapi/scan/cmds/schema.go
@@ -29,11 +29,19 @@ func NewCmdSchema(cmd CmdBase) (s Commander, err error) {
 		return !a || len(s) == 0
 	}
 
-	makePtr := func(a string) (pointer.Pointer, error) {
+	makePtr := func(a string) (p pointer.Pointer, err error) {
 		if strings.Contains(a, "://") || strings.Contains(a, "#") {
-			return pointer.Parse(a)
+			p, err = pointer.Parse(a)
+		} else {
+			p, err = pointer.NewGoPointer(cmd.pkg.Types.Path(), a)
 		}
-		return pointer.NewGoPointer(cmd.pkg.Types.Path(), a)
+		if err != nil {
+			return
+		}
+		if p.Scheme != "go" || p.Fragment.IsEmpty() {
+			err = rerr
+		}
+		return
 	}
 
 	switch cmd.args.Len() {
@@ -41,8 +49,11 @@ func NewCmdSchema(cmd CmdBase) (s Commander, err error) {
 		if invalid(nok, name) {
 			return nil, rerr
 		}
-		sx.Name = name
 		sx.Ptr, err = makePtr(name)
+		if err != nil {
+			return nil, err
+		}
+		sx.Name, _ = sx.Ptr.Fragment.Last()
 		return sx, nil
 	case 2:
 		if invalid(nok, name) {
@@ -53,6 +64,9 @@ func NewCmdSchema(cmd CmdBase) (s Commander, err error) {
 		}
 		sx.Name = name
 		sx.Ptr, err = makePtr(ptr)
+		if err != nil {
+			return nil, err
+		}
 		return sx, nil
 	default:
 		return nil, errors.New("invalid number of arguments")
-- 
2.43.0


From 7317355161c54b4c9a068ef00f9dcd9a2a2d97c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:08 +0000
Subject: [PATCH 35/49] fix: schemas of two types cannot share a name

---
 internal/oapi/scan/cmds/scan.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/oapi/scan/cmds/scan.go b/internal/oapi/scan/cmds/scan.go
index c3b1b2c..a2c9d44 100644
--- a/internal/oapi/scan/cmds/scan.go
+++ b/internal/oapi/scan/cmds/scan.go
@@ -64,6 +64,12 @@ func (r *Scanner) ExportedComponents() (exports resolver.Exports, err error) {
 				Entity: spec.SchemaKind,
 				Name:   x.Name,
 			}
+			for _, other := range exports {
+				if other.Entity == entity {
+					err = errors.Errorf("schemas of types %q and %q have the same name %q", other.Pointer.String(), x.Ptr.String(), x.Name)
+					return
+				}
+			}
 			exp := resolver.Pointer{
 				Pointer: x.Ptr,
 				Entity:  entity,
-- 
2.43.0


From 57c42d164d376e2fe73bd5139469695d51488711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:42 +0000
Subject: [PATCH 36/49] fix: files stating equal values can be merged

---
 internal/container/merge.go | 23 ++++++++++++++++++++++-
 oapi.go                     |  2 +-
 2 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/internal/container/merge.go b/internal/container/merge.go
index 650ceb1..59356f1 100644
--- a/internal/container/merge.go
+++ b/internal/container/merge.go
@@ -1,6 +1,11 @@
 package container
 
-import "github.com/pkg/errors"
+import (
+	"bytes"
+	"encoding/json"
+
+	"github.com/pkg/errors"
+)
 
 // Merger is function signature allowing merging
 type Merger func(destination, source interface{}) (interface{}, error)
@@ -10,6 +15,22 @@ func MergeStrict(dest, source interface{}) (interface{}, error) {
 	return nil, errors.Errorf("%v collied with %v", dest, source)
 }
 
+// MergeEqual allows only collisions of equal values
+func MergeEqual(dest, source interface{}) (interface{}, error) {
+	a, err := json.Marshal(dest)
+	if err != nil {
+		return nil, err
+	}
+	b, err := json.Marshal(source)
+	if err != nil {
+		return nil, err
+	}
+	if bytes.Equal(a, b) {
+		return dest, nil
+	}
+	return MergeStrict(dest, source)
+}
+
 // MergeDefault will merge default
 func MergeDefault(dest, source interface{}) (interface{}, error) {
 	return dest, nil
diff --git a/oapi.go b/oapi.go
index 50ef4bd..fcc41dc 100644
--- a/oapi.go
+++ b/oapi.go
@@ -159,7 +159,7 @@ func Scan(ctx context.Context, options ...Option) (s OAPI, err error) {
 		return
 	}
 
-	c, err := specsScanner.Merge()
+	c, err := specsScanner.Containers.Sort().Merge(container.MergeEqual)
 	if err != nil {
 		return
 	}
-- 
2.43.0


From f7f1fb72ae3cb4c9aff47045b3befb1f441057b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:43 +0000
Subject: [PATCH 37/49] fix: scan of valid program succeeds

---
 oapi.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/oapi.go b/oapi.go
index fcc41dc..de6ef3a 100644
--- a/oapi.go
+++ b/oapi.go
@@ -37,7 +37,11 @@ type OAPI struct {
 // newOAPI creates new specs from container
 func newOAPI(c container.Container) (x OAPI, err error) {
 	x = OAPI{c: c}
-	err = json.Unmarshal(c.Bytes(), &x.o.OpenAPI)
+	version := c.Path("openapi")
+	if version.IsNil() {
+		return x, nil
+	}
+	err = json.Unmarshal(version.Bytes(), &x.o.OpenAPI)
 	return x, err
 }
 
-- 
2.43.0


From 106e2baf5b4d852fe05e5e76144f8d1316a1752b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:13 +0000
Subject: [PATCH 38/49] fix: types referred to by operation defaults are
 resolved

---
 internal/oapi/oapi.go | 26 ++++++++++++++++++++++++++
 oapi.go               | 20 +++++++++++++++-----
 2 files changed, 41 insertions(+), 5 deletions(-)

diff --git a/internal/oapi/oapi.go b/internal/oapi/oapi.go
index 614b472..cf2723a 100644
--- a/internal/oapi/oapi.go
+++ b/internal/oapi/oapi.go
@@ -6,6 +6,7 @@ import (
 
 	"github.com/buypal/oapi-go/internal/container"
 	"github.com/buypal/oapi-go/internal/oapi/spec"
+	"github.com/buypal/oapi-go/internal/pointer"
 	"github.com/buypal/oapi-go/internal/route"
 )
 
@@ -189,3 +190,28 @@ func MergeWithRoot(root spec.OpenAPI, c container.Container) (err error) {
 	}
 	return nil
 }
+
+// Pointers returns all pointers value refers to.
+func Pointers(v interface{}) (pp pointer.Pointers, err error) {
+	c, err := container.Make(v)
+	if err != nil || c.IsNil() {
+		return
+	}
+	refs, err := container.ExtractKey(c, "$ref")
+	if err != nil {
+		return
+	}
+	pp = make(pointer.Pointers)
+	for _, v := range refs {
+		x, ok := v.Val.(string)
+		if !ok {
+			continue
+		}
+		p, err := pointer.Parse(x)
+		if err != nil {
+			return nil, err
+		}
+		pp[p.String()] = p
+	}
+	return
+}
diff --git a/oapi.go b/oapi.go
index de6ef3a..eeb9fe6 100644
--- a/oapi.go
+++ b/oapi.go
@@ -172,6 +172,16 @@ func Scan(ctx context.Context, options ...Option) (s OAPI, err error) {
 	pp = pp.Merge(cmdsScanner.Commands.Pointers())
 	pp = pp.Merge(specsScanner.Pointers)
 
+	// options can point to types too
+	for _, v := range []interface{}{opts.root, opts.defops, opts.override} {
+		var px pointer.Pointers
+		px, err = oapi.Pointers(v)
+		if err != nil {
+			return
+		}
+		pp = pp.Merge(px)
+	}
+
 	// collect and handle types
 	tps := types.NewScanner(pp)
 	err = pkgutil.Scan(pkgs, tps)
@@ -184,6 +194,11 @@ func Scan(ctx context.Context, options ...Option) (s OAPI, err error) {
 		return
 	}
 
+	err = oapi.SetPathsDefaults(c, opts.defops)
+	if err != nil {
+		return
+	}
+
 	cnt, err := resolver.Resolve(c, exports, func(ptr pointer.Pointer) (e spec.Entiter, err error) {
 		if ovrd, ok := opts.override[ptr.String()]; ok {
 			return ovrd, nil
@@ -200,11 +215,6 @@ func Scan(ctx context.Context, options ...Option) (s OAPI, err error) {
 		return
 	}
 
-	err = oapi.SetPathsDefaults(cnt, opts.defops)
-	if err != nil {
-		return
-	}
-
 	return newOAPI(cnt)
 }
 
-- 
2.43.0


From 8019fc628a83aee72271d04b107b39140e039cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:13 +0000
Subject: [PATCH 39/49] fix: overrides are keyed by pointers

---
 oapi.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/oapi.go b/oapi.go
index eeb9fe6..7f7b2b9 100644
--- a/oapi.go
+++ b/oapi.go
@@ -199,8 +199,18 @@ func Scan(ctx context.Context, options ...Option) (s OAPI, err error) {
 		return
 	}
 
+	overrides := make(map[string]spec.Schema)
+	for k, v := range opts.override {
+		var ptr pointer.Pointer
+		ptr, err = pointer.Parse(k)
+		if err != nil {
+			return
+		}
+		overrides[ptr.String()] = v
+	}
+
 	cnt, err := resolver.Resolve(c, exports, func(ptr pointer.Pointer) (e spec.Entiter, err error) {
-		if ovrd, ok := opts.override[ptr.String()]; ok {
+		if ovrd, ok := overrides[ptr.String()]; ok {
 			return ovrd, nil
 		}
 		switch ptr.Scheme {
-- 
2.43.0


From e527665aad8e891dc725ea284892b12a06713bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:34 +0000
Subject: [PATCH 40/49] fix: export of missing type is an error

---
 internal/oapi/scan/types/scan.go | 22 +++++++++++++++++++---
 oapi.go                          |  7 +++++++
 2 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/internal/oapi/scan/types/scan.go b/internal/oapi/scan/types/scan.go
index 2f937ec..d6d92ff 100644
--- a/internal/oapi/scan/types/scan.go
+++ b/internal/oapi/scan/types/scan.go
@@ -1,6 +1,8 @@
 package types
 
 import (
+	"go/types"
+
 	"github.com/buypal/oapi-go/internal/logging"
 	"github.com/buypal/oapi-go/internal/oapi/spec"
 	"github.com/buypal/oapi-go/internal/pointer"
@@ -21,6 +23,15 @@ func NewScanner(ptrs pointer.Pointers) *Scanner {
 	}
 }
 
+// Has reports if pointer points to a type.
+func (r *Scanner) Has(ptr pointer.Pointer) bool {
+	if _, ok := refStdMapping[ptr.String()]; ok {
+		return true
+	}
+	_, ok := r.points.findType(ptr)
+	return ok
+}
+
 // Resolve will return new pointer and scheme, new pointer might be returned in cases
 // where original pointer is not fully resolved.
 func (r *Scanner) Resolve(ptr pointer.Pointer) (*spec.Schema, error) {
@@ -40,21 +51,26 @@ func (r *Scanner) log(log logging.Printer) {
 
 // Scan will scan types in pkgs
 func (r *Scanner) Scan(pkg *packages.Package) (errs error) {
-	scope := pkg.Types.Scope()
+	// packages of standard library are not scanned
+	pkgs := map[string]*types.Package{pkg.Types.Path(): pkg.Types}
+	for _, p := range pkg.Types.Imports() {
+		pkgs[p.Path()] = p
+	}
 
 	for _, ptr := range r.Pointers {
 		url := ptr.URL
 		if url.Scheme != "go" {
 			continue
 		}
-		if pkg.Types.Path() != ptr.PkgPath() {
+		p, ok := pkgs[ptr.PkgPath()]
+		if !ok {
 			continue
 		}
 		head, ok := ptr.Fragment.Head()
 		if !ok {
 			continue
 		}
-		obj := scope.Lookup(head)
+		obj := p.Scope().Lookup(head)
 		if obj == nil {
 			continue
 		}
diff --git a/oapi.go b/oapi.go
index 7f7b2b9..16455b5 100644
--- a/oapi.go
+++ b/oapi.go
@@ -189,6 +189,13 @@ func Scan(ctx context.Context, options ...Option) (s OAPI, err error) {
 		return
 	}
 
+	for _, x := range exports {
+		if !tps.Has(x.Pointer) {
+			err = errors.Errorf("exported %q does not exist", x.Pointer.String())
+			return
+		}
+	}
+
 	err = oapi.MergeWithRoot(opts.root, c)
 	if err != nil {
 		return
-- 
2.43.0


From 00d74a538fdf9a1b5cdaa594a43e8934fb811022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:40 +0000
Subject: [PATCH 41/49] fix: failures exit with an error and keep existing
 output

---
 cmd/oapi/main.go | 62 ++++++++++++++++++++++++++++++++----------------
 1 file changed, 42 insertions(+), 20 deletions(-)

diff --git a/cmd/oapi/main.go b/cmd/oapi/main.go
index 5f28553..ec2f48e 100644
--- a/cmd/oapi/main.go
+++ b/cmd/oapi/main.go
@@ -1,11 +1,12 @@
 package main
 
 import (
-	"bytes"
 	"context"
-	"io"
+	"fmt"
+	"io/ioutil"
 	"os"
 	"os/signal"
+	"path/filepath"
 	"syscall"
 
 	"github.com/buypal/oapi-go"
@@ -23,7 +24,7 @@ func main() {
 
 	cfg, _, err := getConfig()
 	if err != nil {
-		panic(err)
+		fatal("err flags: %s", err)
 	}
 
 	var log logging.Printer
@@ -40,7 +41,7 @@ func main() {
 
 	config, err := cfg.full()
 	if err != nil {
-		logging.Fatal(log, "err config: %s", err.Error())
+		fatal("err config: %s", err)
 	}
 
 	go func() {
@@ -51,34 +52,55 @@ func main() {
 
 	spec, err := scan(ctx, log, config)
 	if err != nil {
-		logging.Fatal(log, "err during scan: %s", err.Error())
+		fatal("err during scan: %s", err)
 	}
 
 	data, err := oapi.Format(config.Format, spec)
 	if err != nil {
-		logging.Fatal(log, "err during format: %s", err.Error())
+		fatal("err during format: %s", err)
 	}
 
-	var w io.Writer
-
 	switch config.Output {
 	case "stdout", "":
-		w = os.Stdout
+		_, err = os.Stdout.Write(data)
 	case "stderr":
-		w = os.Stderr
+		_, err = os.Stderr.Write(data)
 	default:
-		err = os.Remove(config.Output)
-		if err != nil {
-			logging.Fatal(log, err.Error())
-		}
-		w, err = os.OpenFile(config.Output, os.O_RDWR|os.O_CREATE, 0755)
-		if err != nil {
-			logging.Fatal(log, err.Error())
-		}
+		err = writeFile(config.Output, data)
+	}
+	if err != nil {
+		fatal("err during write: %s", err)
+	}
+}
+
+// fatal reports error regardless of log level and exits.
+func fatal(msg string, args ...interface{}) {
+	fmt.Fprintf(os.Stderr, "oapi: "+msg+"\n", args...)
+	os.Exit(1)
+}
+
+// writeFile replaces content of file, in case of error file stays as it was.
+func writeFile(file string, data []byte) (err error) {
+	mode := os.FileMode(0755)
+
+	fi, err := os.Stat(file)
+	switch {
+	case err == nil && fi.IsDir():
+		return fmt.Errorf("%s is a directory", file)
+	case err == nil && !fi.Mode().IsRegular():
+		// devices, pipes and such cannot be replaced
+		return ioutil.WriteFile(file, data, mode)
+	case err == nil:
+		mode = fi.Mode().Perm()
 	}
 
-	_, err = io.Copy(w, bytes.NewBuffer(data))
+	tmp := filepath.Join(filepath.Dir(file), fmt.Sprintf(".oapi-%d.tmp", os.Getpid()))
+	err = ioutil.WriteFile(tmp, data, mode)
+	if err == nil {
+		err = os.Rename(tmp, file)
+	}
 	if err != nil {
-		logging.Fatal(log, err.Error())
+		os.Remove(tmp)
 	}
+	return err
 }
-- 
2.43.0


From 3632e8f476a80ef960b9744f23e91bffb051a08d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:40 +0000
Subject: [PATCH 42/49] fix: output to stdout and stderr

---
 cmd/oapi/config.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cmd/oapi/config.go b/cmd/oapi/config.go
index ef1e76e..81f3d49 100644
--- a/cmd/oapi/config.go
+++ b/cmd/oapi/config.go
@@ -98,6 +98,7 @@ func (ff Config) full() (cfg config.Config, err error) {
 	if len(cfg.Output) > 0 {
 		switch cfg.Output {
 		case "stderr", "stdout":
+			output = cfg.Output
 		default:
 			output = toAbsPath(cfg.Output, cfg.Dir)
 		}
@@ -105,6 +106,7 @@ func (ff Config) full() (cfg config.Config, err error) {
 	if len(ff.Output) > 0 {
 		switch ff.Output {
 		case "stderr", "stdout":
+			output = ff.Output
 		default:
 			output = toAbsPath(ff.Output, wd)
 		}
-- 
2.43.0


From 6876914b23a562a276f56b21fd83024888b5a737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:50 +0000
Subject: [PATCH 43/49] fix: empty info of root document overrides nothing

---
 internal/oapi/oapi.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/internal/oapi/oapi.go b/internal/oapi/oapi.go
index cf2723a..5d5ef09 100644
--- a/internal/oapi/oapi.go
+++ b/internal/oapi/oapi.go
@@ -137,6 +137,15 @@ func SetPathsDefaults(cnt container.Container, defops map[string]spec.Operation)
 	return
 }
 
+// mergeInfo overrides everything but with empty strings, required
+// fields which were not set are such.
+func mergeInfo(dest, source interface{}) (interface{}, error) {
+	if s, ok := source.(string); ok && len(s) == 0 {
+		return dest, nil
+	}
+	return container.MergeOverride(dest, source)
+}
+
 // MergeWithRoot will merge container with root document.
 func MergeWithRoot(root spec.OpenAPI, c container.Container) (err error) {
 	r, err := container.Make(root)
@@ -150,7 +159,7 @@ func MergeWithRoot(root spec.OpenAPI, c container.Container) (err error) {
 	}
 
 	for _, x := range []mx{
-		{merge: container.MergeOverride, key: "info"},
+		{merge: mergeInfo, key: "info"},
 		{merge: container.MergeStrict, key: "components"},
 		{merge: container.MergeDefault, key: "paths"},
 		{merge: container.MergeDefault, key: "externalDocs"},
-- 
2.43.0


From 90be528cb1ec3b59db59151a09cdc6bb1a15684a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:36 +0000
Subject: [PATCH 44/49] fix: configuration whose extends is not a string is an
 error also when extended

---
 internal/oapi/config/config.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/oapi/config/config.go b/internal/oapi/config/config.go
index b36bef7..55efa49 100644
--- a/internal/oapi/config/config.go
+++ b/internal/oapi/config/config.go
@@ -131,12 +131,12 @@ func decode(cx container.Container, c *Config) error {
 // extends merges extended configuration (which can extend another one) to c,
 // chain is list of configurations being extended.
 func extends(c container.Container, fp string, chain ...string) (err error) {
-	if !c.ExistsP("extends") {
+	if c.Path("extends").IsNil() {
 		return
 	}
 	p, ok := c.Path("extends").Data().(string)
 	if !ok {
-		return
+		return errors.New("extends of configuration is not a string")
 	}
 	if !filepath.IsAbs(p) {
 		p = filepath.Join(fp, p)
-- 
2.43.0


From e88163f8f041765e217231fd0edfc5fd91b60e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:02 +0000
Subject: [PATCH 45/49] fix: output which is a symbolic link stays one

---
 cmd/oapi/main.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/cmd/oapi/main.go b/cmd/oapi/main.go
index ec2f48e..caa0bf5 100644
--- a/cmd/oapi/main.go
+++ b/cmd/oapi/main.go
@@ -83,12 +83,17 @@ func fatal(msg string, args ...interface{}) {
 func writeFile(file string, data []byte) (err error) {
 	mode := os.FileMode(0755)
 
-	fi, err := os.Stat(file)
+	// link stays link
+	if target, err := filepath.EvalSymlinks(file); err == nil {
+		file = target
+	}
+
+	fi, err := os.Lstat(file)
 	switch {
 	case err == nil && fi.IsDir():
 		return fmt.Errorf("%s is a directory", file)
 	case err == nil && !fi.Mode().IsRegular():
-		// devices, pipes and such cannot be replaced
+		// devices, pipes, links to nowhere and such cannot be replaced
 		return ioutil.WriteFile(file, data, mode)
 	case err == nil:
 		mode = fi.Mode().Perm()
-- 
2.43.0


From 243518a0d1d59e8e3738d38d1c1c070986d14495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:45 +0000
Subject: [PATCH 46/49] fix: overrides and exports of time.Time apply to fields
 too

---
 internal/oapi/scan/types/point.go | 2 ++
 internal/oapi/scan/types/scan.go  | 9 +++++++++
 internal/oapi/scan/types/types.go | 3 ++-
 oapi.go                           | 2 ++
 4 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/internal/oapi/scan/types/point.go b/internal/oapi/scan/types/point.go
index 983fd6d..776152c 100644
--- a/internal/oapi/scan/types/point.go
+++ b/internal/oapi/scan/types/point.go
@@ -78,6 +78,8 @@ func (s points) String() string {
 
 type pointmap struct {
 	m typeutil.Map
+	// standard types with schema of their own, which are exported or overridden
+	refs pointer.Pointers
 }
 
 // append registers type at given point, reports false if it already is.
diff --git a/internal/oapi/scan/types/scan.go b/internal/oapi/scan/types/scan.go
index d6d92ff..21f7b3a 100644
--- a/internal/oapi/scan/types/scan.go
+++ b/internal/oapi/scan/types/scan.go
@@ -23,6 +23,15 @@ func NewScanner(ptrs pointer.Pointers) *Scanner {
 	}
 }
 
+// Reference makes usages of type to be references even if it is standard
+// type with schema of its own.
+func (r *Scanner) Reference(ptr pointer.Pointer) {
+	if r.points.refs == nil {
+		r.points.refs = make(pointer.Pointers)
+	}
+	r.points.refs[ptr.String()] = ptr
+}
+
 // Has reports if pointer points to a type.
 func (r *Scanner) Has(ptr pointer.Pointer) bool {
 	if _, ok := refStdMapping[ptr.String()]; ok {
diff --git a/internal/oapi/scan/types/types.go b/internal/oapi/scan/types/types.go
index 635f8d0..1358c9e 100644
--- a/internal/oapi/scan/types/types.go
+++ b/internal/oapi/scan/types/types.go
@@ -302,7 +302,8 @@ func reference2schema(t types.Type, m pointmap, tp path, tg tag.Tag) (s *spec.Sc
 	if _, ok := isNamed(t); ok && !m.at(t).has(ptr) {
 		return nil, errors.Errorf("failed to resolve type %q", t.String())
 	}
-	if sch, ok := refStdMapping[ptr.String()]; ok {
+	_, ref := m.refs[ptr.String()]
+	if sch, ok := refStdMapping[ptr.String()]; ok && (!ref || len(tp.types) == 1) {
 		return &sch, nil
 	}
 	s = &spec.Schema{}
diff --git a/oapi.go b/oapi.go
index 16455b5..50e0026 100644
--- a/oapi.go
+++ b/oapi.go
@@ -194,6 +194,7 @@ func Scan(ctx context.Context, options ...Option) (s OAPI, err error) {
 			err = errors.Errorf("exported %q does not exist", x.Pointer.String())
 			return
 		}
+		tps.Reference(x.Pointer)
 	}
 
 	err = oapi.MergeWithRoot(opts.root, c)
@@ -214,6 +215,7 @@ func Scan(ctx context.Context, options ...Option) (s OAPI, err error) {
 			return
 		}
 		overrides[ptr.String()] = v
+		tps.Reference(ptr)
 	}
 
 	cnt, err := resolver.Resolve(c, exports, func(ptr pointer.Pointer) (e spec.Entiter, err error) {
-- 
2.43.0


From 15d1ad12e51f93af2019136c485b0fb6a1cbd5b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:36 +0000
Subject: [PATCH 47/49] fix: keep permissions of existing output file
 regardless of umask

---
 cmd/oapi/main.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/oapi/main.go b/cmd/oapi/main.go
index caa0bf5..c4fac0e 100644
--- a/cmd/oapi/main.go
+++ b/cmd/oapi/main.go
@@ -101,6 +101,9 @@ func writeFile(file string, data []byte) (err error) {
 
 	tmp := filepath.Join(filepath.Dir(file), fmt.Sprintf(".oapi-%d.tmp", os.Getpid()))
 	err = ioutil.WriteFile(tmp, data, mode)
+	if err == nil && fi != nil {
+		err = os.Chmod(tmp, mode) // regardless of umask
+	}
 	if err == nil {
 		err = os.Rename(tmp, file)
 	}
-- 
2.43.0


From 7ebcc491b00944950b4c3c7f793d8c4122114cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:21 +0000
Subject: [PATCH 48/49] fix: containers read from yaml share no parts, values
 given are not converted in place

---
 internal/container/utils.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/internal/container/utils.go b/internal/container/utils.go
index d7cef9f..7f3967c 100644
--- a/internal/container/utils.go
+++ b/internal/container/utils.go
@@ -111,6 +111,9 @@ func wrap(c interface{}) Container {
 // This function comes handy if you want to marshal a dynamic object into
 // JSON where maps with interface{} key type are not allowed.
 //
+// Given value is not changed, and what is shared in it (yaml aliases) is not
+// shared in the result.
+//
 // Recursion is implemented into values of the following types:
 //   -map[interface{}]interface{}
 //   -map[string]interface{}
@@ -133,14 +136,24 @@ func mmap(v interface{}) interface{} {
 		v = m
 
 	case []interface{}:
+		if x == nil {
+			break
+		}
+		s := make([]interface{}, len(x))
 		for i, v2 := range x {
-			x[i] = mmap(v2)
+			s[i] = mmap(v2)
 		}
+		v = s
 
 	case map[string]interface{}:
+		if x == nil {
+			break
+		}
+		m := make(map[string]interface{}, len(x))
 		for k, v2 := range x {
-			x[k] = mmap(v2)
+			m[k] = mmap(v2)
 		}
+		v = m
 	}
 
 	return v
-- 
2.43.0


From 183a3a1f43bfbdbb09fba2a7882893514fa74e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:06 +0000
Subject: [PATCH 49/49] fix: report what follows the document of a YAML file

---
 internal/container/container.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/internal/container/container.go b/internal/container/container.go
index 1946f41..69dad25 100644
--- a/internal/container/container.go
+++ b/internal/container/container.go
@@ -1,7 +1,9 @@
 package container
 
 import (
+	"bytes"
 	"encoding/json"
+	"io"
 	"io/ioutil"
 	"path/filepath"
 	"reflect"
@@ -59,11 +61,21 @@ func ReadJSON(data []byte) (c Container, err error) {
 // ReadYAML will read yaml and returns its content wrapped in container.
 func ReadYAML(data []byte) (c Container, err error) {
 	var i map[string]interface{}
-	err = yaml.Unmarshal(data, &i)
-	if err != nil {
+	dec := yaml.NewDecoder(bytes.NewReader(data))
+	err = dec.Decode(&i)
+	for err == nil {
+		// nothing but empty documents can follow
+		var rest interface{}
+		err = dec.Decode(&rest)
+		if err == nil && rest != nil {
+			err = errors.New("more than one document")
+		}
+	}
+	if err != io.EOF {
 		err = errors.Wrapf(err, "failed to unmarshal yaml")
 		return
 	}
+	err = nil
 	c = wrap(mmap(i))
 	return
 }
-- 
2.43.0

