From 682bf76f175c1e6b0258d43b9e22d906efab5a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:47 +0000
Subject: [PATCH 01/44] fix: Scan no longer fails on every document

newOAPI unmarshalled the whole document into a string field, so Scan always
returned an error.
---
 oapi.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/oapi.go b/oapi.go
index 50ef4bd..87934bc 100644
--- a/oapi.go
+++ b/oapi.go
@@ -2,7 +2,6 @@ package oapi
 
 import (
 	"context"
-	"encoding/json"
 	"os"
 
 	"github.com/buypal/oapi-go/internal/container"
@@ -37,8 +36,8 @@ type OAPI struct {
 // newOAPI creates new specs from container
 func newOAPI(c container.Container) (x OAPI, err error) {
 	x = OAPI{c: c}
-	err = json.Unmarshal(c.Bytes(), &x.o.OpenAPI)
-	return x, err
+	x.o.OpenAPI, _ = c.Path("openapi").Data().(string)
+	return x, nil
 }
 
 // Options represents options of scan.
-- 
2.43.0


From e51b2c0b85494dba084e3c8a3f2d2d8af9a61554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:49 +0000
Subject: [PATCH 02/44] fix: exit non-zero on a fatal error instead of writing
 a null document

logging.Fatal only logged, so a failing run went on, overwrote the output with
"null" and exited 0. A missing output file is not an error.
---
 cmd/oapi/main.go            | 2 +-
 internal/logging/logging.go | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/cmd/oapi/main.go b/cmd/oapi/main.go
index 5f28553..7b67e54 100644
--- a/cmd/oapi/main.go
+++ b/cmd/oapi/main.go
@@ -68,7 +68,7 @@ func main() {
 		w = os.Stderr
 	default:
 		err = os.Remove(config.Output)
-		if err != nil {
+		if err != nil && !os.IsNotExist(err) {
 			logging.Fatal(log, err.Error())
 		}
 		w, err = os.OpenFile(config.Output, os.O_RDWR|os.O_CREATE, 0755)
diff --git a/internal/logging/logging.go b/internal/logging/logging.go
index 7c95260..76c7903 100644
--- a/internal/logging/logging.go
+++ b/internal/logging/logging.go
@@ -2,6 +2,7 @@ package logging
 
 import (
 	"fmt"
+	"os"
 	"strings"
 )
 
@@ -88,9 +89,10 @@ func Debug(log Printer, m string, args ...interface{}) {
 	log.Printf(DebugLevel, m, args...)
 }
 
-// Fatal will log with fatal level
+// Fatal will log with fatal level and exit
 func Fatal(log Printer, m string, args ...interface{}) {
 	log.Printf(FatalLevel, m, args...)
+	os.Exit(1)
 }
 
 // Warn will log with want level
-- 
2.43.0


From 95a71638425b7e22b5a223b325383ab7c1f730aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:53 +0000
Subject: [PATCH 03/44] fix: keep list sections (tags, servers, security) when
 merging with root

Only objects were merged, so a list was replaced by an empty object; a scalar
section panicked in IsNil.
---
 internal/container/container.go | 10 +++++++++-
 internal/oapi/oapi.go           | 28 +++++++++++++++-------------
 2 files changed, 24 insertions(+), 14 deletions(-)

diff --git a/internal/container/container.go b/internal/container/container.go
index c0f28b7..3e5736f 100644
--- a/internal/container/container.go
+++ b/internal/container/container.go
@@ -134,7 +134,15 @@ func (c Container) Data() interface{} {
 
 // IsNil reports if underlying value of container is nil.
 func (c Container) IsNil() bool {
-	return c.Data() == nil || reflect.ValueOf(c.Data()).IsNil()
+	v := reflect.ValueOf(c.Data())
+	switch v.Kind() {
+	case reflect.Invalid:
+		return true
+	case reflect.Map, reflect.Slice, reflect.Ptr:
+		return v.IsNil()
+	default:
+		return false
+	}
 }
 
 // FilePath returns file path of given container if was ReadFile was used.
diff --git a/internal/oapi/oapi.go b/internal/oapi/oapi.go
index 9ed7df7..90c967a 100644
--- a/internal/oapi/oapi.go
+++ b/internal/oapi/oapi.go
@@ -129,21 +129,23 @@ func MergeWithRoot(root spec.OpenAPI, c container.Container) (err error) {
 
 		s := container.New()
 
-		err := s.Merge(z, x.merge)
-		if err != nil {
-			return err
-		}
-
-		err = s.Merge(y, x.merge)
-		if err != nil {
-			return err
+		for _, v := range []container.Container{z, y} {
+			if v.IsNil() {
+				continue
+			}
+			p, err := container.Make(map[string]interface{}{
+				x.key: v.Data(),
+			})
+			if err != nil {
+				return err
+			}
+			err = s.Merge(p, x.merge)
+			if err != nil {
+				return err
+			}
 		}
 
-		p, _ := container.Make(map[string]interface{}{
-			x.key: s.Data(),
-		})
-
-		err = c.Merge(p, container.MergeOverride)
+		err = c.Merge(s, container.MergeOverride)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 58293136d73858009b3769b109d54ef8e16e8c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:15 +0000
Subject: [PATCH 04/44] fix: escape '~' before '.' in dot paths

The '~' of an escaped '.' was escaped again, so a path with a dot in a key
addressed another key.
---
 internal/container/utils.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/container/utils.go b/internal/container/utils.go
index aa46e0c..85bc911 100644
--- a/internal/container/utils.go
+++ b/internal/container/utils.go
@@ -38,8 +38,8 @@ func ExtractKey(c Container, key string) (pp MapSlice, err error) {
 func SliceToDotPath(path []string) string {
 	hierarchy := make([]string, len(path))
 	for i, v := range path {
-		v = strings.Replace(v, ".", "~1", -1)
 		v = strings.Replace(v, "~", "~0", -1)
+		v = strings.Replace(v, ".", "~1", -1)
 		hierarchy[i] = v
 	}
 	return strings.Join(hierarchy, ".")
-- 
2.43.0


From a48d46058fec57f7df79c2fa660b4880a415ad4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:18 +0000
Subject: [PATCH 05/44] fix: resolve references below keys containing dots

Flatten does not escape the keys it joins, so a reference below a key such as
/v1.0/items or application/vnd.api+json was written elsewhere or panicked.
---
 internal/container/utils.go | 55 +++++++++++++++++++++++++------------
 1 file changed, 38 insertions(+), 17 deletions(-)

diff --git a/internal/container/utils.go b/internal/container/utils.go
index 85bc911..31e827e 100644
--- a/internal/container/utils.go
+++ b/internal/container/utils.go
@@ -3,6 +3,8 @@ package container
 import (
 	"encoding/json"
 	"fmt"
+	"sort"
+	"strconv"
 	"strings"
 
 	"github.com/Jeffail/gabs/v2"
@@ -11,26 +13,45 @@ import (
 
 // ExtractKey will extract keys from container
 func ExtractKey(c Container, key string) (pp MapSlice, err error) {
-	ff, err := c.Flatten()
-	if err != nil {
-		return nil, err
+	switch c.Data().(type) {
+	case map[string]interface{}, []interface{}:
+	default:
+		return nil, errors.New("keys can be extracted only from object or array")
 	}
-	var ii int
-	for k, v := range ff {
-		x := strings.Split(k, ".")
-		if len(x) == 0 {
-			continue
-		}
-		if x[len(x)-1] != key {
-			continue
+	var walk func(path []string, v interface{})
+	walk = func(path []string, v interface{}) {
+		switch x := v.(type) {
+		case map[string]interface{}:
+			keys := make([]string, 0, len(x))
+			for k := range x {
+				keys = append(keys, k)
+			}
+			// key itself comes last, so that inner keys are listed before outer ones
+			sort.Slice(keys, func(i, j int) bool {
+				if keys[i] == key || keys[j] == key {
+					return keys[i] != key
+				}
+				return keys[i] < keys[j]
+			})
+			for _, k := range keys {
+				walk(append(path[:len(path):len(path)], k), x[k])
+			}
+		case []interface{}:
+			for i, e := range x {
+				walk(append(path[:len(path):len(path)], strconv.Itoa(i)), e)
+			}
+		default:
+			if len(path) == 0 || path[len(path)-1] != key {
+				return
+			}
+			pp = append(pp, MapItem{
+				Key:   SliceToDotPath(path),
+				Val:   v,
+				Index: len(pp),
+			})
 		}
-		pp = append(pp, MapItem{
-			Key:   k,
-			Val:   v,
-			Index: ii,
-		})
-		ii++
 	}
+	walk(nil, c.Data())
 	return pp, nil
 }
 
-- 
2.43.0


From 1dc2c7ddb0dec8b231317b9eeadf57e6e438c70e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:57 +0000
Subject: [PATCH 06/44] fix: replace a reference which is the whole value

A type overridden by a plain reference was resolved into the empty key of the
reference object, which stayed in the document.
---
 internal/container/container.go | 10 ++++++++++
 internal/oapi/resolver/utils.go |  3 +++
 2 files changed, 13 insertions(+)

diff --git a/internal/container/container.go b/internal/container/container.go
index 3e5736f..7d95d41 100644
--- a/internal/container/container.go
+++ b/internal/container/container.go
@@ -174,6 +174,16 @@ func (c Container) SetP(path string, value interface{}) (err error) {
 	return
 }
 
+// Replace sets the value of whole container, value is cloned as in SetP.
+func (c Container) Replace(value interface{}) (err error) {
+	val, err := clone(value)
+	if err != nil {
+		return
+	}
+	_, err = c.c.Set(val)
+	return
+}
+
 // Bytes marshals an element to a JSON []byte blob.
 func (c Container) Bytes() []byte {
 	return c.c.Bytes()
diff --git a/internal/oapi/resolver/utils.go b/internal/oapi/resolver/utils.go
index f95e3bc..5e5f9a3 100644
--- a/internal/oapi/resolver/utils.go
+++ b/internal/oapi/resolver/utils.go
@@ -51,6 +51,9 @@ func ReplacePtr(cx container.Container, key string, value interface{}) (err erro
 	if !ok {
 		return errors.New("not a pointer")
 	}
+	if key == "$ref" {
+		return cx.Replace(value)
+	}
 	err = cx.SetP(path, value)
 	return
 }
-- 
2.43.0


From bcf0e1df6639dff48297413a78d8a0bf00edabbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:59 +0000
Subject: [PATCH 07/44] fix: return an error for a reference to an unknown go
 type

It was a nil pointer dereference.
---
 internal/oapi/scan/types/scan.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/internal/oapi/scan/types/scan.go b/internal/oapi/scan/types/scan.go
index 417bdf6..20ee8b3 100644
--- a/internal/oapi/scan/types/scan.go
+++ b/internal/oapi/scan/types/scan.go
@@ -24,11 +24,10 @@ func NewScanner(ptrs pointer.Pointers) *Scanner {
 // Resolve will return new pointer and scheme, new pointer might be returned in cases
 // where original pointer is not fully resolved.
 func (r *Scanner) Resolve(ptr pointer.Pointer) (*spec.Schema, error) {
-	tp, _ := r.points.findType(ptr)
-	// pp, ok := r.points.pick(tp)
-	// if !ok {
-	// 	return nil, errors.Errorf("failed to resolve %q", ptr.String())
-	// }
+	tp, ok := r.points.findType(ptr)
+	if !ok {
+		return nil, errors.Errorf("failed to resolve %q", ptr.String())
+	}
 	sch, err := type2schema(tp, r.points, path{}, tag.Tag{})
 	return sch, err
 }
-- 
2.43.0


From 4b2d50937c616812e1389177bc52a972c8658141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:01 +0000
Subject: [PATCH 08/44] fix: keep the format of a struct field which has no
 format tag

int32, int64, float, double, uuid etc. were overwritten with the empty format.
---
 internal/oapi/scan/types/types.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/oapi/scan/types/types.go b/internal/oapi/scan/types/types.go
index faf4a11..e323a46 100644
--- a/internal/oapi/scan/types/types.go
+++ b/internal/oapi/scan/types/types.go
@@ -224,7 +224,9 @@ func struct2schema(t *types.Struct, m pointmap, tp path) (s *spec.Schema, err er
 		pschema.Deprecated = x.tag.Deprecated
 		pschema.ReadOnly = x.tag.ReadOnly
 		pschema.WriteOnly = x.tag.WriteOnly
-		pschema.Format = x.tag.Format
+		if len(x.tag.Format) != 0 {
+			pschema.Format = x.tag.Format
+		}
 
 		if x.tag.Nullable != nil {
 			pschema.Nullable = *x.tag.Nullable
-- 
2.43.0


From bc81a92defbfc63512e655998c41c0b48c968274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:03 +0000
Subject: [PATCH 09/44] fix: honour required on struct typed fields

The field's schema is a reference, for which the loop went on before required
was looked at.
---
 internal/oapi/scan/types/types.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/internal/oapi/scan/types/types.go b/internal/oapi/scan/types/types.go
index e323a46..bde6d4b 100644
--- a/internal/oapi/scan/types/types.go
+++ b/internal/oapi/scan/types/types.go
@@ -217,6 +217,10 @@ func struct2schema(t *types.Struct, m pointmap, tp path) (s *spec.Schema, err er
 
 		s.Properties[name] = pschema
 
+		if x.tag.Required {
+			s.Required = append(s.Required, name)
+		}
+
 		if pschema.Ref != nil {
 			continue
 		}
@@ -231,10 +235,6 @@ func struct2schema(t *types.Struct, m pointmap, tp path) (s *spec.Schema, err er
 		if x.tag.Nullable != nil {
 			pschema.Nullable = *x.tag.Nullable
 		}
-
-		if x.tag.Required {
-			s.Required = append(s.Required, name)
-		}
 	}
 
 	return
-- 
2.43.0


From 0c27ca9d04288bf053490438f5b075e9f7b263f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:05 +0000
Subject: [PATCH 10/44] fix: store the mulof option as multipleOf

It was stored as exclusive minimum.
---
 tag/tag.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tag/tag.go b/tag/tag.go
index af4b782..1fa3b36 100644
--- a/tag/tag.go
+++ b/tag/tag.go
@@ -89,7 +89,7 @@ func parseOAPITag(tags *structtag.Tags, meta *Tag) (err error) {
 		parseTagFloatPtr(tag, "min", &meta.Min),
 		parseTagFloatPtr(tag, "emax", &meta.EMax),
 		parseTagFloatPtr(tag, "emin", &meta.EMin),
-		parseTagFloatPtr(tag, "mulof", &meta.EMin),
+		parseTagFloatPtr(tag, "mulof", &meta.MulOf),
 	}
 	for _, err := range errs {
 		if err != nil {
-- 
2.43.0


From 3b5b7a0013fd97c46df7715758821c6246aba139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:07 +0000
Subject: [PATCH 11/44] fix: report malformed boolean tag options

The error was dropped; also an option given only by the json tag was reset by
the oapi tag.
---
 tag/tag.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tag/tag.go b/tag/tag.go
index 1fa3b36..fcc868b 100644
--- a/tag/tag.go
+++ b/tag/tag.go
@@ -195,12 +195,15 @@ func parseTagString(m *tagparser.Tag, tag string, val *string) error {
 
 func parseTagBool(m *tagparser.Tag, tag string, val *bool) (err error) {
 	x, ok := m.Options[tag]
+	if !ok {
+		return nil
+	}
 	if x == "" {
 		*val = ok
 	} else {
 		*val, err = strconv.ParseBool(x)
 	}
-	return nil
+	return err
 }
 
 func parseTagBoolPtr(m *tagparser.Tag, tag string, val **bool) (err error) {
-- 
2.43.0


From 2fb43fa1d80b422f70ce878800587cd22989c796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:09 +0000
Subject: [PATCH 12/44] fix: match the last literal part of a route pattern
 literally

Only parts before a variable were quoted, so '.' matched anything and '(' failed
to compile.
---
 internal/route/route.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/route/route.go b/internal/route/route.go
index 7b12c59..fe28757 100644
--- a/internal/route/route.go
+++ b/internal/route/route.go
@@ -87,7 +87,7 @@ func Match(pattern, method, path string) (bool, error) {
 		}
 		last = j
 	}
-	pettern := strings.Join(append(parts, pattern[last:]), "")
+	pettern := strings.Join(append(parts, regexp.QuoteMeta(pattern[last:])), "")
 	reg, err := compileCached(pettern)
 	if err != nil {
 		return false, err
-- 
2.43.0


From c21234d8ff014815ef1e4fbdd21fca9167c5e3dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:11 +0000
Subject: [PATCH 13/44] fix: order of top level keys of the output is stable

Keys without a configured position came out in random order.
---
 internal/container/sort.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/internal/container/sort.go b/internal/container/sort.go
index e6eb170..dd85695 100644
--- a/internal/container/sort.go
+++ b/internal/container/sort.go
@@ -111,9 +111,14 @@ func (ms MapSlice) Values() (vx []interface{}) {
 
 // sort interface support
 
-func (ms MapSlice) Len() int           { return len(ms) }
-func (ms MapSlice) Less(i, j int) bool { return ms[i].Index < ms[j].Index }
-func (ms MapSlice) Swap(i, j int)      { ms[i], ms[j] = ms[j], ms[i] }
+func (ms MapSlice) Len() int { return len(ms) }
+func (ms MapSlice) Less(i, j int) bool {
+	if ms[i].Index != ms[j].Index {
+		return ms[i].Index < ms[j].Index
+	}
+	return ms[i].Key < ms[j].Key
+}
+func (ms MapSlice) Swap(i, j int) { ms[i], ms[j] = ms[j], ms[i] }
 
 // Sort will sort items by index and return copy
 func (ms MapSlice) Sort() MapSlice {
-- 
2.43.0


From fa76dab1db021ddf927a00b4873037a45e533a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:42 +0000
Subject: [PATCH 14/44] fix: content of an exported component does not depend
 on where it is referenced

A not exported type being resolved was cut to {} inside of the component, and
the last reference resolved won.
---
 internal/oapi/resolver/resolver.go | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/internal/oapi/resolver/resolver.go b/internal/oapi/resolver/resolver.go
index aa43203..d49fb0a 100644
--- a/internal/oapi/resolver/resolver.go
+++ b/internal/oapi/resolver/resolver.go
@@ -90,7 +90,16 @@ func (r resolver) iterator(cx container.Container, pp path, dept int) (container
 			return zero, err
 		}
 
-		nc, err = r.iterator(nc, append(pp, p), dept+1)
+		// value of component must not depend on place it is referenced from
+		next := pp
+		if _, ok := r.exp.Get(p); ok {
+			next = pp.filter(func(x pointer.Pointer) bool {
+				_, ok := r.exp.Get(x)
+				return ok
+			})
+		}
+
+		nc, err = r.iterator(nc, append(next, p), dept+1)
 		if err != nil {
 			return zero, err
 		}
@@ -131,6 +140,15 @@ func (r *resolver) setRecursive(cx container.Container, ptr pointer.Pointer, key
 
 type path []pointer.Pointer
 
+func (p path) filter(fn func(pointer.Pointer) bool) (px path) {
+	for _, x := range p {
+		if fn(x) {
+			px = append(px, x)
+		}
+	}
+	return px
+}
+
 func (p path) has(px pointer.Pointer) bool {
 	for i := len(p) - 1; i >= 0; i-- {
 		el := p[i]
-- 
2.43.0


From a59ed2345b4cd19ede101709eaa59ba74b989393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:44 +0000
Subject: [PATCH 15/44] fix: report two components of the same name

Two exported types of the same name, or one of the name of a component written
by hand, silently overwrote each other.
---
 internal/oapi/resolver/resolver.go | 8 ++++++++
 internal/oapi/scan/cmds/scan.go    | 6 +++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/internal/oapi/resolver/resolver.go b/internal/oapi/resolver/resolver.go
index d49fb0a..3af6432 100644
--- a/internal/oapi/resolver/resolver.go
+++ b/internal/oapi/resolver/resolver.go
@@ -4,6 +4,7 @@ import (
 	"github.com/buypal/oapi-go/internal/container"
 	"github.com/buypal/oapi-go/internal/oapi/spec"
 	"github.com/buypal/oapi-go/internal/pointer"
+	"github.com/pkg/errors"
 )
 
 var zero = container.Zero()
@@ -44,6 +45,7 @@ func Resolve(c container.Container, exp Exports, fn Fn) (container.Container, er
 		con: c.Clone(),
 		exp: exp,
 		res: fn,
+		def: make(map[string]pointer.Pointer),
 	}
 	return r.resolve()
 }
@@ -52,6 +54,7 @@ type resolver struct {
 	con container.Container
 	exp Exports
 	res Fn
+	def map[string]pointer.Pointer // components defined so far
 }
 
 func (r resolver) resolve() (container.Container, error) {
@@ -123,6 +126,11 @@ func (r *resolver) set(cx container.Container, ptr pointer.Pointer, key string,
 		Entity: ep.Entity,
 		Value:  value,
 	}
+	def, ok := r.def[e.Path()]
+	if !ok && r.con.ExistsP(e.Path()) || ok && def.String() != ptr.String() {
+		return errors.Errorf("component %q already defined", e.Path())
+	}
+	r.def[e.Path()] = ptr
 	err = SetEntity(r.con, key, e)
 	if err != nil {
 		return
diff --git a/internal/oapi/scan/cmds/scan.go b/internal/oapi/scan/cmds/scan.go
index c3b1b2c..e53c2de 100644
--- a/internal/oapi/scan/cmds/scan.go
+++ b/internal/oapi/scan/cmds/scan.go
@@ -56,7 +56,11 @@ func (r *Scanner) ExportedComponents() (exports resolver.Exports, err error) {
 	for _, cmd := range cc {
 		switch x := cmd.(type) {
 		case CmdSchema:
-			if _, ok := exports.Get(x.Ptr); ok {
+			_, ok := exports.Get(x.Ptr)
+			for _, e := range exports {
+				ok = ok || e.Name == x.Name
+			}
+			if ok {
 				err = errors.Errorf("schema of type %q already registered", x.Name)
 				return
 			}
-- 
2.43.0


From 996d9594fc27cb8bd22baf9f366e86020be79c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:45 +0000
Subject: [PATCH 16/44] fix: exported component may have a dot in its name

It was stored nested, and references to it pointed nowhere.
---
 internal/oapi/resolver/utils.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/internal/oapi/resolver/utils.go b/internal/oapi/resolver/utils.go
index 5e5f9a3..cbf6fc8 100644
--- a/internal/oapi/resolver/utils.go
+++ b/internal/oapi/resolver/utils.go
@@ -18,13 +18,12 @@ type Entity struct {
 
 // Path returns dot path.
 func (pe Entity) Path() string {
-	return fmt.Sprintf("%s.%s", pe.Entity.Path(), pe.Name)
+	return fmt.Sprintf("%s.%s", pe.Entity.Path(), container.SliceToDotPath([]string{pe.Name}))
 }
 
 // Fragment return fragment path
 func (pe Entity) Fragment() pointer.Fragment {
-	f, _ := pe.Entity.Fragment().Descendant(pe.Name)
-	return f
+	return pe.Entity.Fragment().RawDescendant(pe.Name)
 }
 
 // IsScheme reports if entitiy is scheme
-- 
2.43.0


From 7e49e7314daa6c1f3d37b70a6e34e04085dc863e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:47 +0000
Subject: [PATCH 17/44] fix: //openapi:schema go://pkg#/Object exports Object

The whole pointer was used as name of the component; and an unparsable pointer
was silently ignored.
---
 internal/oapi/scan/cmds/schema.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/internal/oapi/scan/cmds/schema.go b/internal/oapi/scan/cmds/schema.go
index 114083f..8f5934f 100644
--- a/internal/oapi/scan/cmds/schema.go
+++ b/internal/oapi/scan/cmds/schema.go
@@ -41,8 +41,14 @@ func NewCmdSchema(cmd CmdBase) (s Commander, err error) {
 		if invalid(nok, name) {
 			return nil, rerr
 		}
-		sx.Name = name
 		sx.Ptr, err = makePtr(name)
+		if err != nil {
+			return nil, err
+		}
+		sx.Name = name
+		if last, ok := sx.Ptr.Fragment.Last(); ok {
+			sx.Name = last
+		}
 		return sx, nil
 	case 2:
 		if invalid(nok, name) {
@@ -53,6 +59,9 @@ func NewCmdSchema(cmd CmdBase) (s Commander, err error) {
 		}
 		sx.Name = name
 		sx.Ptr, err = makePtr(ptr)
+		if err != nil {
+			return nil, err
+		}
 		return sx, nil
 	default:
 		return nil, errors.New("invalid number of arguments")
-- 
2.43.0


From 17cbf9abac40d62c0b8dfe0b829b63543c9951c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:49 +0000
Subject: [PATCH 18/44] fix: apply default operations in stable order

The result of overlapping patterns was random.
---
 internal/oapi/oapi.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/internal/oapi/oapi.go b/internal/oapi/oapi.go
index 90c967a..a17124b 100644
--- a/internal/oapi/oapi.go
+++ b/internal/oapi/oapi.go
@@ -1,6 +1,8 @@
 package oapi
 
 import (
+	"sort"
+
 	"github.com/buypal/oapi-go/internal/container"
 	"github.com/buypal/oapi-go/internal/oapi/spec"
 	"github.com/buypal/oapi-go/internal/route"
@@ -69,7 +71,15 @@ func SetPathsDefaults(cnt container.Container, defops map[string]spec.Operation)
 		return
 	}
 
-	for pattern, override := range defops {
+	// patterns may overlap, so the order matters
+	var patterns []string
+	for pattern := range defops {
+		patterns = append(patterns, pattern)
+	}
+	sort.Strings(patterns)
+
+	for _, pattern := range patterns {
+		override := defops[pattern]
 		var ff FlattenPaths
 		ff, err = paths.Match(pattern)
 		if err != nil {
-- 
2.43.0


From 9599634be4172b8370cf59551118d75c6525e2e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:51 +0000
Subject: [PATCH 19/44] fix: apply default operations only to operations

Parameters, servers, summary etc. of a path item were taken for methods, failing
the scan or getting defaults merged in.
---
 internal/oapi/oapi.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/internal/oapi/oapi.go b/internal/oapi/oapi.go
index a17124b..fe77d86 100644
--- a/internal/oapi/oapi.go
+++ b/internal/oapi/oapi.go
@@ -2,6 +2,7 @@ package oapi
 
 import (
 	"sort"
+	"strings"
 
 	"github.com/buypal/oapi-go/internal/container"
 	"github.com/buypal/oapi-go/internal/oapi/spec"
@@ -43,12 +44,18 @@ func Paths(cnt container.Container) (ff FlattenPaths, err error) {
 	}
 
 	for path, methods := range paths {
+		if strings.HasPrefix(path, "x-") {
+			continue
+		}
 		var mx map[string]container.Container
 		mx, err = methods.ChildrenMap()
 		if err != nil {
 			return
 		}
 		for m, obj := range mx {
+			if !isMethod(m) {
+				continue
+			}
 			ff = append(ff, FlattenPath{
 				Method:    m,
 				Path:      path,
@@ -62,6 +69,15 @@ func Paths(cnt container.Container) (ff FlattenPaths, err error) {
 	return
 }
 
+// isMethod reports if key of path item is an operation.
+func isMethod(key string) bool {
+	switch strings.ToLower(key) {
+	case "get", "put", "post", "delete", "options", "head", "patch", "trace":
+		return true
+	}
+	return false
+}
+
 // SetPathsDefaults will iterate through paths and
 // apply default on each path. This might be useful for
 // supplying default headers or default responses.
-- 
2.43.0


From c3507a83384985cbc3c816dc2feedef504a07a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:25 +0000
Subject: [PATCH 20/44] fix: go output of a document with backticks compiles

---
 temp.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/temp.go b/temp.go
index a38f436..077366b 100644
--- a/temp.go
+++ b/temp.go
@@ -2,6 +2,7 @@ package oapi
 
 import (
 	"bytes"
+	"strconv"
 	"text/template"
 )
 
@@ -11,7 +12,7 @@ package {{.PkgName}}
 
 // OpenAPIJsonSpec is json generated specification produced 
 // by oapi-go tool.
-const OpenAPIJsonSpec = ` + "`" + `{{.OpenAPIJson}}` + "`" + `
+const OpenAPIJsonSpec = {{.Literal}}
 `))
 
 type tpldata struct {
@@ -19,6 +20,14 @@ type tpldata struct {
 	OpenAPIJson string
 }
 
+// Literal returns specification as go string literal.
+func (t tpldata) Literal() string {
+	if strconv.CanBackquote(t.OpenAPIJson) {
+		return "`" + t.OpenAPIJson + "`"
+	}
+	return strconv.Quote(t.OpenAPIJson)
+}
+
 func produceGoFile(pkg tpldata) ([]byte, error) {
 	bx := bytes.NewBuffer([]byte{})
 	err := tpl.Execute(bx, pkg)
-- 
2.43.0


From 62bf45c793cd5495d2773297f017af32698f28fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:27 +0000
Subject: [PATCH 21/44] fix: do not panic on a field of type error

---
 internal/oapi/scan/types/types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/oapi/scan/types/types.go b/internal/oapi/scan/types/types.go
index bde6d4b..d1dd668 100644
--- a/internal/oapi/scan/types/types.go
+++ b/internal/oapi/scan/types/types.go
@@ -85,7 +85,7 @@ func walk(r point, t types.Type, p path, m *pointmap) (err error) {
 			return
 		}
 		named, ok := e.t.(*types.Named)
-		if ok {
+		if ok && named.Obj().Pkg() != nil {
 			np := newPoint(named.Obj())
 			err = walk(np, e.t, p, m)
 		}
-- 
2.43.0


From 5192fbeb460e03879dd22abc0971c143aeb3f04e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:28 +0000
Subject: [PATCH 22/44] fix: do not mistake a struct for another one with the
 same fields

Identical struct types share their points, of which a random one was referenced,
so an export or override of one type was applied to another.
---
 internal/oapi/scan/types/point.go |  5 ++++-
 internal/oapi/scan/types/types.go | 14 ++++++++++----
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/internal/oapi/scan/types/point.go b/internal/oapi/scan/types/point.go
index 74579ff..b5aa868 100644
--- a/internal/oapi/scan/types/point.go
+++ b/internal/oapi/scan/types/point.go
@@ -67,7 +67,10 @@ func (s points) Swap(i, j int) {
 
 // Less is part of sort.Interface. It is implemented by calling the "by" closure in the sorter.
 func (s points) Less(i, j int) bool {
-	return s[i].Fragment.Len() < s[j].Fragment.Len()
+	if s[i].Fragment.Len() != s[j].Fragment.Len() {
+		return s[i].Fragment.Len() < s[j].Fragment.Len()
+	}
+	return s[i].String() < s[j].String()
 }
 
 func (s points) filter(compare func(p1 point) bool) (pp points) {
diff --git a/internal/oapi/scan/types/types.go b/internal/oapi/scan/types/types.go
index d1dd668..1f3b25c 100644
--- a/internal/oapi/scan/types/types.go
+++ b/internal/oapi/scan/types/types.go
@@ -131,10 +131,11 @@ func (tp path) visit(t types.Type) (p path, visited bool) {
 
 // type2schema will conver type to spec.Scheme
 func type2schema(t types.Type, m pointmap, tp path, tg tag.Tag) (*spec.Schema, error) {
+	named := t
 	t = t.Underlying()
 
 	if tp.has(t) {
-		return reference2schema(t, m, tp, tg)
+		return reference2schema(named, m, tp, tg)
 	}
 	tp = append(tp, t)
 
@@ -145,7 +146,7 @@ func type2schema(t types.Type, m pointmap, tp path, tg tag.Tag) (*spec.Schema, e
 		if len(tp) == 1 {
 			return struct2schema(u, m, tp)
 		}
-		return reference2schema(u, m, tp, tg)
+		return reference2schema(named, m, tp, tg)
 
 	case *types.Array:
 		return array2schema(u, m, tp, tg)
@@ -196,7 +197,8 @@ func struct2schema(t *types.Struct, m pointmap, tp path) (s *spec.Schema, err er
 		if len(x.tag.Type) != 0 {
 			pschema, err = basicString2schema(x.tag.Type, x.tag)
 		} else {
-			switch z := x.field.Type().Underlying().(type) {
+			z := x.field.Type()
+			switch z.Underlying().(type) {
 			// struct
 			case *types.Struct:
 				pschema, err = reference2schema(z, m, tp, x.tag)
@@ -348,10 +350,14 @@ func AddRefOverride(p pointer.Pointer, s spec.Schema) {
 }
 
 func reference2schema(t types.Type, m pointmap, tp path, tg tag.Tag) (s *spec.Schema, err error) {
-	ptr, ok := m.pick(t)
+	ptr, ok := m.pick(t.Underlying())
 	if !ok {
 		return nil, errors.New("failed to resolve sturct")
 	}
+	// identical types share points, name tells which one it is
+	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
+		ptr = newPoint(n.Obj())
+	}
 	if sch, ok := refStdMapping[ptr.String()]; ok {
 		return &sch, nil
 	}
-- 
2.43.0


From 10bcd06d2686e73bf6e5bd642f378aa6b4bb2828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:31 +0000
Subject: [PATCH 23/44] fix: field of outer struct hides the embedded one of
 the same name

The later one won, and required listed the name twice.
---
 internal/oapi/scan/types/types.go | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/internal/oapi/scan/types/types.go b/internal/oapi/scan/types/types.go
index 1f3b25c..a58cb92 100644
--- a/internal/oapi/scan/types/types.go
+++ b/internal/oapi/scan/types/types.go
@@ -191,7 +191,19 @@ func struct2schema(t *types.Struct, m pointmap, tp path) (s *spec.Schema, err er
 		return
 	}
 
+	// field of outer struct hides the embedded ones of the same name
+	depths := make(map[string]int)
 	for _, x := range fields {
+		if d, ok := depths[x.name()]; !ok || x.depth < d {
+			depths[x.name()] = x.depth
+		}
+	}
+
+	for _, x := range fields {
+		if depths[x.name()] != x.depth {
+			continue
+		}
+
 		var pschema *spec.Schema
 
 		if len(x.tag.Type) != 0 {
@@ -212,10 +224,7 @@ func struct2schema(t *types.Struct, m pointmap, tp path) (s *spec.Schema, err er
 			return
 		}
 
-		name := x.field.Name()
-		if len(x.tag.Name) > 0 {
-			name = x.tag.Name
-		}
+		name := x.name()
 
 		s.Properties[name] = pschema
 
@@ -517,6 +526,14 @@ func castInlineStruct(t *types.Var, tg tag.Tag) (*types.Struct, bool) {
 type structField struct {
 	field *types.Var
 	tag   tag.Tag
+	depth int
+}
+
+func (f structField) name() string {
+	if len(f.tag.Name) > 0 {
+		return f.tag.Name
+	}
+	return f.field.Name()
 }
 
 func collectStructFields(t *types.Struct, p path) (arr []structField, err error) {
@@ -547,6 +564,7 @@ func collectStructFields(t *types.Struct, p path) (arr []structField, err error)
 			arr = append(arr, structField{
 				field: x,
 				tag:   tx,
+				depth: len(p),
 			})
 		}
 	}
-- 
2.43.0


From a13220303854fab0b87a72a884314e7aaa76e748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:33 +0000
Subject: [PATCH 24/44] fix: descendants of a fragment do not share memory

Two descendants of one fragment could overwrite each other; and Replace panicked
with n just out of range.
---
 internal/pointer/fragment.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/pointer/fragment.go b/internal/pointer/fragment.go
index 13d854d..9bbf4f2 100644
--- a/internal/pointer/fragment.go
+++ b/internal/pointer/fragment.go
@@ -65,7 +65,7 @@ func (p Fragment) Clone() Fragment {
 
 // Replace will replace element in fragment
 func (p Fragment) Replace(n int, element string) (Fragment, error) {
-	if n > len(p) || n < 0 {
+	if n >= len(p) || n < 0 {
 		return Fragment{}, errors.New("n out of range")
 	}
 	x := p.Clone()
@@ -97,7 +97,7 @@ func (p Fragment) Descendant(path string) (Fragment, error) {
 		return dpath, nil
 	}
 
-	return append(p, dpath...), nil
+	return p.RawDescendant(dpath...), nil
 }
 
 // RawDescendant extends the pointer with 1 or more path tokens
@@ -105,7 +105,7 @@ func (p Fragment) Descendant(path string) (Fragment, error) {
 // and assumes the user is directly managing the pointer
 // This allows for much faster pointer management
 func (p Fragment) RawDescendant(path ...string) Fragment {
-	return append(p, path...)
+	return append(p[:len(p):len(p)], path...)
 }
 
 func unescapeToken(tok string) string {
-- 
2.43.0


From 29c122dd26c6e41bf097e4d8d7404d228df450e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:35 +0000
Subject: [PATCH 25/44] fix: printed pointer with a percent sign can be parsed
 back

---
 internal/pointer/pointer.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/pointer/pointer.go b/internal/pointer/pointer.go
index fcf0656..08a3c86 100644
--- a/internal/pointer/pointer.go
+++ b/internal/pointer/pointer.go
@@ -14,6 +14,7 @@ import (
 	"fmt"
 	"net/url"
 	"strconv"
+	"strings"
 )
 
 const defaultPointerAllocationSize = 32
@@ -90,7 +91,8 @@ func (p *Pointer) MarshalJSON() ([]byte, error) {
 
 func (p Pointer) String() string {
 	p.URL.Fragment = ""
-	return fmt.Sprintf("%s#%s", p.URL.String(), p.Fragment.String())
+	f := strings.Replace(p.Fragment.String(), "%", "%25", -1)
+	return fmt.Sprintf("%s#%s", p.URL.String(), f)
 }
 
 func (p Pointer) PkgPath() string {
-- 
2.43.0


From beabc84b38a9fdd57acb48eff87587d432bcc8cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:37 +0000
Subject: [PATCH 26/44] fix: stdout and stderr are valid outputs

stderr was ignored, and --output stdout did not win over the config.
---
 cmd/oapi/config.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cmd/oapi/config.go b/cmd/oapi/config.go
index ef1e76e..81f3d49 100644
--- a/cmd/oapi/config.go
+++ b/cmd/oapi/config.go
@@ -98,6 +98,7 @@ func (ff Config) full() (cfg config.Config, err error) {
 	if len(cfg.Output) > 0 {
 		switch cfg.Output {
 		case "stderr", "stdout":
+			output = cfg.Output
 		default:
 			output = toAbsPath(cfg.Output, cfg.Dir)
 		}
@@ -105,6 +106,7 @@ func (ff Config) full() (cfg config.Config, err error) {
 	if len(ff.Output) > 0 {
 		switch ff.Output {
 		case "stderr", "stdout":
+			output = ff.Output
 		default:
 			output = toAbsPath(ff.Output, wd)
 		}
-- 
2.43.0


From 204e685dace7a2a7700dec1a5c37f869582f67b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:08 +0000
Subject: [PATCH 27/44] fix: resolve references of configured operations,
 components and overrides

Default operations were merged in after resolving, leaving their go:// references
in the document, and types referenced only by the config were never looked up.
---
 oapi.go | 60 +++++++++++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 50 insertions(+), 10 deletions(-)

diff --git a/oapi.go b/oapi.go
index 87934bc..80705e7 100644
--- a/oapi.go
+++ b/oapi.go
@@ -62,6 +62,40 @@ func (opts *Options) path() (dir string, err error) {
 	return
 }
 
+// pointers returns all references of given document and overrides.
+func (opts *Options) pointers(doc container.Container) (pp pointer.Pointers, err error) {
+	pp = make(pointer.Pointers)
+	cc := container.Containers{doc}
+	for _, o := range opts.override {
+		var c container.Container
+		c, err = container.Make(o)
+		if err != nil {
+			return
+		}
+		cc = append(cc, c)
+	}
+	for _, c := range cc {
+		var refs container.MapSlice
+		refs, err = container.ExtractKey(c, "$ref")
+		if err != nil {
+			return
+		}
+		for _, v := range refs {
+			s, ok := v.Val.(string)
+			if !ok {
+				continue
+			}
+			var p pointer.Pointer
+			p, err = pointer.Parse(s)
+			if err != nil {
+				return
+			}
+			pp[p.String()] = p
+		}
+	}
+	return
+}
+
 // Option for .Scan() method
 type Option func(*Options) error
 
@@ -163,9 +197,25 @@ func Scan(ctx context.Context, options ...Option) (s OAPI, err error) {
 		return
 	}
 
+	err = oapi.MergeWithRoot(opts.root, c)
+	if err != nil {
+		return
+	}
+
+	err = oapi.SetPathsDefaults(c, opts.defops)
+	if err != nil {
+		return
+	}
+
+	refs, err := opts.pointers(c)
+	if err != nil {
+		return
+	}
+
 	pp := make(pointer.Pointers)
 	pp = pp.Merge(cmdsScanner.Commands.Pointers())
 	pp = pp.Merge(specsScanner.Pointers)
+	pp = pp.Merge(refs)
 
 	// collect and handle types
 	tps := types.NewScanner(pp)
@@ -174,11 +224,6 @@ func Scan(ctx context.Context, options ...Option) (s OAPI, err error) {
 		return
 	}
 
-	err = oapi.MergeWithRoot(opts.root, c)
-	if err != nil {
-		return
-	}
-
 	cnt, err := resolver.Resolve(c, exports, func(ptr pointer.Pointer) (e spec.Entiter, err error) {
 		if ovrd, ok := opts.override[ptr.String()]; ok {
 			return ovrd, nil
@@ -195,11 +240,6 @@ func Scan(ctx context.Context, options ...Option) (s OAPI, err error) {
 		return
 	}
 
-	err = oapi.SetPathsDefaults(cnt, opts.defops)
-	if err != nil {
-		return
-	}
-
 	return newOAPI(cnt)
 }
 
-- 
2.43.0


From 2928d38bacc8e3b80cc2b50a6ab1636e076cc9ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:19 +0000
Subject: [PATCH 28/44] fix: top level key with control characters is written
 as json

---
 internal/container/sort.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/internal/container/sort.go b/internal/container/sort.go
index dd85695..86198ff 100644
--- a/internal/container/sort.go
+++ b/internal/container/sort.go
@@ -3,7 +3,6 @@ package container
 import (
 	"bytes"
 	"encoding/json"
-	"fmt"
 	"sort"
 
 	"gopkg.in/yaml.v2"
@@ -133,11 +132,16 @@ func (ms MapSlice) MarshalJSON() ([]byte, error) {
 	buf := &bytes.Buffer{}
 	buf.Write([]byte{'{'})
 	for i, mi := range ms.Sort() {
+		k, err := json.Marshal(mi.Key)
+		if err != nil {
+			return nil, err
+		}
 		b, err := json.Marshal(&mi.Val)
 		if err != nil {
 			return nil, err
 		}
-		buf.WriteString(fmt.Sprintf("%q:", fmt.Sprintf("%v", mi.Key)))
+		buf.Write(k)
+		buf.WriteByte(':')
 		buf.Write(b)
 		if i < len(ms)-1 {
 			buf.Write([]byte{','})
-- 
2.43.0


From a6d0642f244c1ae421fcc34d3bed29633a26c266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:00 +0000
Subject: [PATCH 29/44] fix: specifications of several packages can be merged

---
 internal/container/merge.go | 14 +++++++++++++-
 oapi.go                     |  2 +-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/internal/container/merge.go b/internal/container/merge.go
index 5de0eb1..615f49f 100644
--- a/internal/container/merge.go
+++ b/internal/container/merge.go
@@ -1,6 +1,10 @@
 package container
 
-import "github.com/pkg/errors"
+import (
+	"reflect"
+
+	"github.com/pkg/errors"
+)
 
 // Merger is function signature allowing merging
 type Merger func(destination, source interface{}) (interface{}, error)
@@ -10,6 +14,14 @@ func MergeStrict(dest, source interface{}) (interface{}, error) {
 	return nil, errors.Errorf("%v collied with %v", dest, source)
 }
 
+// MergeSame is MergeStrict which lets both sides state the same value
+func MergeSame(dest, source interface{}) (interface{}, error) {
+	if reflect.DeepEqual(dest, source) {
+		return dest, nil
+	}
+	return MergeStrict(dest, source)
+}
+
 // MergeDefault will merge default
 func MergeDefault(dest, source interface{}) (interface{}, error) {
 	return dest, nil
diff --git a/oapi.go b/oapi.go
index 80705e7..e4ae838 100644
--- a/oapi.go
+++ b/oapi.go
@@ -192,7 +192,7 @@ func Scan(ctx context.Context, options ...Option) (s OAPI, err error) {
 		return
 	}
 
-	c, err := specsScanner.Merge()
+	c, err := specsScanner.Containers.Sort().Merge(container.MergeSame)
 	if err != nil {
 		return
 	}
-- 
2.43.0


From 22c5543d233a6880f146dc6e9f0b4a33a226e5b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:10 +0000
Subject: [PATCH 30/44] fix: do not add empty fields to what root document and
 default operations state

---
 internal/oapi/oapi.go | 39 +++++++++++++++++++++++++++++++++++++--
 1 file changed, 37 insertions(+), 2 deletions(-)

diff --git a/internal/oapi/oapi.go b/internal/oapi/oapi.go
index fe77d86..93db399 100644
--- a/internal/oapi/oapi.go
+++ b/internal/oapi/oapi.go
@@ -105,7 +105,7 @@ func SetPathsDefaults(cnt container.Container, defops map[string]spec.Operation)
 			var nc, ov container.Container
 			nc = f.Operation
 
-			ov, err = container.Make(override)
+			ov, err = stated(override)
 			if err != nil {
 				return
 			}
@@ -127,7 +127,7 @@ func SetPathsDefaults(cnt container.Container, defops map[string]spec.Operation)
 
 // MergeWithRoot will merge container with root document.
 func MergeWithRoot(root spec.OpenAPI, c container.Container) (err error) {
-	r, err := container.Make(root)
+	r, err := stated(root)
 	if err != nil {
 		return
 	}
@@ -178,3 +178,38 @@ func MergeWithRoot(root spec.OpenAPI, c container.Container) (err error) {
 	}
 	return nil
 }
+
+// stated makes container of given part of specification without the fields
+// which are written although they were not given.
+func stated(v interface{}) (container.Container, error) {
+	c, err := container.Make(v)
+	if err != nil {
+		return c, err
+	}
+	return container.Make(prune(c.Data()))
+}
+
+func prune(v interface{}) interface{} {
+	switch x := v.(type) {
+	case []interface{}:
+		for i := range x {
+			x[i] = prune(x[i])
+		}
+	case map[string]interface{}:
+		for k, e := range x {
+			switch k {
+			case "title", "version", "name", "in", "description", "contentType", "type", "content", "value":
+				if e == nil || e == "" {
+					delete(x, k)
+					continue
+				}
+			}
+			switch k {
+			case "example", "value", "default", "enum": // free form
+			default:
+				x[k] = prune(e)
+			}
+		}
+	}
+	return v
+}
-- 
2.43.0


From d9cbb29997e37dc32d2c1030fda5647cfb256454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:02 +0000
Subject: [PATCH 31/44] fix: pointer with control characters is written as json

---
 internal/pointer/pointer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/pointer/pointer.go b/internal/pointer/pointer.go
index 08a3c86..7ca5dc2 100644
--- a/internal/pointer/pointer.go
+++ b/internal/pointer/pointer.go
@@ -11,6 +11,7 @@
 package pointer
 
 import (
+	"encoding/json"
 	"fmt"
 	"net/url"
 	"strconv"
@@ -85,8 +86,7 @@ func (p *Pointer) UnmarshalJSON(data []byte) error {
 }
 
 func (p *Pointer) MarshalJSON() ([]byte, error) {
-	x := fmt.Sprintf("%q", p.String())
-	return []byte(x), nil
+	return json.Marshal(p.String())
 }
 
 func (p Pointer) String() string {
-- 
2.43.0


From 0d022b39bfcb4b541a215b1638e407f0f9864988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:02 +0000
Subject: [PATCH 32/44] fix: only // comments are commands

---
 internal/oapi/scan/cmds/cmds.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/oapi/scan/cmds/cmds.go b/internal/oapi/scan/cmds/cmds.go
index d1aa69a..a28600c 100644
--- a/internal/oapi/scan/cmds/cmds.go
+++ b/internal/oapi/scan/cmds/cmds.go
@@ -10,7 +10,7 @@ import (
 	"golang.org/x/tools/go/packages"
 )
 
-const prefix = "openapi"
+const prefix = "//openapi"
 
 // CmdKind is command kind
 type CmdKind string
@@ -34,7 +34,7 @@ type Commander interface {
 func ParseCommentGroup(gg *ast.CommentGroup) []string {
 	cc := []string{}
 	for _, cmt := range gg.List {
-		c := cmt.Text[2:]
+		c := cmt.Text
 		hasPrefix := strings.HasPrefix(c, prefix)
 		if !hasPrefix {
 			continue
-- 
2.43.0


From 0bb3ef4c8aab5b253841e549cc58f643c92570e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:02 +0000
Subject: [PATCH 33/44] fix: list a required field hidden at the same depth
 once

---
 internal/oapi/scan/types/types.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/internal/oapi/scan/types/types.go b/internal/oapi/scan/types/types.go
index a58cb92..e884abe 100644
--- a/internal/oapi/scan/types/types.go
+++ b/internal/oapi/scan/types/types.go
@@ -192,15 +192,15 @@ func struct2schema(t *types.Struct, m pointmap, tp path) (s *spec.Schema, err er
 	}
 
 	// field of outer struct hides the embedded ones of the same name
-	depths := make(map[string]int)
-	for _, x := range fields {
-		if d, ok := depths[x.name()]; !ok || x.depth < d {
-			depths[x.name()] = x.depth
+	byName := make(map[string]int)
+	for i, x := range fields {
+		if j, ok := byName[x.name()]; !ok || x.depth <= fields[j].depth {
+			byName[x.name()] = i
 		}
 	}
 
-	for _, x := range fields {
-		if depths[x.name()] != x.depth {
+	for i, x := range fields {
+		if byName[x.name()] != i {
 			continue
 		}
 
-- 
2.43.0


From c7513efc9e70cf16e1561441716454e7e5e8fc21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:16 +0000
Subject: [PATCH 34/44] fix: options of fields of type number and object

---
 internal/oapi/scan/types/types.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/internal/oapi/scan/types/types.go b/internal/oapi/scan/types/types.go
index e884abe..2722278 100644
--- a/internal/oapi/scan/types/types.go
+++ b/internal/oapi/scan/types/types.go
@@ -496,10 +496,13 @@ func basicString2schema(t string, tg tag.Tag) (s *spec.Schema, err error) {
 		s.Format = "password"
 		return s, err
 	case "number":
-		s = &spec.Schema{Type: spec.TypeNumber}
-		return s, nil
+		s, err = basic2schema(types.Float64, tg)
+		s.Format = ""
+		return s, err
 	case "object":
 		s = &spec.Schema{Type: spec.TypeObject}
+		s.MinProperties = tg.MinProps
+		s.MaxProperties = tg.MaxProps
 		return s, nil
 	default:
 		return nil, errors.Errorf("invalid type %q", t)
-- 
2.43.0


From 6a9f2a76d46f513870ff0021dca141c3e0844caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:45 +0000
Subject: [PATCH 35/44] fix: add no empty fields of default responses and other
 named parts to documents

---
 internal/oapi/oapi.go | 53 ++++++++++++++++++++++++++++++-------------
 1 file changed, 37 insertions(+), 16 deletions(-)

diff --git a/internal/oapi/oapi.go b/internal/oapi/oapi.go
index 93db399..b487bc4 100644
--- a/internal/oapi/oapi.go
+++ b/internal/oapi/oapi.go
@@ -1,6 +1,7 @@
 package oapi
 
 import (
+	"reflect"
 	"sort"
 	"strings"
 
@@ -186,30 +187,50 @@ func stated(v interface{}) (container.Container, error) {
 	if err != nil {
 		return c, err
 	}
-	return container.Make(prune(c.Data()))
+	prune(reflect.ValueOf(v), c.Data())
+	return c, nil
 }
 
-func prune(v interface{}) interface{} {
-	switch x := v.(type) {
+// prune removes fields of the document doc, made of v, which v lacks.
+func prune(v reflect.Value, doc interface{}) {
+	for v.Kind() == reflect.Ptr {
+		v = v.Elem()
+	}
+	if !v.IsValid() {
+		return
+	}
+	switch x := v.Interface().(type) {
+	case spec.Any, spec.AnyOrExpressions: // free form
+		return
+	case spec.Callback:
+		v = reflect.ValueOf(x.Callback)
+	}
+	switch d := doc.(type) {
 	case []interface{}:
-		for i := range x {
-			x[i] = prune(x[i])
+		if v.Kind() != reflect.Slice {
+			return
+		}
+		for i := range d {
+			prune(v.Index(i), d[i])
 		}
 	case map[string]interface{}:
-		for k, e := range x {
-			switch k {
-			case "title", "version", "name", "in", "description", "contentType", "type", "content", "value":
-				if e == nil || e == "" {
-					delete(x, k)
+		switch v.Kind() {
+		case reflect.Map:
+			for _, k := range v.MapKeys() {
+				prune(v.MapIndex(k), d[k.String()])
+			}
+		case reflect.Struct:
+			for i := 0; i < v.NumField(); i++ {
+				name := strings.Split(v.Type().Field(i).Tag.Get("json"), ",")[0]
+				if name == "" {
 					continue
 				}
-			}
-			switch k {
-			case "example", "value", "default", "enum": // free form
-			default:
-				x[k] = prune(e)
+				if v.Field(i).IsZero() && name != "explode" {
+					delete(d, name)
+					continue
+				}
+				prune(v.Field(i), d[name])
 			}
 		}
 	}
-	return v
 }
-- 
2.43.0


From 1529e7d8ba279ba1bfb3c36179b6b07b9545ce06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:07 +0000
Subject: [PATCH 36/44] fix: keep large integers exact

---
 internal/container/container.go |  4 +--
 internal/container/utils.go     | 48 +++++++++++++++++++++++++++++++--
 2 files changed, 48 insertions(+), 4 deletions(-)

diff --git a/internal/container/container.go b/internal/container/container.go
index 7d95d41..1b058c5 100644
--- a/internal/container/container.go
+++ b/internal/container/container.go
@@ -46,12 +46,12 @@ func Make(v interface{}) (Container, error) {
 // ReadJSON will read data and return new container.
 func ReadJSON(data []byte) (c Container, err error) {
 	var i map[string]interface{}
-	err = json.Unmarshal(data, &i)
+	err = decode(data, &i)
 	if err != nil {
 		err = errors.Wrapf(err, "failed to unmarshal json")
 		return
 	}
-	c = wrap(i)
+	c = wrap(exact(i))
 	return
 }
 
diff --git a/internal/container/utils.go b/internal/container/utils.go
index 31e827e..9e44a53 100644
--- a/internal/container/utils.go
+++ b/internal/container/utils.go
@@ -1,8 +1,11 @@
 package container
 
 import (
+	"bytes"
 	"encoding/json"
 	"fmt"
+	"io"
+	"math"
 	"sort"
 	"strconv"
 	"strings"
@@ -77,8 +80,49 @@ func clone(c interface{}) (interface{}, error) {
 		return nil, errors.Wrapf(err, "failed to clone interface{}")
 	}
 	var mm interface{}
-	json.Unmarshal(bb, &mm) // no need for error check
-	return mm, nil
+	decode(bb, &mm) // no need for error check
+	return exact(mm), nil
+}
+
+// decode is json.Unmarshal which keeps numbers as they are written.
+func decode(data []byte, v interface{}) error {
+	dec := json.NewDecoder(bytes.NewReader(data))
+	dec.UseNumber()
+	if err := dec.Decode(v); err != nil {
+		return err
+	}
+	if _, err := dec.Token(); err != io.EOF {
+		return errors.New("unexpected data after value")
+	}
+	return nil
+}
+
+// exact converts numbers of decoded value to float64, or to integers where
+// float64 is not able to hold them.
+func exact(v interface{}) interface{} {
+	switch x := v.(type) {
+	case json.Number:
+		f, _ := x.Float64()
+		if math.Abs(f) < 1<<53 {
+			return f
+		}
+		if i, err := strconv.ParseInt(x.String(), 10, 64); err == nil {
+			return i
+		}
+		if u, err := strconv.ParseUint(x.String(), 10, 64); err == nil {
+			return u
+		}
+		return f
+	case []interface{}:
+		for i, e := range x {
+			x[i] = exact(e)
+		}
+	case map[string]interface{}:
+		for k, e := range x {
+			x[k] = exact(e)
+		}
+	}
+	return v
 }
 
 // cast will cast interface to container
-- 
2.43.0


From 23eba5c29925c92f701b5247cb20907ac41c23bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:42 +0000
Subject: [PATCH 37/44] fix: find spec files in directories whose names have
 glob characters

---
 internal/container/container.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/internal/container/container.go b/internal/container/container.go
index 1b058c5..712d05f 100644
--- a/internal/container/container.go
+++ b/internal/container/container.go
@@ -227,7 +227,7 @@ type Containers []Container
 var defaultSearchPatterns = []string{"*.yaml", "*.yml", "*.json"}
 
 // ReadDir will read director and parse yaml/json files.
-// It is using glob to search for file in given directory.
+// It is matching names of files in given directory with glob patterns.
 // by defaut it will search for yaml,yml,json extension.
 // But you are free to supply your own if you have different extension.
 func ReadDir(dir string, patterns ...string) (cc Containers, err error) {
@@ -236,12 +236,17 @@ func ReadDir(dir string, patterns ...string) (cc Containers, err error) {
 		patterns = defaultSearchPatterns
 	}
 
+	infos, _ := ioutil.ReadDir(dir) // as glob does, ignore unreadable directories
 	for _, s := range patterns {
-		xs, err := filepath.Glob(filepath.Join(dir, s))
-		if err != nil {
-			return nil, err
+		for _, info := range infos {
+			ok, err := filepath.Match(s, info.Name())
+			if err != nil {
+				return nil, err
+			}
+			if ok {
+				ff = append(ff, filepath.Join(dir, info.Name()))
+			}
 		}
-		ff = append(ff, xs...)
 	}
 
 	if len(ff) == 0 {
-- 
2.43.0


From f4e1a52c1f12b2cde9e77ffe12d92552e84e7c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:09 +0000
Subject: [PATCH 38/44] fix: take any name for a variable of a route pattern

Variables with names of one letter, or with other characters than letters
and digits ({a}, {pet_id}), were matched literally.
---
 internal/route/route.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/route/route.go b/internal/route/route.go
index fe28757..a4e3937 100644
--- a/internal/route/route.go
+++ b/internal/route/route.go
@@ -8,7 +8,7 @@ import (
 
 var (
 	regexen   = make(map[string]*regexp.Regexp)
-	variables = regexp.MustCompile(`(\{[a-z][a-zA-Z0-9]+?\}|\*)`)
+	variables = regexp.MustCompile(`(\{[^{}/*]+\}|\*)`)
 
 	methods = []string{
 		"ACL",
-- 
2.43.0


From 053a6e18b6219a06056084047f0a1b1037032290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:09 +0000
Subject: [PATCH 39/44] fix: let * of a route pattern match line breaks, too

---
 internal/route/route.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/route/route.go b/internal/route/route.go
index a4e3937..d101658 100644
--- a/internal/route/route.go
+++ b/internal/route/route.go
@@ -102,7 +102,7 @@ func compileCached(pattern string) (*regexp.Regexp, error) {
 	regex := regexen[pattern]
 	if regex == nil {
 		var err error
-		regex, err = regexp.Compile("^" + pattern + "$")
+		regex, err = regexp.Compile("(?s)^" + pattern + "$")
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From e03a95c12857cf58d5dbdc6787f9ea5c9c9f0ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:26 +0000
Subject: [PATCH 40/44] fix: replace the output file in one step

A failed write (disk full, file size limit) left part of a document, the
former output was gone, and a run that was killed could leave none.
---
 cmd/oapi/main.go | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/cmd/oapi/main.go b/cmd/oapi/main.go
index 7b67e54..130eb6e 100644
--- a/cmd/oapi/main.go
+++ b/cmd/oapi/main.go
@@ -3,6 +3,7 @@ package main
 import (
 	"bytes"
 	"context"
+	"fmt"
 	"io"
 	"os"
 	"os/signal"
@@ -67,14 +68,11 @@ func main() {
 	case "stderr":
 		w = os.Stderr
 	default:
-		err = os.Remove(config.Output)
-		if err != nil && !os.IsNotExist(err) {
-			logging.Fatal(log, err.Error())
-		}
-		w, err = os.OpenFile(config.Output, os.O_RDWR|os.O_CREATE, 0755)
+		err = writeFile(config.Output, data)
 		if err != nil {
 			logging.Fatal(log, err.Error())
 		}
+		return
 	}
 
 	_, err = io.Copy(w, bytes.NewBuffer(data))
@@ -82,3 +80,23 @@ func main() {
 		logging.Fatal(log, err.Error())
 	}
 }
+
+// writeFile replaces file in one step, it has all of data or is left as it was.
+func writeFile(file string, data []byte) (err error) {
+	tmp := fmt.Sprintf("%s.%d.tmp", file, os.Getpid())
+	f, err := os.OpenFile(tmp, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0755)
+	if err != nil {
+		return
+	}
+	_, err = f.Write(data)
+	if cerr := f.Close(); err == nil {
+		err = cerr
+	}
+	if err == nil {
+		err = os.Rename(tmp, file)
+	}
+	if err != nil {
+		os.Remove(tmp)
+	}
+	return
+}
-- 
2.43.0


From e207bd4ca98c634189bbdf525d27a537158681e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:47 +0000
Subject: [PATCH 41/44] fix: include fields of embedded structs whose type is
 not exported

---
 internal/oapi/scan/types/types.go | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/internal/oapi/scan/types/types.go b/internal/oapi/scan/types/types.go
index 2722278..1c5ffa0 100644
--- a/internal/oapi/scan/types/types.go
+++ b/internal/oapi/scan/types/types.go
@@ -57,6 +57,13 @@ func walk(r point, t types.Type, p path, m *pointmap) (err error) {
 			field := u.Field(i)
 
 			if !field.Exported() {
+				// fields of embedded struct are promoted even so
+				if named, ok := embeddedStruct(field); ok {
+					err = walk(newPoint(named.Obj()), named, p, m)
+				}
+				if err != nil {
+					return
+				}
 				continue
 			}
 
@@ -97,6 +104,20 @@ func walk(r point, t types.Type, p path, m *pointmap) (err error) {
 	return
 }
 
+// embeddedStruct returns type of embedded struct, which may be embedded as pointer.
+func embeddedStruct(field *types.Var) (*types.Named, bool) {
+	t := field.Type()
+	if p, ok := t.(*types.Pointer); ok {
+		t = p.Elem()
+	}
+	_, ok := t.Underlying().(*types.Struct)
+	if !ok || !field.Embedded() {
+		return nil, false
+	}
+	named, ok := t.(*types.Named)
+	return named, ok
+}
+
 // path represents list of types going in direction.
 // this is very much handy for cycle detection
 type path []types.Type
@@ -552,10 +573,13 @@ func collectStructFields(t *types.Struct, p path) (arr []structField, err error)
 		if err != nil {
 			return
 		}
-		if tx.Ignore || !x.Exported() {
+		if tx.Ignore {
 			continue
 		}
 		st, ok := castInlineStruct(x, tx)
+		if !x.Exported() && !(ok && x.Embedded()) {
+			continue
+		}
 		if ok {
 			var z []structField
 			z, err = collectStructFields(st, p)
-- 
2.43.0


From 7c71c57d11b90643b5f6a749d96751d2d624a54f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:03 +0000
Subject: [PATCH 42/44] fix: do not take a struct without name for the named
 one identical to it

---
 internal/oapi/scan/types/point.go | 5 +++++
 internal/oapi/scan/types/types.go | 2 ++
 2 files changed, 7 insertions(+)

diff --git a/internal/oapi/scan/types/point.go b/internal/oapi/scan/types/point.go
index b5aa868..f256c7b 100644
--- a/internal/oapi/scan/types/point.go
+++ b/internal/oapi/scan/types/point.go
@@ -53,6 +53,11 @@ func (p point) equal(p2 point) bool {
 	return p.Pointer.String() == p2.Pointer.String()
 }
 
+// inner reports if point is within type, and not type of that name itself.
+func (p point) inner() bool {
+	return p.Fragment.Len() > 1
+}
+
 type points []point
 
 // Len is part of sort.Interface.
diff --git a/internal/oapi/scan/types/types.go b/internal/oapi/scan/types/types.go
index 1c5ffa0..4f50599 100644
--- a/internal/oapi/scan/types/types.go
+++ b/internal/oapi/scan/types/types.go
@@ -387,6 +387,8 @@ func reference2schema(t types.Type, m pointmap, tp path, tg tag.Tag) (s *spec.Sc
 	// identical types share points, name tells which one it is
 	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
 		ptr = newPoint(n.Obj())
+	} else if pp := m.at(t).filter(point.inner); len(pp) > 0 {
+		ptr = pp[0]
 	}
 	if sch, ok := refStdMapping[ptr.String()]; ok {
 		return &sch, nil
-- 
2.43.0


From 0c7affadf43b10e55adb17764deffbe6096c28c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:15 +0000
Subject: [PATCH 43/44] fix: [] addresses elements of slices, arrays and maps
 only, not of channels

---
 internal/oapi/scan/types/types.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/oapi/scan/types/types.go b/internal/oapi/scan/types/types.go
index 4f50599..864419e 100644
--- a/internal/oapi/scan/types/types.go
+++ b/internal/oapi/scan/types/types.go
@@ -79,6 +79,9 @@ func walk(r point, t types.Type, p path, m *pointmap) (err error) {
 			t: u.Elem(),
 		})
 
+	// [] stands for elements of slice, array or map only
+	case *types.Chan:
+
 	case elementer:
 		next = append(next, tptr{
 			p: withArray(r),
-- 
2.43.0


From 55443f5397510e6ada313f62024f62cd33f8b558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:42:50 +0000
Subject: [PATCH 44/44] fix: walk every type once under its own name, not again
 at each place it is met

Walking took time exponential in the depth to which named types nest:
a chain of thirty types was not finished in minutes.
---
 internal/oapi/scan/types/types.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/internal/oapi/scan/types/types.go b/internal/oapi/scan/types/types.go
index 864419e..9e54d0e 100644
--- a/internal/oapi/scan/types/types.go
+++ b/internal/oapi/scan/types/types.go
@@ -11,9 +11,14 @@ import (
 	"github.com/pkg/errors"
 )
 
-// collect types will wrap walk providing inital arguments
+// collect types will wrap walk providing inital arguments,
+// each type is walked once under its own name
 func collectTypes(t types.Object, m *pointmap) error {
-	return walk(newPoint(t), t.Type(), path{}, m)
+	r := newPoint(t)
+	if m.at(t.Type().Underlying()).has(r) {
+		return nil
+	}
+	return walk(r, t.Type(), path{}, m)
 }
 
 // elementer represents types such as slice, array, map or pointer
@@ -59,7 +64,7 @@ func walk(r point, t types.Type, p path, m *pointmap) (err error) {
 			if !field.Exported() {
 				// fields of embedded struct are promoted even so
 				if named, ok := embeddedStruct(field); ok {
-					err = walk(newPoint(named.Obj()), named, p, m)
+					err = collectTypes(named.Obj(), m)
 				}
 				if err != nil {
 					return
@@ -96,8 +101,7 @@ func walk(r point, t types.Type, p path, m *pointmap) (err error) {
 		}
 		named, ok := e.t.(*types.Named)
 		if ok && named.Obj().Pkg() != nil {
-			np := newPoint(named.Obj())
-			err = walk(np, e.t, p, m)
+			err = collectTypes(named.Obj(), m)
 		}
 		if err != nil {
 			return
-- 
2.43.0

