From 250d1e989aca41214dc7b936f12e581cf02973f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:00 +0000
Subject: [PATCH 01/56] fix: DecimalValue ignores int defaults, so the natural
 integer ranges were never enforced

---
 decimal.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/decimal.go b/decimal.go
index 00c00dd..91943aa 100644
--- a/decimal.go
+++ b/decimal.go
@@ -72,6 +72,9 @@ func DecimalValue(val *Decimal, defval interface{}) *Decimal {
 		switch n := defval.(type) {
 		case *Decimal:
 			return n
+		case int:
+			d, _ := ParseDecimal(fmt.Sprint(n))
+			return d
 		case int64:
 			d, _ := ParseDecimal(fmt.Sprint(n))
 			return d
-- 
2.43.0


From f068635b4dd57e526aa44d9677c4571d05bba4ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:01 +0000
Subject: [PATCH 02/56] fix: validating a value against a Union type recursed
 forever

---
 model.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/model.go b/model.go
index 01bb72a..4202cca 100644
--- a/model.go
+++ b/model.go
@@ -192,6 +192,8 @@ func (model *Model) ValidateAgainstTypeSpec(context string, td *TypeSpec, value
 		return model.ValidateUnitValue(context, td, value)
 	case "UUID":
 		return model.ValidateUUID(context, td, value)
+	case "Union":
+		return model.ValidateUnion(context, td, value)
 	case "Bytes":
 		//fixme
 		return nil
@@ -415,6 +417,21 @@ func (model *Model) ValidateMap(context string, td *TypeSpec, value interface{})
 	}
 }
 
+// a Union is an object with exactly one key, which names the variant
+func (model *Model) ValidateUnion(context string, td *TypeSpec, value interface{}) error {
+	switch m := value.(type) {
+	case map[string]interface{}:
+		if len(m) == 1 {
+			for _, variant := range td.Variants {
+				if v, ok := m[variant.Name]; ok {
+					return model.ValidateAgainstTypeSpec(context+"."+variant.Name, &variant.TypeSpec, v)
+				}
+			}
+		}
+	}
+	return fmt.Errorf("%s: Not a valid Union: %v", context, Pretty(value))
+}
+
 func (model *Model) ValidateString(context string, td *TypeSpec, val interface{}) error {
 	var s string
 	if sp, ok := val.(*string); ok {
-- 
2.43.0


From e4339bb74e721d698832ebcc6a0025a22ee0e038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:02 +0000
Subject: [PATCH 03/56] fix: plain string UnitValue and Timestamp values, and
 UnitValue numbers of fewer than three digits, were rejected

---
 model.go | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/model.go b/model.go
index 4202cca..869ca88 100644
--- a/model.go
+++ b/model.go
@@ -237,22 +237,25 @@ func (model *Model) ValidateUUID(context string, td *TypeSpec, value interface{}
 }
 
 func (model *Model) ValidateUnitValue(context string, td *TypeSpec, value interface{}) error {
+	var s string
 	switch sp := value.(type) {
 	case *string:
-		s := *sp
-		n := strings.Index(s, " ")
-		if n >= 3 {
-			val := s[:n]
-			unit := s[n+1:]
-			nval, err := ParseDecimal(val)
+		s = *sp
+	case string:
+		s = sp
+	}
+	n := strings.Index(s, " ")
+	if n > 0 {
+		val := s[:n]
+		unit := s[n+1:]
+		nval, err := ParseDecimal(val)
+		if err == nil {
+			err = model.Validate(context+".value", td.Value, nval)
 			if err == nil {
-				err = model.Validate(context+".value", td.Value, nval)
-				if err == nil {
-					err = model.Validate(context+".unit", td.Unit, unit)
-				}
+				err = model.Validate(context+".unit", td.Unit, unit)
 			}
-			return err
 		}
+		return err
 	}
 	return fmt.Errorf("%s: Not a valid UnitValue: %v", context, Pretty(value))
 }
@@ -482,6 +485,12 @@ func (model *Model) ValidateTimestamp(tname string, td *TypeSpec, val interface{
 			return nil
 		}
 	}
+	if s, ok := val.(string); ok {
+		_, err := ParseTimestamp(s)
+		if err == nil {
+			return nil
+		}
+	}
 	return model.fail(td, val, "format invalid")
 }
 
-- 
2.43.0


From 5f8cd833a26e6414d99f8e06eeecd38ac5fa3a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:03 +0000
Subject: [PATCH 04/56] fix: EquivalentTypes compared constraint pointers
 instead of values, ignored struct fields and depended on argument order

---
 model.go | 52 ++++++++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 48 insertions(+), 4 deletions(-)

diff --git a/model.go b/model.go
index 869ca88..b5a4a69 100644
--- a/model.go
+++ b/model.go
@@ -64,9 +64,26 @@ func (model *Model) EquivalentTypesByName(tname1, tname2 string) bool {
 	}
 	td1 := model.FindType(tname1)
 	td2 := model.FindType(tname2)
+	if td1 == nil || td2 == nil {
+		return false
+	}
 	return model.EquivalentTypes(&td1.TypeSpec, &td2.TypeSpec)
 }
 
+func sameSize(n1, n2 *int64) bool {
+	if n1 == nil || n2 == nil {
+		return n1 == n2
+	}
+	return *n1 == *n2
+}
+
+func sameDecimal(d1, d2 *Decimal) bool {
+	if d1 == nil || d2 == nil {
+		return d1 == d2
+	}
+	return d1.AsBigFloat().Cmp(d2.AsBigFloat()) == 0
+}
+
 func (model *Model) EquivalentTypes(ts1, ts2 *TypeSpec) bool {
 	if ts1.Type != ts2.Type {
 		return false
@@ -74,7 +91,7 @@ func (model *Model) EquivalentTypes(ts1, ts2 *TypeSpec) bool {
 	//TODO: check annotations
 	switch ts1.Type {
 	case "String":
-		if ts1.Pattern != ts2.Pattern || ts1.MinSize != ts2.MinSize || ts1.MaxSize != ts1.MaxSize || len(ts1.Values) != len(ts2.Values) {
+		if ts1.Pattern != ts2.Pattern || !sameSize(ts1.MinSize, ts2.MinSize) || !sameSize(ts1.MaxSize, ts2.MaxSize) || len(ts1.Values) != len(ts2.Values) {
 			return false
 		}
 		if ts1.Reference != ts2.Reference {
@@ -85,10 +102,17 @@ func (model *Model) EquivalentTypes(ts1, ts2 *TypeSpec) bool {
 			for _, v := range ts1.Values {
 				m[v] = true
 			}
+			m2 := make(map[string]bool, 0)
 			for _, v := range ts2.Values {
 				if _, ok := m[v]; !ok {
 					return false
 				}
+				m2[v] = true
+			}
+			for _, v := range ts1.Values {
+				if _, ok := m2[v]; !ok {
+					return false
+				}
 			}
 		}
 	case "UUID":
@@ -99,8 +123,14 @@ func (model *Model) EquivalentTypes(ts1, ts2 *TypeSpec) bool {
 		if len(ts1.Fields) != len(ts2.Fields) {
 			return false
 		}
+		for i, f1 := range ts1.Fields {
+			f2 := ts2.Fields[i]
+			if f1.Name != f2.Name || f1.Required != f2.Required || !model.EquivalentTypes(&f1.TypeSpec, &f2.TypeSpec) {
+				return false
+			}
+		}
 	case "Bytes":
-		if ts1.MinSize != ts2.MinSize || ts1.MaxSize != ts1.MaxSize {
+		if !sameSize(ts1.MinSize, ts2.MinSize) || !sameSize(ts1.MaxSize, ts2.MaxSize) {
 			return false
 		}
 	case "UnitValue":
@@ -111,7 +141,7 @@ func (model *Model) EquivalentTypes(ts1, ts2 *TypeSpec) bool {
 			return false
 		}
 	case "Array", "Map":
-		if ts1.MinSize != ts2.MinSize || ts1.MaxSize != ts1.MaxSize {
+		if !sameSize(ts1.MinSize, ts2.MinSize) || !sameSize(ts1.MaxSize, ts2.MaxSize) {
 			return false
 		}
 		if !model.EquivalentTypesByName(ts1.Items, ts2.Items) {
@@ -121,7 +151,7 @@ func (model *Model) EquivalentTypes(ts1, ts2 *TypeSpec) bool {
 			return false
 		}
 	case "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Decimal":
-		if ts1.Min != ts2.Min || ts1.Max != ts2.Max {
+		if !sameDecimal(ts1.Min, ts2.Min) || !sameDecimal(ts1.Max, ts2.Max) {
 			return false
 		}
 	case "Enum":
@@ -134,10 +164,17 @@ func (model *Model) EquivalentTypes(ts1, ts2 *TypeSpec) bool {
 			//TODO: check annotations
 			m[v.Symbol] = true
 		}
+		m2 := make(map[string]bool, 0)
 		for _, v := range ts2.Elements {
 			if _, ok := m[v.Symbol]; !ok {
 				return false
 			}
+			m2[v.Symbol] = true
+		}
+		for _, v := range ts1.Elements {
+			if _, ok := m2[v.Symbol]; !ok {
+				return false
+			}
 		}
 	case "Union":
 		if len(ts1.Variants) != len(ts2.Variants) {
@@ -147,10 +184,17 @@ func (model *Model) EquivalentTypes(ts1, ts2 *TypeSpec) bool {
 		for _, v := range ts1.Variants {
 			m[v.Type] = true
 		}
+		m2 := make(map[string]bool, 0)
 		for _, v := range ts2.Variants {
 			if _, ok := m[v.Type]; !ok {
 				return false
 			}
+			m2[v.Type] = true
+		}
+		for _, v := range ts1.Variants {
+			if _, ok := m2[v.Type]; !ok {
+				return false
+			}
 		}
 	}
 	return true
-- 
2.43.0


From 1fb5d4be0c77d7723870275cde2b94d6da63e2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:04 +0000
Subject: [PATCH 05/56] fix: Data lookups skipped missing intermediate keys

---
 data.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/data.go b/data.go
index b72f5ad..1dfe1ca 100644
--- a/data.go
+++ b/data.go
@@ -102,7 +102,9 @@ func (data *Data) get(keys []string) interface{} {
 			}
 		} else {
 			for i, key := range keys {
-				if v, ok := m[key]; ok {
+				if v, ok := m[key]; !ok {
+					return nil
+				} else {
 					if i < len(keys)-1 {
 						if mm, ok := v.(map[string]interface{}); ok {
 							m = mm
-- 
2.43.0


From 7a8b9049701f4dc8a3c92dcc82ec6008ac9d9be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:01 +0000
Subject: [PATCH 06/56] fix: Timestamp.String printed local times as if they
 were UTC and years before 1000 unparseably

---
 timestamp.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/timestamp.go b/timestamp.go
index 6eecf68..64d00a1 100644
--- a/timestamp.go
+++ b/timestamp.go
@@ -11,13 +11,14 @@ type Timestamp struct {
 	time.Time
 }
 
-const RFC3339Milli = "%d-%02d-%02dT%02d:%02d:%02d.%03dZ"
+const RFC3339Milli = "%04d-%02d-%02dT%02d:%02d:%02d.%03dZ"
 
 func (ts Timestamp) String() string {
 	if ts.IsZero() {
 		return ""
 	}
-	return fmt.Sprintf(RFC3339Milli, ts.Year(), ts.Month(), ts.Day(), ts.Hour(), ts.Minute(), ts.Second(), ts.Nanosecond()/1000000)
+	t := ts.UTC() //the format always ends in Z
+	return fmt.Sprintf(RFC3339Milli, t.Year(), t.Month(), t.Day(), t.Hour(), t.Minute(), t.Second(), t.Nanosecond()/1000000)
 }
 
 func (ts Timestamp) MarshalJSON() ([]byte, error) {
-- 
2.43.0


From a84971905170d41f3464cfde14d83196b2be4cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:02 +0000
Subject: [PATCH 07/56] fix: ParseUUID accepted texts with non-hexadecimal
 characters

---
 uuid.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/uuid.go b/uuid.go
index b509003..fcbf118 100644
--- a/uuid.go
+++ b/uuid.go
@@ -29,5 +29,14 @@ func ParseUUID(text string) UUID {
 	if text[8] != '-' || text[13] != '-' || text[18] != '-' || text[23] != '-' {
 		return ""
 	}
+	for i := 0; i < Length; i++ {
+		ch := text[i]
+		if i == 8 || i == 13 || i == 18 || i == 23 {
+			continue
+		}
+		if !(ch >= '0' && ch <= '9' || ch >= 'a' && ch <= 'f' || ch >= 'A' && ch <= 'F') {
+			return ""
+		}
+	}
 	return UUID(text)
 }
-- 
2.43.0


From 700661a2bcda0fa09b7d4811731c715051d9aff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:04 +0000
Subject: [PATCH 08/56] fix: UnitValue.MarshalJSON did not escape the unit

---
 unitvalue.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unitvalue.go b/unitvalue.go
index e630886..15be343 100644
--- a/unitvalue.go
+++ b/unitvalue.go
@@ -40,7 +40,7 @@ func NewUnitValue(value float64, unit string) *UnitValue {
 }
 
 func (q *UnitValue) MarshalJSON() ([]byte, error) {
-	return []byte("\"" + q.String() + "\""), nil
+	return json.Marshal(q.String())
 }
 
 func (q *UnitValue) UnmarshalJSON(b []byte) error {
-- 
2.43.0


From 0c9ceec0454eec61c82d2a1660011fca50e31e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:05 +0000
Subject: [PATCH 09/56] fix: Generator.WriteFile ignored write errors at flush
 and cleared a previously recorded error

---
 generator.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/generator.go b/generator.go
index 92d1311..4f9de89 100644
--- a/generator.go
+++ b/generator.go
@@ -74,8 +74,13 @@ func (gen *Generator) WriteFile(path string, content string) {
 	}
 	defer f.Close()
 	writer := bufio.NewWriter(f)
-	_, gen.Err = writer.WriteString(content)
-	writer.Flush()
+	_, err = writer.WriteString(content)
+	if err == nil {
+		err = writer.Flush()
+	}
+	if err != nil {
+		gen.Err = err
+	}
 }
 
 func (gen *Generator) EmitTemplate(name string, tmplSource string, data interface{}, funcMap template.FuncMap) {
-- 
2.43.0


From c2e48ac3288b34bf41a45e5c7671cc7837bce9f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:06 +0000
Subject: [PATCH 10/56] fix: ConvertInlineEnums added duplicate types and
 missed conflicts among the types it creates

---
 model.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/model.go b/model.go
index b5a4a69..05e9d47 100644
--- a/model.go
+++ b/model.go
@@ -682,6 +682,11 @@ func (model *Model) ConvertInlineEnums() error {
 						Name:     tname,
 					}
 					prev := model.FindType(tname)
+					for _, created := range tds {
+						if created.Name == tname {
+							prev = created
+						}
+					}
 					if prev != nil {
 						if !model.EquivalentTypes(&prev.TypeSpec, &fdef.TypeSpec) {
 							//Alternatively, could prefix the struct type name to the new type `td.Name + tname` to make it unique. Steill not foolproof.
@@ -691,7 +696,9 @@ func (model *Model) ConvertInlineEnums() error {
 					var blank TypeSpec
 					fdef.TypeSpec = blank
 					fdef.Type = tname
-					tds = append(tds, ntd)
+					if prev == nil {
+						tds = append(tds, ntd)
+					}
 				}
 			}
 		}
-- 
2.43.0


From 9cdd25056c409b5b36652d94adce52437b3e6b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:07 +0000
Subject: [PATCH 11/56] fix: FindExampleType crashed on the response of an
 action without expected result

---
 model.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/model.go b/model.go
index 05e9d47..c34dba1 100644
--- a/model.go
+++ b/model.go
@@ -619,7 +619,11 @@ func (model *Model) FindExampleType(ex *ExampleDef) (*TypeSpec, error) {
 				if len(lst) > 0 {
 					var tmp *TypeSpec
 					fname := lst[0]
-					for _, out := range h.Expected.Outputs {
+					var outputs []*HttpParamSpec
+					if h.Expected != nil {
+						outputs = h.Expected.Outputs
+					}
+					for _, out := range outputs {
 						if out.Name == fname {
 							lst = lst[1:]
 							tmp = &out.TypeSpec
-- 
2.43.0


From fcddb5aaf229b2dac83e125c20624194a33a85bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:08 +0000
Subject: [PATCH 12/56] fix: Capitalize and Uncapitalize corrupted a multi-byte
 first character and crashed on empty text

---
 generator.go | 5 ++---
 misc.go      | 7 +++++--
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/generator.go b/generator.go
index 4f9de89..9023e4d 100644
--- a/generator.go
+++ b/generator.go
@@ -5,7 +5,6 @@ import (
 	"bytes"
 	"fmt"
 	"os"
-	"strings"
 	"text/template"
 )
 
@@ -105,11 +104,11 @@ func (gen *Generator) EmitTemplate(name string, tmplSource string, data interfac
 }
 
 func (gen *Generator) Capitalize(s string) string {
-	return strings.ToUpper(s[0:1]) + s[1:]
+	return Capitalize(s)
 }
 
 func (gen *Generator) Uncapitalize(s string) string {
-	return strings.ToLower(s[0:1]) + s[1:]
+	return Uncapitalize(s)
 }
 
 func (gen *Generator) FileExists(path string) bool {
diff --git a/misc.go b/misc.go
index 608b482..e2138a2 100644
--- a/misc.go
+++ b/misc.go
@@ -7,20 +7,23 @@ import (
 	"path/filepath"
 	"reflect"
 	"strings"
+	"unicode/utf8"
 )
 
 func Capitalize(s string) string {
 	if s == "" {
 		return s
 	}
-	return strings.ToUpper(s[0:1]) + s[1:]
+	_, n := utf8.DecodeRuneInString(s)
+	return strings.ToUpper(s[:n]) + s[n:]
 }
 
 func Uncapitalize(s string) string {
 	if s == "" {
 		return s
 	}
-	return strings.ToLower(s[0:1]) + s[1:]
+	_, n := utf8.DecodeRuneInString(s)
+	return strings.ToLower(s[:n]) + s[n:]
 }
 
 func IsSymbolChar(ch rune, first bool) bool {
-- 
2.43.0


From 9b22a535985379cd7a1dac20f88f5c6852d19b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:37:19 +0000
Subject: [PATCH 13/56] fix: Data.Put silently dropped values put into a
 document read from null

---
 data.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/data.go b/data.go
index 1dfe1ca..f2b227b 100644
--- a/data.go
+++ b/data.go
@@ -66,10 +66,11 @@ func DataFromJsonString(raw string) (*Data, error) {
 }
 
 func (data *Data) Put(key string, value interface{}) {
-	if data.value == nil {
-		data.value = make(map[string]interface{}, 0)
+	m, ok := data.value.(map[string]interface{})
+	if data.value == nil || ok && m == nil {
+		m = make(map[string]interface{}, 0)
+		data.value = m
 	}
-	m := data.AsMap()
 	if m != nil {
 		m[key] = value
 	}
-- 
2.43.0


From d4b97519b787e1a91556f42dcc8428e373aa7b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:37:20 +0000
Subject: [PATCH 14/56] fix: AsInt64 returned 0 for integer values

---
 struct_helpers.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/struct_helpers.go b/struct_helpers.go
index 112b3d9..3a94078 100644
--- a/struct_helpers.go
+++ b/struct_helpers.go
@@ -92,7 +92,14 @@ func AsInt(v interface{}) int {
 }
 
 func AsInt64(v interface{}) int64 {
-	if n, ok := v.(float64); ok {
+	switch n := v.(type) {
+	case float64:
+		return int64(n)
+	case int64:
+		return n
+	case int32:
+		return int64(n)
+	case int:
 		return int64(n)
 	}
 	return 0
-- 
2.43.0


From 6ac89fa4953aac568f41c2121601fd0c7a5c737f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:42:19 +0000
Subject: [PATCH 15/56] fix: a path whose parent is a regular file was reported
 as existing, so nothing was written and no error recorded

---
 generator.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/generator.go b/generator.go
index 9023e4d..b6f2910 100644
--- a/generator.go
+++ b/generator.go
@@ -112,10 +112,8 @@ func (gen *Generator) Uncapitalize(s string) string {
 }
 
 func (gen *Generator) FileExists(path string) bool {
-	if _, err := os.Stat(path); os.IsNotExist(err) {
-		return false
-	}
-	return true
+	_, err := os.Stat(path)
+	return err == nil
 }
 
 func (gen *Generator) FormatComment(indent, comment string, maxcol int, extraPad bool) string {
-- 
2.43.0


From 8489163fbea813caf14ff682723b8696c443b1e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:42:19 +0000
Subject: [PATCH 16/56] fix: FormatComment started with an uncommented empty
 line when the first word is too long

---
 misc.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/misc.go b/misc.go
index e2138a2..1c8d493 100644
--- a/misc.go
+++ b/misc.go
@@ -140,7 +140,7 @@ func FormatComment(indent, prefix, comment string, maxcol int, extraPad bool) st
 	tokens := strings.Split(comment, " ")
 	for _, tok := range tokens {
 		toklen := len(tok)
-		if col+toklen >= maxcol {
+		if col > 0 && col+toklen >= maxcol {
 			buf.WriteString("\n")
 			lines++
 			col = 0
-- 
2.43.0


From 55b36f78946678f2bf51b07e15bc3b2b02f256e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:15 +0000
Subject: [PATCH 17/56] fix: ParseDecimal accepted infinities, whose JSON form
 is not valid JSON

---
 decimal.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decimal.go b/decimal.go
index 91943aa..39db9b2 100644
--- a/decimal.go
+++ b/decimal.go
@@ -31,7 +31,7 @@ func (d *Decimal) UnmarshalJSON(b []byte) error {
 
 func ParseDecimal(text string) (*Decimal, error) {
 	num, _, err := big.ParseFloat(text, 10, DecimalPrecision, big.ToNearestEven)
-	if err != nil {
+	if err != nil || num.IsInf() {
 		return nil, fmt.Errorf("Bad Decimal number: %s", text)
 	}
 	return &Decimal{Float: *num}, nil
-- 
2.43.0


From 5d7dc858da93be3f51f9402d86f5d0bb6e85e03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:03:51 +0000
Subject: [PATCH 18/56] fix: OpenAPI export of Array and Map items crashed on
 Float64 and recursive types and made dangling references

---
 openapi/export_openapi.go | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/openapi/export_openapi.go b/openapi/export_openapi.go
index aa4b750..1d7ad35 100644
--- a/openapi/export_openapi.go
+++ b/openapi/export_openapi.go
@@ -462,8 +462,7 @@ func (gen *Generator) exportUnionTypeDef(td *sadl.TypeDef) (*Schema, error) {
 }
 
 func (gen *Generator) exportArrayTypeDef(td *sadl.TypeDef) (*Schema, error) {
-	itd := gen.Model.FindType(td.Items)
-	itemSchema, err := gen.oasSchema(&itd.TypeSpec, td.Items)
+	itemSchema, err := gen.oasSchema(&sadl.TypeSpec{Type: td.Items}, "")
 	if err != nil {
 		return nil, err
 	}
@@ -476,8 +475,7 @@ func (gen *Generator) exportArrayTypeDef(td *sadl.TypeDef) (*Schema, error) {
 }
 
 func (gen *Generator) exportMapTypeDef(td *sadl.TypeDef) (*Schema, error) {
-	itd := gen.Model.FindType(td.Items)
-	itemSchema, err := gen.oasSchema(&itd.TypeSpec, "")
+	itemSchema, err := gen.oasSchema(&sadl.TypeSpec{Type: td.Items}, "")
 	if err != nil {
 		return nil, err
 	}
@@ -555,9 +553,6 @@ func (gen *Generator) oasSchema(td *sadl.TypeSpec, name string) (*Schema, error)
 		}
 		return sch, nil
 	case "Int32", "Int16", "Int8", "Int64", "Float32", "Float64", "Decimal":
-		if td.Type == "Float64" && name != "" {
-			panic("here? " + name + " -> " + sadl.Pretty(td))
-		}
 		stype, sformat, scomment := oasNumericEquivalent(td.Type)
 		sch := &Schema{
 			Type:        stype,
@@ -621,8 +616,7 @@ func (gen *Generator) oasSchema(td *sadl.TypeSpec, name string) (*Schema, error)
 			Ref: "#/components/schemas/" + name,
 		}, nil
 	case "Array":
-		itd := gen.Model.FindType(td.Items)
-		itemSchema, err := gen.oasSchema(&itd.TypeSpec, td.Items)
+		itemSchema, err := gen.oasSchema(&sadl.TypeSpec{Type: td.Items}, "")
 		if err != nil {
 			return nil, err
 		}
@@ -633,8 +627,7 @@ func (gen *Generator) oasSchema(td *sadl.TypeSpec, name string) (*Schema, error)
 		return tr, nil
 	case "Map":
 		//note: keys are always strings
-		itd := gen.Model.FindType(td.Items)
-		itemSchema, err := gen.oasSchema(&itd.TypeSpec, "")
+		itemSchema, err := gen.oasSchema(&sadl.TypeSpec{Type: td.Items}, "")
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 811c491119b59eab5d47dc6b7ab4ff26d297634d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:03:52 +0000
Subject: [PATCH 19/56] fix: OpenAPI export made dangling references for inline
 enums and unions, Any, and union variants of base types

---
 openapi/export_openapi.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/openapi/export_openapi.go b/openapi/export_openapi.go
index 1d7ad35..f9ec473 100644
--- a/openapi/export_openapi.go
+++ b/openapi/export_openapi.go
@@ -453,8 +453,9 @@ func (gen *Generator) exportUnionTypeDef(td *sadl.TypeDef) (*Schema, error) {
 		Description: td.Comment,
 	}
 	for _, vd := range td.Variants {
-		v := &Schema{
-			Ref: "#/components/schemas/" + vd.Type,
+		v, err := gen.oasSchema(&vd.TypeSpec, "")
+		if err != nil {
+			return nil, err
 		}
 		schema.OneOf = append(schema.OneOf, v)
 	}
@@ -612,9 +613,11 @@ func (gen *Generator) oasSchema(td *sadl.TypeSpec, name string) (*Schema, error)
 		}
 		return tr, nil
 	case "Enum":
-		return &Schema{
-			Ref: "#/components/schemas/" + name,
-		}, nil
+		return gen.exportEnumTypeDef(&sadl.TypeDef{TypeSpec: *td})
+	case "Union":
+		return gen.exportUnionTypeDef(&sadl.TypeDef{TypeSpec: *td})
+	case "Any", "":
+		return &Schema{}, nil
 	case "Array":
 		itemSchema, err := gen.oasSchema(&sadl.TypeSpec{Type: td.Items}, "")
 		if err != nil {
-- 
2.43.0


From 7121f7cdac070a4ebae9ff16f2ed3a862f7b1e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:03:52 +0000
Subject: [PATCH 20/56] fix: OpenAPI export dropped array and map size limits,
 comments of numeric types, and the values and required fields of inline types

---
 openapi/export_openapi.go | 38 +++++++++++++++++++++++++++++---------
 1 file changed, 29 insertions(+), 9 deletions(-)

diff --git a/openapi/export_openapi.go b/openapi/export_openapi.go
index f9ec473..d1ab29f 100644
--- a/openapi/export_openapi.go
+++ b/openapi/export_openapi.go
@@ -389,6 +389,9 @@ func (gen *Generator) exportTypeDef(td *sadl.TypeDef) (*Schema, error) {
 		return gen.exportEnumTypeDef(td)
 	case "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Decimal":
 		stype, sformat, scomment := oasNumericEquivalent(td.Type)
+		if td.Comment != "" {
+			scomment = td.Comment
+		}
 		otd := &Schema{
 			Description: scomment,
 			Type:        stype,
@@ -472,6 +475,7 @@ func (gen *Generator) exportArrayTypeDef(td *sadl.TypeDef) (*Schema, error) {
 		Description: td.Comment,
 		Items:       itemSchema,
 	}
+	schema.MinItems, schema.MaxItems = sizeLimits(&td.TypeSpec)
 	return schema, nil
 }
 
@@ -480,11 +484,26 @@ func (gen *Generator) exportMapTypeDef(td *sadl.TypeDef) (*Schema, error) {
 	if err != nil {
 		return nil, err
 	}
-	return &Schema{
+	schema := &Schema{
 		Type:                 "object",
 		Description:          td.Comment,
 		AdditionalProperties: itemSchema,
-	}, nil
+	}
+	schema.MinProps, schema.MaxProps = sizeLimits(&td.TypeSpec)
+	return schema, nil
+}
+
+func sizeLimits(td *sadl.TypeSpec) (uint64, *uint64) {
+	var min uint64
+	var max *uint64
+	if td.MinSize != nil {
+		min = uint64(*td.MinSize)
+	}
+	if td.MaxSize != nil {
+		tmp := uint64(*td.MaxSize)
+		max = &tmp
+	}
+	return min, max
 }
 
 func (gen *Generator) exportStringTypeDef(td *sadl.TypeDef) (*Schema, error) {
@@ -493,13 +512,6 @@ func (gen *Generator) exportStringTypeDef(td *sadl.TypeDef) (*Schema, error) {
 		return nil, err
 	}
 	otd.Description = td.Comment
-	if len(td.Values) > 0 {
-		e := make([]interface{}, 0)
-		for _, s := range td.Values {
-			e = append(e, s)
-		}
-		otd.Enum = e
-	}
 	return otd, nil
 }
 
@@ -590,6 +602,9 @@ func (gen *Generator) oasSchema(td *sadl.TypeSpec, name string) (*Schema, error)
 			tmp := uint64(*td.MaxSize)
 			tr.MaxLength = &tmp
 		}
+		for _, s := range td.Values {
+			tr.Enum = append(tr.Enum, s)
+		}
 		return tr, nil
 	case "Timestamp":
 		tr := &Schema{
@@ -627,6 +642,7 @@ func (gen *Generator) oasSchema(td *sadl.TypeSpec, name string) (*Schema, error)
 			Type:  "array",
 			Items: itemSchema,
 		}
+		tr.MinItems, tr.MaxItems = sizeLimits(td)
 		return tr, nil
 	case "Map":
 		//note: keys are always strings
@@ -638,6 +654,7 @@ func (gen *Generator) oasSchema(td *sadl.TypeSpec, name string) (*Schema, error)
 			Type:                 "object",
 			AdditionalProperties: itemSchema,
 		}
+		otd.MinProps, otd.MaxProps = sizeLimits(td)
 		return otd, nil
 	case "Struct":
 		if name != "" {
@@ -655,6 +672,9 @@ func (gen *Generator) oasSchema(td *sadl.TypeSpec, name string) (*Schema, error)
 					return nil, err
 				}
 				f[fd.Name] = fieldSchema
+				if fd.Required {
+					sch.Required = append(sch.Required, fd.Name)
+				}
 			}
 			sch.Properties = f
 			return sch, nil
-- 
2.43.0


From fae38b571f8a9f96b759fc03a5b9116098a4bfc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:04:24 +0000
Subject: [PATCH 21/56] fix: OpenAPI export crashed on an action without an
 expected result

---
 openapi/export_openapi.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/openapi/export_openapi.go b/openapi/export_openapi.go
index d1ab29f..f59d54e 100644
--- a/openapi/export_openapi.go
+++ b/openapi/export_openapi.go
@@ -179,8 +179,12 @@ func (gen *Generator) ExportToOAS3() (*Model, error) {
 		}
 		responses := make(map[string]*Response, 0)
 		op.Responses = responses
+		expected := hdef.Expected
+		if expected == nil {
+			expected = &sadl.HttpExpectedSpec{Status: 200}
+		}
 		content := make(map[string]*MediaType)
-		comment := hdef.Expected.Comment
+		comment := expected.Comment
 		if comment == "" {
 			comment = "Expected response"
 		}
@@ -189,7 +193,7 @@ func (gen *Generator) ExportToOAS3() (*Model, error) {
 			Content:     content,
 		}
 		var headers map[string]*Header
-		for _, param := range hdef.Expected.Outputs {
+		for _, param := range expected.Outputs {
 			if param.Header != "" {
 				pschema, err := gen.oasSchema(&param.TypeSpec, "")
 				if err != nil {
@@ -217,7 +221,7 @@ func (gen *Generator) ExportToOAS3() (*Model, error) {
 		if len(headers) > 0 {
 			resp.Headers = headers
 		}
-		key := fmt.Sprint(hdef.Expected.Status)
+		key := fmt.Sprint(expected.Status)
 		responses[key] = resp
 		for _, out := range hdef.Exceptions {
 			content := make(map[string]*MediaType)
-- 
2.43.0


From 084a62dcf50eaea5218b96a984330c306e904664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:04:25 +0000
Subject: [PATCH 22/56] fix: OpenAPI export silently dropped HEAD, PATCH and
 OPTIONS actions

---
 openapi/export_openapi.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/openapi/export_openapi.go b/openapi/export_openapi.go
index f59d54e..c9d6221 100644
--- a/openapi/export_openapi.go
+++ b/openapi/export_openapi.go
@@ -136,6 +136,23 @@ func (gen *Generator) ExportToOAS3() (*Model, error) {
 				return nil, fmt.Errorf("Duplicate HTTP Method spec (%s %s)", hdef.Method, p)
 			}
 			pi.Post = op
+		case "HEAD":
+			if pi.Head != nil {
+				return nil, fmt.Errorf("Duplicate HTTP Method spec (%s %s)", hdef.Method, p)
+			}
+			pi.Head = op
+		case "PATCH":
+			if pi.Patch != nil {
+				return nil, fmt.Errorf("Duplicate HTTP Method spec (%s %s)", hdef.Method, p)
+			}
+			pi.Patch = op
+		case "OPTIONS":
+			if pi.Options != nil {
+				return nil, fmt.Errorf("Duplicate HTTP Method spec (%s %s)", hdef.Method, p)
+			}
+			pi.Options = op
+		default:
+			return nil, fmt.Errorf("Unsupported HTTP Method (%s %s)", hdef.Method, p)
 		}
 		for _, in := range hdef.Inputs {
 			param := &Parameter{
-- 
2.43.0


From 1a051c39aaf1282cef4c6dcbaf917096dfa09b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:04:25 +0000
Subject: [PATCH 23/56] fix: FindOperation only looked at one operation of each
 path

---
 openapi/export_openapi.go | 22 ++++------------------
 1 file changed, 4 insertions(+), 18 deletions(-)

diff --git a/openapi/export_openapi.go b/openapi/export_openapi.go
index c9d6221..9865d35 100644
--- a/openapi/export_openapi.go
+++ b/openapi/export_openapi.go
@@ -367,24 +367,10 @@ func (gen *Generator) ExportToOAS3() (*Model, error) {
 
 func (gen *Generator) FindOperation(model *Model, opId string) *Operation {
 	for _, pathItem := range model.Paths {
-		var op *Operation
-		if pathItem.Get != nil {
-			op = pathItem.Get
-		} else if pathItem.Put != nil {
-			op = pathItem.Put
-		} else if pathItem.Delete != nil {
-			op = pathItem.Delete
-		} else if pathItem.Post != nil {
-			op = pathItem.Post
-		} else if pathItem.Head != nil {
-			op = pathItem.Head
-		} else if pathItem.Patch != nil {
-			op = pathItem.Patch
-		} else {
-			panic("fix me")
-		}
-		if op.OperationId == opId {
-			return op
+		for _, op := range []*Operation{pathItem.Get, pathItem.Put, pathItem.Delete, pathItem.Post, pathItem.Head, pathItem.Patch, pathItem.Options} {
+			if op != nil && op.OperationId == opId {
+				return op
+			}
 		}
 	}
 	return nil
-- 
2.43.0


From fcb3e63ef718444eb29fa9618dc16b5f57b291e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:03 +0000
Subject: [PATCH 24/56] fix: OpenAPI import ignored errors in array items,
 properties, response headers and bodies

---
 openapi/import_openapi.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/openapi/import_openapi.go b/openapi/import_openapi.go
index 034d497..8a26047 100644
--- a/openapi/import_openapi.go
+++ b/openapi/import_openapi.go
@@ -308,9 +308,10 @@ func convertOasType(name string, oasSchema *Schema) (sadl.TypeSpec, error) {
 				ts.Items = oasTypeRef(oasSchema.Items)
 			} else {
 				its, err := convertOasType(name+".Items", oasSchema.Items)
-				if err == nil {
-					ts.Items = its.Type
+				if err != nil {
+					return ts, err
 				}
+				ts.Items = its.Type
 			}
 		}
 		//minsize, maxsize
@@ -357,6 +358,9 @@ func convertOasType(name string, oasSchema *Schema) (sadl.TypeSpec, error) {
 				fd.Type = oasTypeRef(fschema)
 				if fd.Type == "" {
 					fd.TypeSpec, err = convertOasType(name+"."+fname, fschema)
+					if err != nil {
+						return ts, err
+					}
 				}
 				ts.Fields = append(ts.Fields, fd)
 			}
@@ -547,6 +551,9 @@ func convertOasPath(path string, op *Operation, method string) (*sadl.HttpDef, e
 					param.Type = oasTypeRef(schref)
 				} else {
 					param.TypeSpec, err = convertOasType(hact.Name+".Expected."+param.Name, schref) //fix: example
+					if err != nil {
+						return nil, err
+					}
 				}
 				ex.Outputs = append(ex.Outputs, param)
 			}
@@ -561,6 +568,9 @@ func convertOasPath(path string, op *Operation, method string) (*sadl.HttpDef, e
 						result.Type = oasTypeRef(schref)
 					} else {
 						result.TypeSpec, err = convertOasType(hact.Name+".Expected.payload", schref) //fix: example
+						if err != nil {
+							return nil, err
+						}
 					}
 					ex.Outputs = append(ex.Outputs, result)
 				} else {
-- 
2.43.0


From b0bb6fb1f3694023895c83c3de56cf5a5a2d55dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:04 +0000
Subject: [PATCH 25/56] fix: OpenAPI import dropped the size limits of arrays

---
 openapi/import_openapi.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/openapi/import_openapi.go b/openapi/import_openapi.go
index 8a26047..767cf29 100644
--- a/openapi/import_openapi.go
+++ b/openapi/import_openapi.go
@@ -314,7 +314,14 @@ func convertOasType(name string, oasSchema *Schema) (sadl.TypeSpec, error) {
 				ts.Items = its.Type
 			}
 		}
-		//minsize, maxsize
+		if oasSchema.MinItems > 0 {
+			tmpMin := int64(oasSchema.MinItems)
+			ts.MinSize = &tmpMin
+		}
+		if oasSchema.MaxItems != nil {
+			tmpMax := int64(*oasSchema.MaxItems)
+			ts.MaxSize = &tmpMax
+		}
 		//comment
 	case "number":
 		ts.Type = "Decimal"
-- 
2.43.0


From a76423ebe559b5eb22a5e2118ed4cc9a9eef1a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:04 +0000
Subject: [PATCH 26/56] fix: OpenAPI import crashed on a document without
 components and on a reference to an undefined schema

---
 openapi/import_openapi.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/openapi/import_openapi.go b/openapi/import_openapi.go
index 767cf29..717edea 100644
--- a/openapi/import_openapi.go
+++ b/openapi/import_openapi.go
@@ -141,6 +141,9 @@ func (model *Model) ToSadl(name string) (*sadl.Model, error) {
 		Comment: comment,
 		Version: model.Info.Version,
 	}
+	if model.Components == nil {
+		model.Components = &Components{}
+	}
 	for name, oasSchema := range model.Components.Schemas {
 		name = validSadlName(name, oasSchema)
 		if name == "" {
@@ -154,7 +157,7 @@ func (model *Model) ToSadl(name string) (*sadl.Model, error) {
 			if oasDef, ok := model.Components.Schemas[tname]; ok {
 				ts, err = convertOasType(tname, oasDef) //doesn't handle N levels
 			} else {
-				panic("hmm")
+				return nil, fmt.Errorf("Undefined schema referenced by %s: %s", name, oasSchema.Ref)
 			}
 		} else {
 			ts, err = convertOasType(name, oasSchema)
-- 
2.43.0


From 109cc6b924991feac1cc32090407e0bf89319c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:05 +0000
Subject: [PATCH 27/56] fix: OpenAPI import stripped digits from parameter
 names and crashed on path parameters with digits or dashes

---
 openapi/import_openapi.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/openapi/import_openapi.go b/openapi/import_openapi.go
index 717edea..6730912 100644
--- a/openapi/import_openapi.go
+++ b/openapi/import_openapi.go
@@ -400,7 +400,7 @@ func uncapitalize(s string) string {
 }
 
 func makeIdentifier(text string) string {
-	reg, _ := regexp.Compile("[^a-zA-Z_][^a-zA-Z_0-9]*")
+	reg, _ := regexp.Compile("^[^a-zA-Z_]+|[^a-zA-Z_0-9]")
 	return reg.ReplaceAllString(text, "")
 }
 
@@ -447,10 +447,10 @@ func convertOasPath(path string, op *Operation, method string) (*sadl.HttpDef, e
 			queries = append(queries, param.Name+"={"+name+"}")
 		case "path":
 			spec.Path = true
-			if strings.Index(path, "{"+name+"}") < 0 {
-				fmt.Println("WARNING: path param is not in path template:", path, name)
-				panic("here")
+			if strings.Index(path, "{"+param.Name+"}") < 0 {
+				return nil, fmt.Errorf("path param is not in path template: %s %s", path, param.Name)
 			}
+			hact.Path = strings.Replace(hact.Path, "{"+param.Name+"}", "{"+name+"}", -1)
 		case "header":
 			spec.Header = param.Name
 		case "cookie":
-- 
2.43.0


From d8641767a1ce76ffff48e0ed2d53d344142d067e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:06 +0000
Subject: [PATCH 28/56] fix: OpenAPI import chose the expected response at
 random among several success responses

---
 openapi/import_openapi.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/openapi/import_openapi.go b/openapi/import_openapi.go
index 6730912..33cdcb6 100644
--- a/openapi/import_openapi.go
+++ b/openapi/import_openapi.go
@@ -521,8 +521,9 @@ func convertOasPath(path string, op *Operation, method string) (*sadl.HttpDef, e
 	var expectedStatus string = "default"
 	for status, _ := range op.Responses {
 		if strings.HasPrefix(status, "2") || strings.HasPrefix(status, "3") {
-			expectedStatus = status
-			break
+			if expectedStatus == "default" || status < expectedStatus {
+				expectedStatus = status
+			}
 		}
 	}
 	//	if expectedStatus == "default" {
-- 
2.43.0


From d3d6f9ba3d3baec6b516f6442ac5799e23a62bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:06 +0000
Subject: [PATCH 29/56] fix: OpenAPI import dropped request bodies with an
 inline schema

---
 openapi/import_openapi.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/openapi/import_openapi.go b/openapi/import_openapi.go
index 33cdcb6..55894b8 100644
--- a/openapi/import_openapi.go
+++ b/openapi/import_openapi.go
@@ -497,13 +497,18 @@ func convertOasPath(path string, op *Operation, method string) (*sadl.HttpDef, e
 		if op.RequestBody != nil {
 			for contentType, mediadef := range op.RequestBody.Content {
 				if contentType == "application/json" { //hack
-					bodyType := oasTypeRef(mediadef.Schema)
-					if bodyType != "" {
+					bodyType := sadl.TypeSpec{Type: oasTypeRef(mediadef.Schema)}
+					if bodyType.Type == "" && mediadef.Schema != nil {
+						var err error
+						bodyType, err = convertOasType(hact.Name+".body", mediadef.Schema)
+						if err != nil {
+							return nil, err
+						}
+					}
+					if bodyType.Type != "" {
 						spec := &sadl.HttpParamSpec{
 							StructFieldDef: sadl.StructFieldDef{
-								TypeSpec: sadl.TypeSpec{
-									Type: bodyType,
-								},
+								TypeSpec: bodyType,
 								Comment:  op.RequestBody.Description,
 								Name:     "body",
 								Required: op.RequestBody.Required,
-- 
2.43.0


From 2a13681858aaab1efc5d6650c5699813ce64605e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:07 +0000
Subject: [PATCH 30/56] fix: OpenAPI import dropped the format, pattern and
 limits of parameters, so that 64-bit integers became Int32

---
 openapi/import_openapi.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/openapi/import_openapi.go b/openapi/import_openapi.go
index 55894b8..ada193f 100644
--- a/openapi/import_openapi.go
+++ b/openapi/import_openapi.go
@@ -459,7 +459,21 @@ func convertOasPath(path string, op *Operation, method string) (*sadl.HttpDef, e
 		spec.Type = oasTypeRef(param.Schema)
 		if spec.Type == "" {
 			if param.Schema != nil {
-				spec.Type = sadlPrimitiveType(param.Schema.Type)
+				switch param.Schema.Type {
+				case "string", "number", "integer":
+					scalar := *param.Schema
+					scalar.Enum, scalar.Example = nil, nil
+					if scalar.Type == "integer" && scalar.Format == "" {
+						scalar.Format = "int32"
+					}
+					var err error
+					spec.TypeSpec, err = convertOasType(name, &scalar)
+					if err != nil {
+						return nil, err
+					}
+				default:
+					spec.Type = sadlPrimitiveType(param.Schema.Type)
+				}
 			}
 			if spec.Type == "Array" {
 				if param.Schema.Items == nil {
-- 
2.43.0


From b468ce6606a463daf8c17b16a7ad00689bc55888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:12:25 +0000
Subject: [PATCH 31/56] fix: GraphQL export named SADL base types and array
 types as list items instead of their GraphQL equivalents

---
 graphql/export_graphql.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphql/export_graphql.go b/graphql/export_graphql.go
index 192d6a6..359686f 100644
--- a/graphql/export_graphql.go
+++ b/graphql/export_graphql.go
@@ -144,7 +144,7 @@ func (w *GraphqlWriter) typeRef(ts *sadl.TypeSpec) string {
 	}
 	switch ts.Type {
 	case "Array":
-		return fmt.Sprintf("[%s!]", ts.Items)
+		return fmt.Sprintf("[%s!]", w.typeRef(&sadl.TypeSpec{Type: ts.Items}))
 	default:
 		td := w.model.FindType(ts.Type)
 		if td != nil {
-- 
2.43.0


From 7a3d836de89e51f5271e5736eafb05873c4d003a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:12:25 +0000
Subject: [PATCH 32/56] fix: GraphQL export left the second line of a field
 comment uncommented

---
 graphql/export_graphql.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/graphql/export_graphql.go b/graphql/export_graphql.go
index 359686f..3471392 100644
--- a/graphql/export_graphql.go
+++ b/graphql/export_graphql.go
@@ -4,6 +4,7 @@ import (
 	"bufio"
 	"bytes"
 	"fmt"
+	"strings"
 
 	"github.com/boynton/sadl"
 )
@@ -97,7 +98,7 @@ func (w *GraphqlWriter) EmitStructDef(td *sadl.TypeDef) error {
 		}
 		if fd.Comment != "" {
 			//TO DO: format as block before the field
-			w.Emit("  # %s\n", fd.Comment)
+			w.Emit("  # %s\n", strings.Replace(fd.Comment, "\n", "\n  # ", -1))
 		}
 		ftype := w.typeRef(&fd.TypeSpec)
 		w.Emit("  %s: %s%s\n", fd.Name, ftype, required)
-- 
2.43.0


From 1b6db8825f95b8c546ea6402f52bdce962bc301a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:12:26 +0000
Subject: [PATCH 33/56] fix: GraphQL export crashed on types it cannot export,
 and on named UUID and Timestamp types

---
 graphql/export_graphql.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/graphql/export_graphql.go b/graphql/export_graphql.go
index 3471392..ecf5f36 100644
--- a/graphql/export_graphql.go
+++ b/graphql/export_graphql.go
@@ -42,12 +42,12 @@ func FromSadl(model *sadl.Model, conf *sadl.Data) (string, error) {
 			err = w.EmitStructDef(td)
 		case "Union":
 			err = w.EmitUnionDef(td)
-		case "String", "Bool", "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Decimal":
+		case "UUID", "Timestamp", "String", "Bool", "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Decimal":
 			//these get replace by the equivalent type, you cannot "subtype" thesein GraphQL
 		case "Array":
 			//skip these. All references to it should be replaced with literal GraphQL list syntax.
 		default:
-			panic("fixme: " + td.Type)
+			err = fmt.Errorf("Unsupported type for GraphQL: %s (%s)", td.Name, td.Type)
 		}
 		if err != nil {
 			return "", err
-- 
2.43.0


From a13bdea4226bd0e40aae3afae40e24299c8adba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:12:26 +0000
Subject: [PATCH 34/56] fix: GraphQL import crashed on nested lists or dropped
 their item type

---
 graphql/import_graphql.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/graphql/import_graphql.go b/graphql/import_graphql.go
index e269216..3697052 100644
--- a/graphql/import_graphql.go
+++ b/graphql/import_graphql.go
@@ -215,10 +215,10 @@ func gqlStruct(schema *sadl.Schema, structDef *gql_ast.ObjectDefinition) error {
 				case *gql_ast.Named:
 					fd.Items = convertTypeName(it.Name.Value)
 				default:
-					panic("inline list type not supported")
+					return fmt.Errorf("Unsupported list type: field %s of %s", fd.Name, td.Name)
 				}
 			default:
-				panic("list type not supported")
+				return fmt.Errorf("Unsupported list type: field %s of %s", fd.Name, td.Name)
 			}
 		case *gql_ast.NonNull:
 			fd.Required = true
@@ -231,9 +231,14 @@ func gqlStruct(schema *sadl.Schema, structDef *gql_ast.ObjectDefinition) error {
 				case *gql_ast.Named:
 					fd.Items = convertTypeName(it.Name.Value)
 				case *gql_ast.NonNull:
-					fd.Items = convertTypeName(typeName(it.Type))
+					switch it := it.Type.(type) {
+					case *gql_ast.Named:
+						fd.Items = convertTypeName(it.Name.Value)
+					default:
+						return fmt.Errorf("Unsupported list type: field %s of %s", fd.Name, td.Name)
+					}
 				default:
-					panic("inline list type not supported")
+					return fmt.Errorf("Unsupported list type: field %s of %s", fd.Name, td.Name)
 				}
 			default:
 				fd.Type = convertTypeName(typeName(t))
-- 
2.43.0


From 865fe6107b37883b7acc59cac2c81648f661c6d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:07 +0000
Subject: [PATCH 35/56] fix: Go code generated for enums used encoding/json and
 fmt without importing them

---
 golang/golang_model.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/golang/golang_model.go b/golang/golang_model.go
index fd34161..2e23959 100644
--- a/golang/golang_model.go
+++ b/golang/golang_model.go
@@ -208,6 +208,8 @@ func (gen *Generator) EmitEnumType(td *sadl.TypeDef) {
 			return val
 		},
 	}
+	gen.addImport("encoding/json")
+	gen.addImport("fmt")
 	gen.EmitTemplate("enumType", enumTemplate, td, funcMap)
 }
 
-- 
2.43.0


From 4dda6a3ce3202c4f740e937ad3b8e2f985d8c1f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:08 +0000
Subject: [PATCH 36/56] fix: FromString functions generated for numeric types
 did not compile

---
 golang/golang_model.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/golang/golang_model.go b/golang/golang_model.go
index 2e23959..01226f9 100644
--- a/golang/golang_model.go
+++ b/golang/golang_model.go
@@ -126,7 +126,11 @@ func (gen *Generator) EmitType(td *sadl.TypeDef, errors map[string]bool) {
 		name := td.Name
 		gen.Emit("type " + name + " " + sadl.Uncapitalize(td.Type) + "\n")
 		gen.addImport("strconv")
-		gen.Emit("func " + name + "FromString(s string) " + name + "{\n\tn, err := strconv.ParseInt(s, 10, 64)\n\tif err != nil {\n\t\treturn 0\n\t}\n\treturn n\n}\n")
+		parse := "strconv.ParseInt(s, 10, 64)"
+		if td.Type == "Float32" || td.Type == "Float64" {
+			parse = "strconv.ParseFloat(s, 64)"
+		}
+		gen.Emit("func " + name + "FromString(s string) " + name + "{\n\tn, err := " + parse + "\n\tif err != nil {\n\t\treturn 0\n\t}\n\treturn " + name + "(n)\n}\n")
 
 		//	case "Int32":
 		//		gen.Emit("type " + td.Name + " int\n")
-- 
2.43.0


From ac92cb149cb05ea95a095b0163795584eec8239f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:09 +0000
Subject: [PATCH 37/56] fix: Go code generated for fields of type UUID, Bytes
 and Any named undefined types

---
 golang/export_golang.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/golang/export_golang.go b/golang/export_golang.go
index f5a9f01..2c75b94 100644
--- a/golang/export_golang.go
+++ b/golang/export_golang.go
@@ -171,6 +171,12 @@ func (gen *Generator) nativeTypeName(ts *sadl.TypeSpec, name string) string {
 	switch name {
 	case "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Bool", "String":
 		return uncapitalize(name)
+	case "UUID":
+		return "string"
+	case "Bytes":
+		return "[]byte"
+	case "Any":
+		return "interface{}"
 	case "Decimal":
 		if gen.runtime {
 			gen.addImport("github.com/boynton/sadl")
-- 
2.43.0


From e0a3b5711dba97bc915e2e07b749a15900608526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:10 +0000
Subject: [PATCH 38/56] fix: Go code generation crashed on named Bool, Bytes,
 Any and Timestamp types

---
 golang/golang_model.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/golang/golang_model.go b/golang/golang_model.go
index 01226f9..8f3e865 100644
--- a/golang/golang_model.go
+++ b/golang/golang_model.go
@@ -115,6 +115,11 @@ func (gen *Generator) EmitType(td *sadl.TypeDef, errors map[string]bool) {
 		gen.Emit("type " + td.Name + " string\n")
 	case "UUID":
 		gen.Emit("type " + td.Name + " string //UUID\n")
+	case "Bool", "Bytes", "Any":
+		gen.Emit("type " + td.Name + " " + gen.nativeTypeName(&td.TypeSpec, td.Type) + "\n")
+	case "Timestamp":
+		gen.Emit("type " + td.Name + " Timestamp\n")
+		gen.createTimestamp = true
 	case "Decimal":
 		gen.Emit("type " + td.Name + " Decimal\n")
 		gen.createDecimal = true
-- 
2.43.0


From db321a9fbad21ebec3447084da8815272a9b5ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:10 +0000
Subject: [PATCH 39/56] fix: Go code generation crashed on an action without an
 expected result

---
 golang/golang_model.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/golang/golang_model.go b/golang/golang_model.go
index 8f3e865..218b0ae 100644
--- a/golang/golang_model.go
+++ b/golang/golang_model.go
@@ -79,8 +79,10 @@ func (gen *Generator) EmitResponseType(hd *sadl.HttpDef) {
 	}
 	td.Type = "Struct"
 	fields := make([]*sadl.StructFieldDef, 0)
-	for _, p := range hd.Expected.Outputs {
-		fields = append(fields, &p.StructFieldDef)
+	if hd.Expected != nil {
+		for _, p := range hd.Expected.Outputs {
+			fields = append(fields, &p.StructFieldDef)
+		}
 	}
 	td.Fields = fields
 	gen.EmitStructType(td, nil)
-- 
2.43.0


From 0e21c383c54bee6621ba4c799dbf2c59ae9a11af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:28 +0000
Subject: [PATCH 40/56] fix: HTTP traces dropped boolean and plain string
 example values from paths, queries and headers

---
 httptrace/export_http_examples.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/httptrace/export_http_examples.go b/httptrace/export_http_examples.go
index 1658685..270e761 100644
--- a/httptrace/export_http_examples.go
+++ b/httptrace/export_http_examples.go
@@ -28,6 +28,10 @@ func stringExample(ex interface{}) string {
 		return *v
 	case *sadl.Decimal:
 		return v.String()
+	case string:
+		return v
+	case bool:
+		return fmt.Sprint(v)
 	}
 	return ""
 }
-- 
2.43.0


From 84c60873ad7a3584d1e1e1ff4885d63377e4601b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:29 +0000
Subject: [PATCH 41/56] fix: HTTP traces dropped query parameters whose value
 ends with an equals sign

---
 httptrace/export_http_examples.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httptrace/export_http_examples.go b/httptrace/export_http_examples.go
index 270e761..d03d170 100644
--- a/httptrace/export_http_examples.go
+++ b/httptrace/export_http_examples.go
@@ -154,7 +154,7 @@ func stripMissingOptionalQueryParams(uri string) string {
 	items := strings.Split(query, "&")
 	newItems := make([]string, 0)
 	for _, item := range items {
-		if !strings.HasSuffix(item, "=") {
+		if n := strings.Index(item, "="); n < 0 || n < len(item)-1 {
 			newItems = append(newItems, item)
 		}
 	}
-- 
2.43.0


From eb3100045268fb13e19c8367bef9a2cc7ea1b1c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:29 +0000
Subject: [PATCH 42/56] fix: HTTP traces listed the examples of an action in
 random order

---
 httptrace/export_http_examples.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/httptrace/export_http_examples.go b/httptrace/export_http_examples.go
index d03d170..b28d696 100644
--- a/httptrace/export_http_examples.go
+++ b/httptrace/export_http_examples.go
@@ -47,12 +47,16 @@ func generateHttpTrace(model *sadl.Model, hdef *sadl.HttpDef) (string, error) {
 	reqType := sadl.Capitalize(hdef.Name) + "Request"
 	resType := sadl.Capitalize(hdef.Name) + "Response"
 	namedExamples := make(map[string]*exampleData, 0)
+	var names []string //in the order of the examples
 	var reqExample, resExample map[string]interface{}
 
 	//each named example should be a pair of req/res, or req/exc
 	for _, ex := range examples {
 		if ex.Target == reqType {
 			tmp := ex.Example.(map[string]interface{})
+			if _, ok := namedExamples[ex.Name]; !ok {
+				names = append(names, ex.Name)
+			}
 			namedExamples[ex.Name] = &exampleData{req: tmp}
 		}
 	}
@@ -73,7 +77,8 @@ func generateHttpTrace(model *sadl.Model, hdef *sadl.HttpDef) (string, error) {
 		}
 	}
 	body := ""
-	for exName, data := range namedExamples {
+	for _, exName := range names {
+		data := namedExamples[exName]
 		reqExample = data.req
 		resExample = data.res
 		body = body + "#\n# " + exName + " (action=" + hdef.Name + ")\n#\n"
-- 
2.43.0


From 3815b2653c019198b8465e61f60cfc6a415d75ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:30 +0000
Subject: [PATCH 43/56] fix: HTTP traces crashed on an action without an
 expected result

---
 httptrace/export_http_examples.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/httptrace/export_http_examples.go b/httptrace/export_http_examples.go
index b28d696..0bb3753 100644
--- a/httptrace/export_http_examples.go
+++ b/httptrace/export_http_examples.go
@@ -112,12 +112,15 @@ func generateHttpTrace(model *sadl.Model, hdef *sadl.HttpDef) (string, error) {
 			
 			if resExample != nil {
 				body = body + "#   Response:"
-				status := hdef.Expected.Status
+				status := int32(200)
+				if hdef.Expected != nil {
+					status = hdef.Expected.Status
+				}
 				bodyExample := ""
 				headers := "Content-Type: application/json; charset=utf-8\n"
 
 
-				if data.exc == nil {
+				if data.exc == nil && hdef.Expected != nil {
 					for _, out := range hdef.Expected.Outputs {
 						ex := resExample[out.Name]
 						if out.Header != "" {
@@ -129,7 +132,7 @@ func generateHttpTrace(model *sadl.Model, hdef *sadl.HttpDef) (string, error) {
 							}
 						}
 					}
-				} else {
+				} else if data.exc != nil {
 					status = data.exc.Status
 					bodyExample = sadl.Pretty(resExample)
 				}
-- 
2.43.0


From 0dab18cb1ed8ad401f32ceb6bc1c1e087b6fc192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:27 +0000
Subject: [PATCH 44/56] fix: Go code generation crashed on arrays and maps of
 unspecified items

---
 golang/export_golang.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/golang/export_golang.go b/golang/export_golang.go
index 2c75b94..89ae57e 100644
--- a/golang/export_golang.go
+++ b/golang/export_golang.go
@@ -188,10 +188,16 @@ func (gen *Generator) nativeTypeName(ts *sadl.TypeSpec, name string) string {
 		}
 	case "Array":
 		its := gen.Model.FindType(ts.Items)
+		if its == nil {
+			return "[]interface{}"
+		}
 		return "[]" + gen.nativeTypeName(&its.TypeSpec, ts.Items)
 	case "Map":
 		its := gen.Model.FindType(ts.Items)
 		kts := gen.Model.FindType(ts.Keys)
+		if its == nil || kts == nil {
+			return "map[string]interface{}"
+		}
 		return "map[" + gen.nativeTypeName(&kts.TypeSpec, ts.Keys) + "]" + gen.nativeTypeName(&its.TypeSpec, ts.Items)
 	case "Timestamp":
 		if gen.runtime {
-- 
2.43.0


From b28aeb08b3d4e08d4e6864fd5311219e31b6da4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:11 +0000
Subject: [PATCH 45/56] fix: Go types generated for named arrays and maps of
 Array or Map were nested too deeply

---
 golang/golang_model.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/golang/golang_model.go b/golang/golang_model.go
index 218b0ae..6a94d4b 100644
--- a/golang/golang_model.go
+++ b/golang/golang_model.go
@@ -150,14 +150,11 @@ func (gen *Generator) EmitType(td *sadl.TypeDef, errors map[string]bool) {
 }
 
 func (gen *Generator) EmitArrayType(td *sadl.TypeDef) {
-	itemType := gen.nativeTypeName(&td.TypeSpec, td.Items)
-	gen.Emit("type " + td.Name + " []" + itemType + "\n")
+	gen.Emit("type " + td.Name + " " + gen.nativeTypeName(&td.TypeSpec, "Array") + "\n")
 }
 
 func (gen *Generator) EmitMapType(td *sadl.TypeDef) {
-	keyType := gen.nativeTypeName(&td.TypeSpec, td.Keys)
-	itemType := gen.nativeTypeName(&td.TypeSpec, td.Items)
-	gen.Emit("type " + td.Name + " map[" + keyType + "]" + itemType + "\n")
+	gen.Emit("type " + td.Name + " " + gen.nativeTypeName(&td.TypeSpec, "Map") + "\n")
 }
 
 func (gen *Generator) EmitStructType(td *sadl.TypeDef, errors map[string]bool) {
-- 
2.43.0


From e022f7968a7f07dfdd1da2e9ac48f094cde96a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:16 +0000
Subject: [PATCH 46/56] fix: the domain setting of the Java generator was
 ignored

---
 java/export_java.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/java/export_java.go b/java/export_java.go
index f760c26..58bfc52 100644
--- a/java/export_java.go
+++ b/java/export_java.go
@@ -97,7 +97,7 @@ func (gen *Generator) AddImport(fullReference string) {
 func NewGenerator(model *sadl.Model, outdir string, config *sadl.Data) *Generator {
 	gen := &Generator{}
 	gen.Config = config
-	domain := gen.Config.GetString("domain", "-")
+	domain := gen.GetConfigString("domain", "")
 	if domain == "" {
 		if model.Namespace != "" {
 			domain = strings.Join(reverseStrings(strings.Split(model.Namespace, ".")), ".")
-- 
2.43.0


From 8d85ef3774486a13d1ff9ddd08156ad6f886b9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:17 +0000
Subject: [PATCH 47/56] fix: Java fields of a named Bool type named an
 undefined class

---
 java/export_java.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/java/export_java.go b/java/export_java.go
index 58bfc52..bb452c4 100644
--- a/java/export_java.go
+++ b/java/export_java.go
@@ -754,7 +754,7 @@ func (gen *Generator) TypeName(ts *sadl.TypeSpec, name string, required bool) (s
 		td := gen.Model.FindType(name)
 		if td != nil {
 			switch td.Type {
-			case "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Boolean":
+			case "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Bool":
 				return gen.TypeName(&td.TypeSpec, td.Type, required)
 			case "String":
 				return gen.TypeName(&td.TypeSpec, "String", required)
-- 
2.43.0


From 4903414709faefb72fa297ed5bdd2887993aabc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:18 +0000
Subject: [PATCH 48/56] fix: Java bound annotations were not imported, and were
 dropped for required numbers

---
 java/export_java.go | 58 +++++++++++++++++++++++++--------------------
 1 file changed, 32 insertions(+), 26 deletions(-)

diff --git a/java/export_java.go b/java/export_java.go
index bb452c4..f74d389 100644
--- a/java/export_java.go
+++ b/java/export_java.go
@@ -654,7 +654,7 @@ func (gen *Generator) TypeName(ts *sadl.TypeSpec, name string, required bool) (s
 	var annotations []string
 	if required {
 		if isPrimitive {
-			return primitiveName, nil, nil
+			return primitiveName, gen.boundAnnotations(ts, nil), nil
 		}
 		gen.AddImport("javax.validation.constraints.NotNull")
 		annotations = append(annotations, "@NotNull")
@@ -694,26 +694,10 @@ func (gen *Generator) TypeName(ts *sadl.TypeSpec, name string, required bool) (s
 		}
 		return "String", annotations, nil
 	case "Byte", "Short", "Integer", "Long", "Float", "Double":
-		if ts != nil {
-			if ts.Min != nil {
-				annotations = append(annotations, fmt.Sprintf("@Min(%s)", ts.Min.String()))
-			}
-			if ts.Max != nil {
-				annotations = append(annotations, fmt.Sprintf("@Max(%s)", ts.Max.String()))
-			}
-		}
-		return name, annotations, nil
+		return name, gen.boundAnnotations(ts, annotations), nil
 	case "Decimal":
 		gen.AddImport("java.math.BigDecimal")
-		if ts != nil {
-			if ts.Min != nil {
-				annotations = append(annotations, fmt.Sprintf("@DecimalMin(%q)", ts.Min.String()))
-			}
-			if ts.Max != nil {
-				annotations = append(annotations, fmt.Sprintf("@DecimalMax(%q)", ts.Max.String()))
-			}
-		}
-		return "BigDecimal", annotations, nil
+		return "BigDecimal", gen.decimalBoundAnnotations(ts, annotations), nil
 	case "Timestamp":
 		if gen.UseInstants {
 			gen.AddImport("java.time.Instant")
@@ -771,13 +755,7 @@ func (gen *Generator) TypeName(ts *sadl.TypeSpec, name string, required bool) (s
 				return "UUID", annotations, nil
 			case "Decimal":
 				gen.AddImport("java.math.BigDecimal")
-				if td.Min != nil {
-					annotations = append(annotations, fmt.Sprintf("@DecimalMin(%q)", td.Min.String()))
-				}
-				if td.Max != nil {
-					annotations = append(annotations, fmt.Sprintf("@DecimalMax(%q)", td.Max.String()))
-				}
-				return "BigDecimal", annotations, nil
+				return "BigDecimal", gen.decimalBoundAnnotations(&td.TypeSpec, annotations), nil
 			case "Timestamp":
 				if gen.UseInstants {
 					gen.AddImport("java.time.Instant")
@@ -797,6 +775,34 @@ func (gen *Generator) TypeName(ts *sadl.TypeSpec, name string, required bool) (s
 	}
 }
 
+func (gen *Generator) boundAnnotations(ts *sadl.TypeSpec, annotations []string) []string {
+	if ts != nil {
+		if ts.Min != nil {
+			gen.AddImport("javax.validation.constraints.Min")
+			annotations = append(annotations, fmt.Sprintf("@Min(%s)", ts.Min.String()))
+		}
+		if ts.Max != nil {
+			gen.AddImport("javax.validation.constraints.Max")
+			annotations = append(annotations, fmt.Sprintf("@Max(%s)", ts.Max.String()))
+		}
+	}
+	return annotations
+}
+
+func (gen *Generator) decimalBoundAnnotations(ts *sadl.TypeSpec, annotations []string) []string {
+	if ts != nil {
+		if ts.Min != nil {
+			gen.AddImport("javax.validation.constraints.DecimalMin")
+			annotations = append(annotations, fmt.Sprintf("@DecimalMin(%q)", ts.Min.String()))
+		}
+		if ts.Max != nil {
+			gen.AddImport("javax.validation.constraints.DecimalMax")
+			annotations = append(annotations, fmt.Sprintf("@DecimalMax(%q)", ts.Max.String()))
+		}
+	}
+	return annotations
+}
+
 func javaPackageToPath(pkg string) string {
 	return strings.Join(strings.Split(pkg, "."), "/")
 }
-- 
2.43.0


From ce4641a3897a635db4e4711450080b4010be64e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:18 +0000
Subject: [PATCH 49/56] fix: Java exception classes ignored their own fields
 named like a Throwable property

---
 java/export_java.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/java/export_java.go b/java/export_java.go
index f74d389..a9f34df 100644
--- a/java/export_java.go
+++ b/java/export_java.go
@@ -263,11 +263,15 @@ func (gen *Generator) CreateStructPojo(ts *sadl.TypeSpec, className string, inde
 	if extends != "" {
 		var ignoreFields []string
 		for _, f := range []string{"message", "stackTrace", "cause", "localizedMessage", "suppressed"} {
+			declared := false
 			for _, fd := range ts.Fields {
-				if fd.Name != f {
-					ignoreFields = append(ignoreFields, fmt.Sprintf("%q", f))
+				if fd.Name == f {
+					declared = true
 				}
 			}
+			if !declared {
+				ignoreFields = append(ignoreFields, fmt.Sprintf("%q", f))
+			}
 		}
 		gen.AddImport("com.fasterxml.jackson.annotation.JsonIgnoreProperties")
 		gen.Emit(indent + "@JsonIgnoreProperties({" + strings.Join(ignoreFields, ", ") + "})\n")
-- 
2.43.0


From 47b58d3ddb6432aa5ddc5a08fee4dfc20f9c5021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:19 +0000
Subject: [PATCH 50/56] fix: Java unit value classes used JsonCreator without
 importing it

---
 java/export_java.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/java/export_java.go b/java/export_java.go
index a9f34df..3399e84 100644
--- a/java/export_java.go
+++ b/java/export_java.go
@@ -582,6 +582,7 @@ func (gen *Generator) CreateUnionPojo(td *sadl.TypeSpec, className string) {
 func (gen *Generator) CreateUnitValuePojo(ts *sadl.TypeSpec, className string) {
 	gen.AddImport("javax.validation.constraints.NotNull")
 	gen.AddImport("com.fasterxml.jackson.annotation.JsonValue")
+	gen.AddImport("com.fasterxml.jackson.annotation.JsonCreator")
 	gen.Emit("public class " + className + " {\n\n")
 
 	valueType, _, _ := gen.TypeName(ts, ts.Value, true) //this type must be  primitive numeric type
-- 
2.43.0


From a559ce06a5b9cf75f45d8501c7f14ac1b6d5115a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:20 +0000
Subject: [PATCH 51/56] fix: Java fields of Bytes and named Any types named
 undefined classes

---
 java/export_java.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/java/export_java.go b/java/export_java.go
index 3399e84..39787d3 100644
--- a/java/export_java.go
+++ b/java/export_java.go
@@ -738,6 +738,8 @@ func (gen *Generator) TypeName(ts *sadl.TypeSpec, name string, required bool) (s
 		return name, annotations, nil
 	case "Any":
 		return "Object", annotations, nil
+	case "Bytes":
+		return "byte[]", annotations, nil
 	default:
 		//app-defined type. Parser will have already verified its existence
 		td := gen.Model.FindType(name)
@@ -755,6 +757,10 @@ func (gen *Generator) TypeName(ts *sadl.TypeSpec, name string, required bool) (s
 				if name == "Struct" {
 					return name, annotations, ts
 				}
+			case "Any":
+				return "Object", annotations, nil
+			case "Bytes":
+				return "byte[]", annotations, nil
 			case "UUID":
 				gen.AddImport("java.util.UUID")
 				return "UUID", annotations, nil
-- 
2.43.0


From 9ca09e55724c37ba7e81ad2ac9fbd7be766727b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:21 +0000
Subject: [PATCH 52/56] fix: Java code generation crashed on arrays and maps of
 unspecified items

---
 java/export_java.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/java/export_java.go b/java/export_java.go
index 39787d3..f32b13c 100644
--- a/java/export_java.go
+++ b/java/export_java.go
@@ -721,6 +721,9 @@ func (gen *Generator) TypeName(ts *sadl.TypeSpec, name string, required bool) (s
 			return "List", annotations, nil
 		}
 		td := gen.Model.FindType(ts.Items)
+		if td == nil {
+			return "List<Object>", annotations, nil
+		}
 		items, _, _ := gen.TypeName(&td.TypeSpec, ts.Items, false)
 		return "List<" + items + ">", annotations, nil
 	case "Map":
@@ -729,8 +732,11 @@ func (gen *Generator) TypeName(ts *sadl.TypeSpec, name string, required bool) (s
 			return "Map", annotations, nil
 		}
 		ktd := gen.Model.FindType(ts.Keys)
-		keys, _, _ := gen.TypeName(&ktd.TypeSpec, ts.Keys, false)
 		itd := gen.Model.FindType(ts.Items)
+		if ktd == nil || itd == nil {
+			return "Map<String,Object>", annotations, nil
+		}
+		keys, _, _ := gen.TypeName(&ktd.TypeSpec, ts.Keys, false)
 		items, _, _ := gen.TypeName(&itd.TypeSpec, ts.Items, false)
 		return "Map<" + keys + "," + items + ">", annotations, nil
 	case "UUID":
-- 
2.43.0


From a35fd04f43cad85843ec0e44d64eccd5b34c65fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:22 +0000
Subject: [PATCH 53/56] fix: Java classes with inline struct fields did not
 compile and listed nested classes in random order

---
 java/export_java.go | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/java/export_java.go b/java/export_java.go
index f32b13c..2c95b10 100644
--- a/java/export_java.go
+++ b/java/export_java.go
@@ -294,6 +294,7 @@ func (gen *Generator) CreateStructPojo(ts *sadl.TypeSpec, className string, inde
 		gen.Emit(indent + "public static class " + className + extends + " {\n")
 	}
 	nested := make(map[string]*sadl.TypeSpec, 0)
+	var nestedNames []string
 	for _, fd := range ts.Fields {
 		fname := fd.Name
 		if reservedKeyword(fname) {
@@ -313,6 +314,7 @@ func (gen *Generator) CreateStructPojo(ts *sadl.TypeSpec, className string, inde
 				return
 			}
 			nested[tn] = anonymous
+			nestedNames = append(nestedNames, tn)
 		}
 		if tanno != nil {
 			for _, anno := range tanno {
@@ -345,19 +347,26 @@ func (gen *Generator) CreateStructPojo(ts *sadl.TypeSpec, className string, inde
     }
 `)
 		}
-		if len(nested) > 0 {
-			for iname, ispec := range nested {
-				gen.CreateStructPojo(ispec, iname, indent+"    ", nil)
-			}
-		}
+	}
+	for _, iname := range nestedNames {
+		gen.CreateStructPojo(nested[iname], iname, indent+"    ", nil)
 	}
 	gen.Emit("}\n")
 }
 
+//the type of a field, which is a nested class if the field's type is an inline struct
+func (gen *Generator) fieldTypeName(fd *sadl.StructFieldDef) string {
+	tn, _, anonymous := gen.TypeName(&fd.TypeSpec, fd.Type, fd.Required)
+	if anonymous != nil {
+		tn = gen.Capitalize(fd.Name)
+	}
+	return tn
+}
+
 func (gen *Generator) EmitAllFieldsConstructor(className string, ts *sadl.TypeSpec, indent string) {
 	var args []string
 	for _, fd := range ts.Fields {
-		tn, _, _ := gen.TypeName(&fd.TypeSpec, fd.Type, fd.Required)
+		tn := gen.fieldTypeName(fd)
 		args = append(args, tn+" "+fd.Name)
 	}
 	gen.Emit(indent + "    public " + className + "(" + strings.Join(args, ", ") + ") {\n")
@@ -368,7 +377,7 @@ func (gen *Generator) EmitAllFieldsConstructor(className string, ts *sadl.TypeSp
 }
 
 func (gen *Generator) EmitGetter(className string, ts *sadl.TypeSpec, fd *sadl.StructFieldDef, indent string) {
-	tn, _, _ := gen.TypeName(&fd.TypeSpec, fd.Type, fd.Required)
+	tn := gen.fieldTypeName(fd)
 	gen.Emit(indent + "    public " + tn + " get" + gen.Capitalize(fd.Name) + "() {\n")
 	gen.Emit(indent + "        return " + fd.Name + ";\n")
 	gen.Emit(indent + "    }\n\n")
@@ -385,7 +394,7 @@ func (gen *Generator) EmitBuilder(className string, ts *sadl.TypeSpec, indent st
 	gen.Emit(indent + "@JsonPOJOBuilder(withPrefix=\"\")\n")
 	gen.Emit(indent + "public static class " + builderClass + " {\n")
 	for _, fd := range ts.Fields {
-		tn, _, _ := gen.TypeName(&fd.TypeSpec, fd.Type, fd.Required)
+		tn := gen.fieldTypeName(fd)
 		gen.Emit(indent + "    private " + tn + " " + fd.Name + ";\n")
 	}
 	gen.Emit("\n")
@@ -398,7 +407,7 @@ func (gen *Generator) EmitBuilder(className string, ts *sadl.TypeSpec, indent st
 	gen.Emit(indent + "    }\n\n")
 	var args []string
 	for _, fd := range ts.Fields {
-		tn, _, _ := gen.TypeName(&fd.TypeSpec, fd.Type, fd.Required)
+		tn := gen.fieldTypeName(fd)
 		if fd.Type == "Timestamp" {
 			if gen.UseInstants {
 				gen.NeedUtil = true
-- 
2.43.0


From 4a1dcb2ccd00c10f376673ee21bd04377dc47fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:18 +0000
Subject: [PATCH 54/56] fix: nested Java classes had neither constructors nor
 Lombok annotations when Lombok is used

---
 java/export_java.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/java/export_java.go b/java/export_java.go
index 2c95b10..e1105fe 100644
--- a/java/export_java.go
+++ b/java/export_java.go
@@ -234,7 +234,7 @@ func reservedKeyword(name string) bool {
 
 func (gen *Generator) CreateStructPojo(ts *sadl.TypeSpec, className string, indent string, exceptions map[string]string) {
 	lombok := false
-	if _, ok := exceptions[className]; !ok {
+	if _, ok := exceptions[className]; !ok && indent == "" {
 		lombok = gen.UseLombok
 	}
 	optional := false
-- 
2.43.0


From 040812abfffc7223d39a723993228a68a6aa166f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:42 +0000
Subject: [PATCH 55/56] fix: GraphQL export named types that GraphQL cannot
 express instead of reporting an error

---
 graphql/export_graphql.go | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/graphql/export_graphql.go b/graphql/export_graphql.go
index ecf5f36..894eb34 100644
--- a/graphql/export_graphql.go
+++ b/graphql/export_graphql.go
@@ -101,6 +101,9 @@ func (w *GraphqlWriter) EmitStructDef(td *sadl.TypeDef) error {
 			w.Emit("  # %s\n", strings.Replace(fd.Comment, "\n", "\n  # ", -1))
 		}
 		ftype := w.typeRef(&fd.TypeSpec)
+		if ftype == "" {
+			return fmt.Errorf("Unsupported type for GraphQL: field %s of %s (%s)", fd.Name, td.Name, fd.Type)
+		}
 		w.Emit("  %s: %s%s\n", fd.Name, ftype, required)
 	}
 	w.Emit("}\n\n")
@@ -135,6 +138,7 @@ func (w *GraphqlWriter) scalarType(name string) string {
 	}
 }
 
+// the GraphQL type, or "" if the type cannot be expressed in GraphQL
 func (w *GraphqlWriter) typeRef(ts *sadl.TypeSpec) string {
 	if td, ok := w.arrays[ts.Type]; ok {
 		ts = &td.TypeSpec
@@ -145,14 +149,19 @@ func (w *GraphqlWriter) typeRef(ts *sadl.TypeSpec) string {
 	}
 	switch ts.Type {
 	case "Array":
-		return fmt.Sprintf("[%s!]", w.typeRef(&sadl.TypeSpec{Type: ts.Items}))
+		items := w.typeRef(&sadl.TypeSpec{Type: ts.Items})
+		if items == "" {
+			return ""
+		}
+		return fmt.Sprintf("[%s!]", items)
 	default:
 		td := w.model.FindType(ts.Type)
-		if td != nil {
-			tsName = w.scalarType(td.Type)
-			if tsName != "" {
-				return tsName
-			}
+		if td == nil || td.Name == td.Type {
+			return ""
+		}
+		tsName = w.scalarType(td.Type)
+		if tsName != "" {
+			return tsName
 		}
 		return ts.Type
 	}
-- 
2.43.0


From 79b1f996c4fb6c432bc2fdaa15a33255e9a2d3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:51 +0000
Subject: [PATCH 56/56] fix: OpenAPI import crashed on an empty document

---
 openapi/model.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openapi/model.go b/openapi/model.go
index dcafb69..6e9ecaf 100644
--- a/openapi/model.go
+++ b/openapi/model.go
@@ -30,7 +30,7 @@ func Load(data []byte, format string) (*Model, error) {
 */
 
 func Validate(v3 *Model) (*Model, error) {
-	if v3.OpenAPI == "" {
+	if v3 == nil || v3.OpenAPI == "" {
 		return nil, missingFieldError("openapi", "OpenAPI")
 	}
 	if v3.Info == nil {
-- 
2.43.0

