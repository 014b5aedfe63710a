From 5b724a016937f392717ca059e99173c4dbcca5c9 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:18 +0000
Subject: [PATCH 01/35] fix: a field that is null in one record and absent in
 another is optional

---
 json_typegen_shared/src/shape.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/json_typegen_shared/src/shape.rs b/json_typegen_shared/src/shape.rs
index e496c11..f88c45e 100644
--- a/json_typegen_shared/src/shape.rs
+++ b/json_typegen_shared/src/shape.rs
@@ -115,7 +115,6 @@ impl Shape {
     pub(crate) fn into_optional(self) -> Self {
         use self::Shape::*;
         match self {
-            Null => Nullable(Box::new(self)),
             Any | Bottom | Optional(_) => self,
             non_nullable => Optional(Box::new(non_nullable)),
         }
-- 
2.43.0


From bfd838d666001ceb5dfe3f11f76831b01d5dfbe2 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:18 +0000
Subject: [PATCH 02/35] fix: do not nest Nullable when making an optional
 nullable shape nullable

---
 json_typegen_shared/src/shape.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json_typegen_shared/src/shape.rs b/json_typegen_shared/src/shape.rs
index f88c45e..6da2732 100644
--- a/json_typegen_shared/src/shape.rs
+++ b/json_typegen_shared/src/shape.rs
@@ -124,7 +124,7 @@ impl Shape {
         match self {
             Null => Nullable(Box::new(self)),
             Any | Bottom | Nullable(_) => self,
-            Optional(non_nullable) => Optional(Box::new(Nullable(non_nullable))),
+            Optional(inner) => Optional(Box::new(inner.into_nullable())),
             non_nullable => Nullable(Box::new(non_nullable)),
         }
     }
-- 
2.43.0


From f1cf25abeb3f8aaeccb09effca42c4cb8d86617d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:49 +0000
Subject: [PATCH 03/35] fix: an optional field is not a substitute for a null
 one when reusing a type

---
 json_typegen_shared/src/shape.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/json_typegen_shared/src/shape.rs b/json_typegen_shared/src/shape.rs
index 6da2732..200e595 100644
--- a/json_typegen_shared/src/shape.rs
+++ b/json_typegen_shared/src/shape.rs
@@ -138,7 +138,6 @@ impl Shape {
         }
         match (self, other) {
             (_, Bottom) => true,
-            (Optional(_), Null) => true,
             (Optional(a), Optional(b)) => a.is_acceptable_substitution_for(b),
             (VecT { elem_type: e1 }, VecT { elem_type: e2 }) => {
                 e1.is_acceptable_substitution_for(e2)
-- 
2.43.0


From 5d33beb508405101498f4f7a281987a684089094 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:21 +0000
Subject: [PATCH 04/35] fix: numbers written with an exponent are floating
 point

---
 json_typegen_shared/src/inference/jsoninfer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json_typegen_shared/src/inference/jsoninfer.rs b/json_typegen_shared/src/inference/jsoninfer.rs
index 7ec2375..80abaac 100644
--- a/json_typegen_shared/src/inference/jsoninfer.rs
+++ b/json_typegen_shared/src/inference/jsoninfer.rs
@@ -79,7 +79,7 @@ impl<T: Iterator<Item = Result<JsonToken, JsonInputErr>>> Inference<T> {
             JsonToken::True | JsonToken::False => Ok(Shape::Bool),
             JsonToken::Null => Ok(Shape::Null),
             JsonToken::Number(s) => {
-                if s.contains('.') {
+                if s.contains('.') || s.contains('e') || s.contains('E') {
                     Ok(Shape::Floating)
                 } else {
                     Ok(Shape::Integer)
-- 
2.43.0


From 27f1ef109a938fed1029aa08f30e574cad76ad45 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:52 +0000
Subject: [PATCH 05/35] fix: report malformed JSON below an opaque type hint

---
 json_typegen_shared/src/inference/jsoninfer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json_typegen_shared/src/inference/jsoninfer.rs b/json_typegen_shared/src/inference/jsoninfer.rs
index 80abaac..1ff36b5 100644
--- a/json_typegen_shared/src/inference/jsoninfer.rs
+++ b/json_typegen_shared/src/inference/jsoninfer.rs
@@ -68,7 +68,7 @@ impl<T: Iterator<Item = Result<JsonToken, JsonInputErr>>> Inference<T> {
                 }
                 HintType::OpaqueType(ref t) => {
                     hint.used.set(true);
-                    let _ = self.infer_shape(options, &Hints::new()); // parse and discard the actual value
+                    self.infer_shape(options, &Hints::new())?; // parse and discard the actual value
                     return Ok(Shape::Opaque(t.clone()));
                 }
                 _ => {}
-- 
2.43.0


From 928ce23063391afad831219d4d17b411f2d7493b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:52 +0000
Subject: [PATCH 06/35] fix: do not panic when a map hint meets an object above
 the map threshold

---
 json_typegen_shared/src/inference/jsoninfer.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/json_typegen_shared/src/inference/jsoninfer.rs b/json_typegen_shared/src/inference/jsoninfer.rs
index 1ff36b5..194304a 100644
--- a/json_typegen_shared/src/inference/jsoninfer.rs
+++ b/json_typegen_shared/src/inference/jsoninfer.rs
@@ -106,6 +106,7 @@ impl<T: Iterator<Item = Result<JsonToken, JsonInputErr>>> Inference<T> {
                     val_type: Box::new(inner),
                 })
             }
+            Shape::MapT { .. } => Ok(shape), // more fields than infer_map_threshold
             _ => {
                 panic!("Got non-object from infer_object")
             }
-- 
2.43.0


From 748ea0e5d30774d668be7821a5eed849dc618fbf Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:52 +0000
Subject: [PATCH 07/35] fix: do not apply hints to the parts of the sample that
 unwrapping skips

---
 json_typegen_shared/src/inference/jsoninfer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/json_typegen_shared/src/inference/jsoninfer.rs b/json_typegen_shared/src/inference/jsoninfer.rs
index 194304a..bd72a45 100644
--- a/json_typegen_shared/src/inference/jsoninfer.rs
+++ b/json_typegen_shared/src/inference/jsoninfer.rs
@@ -244,7 +244,7 @@ impl<T: Iterator<Item = Result<JsonToken, JsonInputErr>>> Inference<T> {
                         folded = optional_common_shape(folded, result);
                     } else {
                         // parse and discard non-matched element (could use non-inference code)
-                        let _ = self.infer_shape(options, hints)?;
+                        self.infer_shape(options, &Hints::new())?;
                     }
 
                     if let Some(&Ok(JsonToken::ObjectEnd)) = self.tokens.peek() {
@@ -274,7 +274,7 @@ impl<T: Iterator<Item = Result<JsonToken, JsonInputErr>>> Inference<T> {
                         folded = optional_common_shape(folded, result);
                     } else {
                         // parse and discard non-matched element (could use non-inference code)
-                        let _ = self.infer_shape(options, hints)?;
+                        self.infer_shape(options, &Hints::new())?;
                     }
 
                     if let Some(&Ok(JsonToken::ArrayEnd)) = self.tokens.peek() {
-- 
2.43.0


From defadb8d298de3f7cbbe87bfcb31e414e376f351 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:52 +0000
Subject: [PATCH 08/35] fix: apply index hints only to their own element beyond
 the first dozen

---
 json_typegen_shared/src/inference/jsoninfer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json_typegen_shared/src/inference/jsoninfer.rs b/json_typegen_shared/src/inference/jsoninfer.rs
index bd72a45..d28bca9 100644
--- a/json_typegen_shared/src/inference/jsoninfer.rs
+++ b/json_typegen_shared/src/inference/jsoninfer.rs
@@ -176,7 +176,7 @@ impl<T: Iterator<Item = Result<JsonToken, JsonInputErr>>> Inference<T> {
                 let shape = self.infer_shape(options, &hints.step_index(len))?;
                 shapes.push(shape);
             } else {
-                let shape = self.infer_shape(options, &hints.step_array())?;
+                let shape = self.infer_shape(options, &hints.step_index(len))?;
                 folded = common_shape(shape, folded);
             }
             len += 1;
-- 
2.43.0


From 747b96ad48434e28f911a93bcb41c1ea78f28e8d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:52 +0000
Subject: [PATCH 09/35] fix: reject lone and mispaired surrogate escapes
 instead of decoding them to something else

---
 json_typegen_shared/src/inference/jsonlex.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/json_typegen_shared/src/inference/jsonlex.rs b/json_typegen_shared/src/inference/jsonlex.rs
index 7067727..2af12e8 100644
--- a/json_typegen_shared/src/inference/jsonlex.rs
+++ b/json_typegen_shared/src/inference/jsonlex.rs
@@ -123,11 +123,18 @@ impl<R: Read> JsonLexer<R> {
                         let surrogate_offset: u32 = (0xD800 << 10) + 0xDC00 - 0x10000;
 
                         let mut codepoint = self.parse_codepoint()? as u32;
-                        if (0xD800..=0xDFFF).contains(&codepoint) {
+                        if (0xDC00..=0xDFFF).contains(&codepoint) {
+                            // second half of a surrogate pair without the first
+                            return Err(JsonInputErr::InvalidJson);
+                        }
+                        if (0xD800..=0xDBFF).contains(&codepoint) {
                             // first codepoint was the start of a surrogate pair
                             self.skip_byte(b'\\')?;
                             self.skip_byte(b'u')?;
                             let codepoint2 = self.parse_codepoint()? as u32;
+                            if !(0xDC00..=0xDFFF).contains(&codepoint2) {
+                                return Err(JsonInputErr::InvalidJson);
+                            }
                             codepoint = ((codepoint << 10) + codepoint2) - surrogate_offset;
                         };
                         let mut buf = [0u8; 4];
-- 
2.43.0


From 1652084168b1f1719b7fabd8ef285271ba5738ce Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:42 +0000
Subject: [PATCH 10/35] fix: separate the members of zod object schemas with
 commas

---
 json_typegen_shared/src/generation/zod_schema.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json_typegen_shared/src/generation/zod_schema.rs b/json_typegen_shared/src/generation/zod_schema.rs
index 6045b9b..83fcd63 100644
--- a/json_typegen_shared/src/generation/zod_schema.rs
+++ b/json_typegen_shared/src/generation/zod_schema.rs
@@ -111,7 +111,7 @@ fn generate_struct_from_field_shapes(ctxt: &mut Ctxt, map: &LinkedHashMap<String
             let escape_name = !is_ts_identifier(name);
 
             format!(
-                "{}{}{}{}: {};",
+                "{}{}{}{}: {},",
                 "    ".repeat(ctxt.indent_level),
                 if escape_name { "\"" } else { "" },
                 name,
-- 
2.43.0


From 6d278aa7262cd1b51c8557c4f9b6be7dfd42b167 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:43 +0000
Subject: [PATCH 11/35] fix: parenthesise union types that are array elements
 in TypeScript

---
 json_typegen_shared/src/generation/typescript.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/json_typegen_shared/src/generation/typescript.rs b/json_typegen_shared/src/generation/typescript.rs
index 1015214..43a46f0 100644
--- a/json_typegen_shared/src/generation/typescript.rs
+++ b/json_typegen_shared/src/generation/typescript.rs
@@ -75,6 +75,10 @@ fn type_from_shape(ctxt: &mut Ctxt, path: &str, shape: &Shape) -> (Ident, Option
 fn generate_vec_type(ctxt: &mut Ctxt, path: &str, shape: &Shape) -> (Ident, Option<Code>) {
     let singular = to_singular(path);
     let (inner, defs) = type_from_shape(ctxt, &singular, shape);
+    if matches!(shape, Shape::Optional(_) | Shape::Nullable(_)) {
+        // the element type may be a union
+        return (format!("({})[]", inner), defs);
+    }
     (format!("{}[]", inner), defs)
 }
 
-- 
2.43.0


From 3df09eab9d203d93e8811c2ef6153075d2e9e2bf Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:44 +0000
Subject: [PATCH 12/35] fix: write a well-formed naming annotation for kebab
 case in Kotlin

---
 json_typegen_shared/src/generation/kotlin.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json_typegen_shared/src/generation/kotlin.rs b/json_typegen_shared/src/generation/kotlin.rs
index ac35a2f..887c4f5 100644
--- a/json_typegen_shared/src/generation/kotlin.rs
+++ b/json_typegen_shared/src/generation/kotlin.rs
@@ -320,7 +320,7 @@ fn transform_annotation(ctxt: &mut Ctxt) -> String {
             jackson_naming_annotation(ctxt, "SnakeCaseStrategy")
         }
         (Some(StringTransform::KebabCase), OutputMode::KotlinJackson) => {
-            jackson_naming_annotation(ctxt, "KebabCaseStrategy::class)")
+            jackson_naming_annotation(ctxt, "KebabCaseStrategy")
         }
         _ => "".into(),
     }
-- 
2.43.0


From f23c6488602f23b2d8e28d2cb8580d2238087aa1 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:45 +0000
Subject: [PATCH 13/35] fix: null values need an Option in Rust also when
 missing fields have defaults

---
 json_typegen_shared/src/generation/rust.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/json_typegen_shared/src/generation/rust.rs b/json_typegen_shared/src/generation/rust.rs
index 0921a82..3b022a5 100644
--- a/json_typegen_shared/src/generation/rust.rs
+++ b/json_typegen_shared/src/generation/rust.rs
@@ -97,11 +97,7 @@ fn type_from_shape(ctxt: &mut Ctxt, path: &str, shape: &Shape) -> (Ident, Option
         }
         Nullable(e) => {
             let (inner, defs) = type_from_shape(ctxt, path, e);
-            if ctxt.options.use_default_for_missing_fields {
-                (inner, defs)
-            } else {
-                (format!("Option<{}>", inner), defs)
-            }
+            (format!("Option<{}>", inner), defs)
         }
     }
 }
-- 
2.43.0


From bc12de0100eb6501836b10aac826289534c530ff Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:54 +0000
Subject: [PATCH 14/35] fix: escape keys and titles in JSON schema and shape
 output

---
 json_typegen_shared/src/generation/value.rs |  6 ++++--
 json_typegen_shared/src/util.rs             | 15 +++++++++++++++
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/json_typegen_shared/src/generation/value.rs b/json_typegen_shared/src/generation/value.rs
index 8e117bc..a9dc6de 100644
--- a/json_typegen_shared/src/generation/value.rs
+++ b/json_typegen_shared/src/generation/value.rs
@@ -1,5 +1,7 @@
 use linked_hash_map::LinkedHashMap;
 
+use crate::util::escape_string;
+
 pub enum Value {
     Null,
     Bool(bool),
@@ -15,7 +17,7 @@ pub fn pretty_print_value(indent: usize, value: &Value) -> String {
         Value::Null => "null".to_string(),
         Value::Bool(b) => format!("{}", b),
         Value::Str(s) => format!("\"{}\"", s),
-        Value::String(s) => format!("\"{}\"", s),
+        Value::String(s) => format!("\"{}\"", escape_string(s)),
         Value::Array(values) => {
             let mut code = "[\n".to_string();
             let len = values.len();
@@ -36,7 +38,7 @@ pub fn pretty_print_value(indent: usize, value: &Value) -> String {
             let len = map.len();
             for (i, (key, val)) in map.iter().enumerate() {
                 code += &"  ".repeat(indent + 1);
-                code += &format!("\"{}\": ", key);
+                code += &format!("\"{}\": ", escape_string(key));
                 code += &pretty_print_value(indent + 1, val);
                 if i != len - 1 {
                     code += ",";
diff --git a/json_typegen_shared/src/util.rs b/json_typegen_shared/src/util.rs
index 63ac86f..b0479ab 100644
--- a/json_typegen_shared/src/util.rs
+++ b/json_typegen_shared/src/util.rs
@@ -57,6 +57,21 @@ pub fn lower_camel_case(name: &str) -> String {
     lowercase_first_letter(&s)
 }
 
+/// Escape a string for use between the double quotes of a JSON string.
+/// JavaScript, Python and (apart from `$`) Kotlin use the same escapes.
+pub fn escape_string(s: &str) -> String {
+    let mut escaped = String::new();
+    for c in s.chars() {
+        match c {
+            '"' => escaped.push_str("\\\""),
+            '\\' => escaped.push_str("\\\\"),
+            c if (c as u32) < 0x20 => escaped += &format!("\\u{:04x}", c as u32),
+            c => escaped.push(c),
+        }
+    }
+    escaped
+}
+
 // from http://stackoverflow.com/questions/38406793/.../38406885
 fn uppercase_first_letter(s: &str) -> String {
     let mut c = s.chars();
-- 
2.43.0


From 33cb4277306f6520b8f18811eee96a0e261e526b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:56 +0000
Subject: [PATCH 15/35] fix: escape JSON keys in serde rename attributes

---
 json_typegen_shared/src/generation/rust.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json_typegen_shared/src/generation/rust.rs b/json_typegen_shared/src/generation/rust.rs
index 3b022a5..2a6392a 100644
--- a/json_typegen_shared/src/generation/rust.rs
+++ b/json_typegen_shared/src/generation/rust.rs
@@ -248,7 +248,7 @@ fn generate_struct_type(
             };
             let mut field_code = String::new();
             if needs_rename {
-                field_code += &format!("    #[serde(rename = \"{}\")]\n", name)
+                field_code += &format!("    #[serde(rename = {:?})]\n", name)
             }
 
             let (is_collapsed, collapsed) = collapse_option_vec(ctxt, typ);
-- 
2.43.0


From 38e39253db6206cfebb108ec7da8dab578be9906 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:57 +0000
Subject: [PATCH 16/35] fix: escape JSON keys in Kotlin annotations

---
 json_typegen_shared/src/generation/kotlin.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/json_typegen_shared/src/generation/kotlin.rs b/json_typegen_shared/src/generation/kotlin.rs
index 887c4f5..38ecb14 100644
--- a/json_typegen_shared/src/generation/kotlin.rs
+++ b/json_typegen_shared/src/generation/kotlin.rs
@@ -5,7 +5,7 @@ use crate::OutputMode;
 use crate::options::{ImportStyle, Options, StringTransform};
 use crate::shape::{self, Shape};
 use crate::to_singular::to_singular;
-use crate::util::{kebab_case, lower_camel_case, snake_case, type_case};
+use crate::util::{escape_string, kebab_case, lower_camel_case, snake_case, type_case};
 
 struct Ctxt {
     options: Options,
@@ -227,13 +227,13 @@ fn generate_data_class(
                     field_code += &format!(
                         "    @{}(\"{}\")\n",
                         import(ctxt, "com.fasterxml.jackson.annotation.JsonProperty"),
-                        name
+                        kotlin_escape(name)
                     )
                 } else if ctxt.options.output_mode == OutputMode::KotlinKotlinx {
                     field_code += &format!(
                         "    @{}(\"{}\")\n",
                         import(ctxt, "kotlinx.serialization.SerialName"),
-                        name
+                        kotlin_escape(name)
                     )
                 }
             }
@@ -278,6 +278,10 @@ fn generate_data_class(
     (type_name, Some(code))
 }
 
+fn kotlin_escape(name: &str) -> String {
+    escape_string(name).replace('$', "\\$")
+}
+
 fn apply_transform(ctxt: &Ctxt, field_name: &str) -> String {
     match (
         &ctxt.options.property_name_format,
-- 
2.43.0


From d4112455c385d8de502b4b702c6608494ecba6d1 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:58 +0000
Subject: [PATCH 17/35] fix: escape JSON keys in TypeScript and zod output

---
 json_typegen_shared/src/generation/typescript.rs            | 4 ++--
 json_typegen_shared/src/generation/typescript_type_alias.rs | 3 ++-
 json_typegen_shared/src/generation/zod_schema.rs            | 4 ++--
 3 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/json_typegen_shared/src/generation/typescript.rs b/json_typegen_shared/src/generation/typescript.rs
index 43a46f0..722e9a0 100644
--- a/json_typegen_shared/src/generation/typescript.rs
+++ b/json_typegen_shared/src/generation/typescript.rs
@@ -4,7 +4,7 @@ use std::collections::HashSet;
 use crate::options::Options;
 use crate::shape::{self, Shape};
 use crate::to_singular::to_singular;
-use crate::util::type_case;
+use crate::util::{escape_string, type_case};
 
 pub struct Ctxt {
     options: Options,
@@ -202,7 +202,7 @@ fn generate_interface_type(
             format!(
                 "    {}{}{}{}: {};",
                 if escape_name { "\"" } else { "" },
-                name,
+                escape_string(name),
                 if escape_name { "\"" } else { "" },
                 if was_optional { "?" } else { "" },
                 field_type
diff --git a/json_typegen_shared/src/generation/typescript_type_alias.rs b/json_typegen_shared/src/generation/typescript_type_alias.rs
index c78bcff..1448f92 100644
--- a/json_typegen_shared/src/generation/typescript_type_alias.rs
+++ b/json_typegen_shared/src/generation/typescript_type_alias.rs
@@ -3,6 +3,7 @@ use linked_hash_map::LinkedHashMap;
 use crate::generation::typescript::{collapse_option, is_ts_identifier};
 use crate::options::Options;
 use crate::shape::{self, Shape, common_shape};
+use crate::util::escape_string;
 
 pub struct Ctxt {
     options: Options,
@@ -113,7 +114,7 @@ fn generate_struct_from_field_shapes(ctxt: &mut Ctxt, map: &LinkedHashMap<String
                 "{}{}{}{}{}: {};",
                 "    ".repeat(ctxt.indent_level),
                 if escape_name { "\"" } else { "" },
-                name,
+                escape_string(name),
                 if escape_name { "\"" } else { "" },
                 if was_optional { "?" } else { "" },
                 field_type
diff --git a/json_typegen_shared/src/generation/zod_schema.rs b/json_typegen_shared/src/generation/zod_schema.rs
index 83fcd63..fa22aa2 100644
--- a/json_typegen_shared/src/generation/zod_schema.rs
+++ b/json_typegen_shared/src/generation/zod_schema.rs
@@ -3,7 +3,7 @@ use linked_hash_map::LinkedHashMap;
 use crate::generation::typescript::{collapse_option, is_ts_identifier};
 use crate::options::Options;
 use crate::shape::{self, Shape, common_shape};
-use crate::util::lower_camel_case;
+use crate::util::{escape_string, lower_camel_case};
 
 pub struct Ctxt {
     options: Options,
@@ -114,7 +114,7 @@ fn generate_struct_from_field_shapes(ctxt: &mut Ctxt, map: &LinkedHashMap<String
                 "{}{}{}{}: {},",
                 "    ".repeat(ctxt.indent_level),
                 if escape_name { "\"" } else { "" },
-                name,
+                escape_string(name),
                 if escape_name { "\"" } else { "" },
                 field_type
             )
-- 
2.43.0


From 1151adb4fa47379afef1d85e57c3e92d0c7e3ad2 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:00 +0000
Subject: [PATCH 18/35] fix: the alias of a Python field is its JSON key,
 escaped

---
 json_typegen_shared/src/generation/python.rs | 23 ++++----------------
 1 file changed, 4 insertions(+), 19 deletions(-)

diff --git a/json_typegen_shared/src/generation/python.rs b/json_typegen_shared/src/generation/python.rs
index 5b086ac..a721e16 100644
--- a/json_typegen_shared/src/generation/python.rs
+++ b/json_typegen_shared/src/generation/python.rs
@@ -1,10 +1,10 @@
 use linked_hash_map::LinkedHashMap;
 use std::collections::HashSet;
 
-use crate::options::{ImportStyle, Options, StringTransform};
+use crate::options::{ImportStyle, Options};
 use crate::shape::{self, Shape};
 use crate::to_singular::to_singular;
-use crate::util::{kebab_case, lower_camel_case, snake_case, type_case};
+use crate::util::{escape_string, snake_case, type_case};
 
 #[derive(PartialEq, PartialOrd, Ord, Eq, Hash, Clone, Copy)]
 enum Import {
@@ -263,12 +263,11 @@ fn generate_data_class(
             }
 
             let mut field_code = String::new();
-            let transformed = apply_transform(ctxt, &field_name, name);
-            if transformed != field_name {
+            if name != &field_name {
                 field_code += &format!(
                     " = {}(alias=\"{}\")",
                     import(ctxt, Import::Field),
-                    transformed
+                    escape_string(name)
                 )
             }
 
@@ -301,20 +300,6 @@ fn generate_data_class(
     (type_name, Some(code))
 }
 
-fn apply_transform(ctxt: &Ctxt, field_name: &str, name: &str) -> String {
-    match ctxt.options.property_name_format {
-        Some(StringTransform::LowerCase) => field_name.to_ascii_lowercase(),
-        Some(StringTransform::PascalCase) => type_case(field_name),
-        Some(StringTransform::SnakeCase) => snake_case(field_name),
-        Some(StringTransform::KebabCase) => kebab_case(field_name),
-        Some(StringTransform::UpperCase) => field_name.to_ascii_uppercase(),
-        Some(StringTransform::CamelCase) => lower_camel_case(field_name),
-        Some(StringTransform::ScreamingSnakeCase) => snake_case(field_name).to_ascii_uppercase(),
-        Some(StringTransform::ScreamingKebabCase) => kebab_case(field_name).to_ascii_uppercase(),
-        None => name.to_string(),
-    }
-}
-
 #[cfg(test)]
 mod python_codegen_tests {
     use super::*;
-- 
2.43.0


From acc570b810cfc376ac8ccdd52acf0d00309a7cb6 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:34 +0000
Subject: [PATCH 19/35] fix: dyn and gen are Rust keywords too

---
 json_typegen_shared/src/generation/rust.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json_typegen_shared/src/generation/rust.rs b/json_typegen_shared/src/generation/rust.rs
index 2a6392a..ba2bacd 100644
--- a/json_typegen_shared/src/generation/rust.rs
+++ b/json_typegen_shared/src/generation/rust.rs
@@ -150,7 +150,7 @@ const RUST_KEYWORDS: &[&str] = &[
     "macro", "match", "mod", "move", "mut", "offsetof", "override", "priv", "proc", "pub", "pure",
     "ref", "return", "Self", "self", "sizeof", "static", "struct", "super", "trait", "true",
     "type", "typeof", "unsafe", "unsized", "use", "virtual", "where", "while", "yield", "async",
-    "await", "try",
+    "await", "try", "dyn", "gen",
 ];
 
 fn type_or_field_name(
-- 
2.43.0


From d15f557c75d144a99c4ea0ca9f0a9d72de2c83b0 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:36 +0000
Subject: [PATCH 20/35] fix: do not generate types named like the types that
 the generated code uses

---
 json_typegen_shared/src/generation/kotlin.rs | 13 +++++++++++++
 json_typegen_shared/src/generation/python.rs |  9 +++++++++
 json_typegen_shared/src/generation/rust.rs   |  9 +++++++++
 3 files changed, 31 insertions(+)

diff --git a/json_typegen_shared/src/generation/kotlin.rs b/json_typegen_shared/src/generation/kotlin.rs
index 38ecb14..bea1ee0 100644
--- a/json_typegen_shared/src/generation/kotlin.rs
+++ b/json_typegen_shared/src/generation/kotlin.rs
@@ -17,6 +17,13 @@ struct Ctxt {
 pub type Ident = String;
 pub type Code = String;
 
+/// names that the generated code uses itself, and that no generated class may take
+const RESERVED_TYPE_NAMES: &[&str] = &[
+    "Any", "Boolean", "String", "Long", "Double", "List", "Map", "Pair", "Triple",
+    "JsonProperty", "JsonNaming", "PropertyNamingStrategies", "JsonAnySetter", "JsonAnyGetter",
+    "SerialName", "Serializable",
+];
+
 pub fn kotlin_types(name: &str, shape: &Shape, options: Options) -> Code {
     let mut ctxt = Ctxt {
         options,
@@ -25,6 +32,12 @@ pub fn kotlin_types(name: &str, shape: &Shape, options: Options) -> Code {
         created_classes: Vec::new(),
     };
 
+    for reserved in RESERVED_TYPE_NAMES.iter() {
+        if *reserved != name {
+            ctxt.type_names.insert(reserved.to_string());
+        }
+    }
+
     if !matches!(shape, Shape::Struct { .. }) {
         // reserve the requested name
         ctxt.type_names.insert(name.to_string());
diff --git a/json_typegen_shared/src/generation/python.rs b/json_typegen_shared/src/generation/python.rs
index a721e16..ff83c05 100644
--- a/json_typegen_shared/src/generation/python.rs
+++ b/json_typegen_shared/src/generation/python.rs
@@ -45,6 +45,9 @@ struct Ctxt {
 pub type Ident = String;
 pub type Code = String;
 
+/// names that the generated code uses itself, and that no generated class may take
+const RESERVED_TYPE_NAMES: &[&str] = &["Any", "Optional", "BaseModel", "Field"];
+
 pub fn python_types(name: &str, shape: &Shape, options: Options) -> Code {
     let mut ctxt = Ctxt {
         options,
@@ -53,6 +56,12 @@ pub fn python_types(name: &str, shape: &Shape, options: Options) -> Code {
         created_classes: Vec::new(),
     };
 
+    for reserved in RESERVED_TYPE_NAMES.iter() {
+        if *reserved != name {
+            ctxt.type_names.insert(reserved.to_string());
+        }
+    }
+
     if !matches!(shape, Shape::Struct { .. }) {
         // reserve the requested name
         ctxt.type_names.insert(name.to_string());
diff --git a/json_typegen_shared/src/generation/rust.rs b/json_typegen_shared/src/generation/rust.rs
index ba2bacd..75c33af 100644
--- a/json_typegen_shared/src/generation/rust.rs
+++ b/json_typegen_shared/src/generation/rust.rs
@@ -17,6 +17,9 @@ pub struct Ctxt {
 pub type Ident = String;
 pub type Code = String;
 
+/// names that the generated code uses itself, and that no generated type may take
+const RESERVED_TYPE_NAMES: &[&str] = &["String", "Vec", "Option", "HashMap", "Value"];
+
 pub fn rust_types(name: &str, shape: &Shape, options: Options) -> Code {
     let mut ctxt = Ctxt {
         options,
@@ -36,6 +39,12 @@ pub fn rust_types(name: &str, shape: &Shape, options: Options) -> Code {
             .join(", ");
     };
 
+    for reserved in RESERVED_TYPE_NAMES.iter() {
+        if *reserved != name {
+            ctxt.type_names.insert(reserved.to_string());
+        }
+    }
+
     if !matches!(shape, Shape::Struct { .. }) {
         // reserve the requested name
         ctxt.type_names.insert(name.to_string());
-- 
2.43.0


From 8ffefa76b689bfe385892afbc41635a376b45228 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:37 +0000
Subject: [PATCH 21/35] fix: do not give a field the name of the field for
 additional properties

---
 json_typegen_shared/src/generation/kotlin.rs | 3 +++
 json_typegen_shared/src/generation/rust.rs   | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/json_typegen_shared/src/generation/kotlin.rs b/json_typegen_shared/src/generation/kotlin.rs
index bea1ee0..3b66eb2 100644
--- a/json_typegen_shared/src/generation/kotlin.rs
+++ b/json_typegen_shared/src/generation/kotlin.rs
@@ -226,6 +226,9 @@ fn generate_data_class(
         .push((containing_shape.clone(), type_name.clone()));
 
     let mut field_names = HashSet::new();
+    if ctxt.options.collect_additional {
+        field_names.insert("additionalFields".to_string());
+    }
     let mut defs = Vec::new();
 
     let fields: Vec<Code> = field_shapes
diff --git a/json_typegen_shared/src/generation/rust.rs b/json_typegen_shared/src/generation/rust.rs
index 75c33af..7f981cf 100644
--- a/json_typegen_shared/src/generation/rust.rs
+++ b/json_typegen_shared/src/generation/rust.rs
@@ -242,6 +242,9 @@ fn generate_struct_type(
     };
 
     let mut field_names = HashSet::new();
+    if ctxt.options.collect_additional {
+        field_names.insert("additional_fields".to_string());
+    }
     let mut defs = Vec::new();
 
     let fields: Vec<Code> = field_shapes
-- 
2.43.0


From 9a2d427ba37c04163588f5fa8e88e6f18b967a23 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:39 +0000
Subject: [PATCH 22/35] fix: TypeScript type and zod schema names never start
 with a digit

---
 json_typegen_shared/src/generation/typescript.rs | 16 ++++++----------
 json_typegen_shared/src/generation/zod_schema.rs |  5 +++++
 2 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/json_typegen_shared/src/generation/typescript.rs b/json_typegen_shared/src/generation/typescript.rs
index 722e9a0..f1254b5 100644
--- a/json_typegen_shared/src/generation/typescript.rs
+++ b/json_typegen_shared/src/generation/typescript.rs
@@ -105,19 +105,15 @@ fn generate_tuple_type(ctxt: &mut Ctxt, path: &str, shapes: &[Shape]) -> (Ident,
 
 fn type_name(name: &str, used_names: &HashSet<String>) -> Ident {
     let name = name.trim();
-    let mut output_name = if let Some(c) = name.chars().next() {
-        if c.is_ascii_digit() {
-            let temp = String::from("n") + name;
-            type_case(&temp)
-        } else {
-            type_case(name)
-        }
-    } else {
-        type_case(name)
-    };
+    let mut output_name = type_case(name);
     if output_name.is_empty() {
         output_name.push_str("GeneratedType");
     }
+    if let Some(c) = output_name.chars().next() {
+        if c.is_ascii_digit() {
+            output_name = String::from("N") + &output_name;
+        }
+    }
     if !used_names.contains(&output_name) {
         return output_name;
     }
diff --git a/json_typegen_shared/src/generation/zod_schema.rs b/json_typegen_shared/src/generation/zod_schema.rs
index fa22aa2..3a52937 100644
--- a/json_typegen_shared/src/generation/zod_schema.rs
+++ b/json_typegen_shared/src/generation/zod_schema.rs
@@ -20,6 +20,11 @@ pub fn zod_schema(name: &str, shape: &Shape, options: Options) -> Code {
 
     let code = type_from_shape(&mut ctxt, shape);
     let mut schema_name = lower_camel_case(name);
+    if let Some(c) = schema_name.chars().next() {
+        if c.is_ascii_digit() {
+            schema_name = String::from("n") + &schema_name;
+        }
+    }
     schema_name.push_str("Schema");
 
     format!("export const {} = {};\n\n", schema_name, code)
-- 
2.43.0


From afd5929e0d698585569cc7f807c5fa92ff9a9fd6 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:40 +0000
Subject: [PATCH 23/35] fix: JSON schemas admit null where null was observed

---
 json_typegen_shared/src/generation/json_schema.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/json_typegen_shared/src/generation/json_schema.rs b/json_typegen_shared/src/generation/json_schema.rs
index 6f4ad48..79424a8 100644
--- a/json_typegen_shared/src/generation/json_schema.rs
+++ b/json_typegen_shared/src/generation/json_schema.rs
@@ -53,7 +53,12 @@ fn type_from_shape(ctxt: &mut Ctxt, path: &str, shape: &Shape) -> Value {
         MapT { val_type: v } => generate_map_type(ctxt, path, v),
         Opaque(t) => Value::Object(string_hashmap! { "type" => Value::String(t.clone()) }),
         Optional(e) => type_from_shape(ctxt, path, e),
-        Nullable(e) => type_from_shape(ctxt, path, e),
+        Nullable(e) => Value::Object(string_hashmap! {
+            "anyOf" => Value::Array(vec![
+                type_from_shape(ctxt, path, e),
+                Value::Object(string_hashmap! { "type" => Value::Str("null") }),
+            ])
+        }),
     }
 }
 
-- 
2.43.0


From 9368861a8ed8c659de4ca58744aa72d6bd5534d7 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:42 +0000
Subject: [PATCH 24/35] fix: SQL input without a table is an error, not a panic

---
 json_typegen_shared/src/lib.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/json_typegen_shared/src/lib.rs b/json_typegen_shared/src/lib.rs
index 87ee91b..a330e47 100644
--- a/json_typegen_shared/src/lib.rs
+++ b/json_typegen_shared/src/lib.rs
@@ -112,8 +112,14 @@ pub fn codegen(name: &str, input: &str, mut options: Options) -> Result<String,
     let shape = match options.input_mode {
         options::InputMode::Sql => {
             let shapes = sql::sql_to_shape(input).map_err(JTError::SqlParsingError)?;
-            let (_name, shap) = shapes.get(0).unwrap();
-            shap.clone()
+            match shapes.first() {
+                Some((_name, shape)) => shape.clone(),
+                None => {
+                    return Err(JTError::SqlParsingError(
+                        "no table definition found".to_string(),
+                    ));
+                }
+            }
         }
         options::InputMode::Json => infer_from_sample(&source, &options, &hints)?,
     };
-- 
2.43.0


From 608665a2609e300b232e7a65c34c796289f2e4bf Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:43 +0000
Subject: [PATCH 25/35] fix: a Python class does not refer to itself while it
 is being defined

---
 json_typegen_shared/src/generation/python.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/json_typegen_shared/src/generation/python.rs b/json_typegen_shared/src/generation/python.rs
index ff83c05..bafdd73 100644
--- a/json_typegen_shared/src/generation/python.rs
+++ b/json_typegen_shared/src/generation/python.rs
@@ -251,9 +251,6 @@ fn generate_data_class(
 
     let type_name = type_name(path, &ctxt.type_names);
     ctxt.type_names.insert(type_name.clone());
-    ctxt.created_classes
-        .push((containing_shape.clone(), type_name.clone()));
-
     let mut field_names = HashSet::new();
     let mut defs = Vec::new();
 
@@ -284,6 +281,10 @@ fn generate_data_class(
         })
         .collect();
 
+    // only now, since a class can not be referred to before its definition
+    ctxt.created_classes
+        .push((containing_shape.clone(), type_name.clone()));
+
     let mut code = String::new();
 
     code += &format!(
-- 
2.43.0


From 050091c8e29d9efb5080300589b48078d7cd3a53 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:45 +0000
Subject: [PATCH 26/35] fix: import derives only when there is a struct to
 derive them for

---
 json_typegen_shared/src/generation/rust.rs | 26 ++++++++++++----------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/json_typegen_shared/src/generation/rust.rs b/json_typegen_shared/src/generation/rust.rs
index 7f981cf..f4042f5 100644
--- a/json_typegen_shared/src/generation/rust.rs
+++ b/json_typegen_shared/src/generation/rust.rs
@@ -28,17 +28,6 @@ pub fn rust_types(name: &str, shape: &Shape, options: Options) -> Code {
         created_structs: Vec::new(),
     };
 
-    if ctxt.options.import_style != ImportStyle::QualifiedPaths {
-        ctxt.options.derives = ctxt
-            .options
-            .derives
-            .clone()
-            .split(',')
-            .map(|s| import(&mut ctxt, s.trim()))
-            .collect::<Vec<_>>()
-            .join(", ");
-    };
-
     for reserved in RESERVED_TYPE_NAMES.iter() {
         if *reserved != name {
             ctxt.type_names.insert(reserved.to_string());
@@ -218,6 +207,19 @@ fn import(ctxt: &mut Ctxt, qualified: &str) -> String {
     }
 }
 
+fn derives(ctxt: &mut Ctxt) -> String {
+    if ctxt.options.import_style == ImportStyle::QualifiedPaths {
+        return ctxt.options.derives.clone();
+    }
+    ctxt.options
+        .derives
+        .clone()
+        .split(',')
+        .map(|s| import(ctxt, s.trim()))
+        .collect::<Vec<_>>()
+        .join(", ")
+}
+
 fn generate_struct_type(
     ctxt: &mut Ctxt,
     path: &str,
@@ -284,7 +286,7 @@ fn generate_struct_type(
         })
         .collect();
 
-    let mut code = format!("#[derive({})]\n", ctxt.options.derives);
+    let mut code = format!("#[derive({})]\n", derives(ctxt));
 
     if ctxt.options.deny_unknown_fields {
         code += "#[serde(deny_unknown_fields)]\n";
-- 
2.43.0


From 79e41c23a7b39938751f438d3bc3d27d3fe786cc Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:22 +0000
Subject: [PATCH 27/35] fix: a Python field never has the name of a class

---
 json_typegen_shared/src/generation/python.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/json_typegen_shared/src/generation/python.rs b/json_typegen_shared/src/generation/python.rs
index bafdd73..a28c722 100644
--- a/json_typegen_shared/src/generation/python.rs
+++ b/json_typegen_shared/src/generation/python.rs
@@ -214,7 +214,8 @@ fn type_or_field_name(
     }
     if let Some(c) = output_name.chars().next() {
         if c.is_ascii_digit() {
-            output_name = String::from("n") + &output_name;
+            // "n" for fields, "N" for classes, so that a field never hides its own class
+            output_name = case_fn("n") + &output_name;
         }
     }
     if !used_names.contains(&output_name) {
-- 
2.43.0


From dfc62885b4d2f72048a19abf36347b91c111e8ae Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:22 +0000
Subject: [PATCH 28/35] fix: count array elements as usize while unwrapping

The index was an i32, so a sample array with more than 2^31 elements overflowed.
---
 json_typegen_shared/src/inference/jsoninfer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json_typegen_shared/src/inference/jsoninfer.rs b/json_typegen_shared/src/inference/jsoninfer.rs
index d28bca9..e75e77b 100644
--- a/json_typegen_shared/src/inference/jsoninfer.rs
+++ b/json_typegen_shared/src/inference/jsoninfer.rs
@@ -266,7 +266,7 @@ impl<T: Iterator<Item = Result<JsonToken, JsonInputErr>>> Inference<T> {
 
                 let mut folded = None;
 
-                for index in 0.. {
+                for index in 0usize.. {
                     if *first_token == "-"
                         || (first_token_is_numeric && *first_token == index.to_string())
                     {
-- 
2.43.0


From ed8c3cde24dfb1f8453ceb4962a949ac61964c9a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:28 +0000
Subject: [PATCH 29/35] fix: `typeof` is a reserved word in Kotlin

---
 json_typegen_shared/src/generation/kotlin.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json_typegen_shared/src/generation/kotlin.rs b/json_typegen_shared/src/generation/kotlin.rs
index 3b66eb2..8fe6e2f 100644
--- a/json_typegen_shared/src/generation/kotlin.rs
+++ b/json_typegen_shared/src/generation/kotlin.rs
@@ -157,7 +157,7 @@ fn type_name(name: &str, used_names: &HashSet<String>) -> Ident {
 const KOTLIN_KEYWORDS: &[&str] = &[
     "as", "break", "class", "continue", "do", "else", "false", "for", "fun", "if", "in",
     "interface", "is", "null", "object", "package", "return", "super", "this", "throw", "true",
-    "try", "typealias", "val", "var", "when", "while",
+    "try", "typealias", "typeof", "val", "var", "when", "while",
 ];
 
 fn type_or_field_name(
-- 
2.43.0


From a3c161901a0a0d3122e20b648eb4770f4265e3fa Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:45 +0000
Subject: [PATCH 30/35] fix: SQL columns with quoted names keep their name
 without the quotes

---
 json_typegen_shared/src/sql.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json_typegen_shared/src/sql.rs b/json_typegen_shared/src/sql.rs
index d16fa1d..d26ffb4 100644
--- a/json_typegen_shared/src/sql.rs
+++ b/json_typegen_shared/src/sql.rs
@@ -15,7 +15,7 @@ pub fn sql_to_shape(input: &str) -> Result<Vec<(String, Shape)>, String> {
                     fields: columns
                         .iter()
                         .map(|column: &ColumnDef| {
-                            (column.name.to_string(), shape_for_column(column))
+                            (column.name.value.clone(), shape_for_column(column))
                         })
                         .collect(),
                 },
-- 
2.43.0


From 1c55c4e841be7cf12d6049e1b29a9d39e3ea602c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:51 +0000
Subject: [PATCH 31/35] fix: SQL columns that are the primary key are not
 nullable

---
 json_typegen_shared/src/sql.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/json_typegen_shared/src/sql.rs b/json_typegen_shared/src/sql.rs
index d26ffb4..889bc8c 100644
--- a/json_typegen_shared/src/sql.rs
+++ b/json_typegen_shared/src/sql.rs
@@ -83,7 +83,12 @@ fn shape_for_column(column: &ColumnDef) -> Shape {
     let nullable = !column
         .options
         .iter()
-        .any(|option| matches!(option.option, ColumnOption::NotNull));
+        .any(|option| {
+            matches!(
+                option.option,
+                ColumnOption::NotNull | ColumnOption::Unique { is_primary: true }
+            )
+        });
     if nullable {
         base_shape.into_nullable()
     } else {
-- 
2.43.0


From 7dcba3795554df94e800ff45a9411fa728e413c3 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:26 +0000
Subject: [PATCH 32/35] fix: keep the requested root name free when it becomes
 a type alias

---
 json_typegen_shared/src/generation/kotlin.rs | 2 +-
 json_typegen_shared/src/generation/python.rs | 2 +-
 json_typegen_shared/src/generation/rust.rs   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/json_typegen_shared/src/generation/kotlin.rs b/json_typegen_shared/src/generation/kotlin.rs
index 8fe6e2f..a4176f6 100644
--- a/json_typegen_shared/src/generation/kotlin.rs
+++ b/json_typegen_shared/src/generation/kotlin.rs
@@ -38,7 +38,7 @@ pub fn kotlin_types(name: &str, shape: &Shape, options: Options) -> Code {
         }
     }
 
-    if !matches!(shape, Shape::Struct { .. }) {
+    if !matches!(shape, Shape::Struct { .. }) || type_name(name, &ctxt.type_names) != name {
         // reserve the requested name
         ctxt.type_names.insert(name.to_string());
     }
diff --git a/json_typegen_shared/src/generation/python.rs b/json_typegen_shared/src/generation/python.rs
index a28c722..f98201d 100644
--- a/json_typegen_shared/src/generation/python.rs
+++ b/json_typegen_shared/src/generation/python.rs
@@ -62,7 +62,7 @@ pub fn python_types(name: &str, shape: &Shape, options: Options) -> Code {
         }
     }
 
-    if !matches!(shape, Shape::Struct { .. }) {
+    if !matches!(shape, Shape::Struct { .. }) || type_name(name, &ctxt.type_names) != name {
         // reserve the requested name
         ctxt.type_names.insert(name.to_string());
     }
diff --git a/json_typegen_shared/src/generation/rust.rs b/json_typegen_shared/src/generation/rust.rs
index f4042f5..1b0fbbf 100644
--- a/json_typegen_shared/src/generation/rust.rs
+++ b/json_typegen_shared/src/generation/rust.rs
@@ -34,7 +34,7 @@ pub fn rust_types(name: &str, shape: &Shape, options: Options) -> Code {
         }
     }
 
-    if !matches!(shape, Shape::Struct { .. }) {
+    if !matches!(shape, Shape::Struct { .. }) || type_name(name, &ctxt.type_names) != name {
         // reserve the requested name
         ctxt.type_names.insert(name.to_string());
     }
-- 
2.43.0


From 08d3de1b15d1eb399c2a2c3ee0a892a1fe1a60c3 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:27 +0000
Subject: [PATCH 33/35] fix: Python fields with an alias do not hide the types
 other annotations use

---
 json_typegen_shared/src/generation/python.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/json_typegen_shared/src/generation/python.rs b/json_typegen_shared/src/generation/python.rs
index f98201d..eac80eb 100644
--- a/json_typegen_shared/src/generation/python.rs
+++ b/json_typegen_shared/src/generation/python.rs
@@ -198,6 +198,11 @@ const PYTHON_KEYWORDS: &[&str] = &[
     "raise", "return", "try", "while", "with", "yield",
 ];
 
+/// names that the generated annotations use, and that a field given a value would hide
+const ANNOTATION_NAMES: &[&str] = &[
+    "bool", "str", "int", "float", "list", "dict", "tuple", "typing", "pydantic",
+];
+
 fn type_or_field_name(
     name: &str,
     used_names: &HashSet<String>,
@@ -258,7 +263,15 @@ fn generate_data_class(
     let fields: Vec<Code> = field_shapes
         .iter()
         .map(|(name, typ)| {
-            let field_name = field_name(name, &field_names);
+            let mut unique_name = field_name(name, &field_names);
+            if name != &unique_name && ANNOTATION_NAMES.contains(&&*unique_name) {
+                let mut used_names = field_names.clone();
+                for annotation_name in ANNOTATION_NAMES.iter() {
+                    used_names.insert(annotation_name.to_string());
+                }
+                unique_name = field_name(name, &used_names);
+            }
+            let field_name = unique_name;
             field_names.insert(field_name.clone());
 
             let (field_type, child_defs) = type_from_shape(ctxt, name, typ);
-- 
2.43.0


From c6d17190b2eed01693e7b38bd973f0d54e5177ae Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:21 +0000
Subject: [PATCH 34/35] fix: Python fields do not take the names of BaseModel's
 attributes

---
 json_typegen_shared/src/generation/python.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/json_typegen_shared/src/generation/python.rs b/json_typegen_shared/src/generation/python.rs
index eac80eb..7a167b8 100644
--- a/json_typegen_shared/src/generation/python.rs
+++ b/json_typegen_shared/src/generation/python.rs
@@ -198,6 +198,12 @@ const PYTHON_KEYWORDS: &[&str] = &[
     "raise", "return", "try", "while", "with", "yield",
 ];
 
+/// attributes of pydantic's BaseModel, which it does not let fields take the name of
+const BASE_MODEL_ATTRIBUTES: &[&str] = &[
+    "construct", "copy", "dict", "from_orm", "json", "parse_file", "parse_obj", "parse_raw",
+    "schema", "schema_json", "update_forward_refs", "validate",
+];
+
 /// names that the generated annotations use, and that a field given a value would hide
 const ANNOTATION_NAMES: &[&str] = &[
     "bool", "str", "int", "float", "list", "dict", "tuple", "typing", "pydantic",
@@ -211,7 +217,7 @@ fn type_or_field_name(
 ) -> Ident {
     let name = name.trim();
     let mut output_name = case_fn(name);
-    if PYTHON_KEYWORDS.contains(&&*output_name) {
+    if PYTHON_KEYWORDS.contains(&&*output_name) || BASE_MODEL_ATTRIBUTES.contains(&&*output_name) {
         output_name.push_str("_field");
     }
     if output_name.is_empty() {
-- 
2.43.0


From f8852f79167b80819dbc6308ee7942035834e908 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:28 +0000
Subject: [PATCH 35/35] fix: the command-line tool emptied the output file
 before it knew whether generation succeeds

---
 json_typegen_cli/src/main.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/json_typegen_cli/src/main.rs b/json_typegen_cli/src/main.rs
index c6b2664..93835c9 100644
--- a/json_typegen_cli/src/main.rs
+++ b/json_typegen_cli/src/main.rs
@@ -86,6 +86,9 @@ fn main_with_result() -> Result<(), Box<dyn std::error::Error>> {
         codegen(name, &input, options)
     };
 
+    // before the output file is opened, which empties it
+    let code = code?;
+
     if let Some(filename) = matches.value_of("output") {
         let mut file = OpenOptions::new()
             .read(true)
@@ -94,9 +97,9 @@ fn main_with_result() -> Result<(), Box<dyn std::error::Error>> {
             .truncate(true)
             .open(filename)?;
 
-        file.write_all(code?.as_bytes())?;
+        file.write_all(code.as_bytes())?;
     } else {
-        print!("{}", code?);
+        print!("{}", code);
     }
 
     Ok(())
-- 
2.43.0

