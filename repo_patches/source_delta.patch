From b56bb3ee0fdc45272f769adce4fd3676bc41044a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:53 +0000
Subject: [PATCH 01/13] fix: generate valid Rust for struct fields named after
 keywords

The local variables for struct fields were named by writing an underscore
followed by the escaped identifier, as in `_r#type`, which isn't valid Rust. An
identifier with a leading underscore is never a keyword, so it needs no escaping.
---
 src/generate_rust.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/generate_rust.rs b/src/generate_rust.rs
index e5d76d0..dc7e780 100644
--- a/src/generate_rust.rs
+++ b/src/generate_rust.rs
@@ -643,7 +643,7 @@ fn write_schema<T: Write>(
                     for field in &declaration.fields {
                         write_indentation(buffer, indentation + 2)?;
                         write!(buffer, "let _")?;
-                        write_identifier(buffer, &field.name, Snake, None)?;
+                        write!(buffer, "{}", field.name.snake_case())?;
                         match field.rule {
                             schema::Rule::Asymmetric | schema::Rule::Required => {
                                 write!(buffer, " = {{ let payload = &self.")?;
@@ -693,12 +693,12 @@ fn write_schema<T: Write>(
                     match field.rule {
                         schema::Rule::Asymmetric | schema::Rule::Required => {
                             write!(buffer, "{{ let payload_atlas = &_")?;
-                            write_identifier(buffer, &field.name, Snake, None)?;
+                            write!(buffer, "{}", field.name.snake_case())?;
                             write!(buffer, "; let payload_size = ")?;
                         }
                         schema::Rule::Optional => {
                             write!(buffer, "_")?;
-                            write_identifier(buffer, &field.name, Snake, None)?;
+                            write!(buffer, "{}", field.name.snake_case())?;
                             write!(
                                 buffer,
                                 ".as_ref().map_or(0_usize, |payload_atlas| {{ let payload_size = ",
@@ -726,7 +726,7 @@ fn write_schema<T: Write>(
                     write_indentation(buffer, indentation + 3)?;
                     write_identifier(buffer, &field.name, Snake, None)?;
                     write!(buffer, ": _")?;
-                    write_identifier(buffer, &field.name, Snake, None)?;
+                    write!(buffer, "{}", field.name.snake_case())?;
                     writeln!(buffer, ",")?;
                 }
                 write_indentation(buffer, indentation + 2)?;
@@ -818,7 +818,7 @@ fn write_schema<T: Write>(
                     for field in &declaration.fields {
                         write_indentation(buffer, indentation + 2)?;
                         write!(buffer, "let mut _")?;
-                        write_identifier(buffer, &field.name, Snake, None)?;
+                        write!(buffer, "{}", field.name.snake_case())?;
                         write!(buffer, ": Option<")?;
                         write_type(buffer, &imports, namespace, &field.r#type.variant, In)?;
                         writeln!(buffer, "> = None;")?;
@@ -875,7 +875,7 @@ fn write_schema<T: Write>(
                     )?;
                     write_indentation(buffer, indentation + 5)?;
                     write!(buffer, "_")?;
-                    write_identifier(buffer, &field.name, Snake, None)?;
+                    write!(buffer, "{}", field.name.snake_case())?;
                     writeln!(buffer, ".get_or_insert(payload);")?;
                     write_indentation(buffer, indentation + 4)?;
                     writeln!(buffer, "}}")?;
@@ -913,7 +913,7 @@ fn write_schema<T: Write>(
                                     write!(buffer, "|| ")?;
                                 }
                                 write!(buffer, "_")?;
-                                write_identifier(buffer, &field.name, Snake, None)?;
+                                write!(buffer, "{}", field.name.snake_case())?;
                                 write!(buffer, ".is_none()")?;
                             }
                         }
@@ -940,7 +940,7 @@ fn write_schema<T: Write>(
                     write_indentation(buffer, indentation + 3)?;
                     write_identifier(buffer, &field.name, Snake, None)?;
                     write!(buffer, ": _")?;
-                    write_identifier(buffer, &field.name, Snake, None)?;
+                    write!(buffer, "{}", field.name.snake_case())?;
                     match field.rule {
                         schema::Rule::Asymmetric | schema::Rule::Optional => {}
                         schema::Rule::Required => {
-- 
2.43.0


From 827f2d7bca0d7a106655507d14e442b87ec8e8f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:27 +0000
Subject: [PATCH 02/13] fix: generate valid Rust for identifiers which can't be
 raw

`Self`, `crate`, `self` and `super` are keywords which Rust doesn't accept as raw
identifiers, so the generated code didn't compile. They now get a leading
underscore, as keywords do in the TypeScript code.
---
 src/generate_rust.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/generate_rust.rs b/src/generate_rust.rs
index dc7e780..f555a61 100644
--- a/src/generate_rust.rs
+++ b/src/generate_rust.rs
@@ -73,6 +73,9 @@ const RUST_KEYWORDS: &[&str] = &[
     "yield",
 ];
 
+// These keywords can't be used as raw identifiers.
+const UNESCAPABLE_RUST_KEYWORDS: &[&str] = &["Self", "crate", "self", "super"];
+
 // This struct represents a tree of schemas organized in a module hierarchy.
 #[derive(Clone, Debug)]
 struct Module {
@@ -1744,7 +1747,12 @@ fn write_identifier<T: Write>(
         CaseConvention::Snake => identifier_with_suffix.snake_case(),
     };
 
-    if RUST_KEYWORDS
+    if UNESCAPABLE_RUST_KEYWORDS
+        .iter()
+        .any(|keyword| converted_identifier == *keyword)
+    {
+        write!(buffer, "_")?;
+    } else if RUST_KEYWORDS
         .iter()
         .any(|keyword| converted_identifier == *keyword)
     {
-- 
2.43.0


From e3b2be2f06ab54b97d8a29ed1ff9fa25262f2b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:03 +0000
Subject: [PATCH 03/13] fix: report a comment at the end of a file instead of
 panicking

A comment which isn't followed by a declaration, at the end of a file, made the
parser index past the last token.
---
 src/parser.rs | 35 ++++++++++++++++++-----------------
 1 file changed, 18 insertions(+), 17 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 39c70ad..a375ec1 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -312,24 +312,25 @@ fn parse_schema(
         };
 
         // Parse the keyword [tag:keyword_is_struct_or_choice].
-        let keyword =
-            if let token::Variant::Struct | token::Variant::Choice = tokens[*position].variant {
-                tokens[*position].variant.clone()
-            } else {
-                errors.push(unexpected_token(
-                    source_path,
-                    source_contents,
-                    tokens,
-                    *position,
-                    "a declaration",
-                ));
-
-                return schema::Schema {
-                    comment,
-                    imports,
-                    declarations,
-                };
+        let keyword = if let Some(variant @ (token::Variant::Struct | token::Variant::Choice)) =
+            tokens.get(*position).map(|token| &token.variant)
+        {
+            variant.clone()
+        } else {
+            errors.push(unexpected_token(
+                source_path,
+                source_contents,
+                tokens,
+                *position,
+                "a declaration",
+            ));
+
+            return schema::Schema {
+                comment,
+                imports,
+                declarations,
             };
+        };
         *position += 1;
 
         // Parse the name.
-- 
2.43.0


From fc947825e5f2c618c5e6c9d97d24711b6c57f64d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:57 +0000
Subject: [PATCH 04/13] fix: report files which correspond to the same
 namespace

A file was considered to be loaded already if another file with the same namespace was,
so it was silently ignored and references to it resolved to the other file. The error
for that situation couldn't be reached.
---
 src/schema_loader.rs | 56 +++++++++++++++++++++++---------------------
 1 file changed, 29 insertions(+), 27 deletions(-)

diff --git a/src/schema_loader.rs b/src/schema_loader.rs
index 4dbdb43..b2bb391 100644
--- a/src/schema_loader.rs
+++ b/src/schema_loader.rs
@@ -71,29 +71,31 @@ pub fn load_schemas(
     // compute this by canonicalizing `base_path`, since `base_path` might have zero components,
     // which is considered invalid for canonicalization. So, instead, we canonicalize `schma_path`
     // and take the parent of the result.
-    let canonical_base_path = match schema_path
-        .canonicalize()
-        .and_then(|canonical_schema_path| {
-            canonical_schema_path
-                .parent()
-                .map(ToOwned::to_owned)
-                .ok_or_else(|| io::Error::from(ErrorKind::Other))
-        }) {
-        Ok(canonical_base_path) => canonical_base_path,
-        Err(error) => {
-            errors.push(throw(
-                &format!(
-                    "{} is not a file.",
-                    schema_path.to_string_lossy().code_str(),
-                ),
-                None,
-                None,
-                Some(error),
-            ));
+    let (canonical_schema_path, canonical_base_path) =
+        match schema_path
+            .canonicalize()
+            .and_then(|canonical_schema_path| {
+                canonical_schema_path
+                    .parent()
+                    .map(ToOwned::to_owned)
+                    .map(|canonical_base_path| (canonical_schema_path, canonical_base_path))
+                    .ok_or_else(|| io::Error::from(ErrorKind::Other))
+            }) {
+            Ok(canonical_paths) => canonical_paths,
+            Err(error) => {
+                errors.push(throw(
+                    &format!(
+                        "{} is not a file.",
+                        schema_path.to_string_lossy().code_str(),
+                    ),
+                    None,
+                    None,
+                    Some(error),
+                ));
 
-            return Err(errors);
-        }
-    };
+                return Err(errors);
+            }
+        };
 
     // Relative to the base directory, the path to the schema is the name of the schema file
     // [tag:based_schema_path_is_file_name].
@@ -124,8 +126,8 @@ pub fn load_schemas(
         based_schema_path.to_owned(),
         None as Option<(PathBuf, String)>,
     )];
-    let mut visited_namespaces = HashSet::new();
-    visited_namespaces.insert(schema_namespace);
+    let mut visited = HashSet::new();
+    visited.insert((schema_namespace, canonical_schema_path));
 
     // Perform a depth-first traversal of the transitive dependencies.
     while let Some((namespace, path, origin)) = schemas_to_load.pop() {
@@ -228,9 +230,9 @@ pub fn load_schemas(
             let import_namespace = path_to_namespace(&based_import_path);
             import.namespace = Some(import_namespace.clone());
 
-            // Visit this import if it hasn't been visited already.
-            if !visited_namespaces.contains(&import_namespace) {
-                visited_namespaces.insert(import_namespace.clone());
+            // Visit this import if it hasn't been visited already. Note that different files may
+            // correspond to the same namespace, in which case we report an error below.
+            if visited.insert((import_namespace.clone(), canonical_import_path)) {
                 schemas_to_load.push((
                     import_namespace,
                     based_import_path,
-- 
2.43.0


From dd8ed60b486142e317f0258b2043b9a4c10085fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:48 +0000
Subject: [PATCH 05/13] fix: only break the lines of comments at spaces when
 formatting

Comments were also broken after hyphens, inside long words and at other places where
Unicode allows a line break. Since the lines of a comment are joined with spaces when
it's parsed again, that changed the text of the comment, and formatting the result
again changed it once more.
---
 src/schema.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/schema.rs b/src/schema.rs
index a23bcdb..a845d11 100644
--- a/src/schema.rs
+++ b/src/schema.rs
@@ -13,6 +13,7 @@ use {
         fmt::{self, Display, Formatter, Write},
         path::PathBuf,
     },
+    textwrap::{word_separators::AsciiSpace, word_splitters::NoHyphenation},
 };
 
 const MAX_COLUMNS: usize = 79;
@@ -127,7 +128,14 @@ fn write_comment<W: Write>(indentation: &str, paragraphs: &[String], f: &mut W)
             writeln!(f, "{indentation}#")?;
         }
 
-        for line in textwrap::fill(paragraph, MAX_COLUMNS - indentation.len() - 2).lines() {
+        // Only break lines at spaces, since the lines will be joined with spaces when the comment is
+        // parsed again.
+        let options = textwrap::Options::new(MAX_COLUMNS - indentation.len() - 2)
+            .break_words(false)
+            .word_separator(AsciiSpace)
+            .word_splitter(NoHyphenation);
+
+        for line in textwrap::fill(paragraph, options).lines() {
             writeln!(f, "{indentation}# {line}")?;
         }
     }
-- 
2.43.0


From b4ef04d3aa9d581bb6f9d65096ca50475a2e05bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:37 +0000
Subject: [PATCH 06/13] fix: keep the sigil of identifiers which look like
 keywords when formatting

The formatter wrote `$struct` as `struct`, which can't be parsed again.
---
 src/schema.rs    | 49 +++++++++++++++++++++++++++++++++++++++---------
 src/tokenizer.rs |  2 +-
 2 files changed, 41 insertions(+), 10 deletions(-)

diff --git a/src/schema.rs b/src/schema.rs
index a845d11..076d3ce 100644
--- a/src/schema.rs
+++ b/src/schema.rs
@@ -7,6 +7,7 @@ use {
             DELETED_KEYWORD, F64_KEYWORD, IMPORT_KEYWORD, OPTIONAL_KEYWORD, S64_KEYWORD,
             STRING_KEYWORD, STRUCT_KEYWORD, U64_KEYWORD, UNIT_KEYWORD,
         },
+        tokenizer::RAW_IDENTIFIER_SIGIL,
     },
     std::{
         collections::{BTreeMap, BTreeSet},
@@ -18,6 +19,23 @@ use {
 
 const MAX_COLUMNS: usize = 79;
 
+const KEYWORDS: &[&str] = &[
+    ASYMMETRIC_KEYWORD,
+    AS_KEYWORD,
+    BOOL_KEYWORD,
+    BYTES_KEYWORD,
+    CHOICE_KEYWORD,
+    DELETED_KEYWORD,
+    F64_KEYWORD,
+    IMPORT_KEYWORD,
+    OPTIONAL_KEYWORD,
+    S64_KEYWORD,
+    STRING_KEYWORD,
+    STRUCT_KEYWORD,
+    U64_KEYWORD,
+    UNIT_KEYWORD,
+];
+
 #[derive(Clone, Debug)]
 pub struct Schema {
     pub comment: Vec<String>,
@@ -143,6 +161,15 @@ fn write_comment<W: Write>(indentation: &str, paragraphs: &[String], f: &mut W)
     Ok(())
 }
 
+// Write a case-converted identifier such that it will be parsed as an identifier again.
+fn write_identifier<W: Write>(identifier: &str, f: &mut W) -> fmt::Result {
+    if KEYWORDS.contains(&identifier) || !identifier.starts_with(char::is_alphabetic) {
+        write!(f, "{RAW_IDENTIFIER_SIGIL}")?;
+    }
+
+    write!(f, "{identifier}")
+}
+
 impl Schema {
     fn write<W: Write>(&self, f: &mut W) -> fmt::Result {
         write_comment("", &self.comment, f)?;
@@ -182,14 +209,15 @@ impl Import {
         {
             writeln!(f, "{} '{}'", IMPORT_KEYWORD, self.path.display())
         } else {
-            writeln!(
+            write!(
                 f,
-                "{} '{}' {} {}",
+                "{} '{}' {} ",
                 IMPORT_KEYWORD,
                 self.path.display(),
                 AS_KEYWORD,
-                name.snake_case(),
-            )
+            )?;
+            write_identifier(&name.snake_case(), f)?;
+            writeln!(f)
         }
     }
 }
@@ -200,7 +228,9 @@ impl Declaration {
 
         self.variant.write(f)?;
 
-        writeln!(f, " {} {{", self.name.pascal_case())?;
+        write!(f, " ")?;
+        write_identifier(&self.name.pascal_case(), f)?;
+        writeln!(f, " {{")?;
 
         let mut previous_field_has_comment = false;
 
@@ -257,7 +287,7 @@ impl Field {
             }
         }
 
-        write!(f, "{}", self.name.snake_case())?;
+        write_identifier(&self.name.snake_case(), f)?;
 
         if let TypeVariant::Unit = self.r#type.variant {
         } else {
@@ -289,10 +319,11 @@ impl TypeVariant {
             }
             Self::Custom(import, name) => {
                 if let Some(import) = import {
-                    write!(f, "{}.{}", import.snake_case(), name.pascal_case())?;
-                } else {
-                    write!(f, "{}", name.pascal_case())?;
+                    write_identifier(&import.snake_case(), f)?;
+                    write!(f, ".")?;
                 }
+
+                write_identifier(&name.pascal_case(), f)?;
             }
             Self::F64 => {
                 write!(f, "{F64_KEYWORD}")?;
diff --git a/src/tokenizer.rs b/src/tokenizer.rs
index d02ca21..e6d5dc7 100644
--- a/src/tokenizer.rs
+++ b/src/tokenizer.rs
@@ -13,7 +13,7 @@ use {
 };
 
 // An identifier can be prefixed with this character to avoid being parsed as a keyword.
-const RAW_IDENTIFIER_SIGIL: char = '$';
+pub const RAW_IDENTIFIER_SIGIL: char = '$';
 
 // Tokenize the contents of a schema file.
 #[allow(clippy::cognitive_complexity)]
-- 
2.43.0


From 0fd9c4ed9697873b0dc3ef99cb5452bf1c2a1d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:07 +0000
Subject: [PATCH 07/13] fix: show the line of an unexpected symbol which starts
 a line

The source range of the error was empty, and there is no listing for an empty range at
the start of a line.
---
 src/tokenizer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tokenizer.rs b/src/tokenizer.rs
index e6d5dc7..153e9ae 100644
--- a/src/tokenizer.rs
+++ b/src/tokenizer.rs
@@ -372,7 +372,7 @@ pub fn tokenize(schema_path: &Path, schema_contents: &str) -> Result<Vec<Token>,
                 errors.push(throw::<Error>(
                     &format!("Unexpected symbol {}.", &schema_contents[i..end].code_str()),
                     Some(schema_path),
-                    Some(&listing(schema_contents, SourceRange { start: i, end: i })),
+                    Some(&listing(schema_contents, SourceRange { start: i, end })),
                     None,
                 ));
             }
-- 
2.43.0


From 7620c05e71704116114c7a2865839337b175c233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:13 +0000
Subject: [PATCH 08/13] fix: reject identifiers which begin with a digit after
 the sigil

Identifiers must start with a letter. `$1x` was accepted, and then the generated code
wasn't valid.
---
 src/tokenizer.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/tokenizer.rs b/src/tokenizer.rs
index 153e9ae..11fb80a 100644
--- a/src/tokenizer.rs
+++ b/src/tokenizer.rs
@@ -204,6 +204,15 @@ pub fn tokenize(schema_path: &Path, schema_contents: &str) -> Result<Vec<Token>,
                         ));
                     }
 
+                    if schema_contents[start..end].starts_with(char::is_numeric) {
+                        errors.push(throw::<Error>(
+                            "Identifiers cannot begin with a digit.",
+                            Some(schema_path),
+                            Some(&listing(schema_contents, SourceRange { start: i, end })),
+                            None,
+                        ));
+                    }
+
                     tokens.push(Token {
                         source_range: SourceRange { start: i, end },
                         variant: Variant::Identifier(schema_contents[start..end].into()),
-- 
2.43.0


From a7cf30b5b51694bac65ee927dae45c6b59aca840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:28 +0000
Subject: [PATCH 09/13] fix: format comments with unusual white space such that
 formatting is idempotent

---
 src/schema.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/schema.rs b/src/schema.rs
index 076d3ce..607a2e3 100644
--- a/src/schema.rs
+++ b/src/schema.rs
@@ -146,14 +146,15 @@ fn write_comment<W: Write>(indentation: &str, paragraphs: &[String], f: &mut W)
             writeln!(f, "{indentation}#")?;
         }
 
-        // Only break lines at spaces, since the lines will be joined with spaces when the comment is
-        // parsed again.
+        // Only separate words with single spaces and only break lines there, since the lines will be
+        // trimmed and joined with single spaces when the comment is parsed again.
+        let words = paragraph.split_whitespace().collect::<Vec<_>>().join(" ");
         let options = textwrap::Options::new(MAX_COLUMNS - indentation.len() - 2)
             .break_words(false)
             .word_separator(AsciiSpace)
             .word_splitter(NoHyphenation);
 
-        for line in textwrap::fill(paragraph, options).lines() {
+        for line in textwrap::fill(&words, options).lines() {
             writeln!(f, "{indentation}# {line}")?;
         }
     }
-- 
2.43.0


From 9c32c6213ed90c2e6c5b9199e26f9983f06a0105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:18 +0000
Subject: [PATCH 10/13] fix: fields named like inherited properties in
 TypeScript

A field named, for example, to_string was considered present in every message,
since every object inherits a toString property.
---
 src/generate_typescript.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/generate_typescript.rs b/src/generate_typescript.rs
index 2c24b7a..6ae36a4 100644
--- a/src/generate_typescript.rs
+++ b/src/generate_typescript.rs
@@ -95,6 +95,17 @@ const TYPESCRIPT_KEYWORDS: &[&str] = &[
     "yield",
 ];
 
+// Every TypeScript object inherits properties with these names, so they can't be used for fields: the
+// generated code needs to be able to tell when a field is absent.
+const TYPESCRIPT_INHERITED_PROPERTIES: &[&str] = &[
+    "hasOwnProperty",
+    "isPrototypeOf",
+    "propertyIsEnumerable",
+    "toLocaleString",
+    "toString",
+    "valueOf",
+];
+
 // This struct represents a tree of schemas organized in a module hierarchy.
 #[derive(Clone, Debug)]
 struct Module {
@@ -1696,7 +1707,8 @@ fn write_identifier<T: Write>(
 
     if TYPESCRIPT_KEYWORDS
         .iter()
-        .any(|keyword| converted_identifier == *keyword)
+        .chain(TYPESCRIPT_INHERITED_PROPERTIES)
+        .any(|name| converted_identifier == *name)
     {
         write!(buffer, "_")?;
     }
-- 
2.43.0


From 5ddf25f150e569414bf878fd19a787ab219737d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:15 +0000
Subject: [PATCH 11/13] fix: keep identifiers the same when formatting

Names such as Foo_1 and Foo1 are different, but both were formatted as Foo1.
The case conversion of some letters yields combining marks, which can't be
part of an identifier, so that the formatted file was invalid.
---
 src/schema.rs | 51 ++++++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 42 insertions(+), 9 deletions(-)

diff --git a/src/schema.rs b/src/schema.rs
index 607a2e3..ebddd14 100644
--- a/src/schema.rs
+++ b/src/schema.rs
@@ -162,13 +162,46 @@ fn write_comment<W: Write>(indentation: &str, paragraphs: &[String], f: &mut W)
     Ok(())
 }
 
-// Write a case-converted identifier such that it will be parsed as an identifier again.
-fn write_identifier<W: Write>(identifier: &str, f: &mut W) -> fmt::Result {
-    if KEYWORDS.contains(&identifier) || !identifier.starts_with(char::is_alphabetic) {
+// Convert an identifier to `PascalCase` for a declaration or a reference to one. A word is only
+// capitalized and joined with the previous one if the parser can undo that. For example, `foo_1`
+// becomes `Foo_1`, since `Foo1` is a different identifier.
+fn pascal_case(identifier: &Identifier) -> String {
+    let mut result = String::new();
+
+    for word in identifier.snake_case().split('_') {
+        let capitalized = Identifier::from(word).pascal_case();
+
+        if capitalized.starts_with(char::is_uppercase)
+            && Identifier::from(capitalized.as_str()) == Identifier::from(word)
+        {
+            result.push_str(&capitalized);
+        } else {
+            if !result.is_empty() {
+                result.push('_');
+            }
+
+            result.push_str(word);
+        }
+    }
+
+    result
+}
+
+// Write an identifier such that it will be parsed as the same identifier again. The given case
+// conversion is used if possible, but it may have introduced code points which can't be part of an
+// identifier. For example, the lower case of `\u{130}` contains a combining mark.
+fn write_identifier<W: Write>(identifier: &Identifier, converted: &str, f: &mut W) -> fmt::Result {
+    let text = if converted.chars().all(|c| c.is_alphanumeric() || c == '_') {
+        converted
+    } else {
+        identifier.original()
+    };
+
+    if KEYWORDS.contains(&text) || !text.starts_with(char::is_alphabetic) {
         write!(f, "{RAW_IDENTIFIER_SIGIL}")?;
     }
 
-    write!(f, "{identifier}")
+    write!(f, "{text}")
 }
 
 impl Schema {
@@ -217,7 +250,7 @@ impl Import {
                 self.path.display(),
                 AS_KEYWORD,
             )?;
-            write_identifier(&name.snake_case(), f)?;
+            write_identifier(name, &name.snake_case(), f)?;
             writeln!(f)
         }
     }
@@ -230,7 +263,7 @@ impl Declaration {
         self.variant.write(f)?;
 
         write!(f, " ")?;
-        write_identifier(&self.name.pascal_case(), f)?;
+        write_identifier(&self.name, &pascal_case(&self.name), f)?;
         writeln!(f, " {{")?;
 
         let mut previous_field_has_comment = false;
@@ -288,7 +321,7 @@ impl Field {
             }
         }
 
-        write_identifier(&self.name.snake_case(), f)?;
+        write_identifier(&self.name, &self.name.snake_case(), f)?;
 
         if let TypeVariant::Unit = self.r#type.variant {
         } else {
@@ -320,11 +353,11 @@ impl TypeVariant {
             }
             Self::Custom(import, name) => {
                 if let Some(import) = import {
-                    write_identifier(&import.snake_case(), f)?;
+                    write_identifier(import, &import.snake_case(), f)?;
                     write!(f, ".")?;
                 }
 
-                write_identifier(&name.pascal_case(), f)?;
+                write_identifier(name, &pascal_case(name), f)?;
             }
             Self::F64 => {
                 write!(f, "{F64_KEYWORD}")?;
-- 
2.43.0


From dcf697fc0adf25a5dfb1b17603b76540478a7558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:57 +0000
Subject: [PATCH 12/13] fix: report errors from writing to STDOUT instead of
 panicking

---
 src/main.rs | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index e2f1bc3..c94149d 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -25,7 +25,7 @@ use {
     clap::{App, AppSettings, Arg, Shell, SubCommand},
     std::{
         fs::{create_dir_all, write},
-        io::stdout,
+        io::{self, stdout, Write},
         path::Path,
         process::exit,
     },
@@ -148,7 +148,12 @@ fn generate_code(
         let directory = path.parent().unwrap();
 
         for (_, source_path, _) in schemas.values() {
-            println!("{}", directory.join(source_path).to_string_lossy());
+            writeln!(
+                stdout(),
+                "{}",
+                directory.join(source_path).to_string_lossy(),
+            )
+            .map_err(stdout_error)?;
         }
     }
 
@@ -300,13 +305,27 @@ fn shell_completion(shell: &str) -> Result<(), Error> {
         }
     };
 
+    // Generate the script. It isn't written to STDOUT directly because `gen_completions_to` panics if
+    // it's unable to write.
+    let mut script = Vec::new();
+    cli().gen_completions_to(BIN_NAME, shell_variant, &mut script);
+
     // Write the script to STDOUT.
-    cli().gen_completions_to(BIN_NAME, shell_variant, &mut stdout());
+    let mut stdout = stdout();
+    stdout
+        .write_all(&script)
+        .and_then(|()| stdout.flush())
+        .map_err(stdout_error)?;
 
     // If we made it this far, nothing went wrong.
     Ok(())
 }
 
+// Construct the error to report when writing to STDOUT fails.
+fn stdout_error(error: io::Error) -> Error {
+    throw("Unable to write to STDOUT.", None, None, Some(error))
+}
+
 // Program entrypoint
 fn entry() -> Result<(), Error> {
     // Parse command-line arguments.
-- 
2.43.0


From 3a226dd5cb46ebbb66415fc086e59367f62f3635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:57 +0000
Subject: [PATCH 13/13] fix: accept paths that aren't valid UTF-8 instead of
 panicking

---
 src/main.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index c94149d..c65da26 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -341,7 +341,7 @@ fn entry() -> Result<(), Error> {
             // Determine the path to the schema file.
             let path = Path::new(
                 subcommand_matches
-                    .value_of(GENERATE_SUBCOMMAND_PATH_OPTION)
+                    .value_of_os(GENERATE_SUBCOMMAND_PATH_OPTION)
                     // [ref:generate_subcommand_path_required]
                     .unwrap(),
             );
@@ -352,12 +352,12 @@ fn entry() -> Result<(), Error> {
 
             // Determine the path to the Rust output file, if provided.
             let rust = subcommand_matches
-                .value_of(GENERATE_SUBCOMMAND_RUST_OPTION)
+                .value_of_os(GENERATE_SUBCOMMAND_RUST_OPTION)
                 .map(Path::new);
 
             // Determine the path to the TypeScript output file, if provided.
             let typescript = subcommand_matches
-                .value_of(GENERATE_SUBCOMMAND_TYPESCRIPT_OPTION)
+                .value_of_os(GENERATE_SUBCOMMAND_TYPESCRIPT_OPTION)
                 .map(Path::new);
 
             // Generate code for the schema and its transitive dependencies.
@@ -372,7 +372,7 @@ fn entry() -> Result<(), Error> {
             // Determine the path to the schema file.
             let path = Path::new(
                 subcommand_matches
-                    .value_of(FORMAT_SUBCOMMAND_PATH_OPTION)
+                    .value_of_os(FORMAT_SUBCOMMAND_PATH_OPTION)
                     // [ref:format_subcommand_path_required]
                     .unwrap(),
             );
@@ -387,10 +387,10 @@ fn entry() -> Result<(), Error> {
         // [tag:shell_completion_subcommand]
         Some(subcommand) if subcommand == SHELL_COMPLETION_SUBCOMMAND => {
             shell_completion(
-                matches
+                &matches
                     .subcommand_matches(SHELL_COMPLETION_SUBCOMMAND)
                     .unwrap() // [ref:shell_completion_subcommand]
-                    .value_of(SHELL_COMPLETION_SUBCOMMAND_SHELL_OPTION)
+                    .value_of_lossy(SHELL_COMPLETION_SUBCOMMAND_SHELL_OPTION)
                     // [ref:shell_completion_subcommand_shell_required]
                     .unwrap(),
             )?;
-- 
2.43.0

