From fbf8998699a6a432e3d50a3906c1af2e39dec508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:31 +0000
Subject: [PATCH 01/60] fix: keep runtime statements ahead of the dataframe
 expressions that use them

A dataframe method chained onto (or joined/unioned with) a runtime command
rendered the command's assignment statement inside the method call, which is
not valid Python.
---
 src/pyspark/ast.rs  | 126 +++++++++++++++++++-------------------------
 src/pyspark/base.rs |  18 +++++++
 2 files changed, 72 insertions(+), 72 deletions(-)

diff --git a/src/pyspark/ast.rs b/src/pyspark/ast.rs
index 34d32b4..710a7db 100644
--- a/src/pyspark/ast.rs
+++ b/src/pyspark/ast.rs
@@ -827,106 +827,91 @@ impl ToSparkQuery for DataFrame {
                     .iter()
                     .map(|col| col.to_spark_query(ctx).map(|code| code.to_string()))
                     .collect();
-                Ok(format!(
-                    "{}.select({},)",
-                    source.to_spark_query(ctx)?,
-                    columns?.join(", ")
-                )
-                .into())
+                let columns = columns?.join(", ");
+                Ok(source
+                    .to_spark_query(ctx)?
+                    .map(|df| format!("{}.select({},)", df, columns)))
+            }
+            DataFrame::Where { source, condition } => {
+                let condition = condition.to_spark_query(ctx)?;
+                Ok(source
+                    .to_spark_query(ctx)?
+                    .map(|df| format!("{}.where({},)", df, condition)))
             }
-            DataFrame::Where { source, condition } => Ok(format!(
-                "{}.where({},)",
-                source.to_spark_query(ctx)?,
-                condition.to_spark_query(ctx)?,
-            )
-            .into()),
             DataFrame::GroupBy { source, columns } => {
                 // Extra trailing comma is intentional
                 let columns: Result<Vec<String>> = columns
                     .iter()
                     .map(|s| s.to_spark_query(ctx).map(|s| format!("{}, ", s)))
                     .collect();
-                Ok(format!(
-                    "{}.groupBy([{}])",
-                    source.to_spark_query(ctx)?,
-                    columns?.join("")
-                )
-                .into())
+                let columns = columns?.join("");
+                Ok(source
+                    .to_spark_query(ctx)?
+                    .map(|df| format!("{}.groupBy([{}])", df, columns)))
             }
             DataFrame::Aggregation { source, columns } => {
                 let columns: Result<Vec<String>> = columns
                     .iter()
                     .map(|col| col.to_spark_query(ctx).map(|code| code.to_string()))
                     .collect();
-                Ok(format!(
-                    "{}.agg({},)",
-                    source.to_spark_query(ctx)?,
-                    columns?.join(", ")
-                )
-                .into())
+                let columns = columns?.join(", ");
+                Ok(source
+                    .to_spark_query(ctx)?
+                    .map(|df| format!("{}.agg({},)", df, columns)))
             }
             DataFrame::WithColumn {
                 source,
                 column,
                 name,
-            } => Ok(format!(
-                "{}.withColumn('{}', {},)",
-                source.to_spark_query(ctx)?,
-                name,
-                column.to_spark_query(ctx)?,
-            )
-            .into()),
+            } => {
+                let column = column.to_spark_query(ctx)?;
+                Ok(source
+                    .to_spark_query(ctx)?
+                    .map(|df| format!("{}.withColumn('{}', {},)", df, name, column)))
+            }
             DataFrame::WithColumnRenamed {
                 source,
                 old_name,
                 new_name,
-            } => Ok(format!(
-                "{}.withColumnRenamed('{}', '{}',)",
-                source.to_spark_query(ctx)?,
-                old_name,
-                new_name,
-            )
-            .into()),
+            } => Ok(source.to_spark_query(ctx)?.map(|df| {
+                format!("{}.withColumnRenamed('{}', '{}',)", df, old_name, new_name)
+            })),
             DataFrame::OrderBy { source, columns } => {
                 let columns: Result<Vec<String>> = columns
                     .iter()
                     .map(|col| col.to_spark_query(ctx).map(|code| code.to_string()))
                     .collect();
-                Ok(format!(
-                    "{}.orderBy({},)",
-                    source.to_spark_query(ctx)?,
-                    columns?.join(", ")
-                )
-                .into())
+                let columns = columns?.join(", ");
+                Ok(source
+                    .to_spark_query(ctx)?
+                    .map(|df| format!("{}.orderBy({},)", df, columns)))
             }
-            DataFrame::UnionByName { source, other } => Ok(format!(
-                "{}.unionByName({}, allowMissingColumns=True,)",
-                source.to_spark_query(ctx)?,
+            DataFrame::UnionByName { source, other } => Ok(source.to_spark_query(ctx)?.map2(
                 other.to_spark_query(ctx)?,
-            )
-            .into()),
-            DataFrame::Limit { source, limit } => {
-                Ok(format!("{}.limit({},)", source.to_spark_query(ctx)?, limit).into())
-            }
-            DataFrame::Tail { source, limit } => {
-                Ok(format!("{}.tail({})", source.to_spark_query(ctx)?, limit).into())
-            }
+                |df, other| format!("{}.unionByName({}, allowMissingColumns=True,)", df, other),
+            )),
+            DataFrame::Limit { source, limit } => Ok(source
+                .to_spark_query(ctx)?
+                .map(|df| format!("{}.limit({},)", df, limit))),
+            DataFrame::Tail { source, limit } => Ok(source
+                .to_spark_query(ctx)?
+                .map(|df| format!("{}.tail({})", df, limit))),
             DataFrame::Join {
                 source,
                 other,
                 condition,
                 join_type,
-            } => Ok(format!(
-                "{}.join({}, {}, '{}',)",
-                source.to_spark_query(ctx)?,
-                other.to_spark_query(ctx)?,
-                condition.to_spark_query(ctx)?,
-                join_type
-            )
-            .into()),
-            DataFrame::Alias { source, name } => {
-                Ok(format!("{}.alias('{}',)", source.to_spark_query(ctx)?, name,).into())
+            } => {
+                let condition = condition.to_spark_query(ctx)?;
+                Ok(source
+                    .to_spark_query(ctx)?
+                    .map2(other.to_spark_query(ctx)?, |df, other| {
+                        format!("{}.join({}, {}, '{}',)", df, other, condition, join_type)
+                    }))
             }
+            DataFrame::Alias { source, name } => Ok(source
+                .to_spark_query(ctx)?
+                .map(|df| format!("{}.alias('{}',)", df, name))),
             DataFrame::ArbitraryMethod {
                 source,
                 method,
@@ -936,13 +921,10 @@ impl ToSparkQuery for DataFrame {
                     .iter()
                     .map(|col| col.to_spark_query(ctx).map(|code| code.to_string()))
                     .collect();
-                Ok(format!(
-                    "{}.{}({},)",
-                    source.to_spark_query(ctx)?,
-                    method,
-                    params?.join(",")
-                )
-                .into())
+                let params = params?.join(",");
+                Ok(source
+                    .to_spark_query(ctx)?
+                    .map(|df| format!("{}.{}({},)", df, method, params)))
             }
         }
     }
diff --git a/src/pyspark/base.rs b/src/pyspark/base.rs
index b64b78b..d1b4c34 100644
--- a/src/pyspark/base.rs
+++ b/src/pyspark/base.rs
@@ -55,6 +55,24 @@ impl PythonCode {
             preface: new_preface,
         }
     }
+
+    /// Rewrites the primary expression, keeping the statements it depends on ahead of it.
+    pub fn map(self, f: impl FnOnce(String) -> String) -> Self {
+        Self {
+            primary_df_code: f(self.primary_df_code),
+            preface: self.preface,
+        }
+    }
+
+    /// Like `map`, but combines the code of two dataframes into a single expression.
+    pub fn map2(self, other: PythonCode, f: impl FnOnce(String, String) -> String) -> Self {
+        let mut preface = self.preface;
+        preface.extend(other.preface);
+        Self {
+            primary_df_code: f(self.primary_df_code, other.primary_df_code),
+            preface,
+        }
+    }
 }
 
 impl From<String> for PythonCode {
-- 
2.43.0


From 8c1aee39302caebb35784bbff653528979fa7c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:49 +0000
Subject: [PATCH 02/60] fix: carry quotes, backslashes and line breaks of SPL
 text into the rendered Python literals

---
 src/commands/cmd_make_results/pyspark.rs |   4 +-
 src/commands/cmd_regex/pyspark.rs        |   2 +-
 src/commands/cmd_rex/pyspark.rs          |   2 +-
 src/functions/eval_fns.rs                |   2 +-
 src/functions/shared.rs                  |   8 +-
 src/pyspark/ast.rs                       | 132 +++++++++++++++++++----
 src/pyspark/transpiler/expr.rs           |  36 ++++---
 7 files changed, 144 insertions(+), 42 deletions(-)

diff --git a/src/commands/cmd_make_results/pyspark.rs b/src/commands/cmd_make_results/pyspark.rs
index fa7ac6e..ca9b61f 100644
--- a/src/commands/cmd_make_results/pyspark.rs
+++ b/src/commands/cmd_make_results/pyspark.rs
@@ -29,12 +29,12 @@ impl PipelineTransformer for super::spl::MakeResultsCommand {
                 .with_column("sourcetype", column_like!(lit(None)))
                 .with_column(
                     "splunk_server",
-                    column_like!(lit(format!("\"{}\"", self.server.clone()))),
+                    column_like!(lit(py_str(&self.server, '"'))),
                 )
                 .with_column(
                     "splunk_server_group",
                     match self.server_group.clone() {
-                        Some(group) => column_like!(lit(group)),
+                        Some(group) => column_like!(lit(py_str(group, '"'))),
                         None => column_like!(lit(None)),
                     },
                 );
diff --git a/src/commands/cmd_regex/pyspark.rs b/src/commands/cmd_regex/pyspark.rs
index eec66ad..1a40034 100644
--- a/src/commands/cmd_regex/pyspark.rs
+++ b/src/commands/cmd_regex/pyspark.rs
@@ -22,7 +22,7 @@ impl PipelineTransformer for RegexCommand {
 
         let mut col = column_like!(regexp_like(
             [col(field)],
-            [Expr::PyLiteral(PyLiteral(format!("r\"{}\"", self.regex)))]
+            [Expr::PyLiteral(PyLiteral(py_regex(&self.regex)))]
         ));
         if invert {
             col = column_like!(~[col]);
diff --git a/src/commands/cmd_rex/pyspark.rs b/src/commands/cmd_rex/pyspark.rs
index f84ccbb..7f77fc1 100644
--- a/src/commands/cmd_rex/pyspark.rs
+++ b/src/commands/cmd_rex/pyspark.rs
@@ -27,7 +27,7 @@ impl PipelineTransformer for RexCommand {
                 group_name.unwrap_or(group_index.to_string()),
                 column_like!(regexp_extract(
                     [col(self.field.clone())],
-                    [Expr::PyLiteral(PyLiteral(format!("r\"{}\"", self.regex)))],
+                    [Expr::PyLiteral(PyLiteral(py_regex(&self.regex)))],
                     [py_lit(group_index as i64)]
                 )),
             );
diff --git a/src/functions/eval_fns.rs b/src/functions/eval_fns.rs
index 6ebac6c..67b5bf8 100644
--- a/src/functions/eval_fns.rs
+++ b/src/functions/eval_fns.rs
@@ -544,7 +544,7 @@ fn eval_fn_bare(name: String, args: Vec<ContextualizedExpr<ast::Expr>>) -> Resul
                 Some(delim) => map_arg(delim) ?,
             };
             let zip_function: Expr = PyLiteral(
-                format !(r#"lambda left_, right_: F.concat_ws(r"{}", left_, right_)"#, delim)
+                format !("lambda left_, right_: F.concat_ws({}, left_, right_)", py_regex(spl_unescape(delim)))
             ).into();
             column_like!(
                 zip_with(
diff --git a/src/functions/shared.rs b/src/functions/shared.rs
index a5395d9..5daf48c 100644
--- a/src/functions/shared.rs
+++ b/src/functions/shared.rs
@@ -14,9 +14,10 @@ pub fn ctime(c: impl Into<Expr>, timeformat: String) -> Result<ColumnLike> {
 pub fn memk(c: impl Into<Expr>) -> ColumnLike {
     let c = c.into();
     const REGEX: &str = r#"(?i)^(\d*\.?\d+)([kmg])$"#;
-    let num_val = column_like!(regexp_extract([c.clone()], [py_lit(REGEX)], [py_lit(1)]));
+    let regex: Expr = PyLiteral(format!("\"{}\"", REGEX)).into();
+    let num_val = column_like!(regexp_extract([c.clone()], [regex.clone()], [py_lit(1)]));
     let num_val = column_like!([num_val].cast([py_lit("double")]));
-    let unit = column_like!(upper([regexp_extract([c], [py_lit(REGEX)], [py_lit(2)])]));
+    let unit = column_like!(upper([regexp_extract([c], [regex.clone()], [py_lit(2)])]));
     let is_k = column_like!([unit.clone()] == [lit("K")]);
     let is_m = column_like!([unit.clone()] == [lit("M")]);
     let is_g = column_like!([unit.clone()] == [lit("G")]);
@@ -35,5 +36,6 @@ pub fn rmcomma(c: impl Into<Expr>) -> ColumnLike {
 /// Given a string like "10k", "3g", or "7", return just the numeric component
 pub fn rmunit(c: impl Into<Expr>) -> ColumnLike {
     const REGEX: &str = r#"(?i)^(\d*\.?\d+)(\w*)$"#;
-    column_like!([regexp_extract([c.into()], [py_lit(REGEX)], [py_lit(1)])].cast([py_lit("double")]))
+    let regex: Expr = PyLiteral(format!("\"{}\"", REGEX)).into();
+    column_like!([regexp_extract([c.into()], [regex.clone()], [py_lit(1)])].cast([py_lit("double")]))
 }
diff --git a/src/pyspark/ast.rs b/src/pyspark/ast.rs
index 710a7db..b9c4db4 100644
--- a/src/pyspark/ast.rs
+++ b/src/pyspark/ast.rs
@@ -13,6 +13,94 @@ pub struct Base();
 // #[pyclass(frozen,eq,hash)]
 pub struct PyLiteral(pub String);
 
+/// Renders SPL text as a Python string literal.
+pub fn py_str(spl_text: impl AsRef<str>, quote: char) -> String {
+    py_quote(spl_unescape(spl_text), quote)
+}
+
+/// Resolves the escape sequences of SPL text, which the parser keeps as written: `\"`, `\'` and
+/// `\\` stand for the escaped character, any other backslash is a literal backslash.
+pub fn spl_unescape(spl_text: impl AsRef<str>) -> String {
+    let mut text = String::new();
+    let mut chars = spl_text.as_ref().chars().peekable();
+    while let Some(c) = chars.next() {
+        text.push(match c {
+            '\\' => chars
+                .next_if(|next| matches!(next, '"' | '\'' | '\\'))
+                .unwrap_or(c),
+            c => c,
+        });
+    }
+    text
+}
+
+/// Renders text as a Python string literal, character for character.
+fn py_quote(text: impl AsRef<str>, quote: char) -> String {
+    let mut out = String::from(quote);
+    text.as_ref()
+        .chars()
+        .for_each(|c| push_py_char(&mut out, c, quote));
+    out.push(quote);
+    out
+}
+
+/// Reads back the text of a Python string literal made by `py_quote`.
+pub fn py_unquote(code: &str) -> Option<String> {
+    let quote = code.chars().next().filter(|c| matches!(c, '"' | '\''))?;
+    let content = code.strip_prefix(quote)?.strip_suffix(quote)?;
+    let mut out = String::new();
+    let mut chars = content.chars();
+    while let Some(c) = chars.next() {
+        out.push(match c {
+            '\\' => match chars.next()? {
+                'n' => '\n',
+                'r' => '\r',
+                'x' => chars.nth(1).map(|_| '\0')?,
+                c => c,
+            },
+            c => c,
+        });
+    }
+    Some(out)
+}
+
+/// Renders a regular expression as a Python string literal, without interpreting its escapes.
+pub fn py_regex(regex: impl AsRef<str>) -> String {
+    let regex = regex.as_ref();
+    let mut escaped = false;
+    let needs_escaping = regex.chars().any(|c| {
+        let was_escaped = escaped;
+        escaped = c == '\\' && !was_escaped;
+        matches!(c, '\n' | '\r' | '\0') || (c == '"' && !was_escaped)
+    });
+    if needs_escaping || escaped {
+        py_quote(regex, '"')
+    } else {
+        format!("r\"{}\"", regex)
+    }
+}
+
+fn push_py_char(out: &mut String, c: char, quote: char) {
+    match c {
+        '\\' => out.push_str("\\\\"),
+        '\n' => out.push_str("\\n"),
+        '\r' => out.push_str("\\r"),
+        '\0' => out.push_str("\\x00"),
+        c if c == quote => {
+            out.push('\\');
+            out.push(c);
+        }
+        c => out.push(c),
+    }
+}
+
+impl PyLiteral {
+    /// A string literal holding exactly this text, without interpreting SPL escapes.
+    pub fn text(text: impl AsRef<str>) -> PyLiteral {
+        PyLiteral(py_quote(text, '"'))
+    }
+}
+
 impl<T: Into<PyLiteral>> From<Option<T>> for PyLiteral {
     fn from(value: Option<T>) -> PyLiteral {
         match value {
@@ -24,12 +112,12 @@ impl<T: Into<PyLiteral>> From<Option<T>> for PyLiteral {
 
 impl From<String> for PyLiteral {
     fn from(value: String) -> PyLiteral {
-        PyLiteral(format!("\"{}\"", value))
+        PyLiteral(py_str(value, '"'))
     }
 }
 impl From<&str> for PyLiteral {
     fn from(value: &str) -> PyLiteral {
-        PyLiteral(format!("\"{}\"", value))
+        PyLiteral(py_str(value, '"'))
     }
 }
 
@@ -219,7 +307,7 @@ pub(crate) use column_like;
 impl ToSparkQuery for ColumnLike {
     fn to_spark_query(&self, ctx: &PysparkTranspileContext) -> Result<PythonCode> {
         match self {
-            ColumnLike::Named { name } => Ok(format!("F.col('{}')", name)),
+            ColumnLike::Named { name } => Ok(format!("F.col({})", py_str(name, '\''))),
             ColumnLike::Literal { code } => Ok(format!("F.lit({})", code)),
             ColumnLike::MethodCall { col, func, args } => {
                 let args: Result<Vec<String>> = args
@@ -245,9 +333,11 @@ impl ToSparkQuery for ColumnLike {
                 };
                 Ok(format!("{}({})", func, args?.join(", ")))
             }
-            ColumnLike::Aliased { col, name } => {
-                Ok(format!("{}.alias('{}')", col.to_spark_query(ctx)?, name))
-            }
+            ColumnLike::Aliased { col, name } => Ok(format!(
+                "{}.alias({})",
+                col.to_spark_query(ctx)?,
+                py_str(name, '\'')
+            )),
             ColumnLike::BinaryOp { op, left, right } => Ok(format!(
                 "{} {} {}",
                 left.to_spark_query(ctx)?,
@@ -321,7 +411,7 @@ impl ToSparkQuery for ColumnOrName {
     fn to_spark_query(&self, ctx: &PysparkTranspileContext) -> Result<PythonCode> {
         match self {
             ColumnOrName::Column(col) => col.to_spark_query(ctx),
-            ColumnOrName::Name(name) => Ok(format!("\"{}\"", name).into()),
+            ColumnOrName::Name(name) => Ok(py_str(name, '"').into()),
         }
     }
 }
@@ -355,7 +445,7 @@ impl ToSparkQuery for PyDict {
                 primary_df_code,
             } = value.to_spark_query(ctx)?;
             out_preface.extend(preface);
-            out_vals.push(format!("\"{}\": {}", key, primary_df_code).to_string());
+            out_vals.push(format!("{}: {}", py_str(key, '"'), primary_df_code));
         }
         Ok(format!(r#"{{ {} }}"#, out_vals.join(", ")).into())
     }
@@ -772,7 +862,7 @@ impl Default for DataFrame {
 impl ToSparkQuery for DataFrame {
     fn to_spark_query(&self, ctx: &PysparkTranspileContext) -> Result<PythonCode> {
         match self {
-            DataFrame::Source { name } => Ok(format!("spark.table('{}')", name).into()),
+            DataFrame::Source { name } => Ok(format!("spark.table({})", py_str(name, '\'')).into()),
             DataFrame::RawSource { code } => Ok(code.clone().into()),
             DataFrame::Runtime {
                 name,
@@ -865,17 +955,22 @@ impl ToSparkQuery for DataFrame {
                 name,
             } => {
                 let column = column.to_spark_query(ctx)?;
+                let name = py_str(name, '\'');
                 Ok(source
                     .to_spark_query(ctx)?
-                    .map(|df| format!("{}.withColumn('{}', {},)", df, name, column)))
+                    .map(|df| format!("{}.withColumn({}, {},)", df, name, column)))
             }
             DataFrame::WithColumnRenamed {
                 source,
                 old_name,
                 new_name,
-            } => Ok(source.to_spark_query(ctx)?.map(|df| {
-                format!("{}.withColumnRenamed('{}', '{}',)", df, old_name, new_name)
-            })),
+            } => {
+                let old_name = py_str(old_name, '\'');
+                let new_name = py_str(new_name, '\'');
+                Ok(source
+                    .to_spark_query(ctx)?
+                    .map(|df| format!("{}.withColumnRenamed({}, {},)", df, old_name, new_name)))
+            }
             DataFrame::OrderBy { source, columns } => {
                 let columns: Result<Vec<String>> = columns
                     .iter()
@@ -886,10 +981,11 @@ impl ToSparkQuery for DataFrame {
                     .to_spark_query(ctx)?
                     .map(|df| format!("{}.orderBy({},)", df, columns)))
             }
-            DataFrame::UnionByName { source, other } => Ok(source.to_spark_query(ctx)?.map2(
-                other.to_spark_query(ctx)?,
-                |df, other| format!("{}.unionByName({}, allowMissingColumns=True,)", df, other),
-            )),
+            DataFrame::UnionByName { source, other } => Ok(source
+                .to_spark_query(ctx)?
+                .map2(other.to_spark_query(ctx)?, |df, other| {
+                    format!("{}.unionByName({}, allowMissingColumns=True,)", df, other)
+                })),
             DataFrame::Limit { source, limit } => Ok(source
                 .to_spark_query(ctx)?
                 .map(|df| format!("{}.limit({},)", df, limit))),
@@ -911,7 +1007,7 @@ impl ToSparkQuery for DataFrame {
             }
             DataFrame::Alias { source, name } => Ok(source
                 .to_spark_query(ctx)?
-                .map(|df| format!("{}.alias('{}',)", df, name))),
+                .map(|df| format!("{}.alias({},)", df, py_str(name, '\'')))),
             DataFrame::ArbitraryMethod {
                 source,
                 method,
diff --git a/src/pyspark/transpiler/expr.rs b/src/pyspark/transpiler/expr.rs
index f5b1498..12b8323 100644
--- a/src/pyspark/transpiler/expr.rs
+++ b/src/pyspark/transpiler/expr.rs
@@ -6,7 +6,6 @@ use crate::pyspark::transpiler::utils::join_as_binaries;
 use crate::spl::ast;
 use anyhow::{anyhow, bail};
 use phf::phf_map;
-use regex::Regex;
 
 static SIMPLE_OP_MAP: phf::Map<&'static str, &'static str> = phf_map! {
     "=" => "==",
@@ -15,6 +14,18 @@ static SIMPLE_OP_MAP: phf::Map<&'static str, &'static str> = phf_map! {
     "NOT" => "~",
 };
 
+/// Renders a column name for use within a SQL expression, quoting it where SQL requires that.
+fn sql_name(name: &str) -> String {
+    let is_plain = name
+        .chars()
+        .all(|c| c.is_ascii_alphanumeric() || "_.".contains(c));
+    if is_plain {
+        name.into()
+    } else {
+        format!("`{}`", name.replace('`', "``"))
+    }
+}
+
 impl ToSparkExpr for ast::Expr {
     fn to_spark_expr(&self, ctx: &PysparkTranspileContext) -> anyhow::Result<Expr> {
         match self.clone() {
@@ -38,7 +49,10 @@ impl ToSparkExpr for ast::Expr {
                     ast::Expr::Leaf(ast::LeafExpr::Constant(ast::Constant::IPv4CIDR(
                         ast::IPv4CIDR(cidr),
                     ))),
-                ) => Ok(column_like!(expr("cidr_match('{}', {})", cidr, col)).into()),
+                ) => {
+                    let sql = format!("cidr_match('{}', {})", cidr, sql_name(&spl_unescape(col)));
+                    Ok(column_like!(expr([PyLiteral::text(sql)])).into())
+                }
                 // src_ip = "x*" -> F.like(F.col("src_ip"), "x%"),
                 (
                     lhs,
@@ -89,7 +103,7 @@ impl ToSparkExpr for ast::Expr {
             // String constant -> String literal column
             ast::Expr::Leaf(ast::LeafExpr::Constant(ast::Constant::Str(ast::StrValue(val)))) => {
                 Ok(ColumnLike::Literal {
-                    code: format!("'{}'", val),
+                    code: py_str(val, '\''),
                 }
                 .into())
             }
@@ -103,7 +117,7 @@ impl ToSparkExpr for ast::Expr {
             ast::Expr::Leaf(ast::LeafExpr::Constant(ast::Constant::IPv4CIDR(ast::IPv4CIDR(
                 val,
             )))) => Ok(ColumnLike::Literal {
-                code: format!("'{}'", val),
+                code: py_str(val, '\''),
             }
             .into()),
 
@@ -205,8 +219,8 @@ impl ColumnLike {
                 column_like!([col("_raw")].ilike([py_lit(format!("%{}%", name))]))
             }
             ColumnLike::Literal { code } => {
-                column_like!([col("_raw")]
-                    .ilike([py_lit(format!("%{}%", Self::_strip_quotes(code.as_str())))]))
+                let text = py_unquote(&code).unwrap_or(code);
+                column_like!([col("_raw")].ilike([PyLiteral::text(format!("%{}%", text))]))
             }
 
             ColumnLike::UnaryNot { right } => ColumnLike::UnaryNot {
@@ -219,16 +233,6 @@ impl ColumnLike {
         }
     }
 
-    fn _strip_quotes(code: &str) -> &str {
-        let re_double: Regex = Regex::new(r#"^".+"$"#).unwrap();
-        let re_single: Regex = Regex::new(r#"^'.+'$"#).unwrap();
-        if re_double.is_match(code) | re_single.is_match(code) {
-            &code[1..code.len() - 1]
-        } else {
-            code
-        }
-    }
-
     pub fn into_search_expr(self) -> Self {
         let (expr, name) = self.unaliased_with_name();
         let transformed_expr = expr._into_search_expr();
-- 
2.43.0


From 3b7c981ee4cfb7bf891b89c9c994460e10e952a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:22 +0000
Subject: [PATCH 03/60] fix: group chains of subtractions and divisions from
 left to right

---
 src/spl/parser.rs | 46 ++++++++++++++++++++++++++++++----------------
 1 file changed, 30 insertions(+), 16 deletions(-)

diff --git a/src/spl/parser.rs b/src/spl/parser.rs
index 093edae..6550bdb 100644
--- a/src/spl/parser.rs
+++ b/src/spl/parser.rs
@@ -983,39 +983,53 @@ pub fn expr2(input: &str) -> IResult<&str, ast::Expr> {
     alt((expr_base,))(input)
 }
 
+/// Combines `first op1 expr1 op2 expr2 ...`, operators of the same precedence apply left to right.
+fn left_associative(first: ast::Expr, rest: Vec<(&str, ast::Expr)>) -> ast::Expr {
+    // Grouping does not matter within a plain sum or product, these nest to the right
+    if rest.iter().all(|(op, _)| *op == "+") || rest.iter().all(|(op, _)| *op == "*") {
+        let mut operands = vec![first];
+        let (ops, rest): (Vec<_>, Vec<_>) = rest.into_iter().unzip();
+        operands.extend(rest);
+        let last = operands.remove(operands.len() - 1);
+        return operands
+            .into_iter()
+            .zip(ops)
+            .rfold(last, |right, (left, op)| {
+                ast::Binary::new(left, op, right).into()
+            });
+    }
+    rest.into_iter().fold(first, |left, (op, right)| {
+        ast::Binary::new(left, op, right).into()
+    })
+}
+
 pub fn expr3(input: &str) -> IResult<&str, ast::Expr> {
-    alt((map(
+    map(
         pair(
             expr2,
-            opt(pair(
+            many0(pair(
                 ws(alt((
                     operators::Multiply::pattern,
                     operators::Divide::pattern,
                 ))),
-                expr3,
+                expr2,
             )),
         ),
-        |(left, maybe_op_right)| match maybe_op_right {
-            None => left,
-            Some((op, right)) => ast::Binary::new(left, op, right).into(),
-        },
-    ),))(input)
+        |(first, rest)| left_associative(first, rest),
+    )(input)
 }
 
 pub fn expr4(input: &str) -> IResult<&str, ast::Expr> {
-    alt((map(
+    map(
         pair(
             expr3,
-            opt(pair(
+            many0(pair(
                 ws(alt((operators::Add::pattern, operators::Subtract::pattern))),
-                expr4,
+                expr3,
             )),
         ),
-        |(left, maybe_op_right)| match maybe_op_right {
-            None => left,
-            Some((op, right)) => ast::Binary::new(left, op, right).into(),
-        },
-    ),))(input)
+        |(first, rest)| left_associative(first, rest),
+    )(input)
 }
 
 pub fn expr5(input: &str) -> IResult<&str, ast::Expr> {
-- 
2.43.0


From 80c2ba4e1119419005cc33874184f420c4389b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:02 +0000
Subject: [PATCH 04/60] fix: import black once before threads format
 concurrently

---
 src/format_python.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/format_python.rs b/src/format_python.rs
index 243b06b..72583da 100644
--- a/src/format_python.rs
+++ b/src/format_python.rs
@@ -4,6 +4,7 @@ use pyo3::prelude::*;
 use pyo3::types::IntoPyDict;
 use std::error::Error;
 use std::fmt::{Debug, Display, Formatter};
+use std::sync::Once;
 
 #[derive(Debug, Clone)]
 struct BlackNotInstalled();
@@ -19,11 +20,19 @@ impl Display for BlackNotInstalled {
 
 impl Error for BlackNotInstalled {}
 
+/// Lets one thread finish the first import of black. Threads importing it at the same time may
+/// otherwise see a partially initialized module.
+static FIRST_IMPORT: Once = Once::new();
+
 pub fn format_python_code(code: impl ToString) -> Result<String> {
     // TODO: When ruff format is available on cargo, use that instead of an embedded Python interpeter
     // from black import format_str, FileMode
     // res = format_str("some python code", mode=FileMode())
     let result: Result<String> = Python::with_gil(|py| {
+        py.allow_threads(|| {
+            FIRST_IMPORT
+                .call_once(|| Python::with_gil(|py| drop(PyModule::import_bound(py, "black"))))
+        });
         let black = PyModule::import_bound(py, "black").map_err(|_| BlackNotInstalled())?;
         let mode = black.getattr("FileMode")?.call0()?;
         let args = (code.to_string(),);
-- 
2.43.0


From a9f754078f81b7e6d7adb035970a006744f2b400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:14 +0000
Subject: [PATCH 05/60] fix: render boolean constants as Python booleans

---
 src/pyspark/transpiler/expr.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyspark/transpiler/expr.rs b/src/pyspark/transpiler/expr.rs
index 12b8323..dd7f2c9 100644
--- a/src/pyspark/transpiler/expr.rs
+++ b/src/pyspark/transpiler/expr.rs
@@ -110,7 +110,8 @@ impl ToSparkExpr for ast::Expr {
 
             // Boolean constant -> Boolean literal column
             ast::Expr::Leaf(ast::LeafExpr::Constant(ast::Constant::Bool(ast::BoolValue(val)))) => {
-                Ok(ColumnLike::literal(val).into())
+                let PyLiteral(code) = val.into();
+                Ok(ColumnLike::literal(code).into())
             }
 
             // IPv4 cidr -> String literal column
-- 
2.43.0


From 663c0a4445da24a2eb5a38b25bda742f3b62fbce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:56 +0000
Subject: [PATCH 06/60] fix: keep the whitespace of quoted text and the borders
 between empty strings

---
 src/spl/parser.rs | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/spl/parser.rs b/src/spl/parser.rs
index 6550bdb..46ecf06 100644
--- a/src/spl/parser.rs
+++ b/src/spl/parser.rs
@@ -447,18 +447,24 @@ pub fn bool_(input: &str) -> IResult<&str, ast::BoolValue> {
 
 //   def doubleQuoted[_: P]: P[String] = P( "\"" ~ (CharsWhile(!"\"".contains(_)) | "\\" ~~ AnyChar | !"\"").rep.! ~ "\"" )
 fn _double_quoted_content(input: &str) -> IResult<&str, &str> {
-    ws(recognize(many0(alt((
+    recognize(many0(alt((
         recognize(pair(tag(r#"\"#), anychar)),
         recognize(none_of(r#""\"#)),
-    )))))
-    .parse(input)
+    ))))(input)
 }
 
 pub fn double_quoted(input: &str) -> IResult<&str, &str> {
     alt((
+        // Doubled quotes are only a pair around a word, `"", ""` and `x="" y=""` are empty strings
         delimited(
             tag("\""),
-            recognize(tuple((tag("\""), _double_quoted_content, tag("\"")))),
+            recognize(tuple((
+                tag("\""),
+                verify(_double_quoted_content, |content: &str| {
+                    content.starts_with(|c: char| c.is_alphanumeric() || "_*%$/\\".contains(c))
+                }),
+                tag("\""),
+            ))),
             tag("\""),
         ),
         delimited(tag("\""), _double_quoted_content, tag("\"")),
@@ -468,10 +474,10 @@ pub fn double_quoted(input: &str) -> IResult<&str, &str> {
 pub fn single_quoted(input: &str) -> IResult<&str, &str> {
     delimited(
         tag("\'"),
-        ws(recognize(many0(alt((
+        recognize(many0(alt((
             recognize(pair(tag(r#"\"#), anychar)),
             recognize(none_of(r#"'\"#)),
-        ))))),
+        )))),
         tag("\'"),
     )(input)
 }
@@ -492,11 +498,11 @@ pub fn wildcard(input: &str) -> IResult<&str, ast::Wildcard> {
 pub fn double_quoted_alt(input: &str) -> IResult<&str, &str> {
     delimited(
         tag(r#"""#),
-        ws(recognize(many0(alt((
+        recognize(many0(alt((
             tag(r#"\""#),
             tag(r#"\\"#),
             recognize(none_of(r#""\"#)),
-        ))))),
+        )))),
         tag(r#"""#),
     )(input)
 }
-- 
2.43.0


From 59c20f18891b66bddb925694620490caeadb05dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:20 +0000
Subject: [PATCH 07/60] fix: parse nested negations once

---
 src/spl/parser.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/spl/parser.rs b/src/spl/parser.rs
index 46ecf06..ca6b894 100644
--- a/src/spl/parser.rs
+++ b/src/spl/parser.rs
@@ -1081,13 +1081,14 @@ pub fn expr6(input: &str) -> IResult<&str, ast::Expr> {
 pub fn expr7(input: &str) -> IResult<&str, ast::Expr> {
     alt((
         map(
-            alt((
-                separated_pair(operators::UnaryNot::pattern, multispace1, expr7),
-                pair(
-                    ws(operators::UnaryNot::pattern),
+            // The alternatives exclude each other, so nested negations are only parsed once
+            pair(
+                ws_left(operators::UnaryNot::pattern),
+                alt((
+                    preceded(multispace1, expr7),
                     parenthesized(expr9_with_whitespace),
-                ),
-            )),
+                )),
+            ),
             |(op, right)| ast::Unary::new(op, right).into(),
         ),
         expr6,
-- 
2.43.0


From d6a42d06ebd49515ae4b2d0f8fb49390751f5c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:20 +0000
Subject: [PATCH 08/60] fix: combine the indices of a search in a fixed order

---
 src/commands/cmd_search/pyspark.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/commands/cmd_search/pyspark.rs b/src/commands/cmd_search/pyspark.rs
index 7baa079..d9d73ed 100644
--- a/src/commands/cmd_search/pyspark.rs
+++ b/src/commands/cmd_search/pyspark.rs
@@ -179,7 +179,9 @@ impl PipelineTransformer for SearchCommand {
         let condition_expr = split_conditions(&self.expr, true, &mut indices, &state.ctx)?;
         let mut df = if !indices.is_empty() {
             let mut _df: Option<DataFrame> = None;
-            for new_index in indices.into_iter() {
+            let mut indices: Vec<_> = indices.into_iter().collect();
+            indices.sort();
+            for new_index in indices {
                 let new_source = DataFrame::source(new_index);
                 _df = match (_df, new_source) {
                     (None, new_source) => Some(new_source),
-- 
2.43.0


From ca3ca840461b6bc6d15dbb82de213f4a4d9bcb95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:34 +0000
Subject: [PATCH 09/60] fix: apply the join and output fields of lookup

---
 src/commands/cmd_lookup/pyspark.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/commands/cmd_lookup/pyspark.rs b/src/commands/cmd_lookup/pyspark.rs
index 73e872b..c755815 100644
--- a/src/commands/cmd_lookup/pyspark.rs
+++ b/src/commands/cmd_lookup/pyspark.rs
@@ -66,6 +66,6 @@ impl PipelineTransformer for LookupCommand {
             output => bail!("Unsupported output definition for `lookup`: {:?}", output),
         });
 
-        Ok(state.with_df(df))
+        Ok(state.with_df(result_df))
     }
 }
-- 
2.43.0


From 256b3a6ab0cfeabddf8d52749726babbca245229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:28 +0000
Subject: [PATCH 10/60] fix: drop the listed columns for fields -

---
 src/commands/cmd_fields/pyspark.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/commands/cmd_fields/pyspark.rs b/src/commands/cmd_fields/pyspark.rs
index d3c637b..21e3c63 100644
--- a/src/commands/cmd_fields/pyspark.rs
+++ b/src/commands/cmd_fields/pyspark.rs
@@ -10,6 +10,15 @@ impl PipelineTransformer for FieldsCommand {
     ) -> anyhow::Result<PipelineTransformState> {
         let mut df = state.df.clone().unwrap_or_default();
 
+        if self.remove_fields {
+            let names = self
+                .fields
+                .iter()
+                .map(|ast::Field(name)| PyLiteral::from(name.clone()).into())
+                .collect();
+            return Ok(state.with_df(df.arbitrary_method("drop", names)));
+        }
+
         let cols: Vec<_> = self
             .fields
             .iter()
-- 
2.43.0


From 904aefd1c7d0420ad2b8c7c8f676ade833ac0c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:28 +0000
Subject: [PATCH 11/60] fix: leave the quotes around a field name out of the
 name

---
 src/spl/parser.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/spl/parser.rs b/src/spl/parser.rs
index ca6b894..881a1cb 100644
--- a/src/spl/parser.rs
+++ b/src/spl/parser.rs
@@ -38,7 +38,7 @@ use crate::spl::operators::{OperatorSymbol, OperatorSymbolTrait};
 use crate::spl::{ast, operators};
 use nom::bytes::complete::{tag_no_case, take, take_while, take_while1};
 use nom::character::complete::{alphanumeric1, anychar, multispace0, multispace1, one_of};
-use nom::combinator::{all_consuming, eof, into, map_parser, peek, value, verify};
+use nom::combinator::{all_consuming, eof, into, map_parser, not, peek, value, verify};
 use nom::error::ParseError;
 use nom::multi::{many0, separated_list0, separated_list1};
 use nom::sequence::{delimited, preceded, separated_pair, terminated};
@@ -528,7 +528,14 @@ fn _field_fmt(input: &str) -> IResult<&str, ast::Field> {
 }
 
 pub fn field(input: &str) -> IResult<&str, ast::Field> {
-    alt((_field_fmt, into(single_quoted)))(input)
+    alt((
+        // The quotes around a whole name are not a part of the name
+        map(terminated(double_quoted, not(tag("."))), |v: &str| {
+            ast::Field(v.into())
+        }),
+        _field_fmt,
+        into(single_quoted),
+    ))(input)
 }
 
 pub fn string(input: &str) -> IResult<&str, &str> {
-- 
2.43.0


From 24af6ef98b72dc9d579d9c253d9d54f4b426e31d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:09 +0000
Subject: [PATCH 12/60] fix: honour the count field, the by fields and
 showcount of top and rare

---
 src/commands/cmd_rare/pyspark.rs | 17 +++++++++++++----
 src/commands/cmd_top/pyspark.rs  | 17 +++++++++++++----
 2 files changed, 26 insertions(+), 8 deletions(-)

diff --git a/src/commands/cmd_rare/pyspark.rs b/src/commands/cmd_rare/pyspark.rs
index 4b7c1b0..14a9a2a 100644
--- a/src/commands/cmd_rare/pyspark.rs
+++ b/src/commands/cmd_rare/pyspark.rs
@@ -16,9 +16,9 @@ impl PipelineTransformer for RareCommand {
 
         let groupby_fields: Vec<_> = self
             .by
-            .clone()
-            .unwrap_or(self.fields.clone())
             .iter()
+            .flatten()
+            .chain(self.fields.iter())
             .map(|f| f.0.clone())
             .collect();
         df = df.group_by(groupby_fields);
@@ -30,16 +30,25 @@ impl PipelineTransformer for RareCommand {
         if self.show_percent {
             df = df.with_column(
                 self.percent_field.clone(),
-                column_like!([col("count")] / [sum([col("count")])]),
+                column_like!(
+                    [col(self.count_field.clone())] / [sum([col(self.count_field.clone())])]
+                ),
             )
         }
 
-        df = df.order_by(vec![column_like!([col("count")].asc())]);
+        df = df.order_by(vec![column_like!([col(self.count_field.clone())].asc())]);
 
         if self.n != 0 {
             df = df.limit(self.n);
         }
 
+        if !self.show_count {
+            df = df.arbitrary_method(
+                "drop",
+                vec![PyLiteral::from(self.count_field.clone()).into()],
+            );
+        }
+
         Ok(state.with_df(df))
     }
 }
diff --git a/src/commands/cmd_top/pyspark.rs b/src/commands/cmd_top/pyspark.rs
index 3e3343e..a3dc8f8 100644
--- a/src/commands/cmd_top/pyspark.rs
+++ b/src/commands/cmd_top/pyspark.rs
@@ -16,9 +16,9 @@ impl PipelineTransformer for TopCommand {
 
         let groupby_fields: Vec<_> = self
             .by
-            .clone()
-            .unwrap_or(self.fields.clone())
             .iter()
+            .flatten()
+            .chain(self.fields.iter())
             .map(|f| f.0.clone())
             .collect();
         df = df.group_by(groupby_fields);
@@ -30,16 +30,25 @@ impl PipelineTransformer for TopCommand {
         if self.show_percent {
             df = df.with_column(
                 self.percent_field.clone(),
-                column_like!([col("count")] / [sum([col("count")])]),
+                column_like!(
+                    [col(self.count_field.clone())] / [sum([col(self.count_field.clone())])]
+                ),
             )
         }
 
-        df = df.order_by(vec![column_like!([col("count")].desc())]);
+        df = df.order_by(vec![column_like!([col(self.count_field.clone())].desc())]);
 
         if self.n != 0 {
             df = df.limit(self.n);
         }
 
+        if !self.show_count {
+            df = df.arbitrary_method(
+                "drop",
+                vec![PyLiteral::from(self.count_field.clone()).into()],
+            );
+        }
+
         Ok(state.with_df(df))
     }
 }
-- 
2.43.0


From 33f7c5e12b09866fcb3618ce49e65101361fbf21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:50 +0000
Subject: [PATCH 13/60] fix: reject an unknown or malformed command instead of
 searching for its text

---
 src/spl/parser.rs | 41 ++++++++++++++++++++++++++++-------------
 1 file changed, 28 insertions(+), 13 deletions(-)

diff --git a/src/spl/parser.rs b/src/spl/parser.rs
index 881a1cb..ff19abf 100644
--- a/src/spl/parser.rs
+++ b/src/spl/parser.rs
@@ -1233,6 +1233,11 @@ pub fn stats_call(input: &str) -> IResult<&str, Vec<ast::Expr>> {
 //     | _map
 //     | impliedSearch)
 pub fn command(input: &str) -> IResult<&str, ast::Command> {
+    alt((named_command, into(SearchParser::parse)))(input)
+}
+
+/// A command which starts with its name, i.e. anything but an implied search
+fn named_command(input: &str) -> IResult<&str, ast::Command> {
     alt((
         // `alt` has a hard count limit, so we just break it up into sub-alts
         alt((
@@ -1273,31 +1278,41 @@ pub fn command(input: &str) -> IResult<&str, ast::Command> {
             into(TStatsParser::parse),
             into(WhereParser::parse),
         )),
-        into(SearchParser::parse),
+        preceded(
+            peek(pair(tag_no_case("search"), multispace1)),
+            into(SearchParser::parse),
+        ),
     ))(input)
 }
+
+/// Commands separated by pipes. Only one that no pipe precedes may be a search without its name.
+fn commands(input: &str) -> IResult<&str, Vec<ast::Command>> {
+    let (input, leading_pipe) = opt(ws(tag("|")))(input)?;
+    let (input, first) = match leading_pipe {
+        Some(_) => opt(named_command)(input)?,
+        None => opt(command)(input)?,
+    };
+    let Some(first) = first else {
+        return Ok((input, vec![]));
+    };
+    let (input, rest) = many0(preceded(ws(tag("|")), named_command))(input)?;
+    Ok((input, std::iter::once(first).chain(rest).collect()))
+}
+
 //
 //   def subSearch[_: P]: P[Pipeline] = "[" ~ (command rep(sep = "|")) ~ "]" map Pipeline
 pub fn sub_search(input: &str) -> IResult<&str, ast::Pipeline> {
     map(
-        delimited(
-            ws(tag("[")),
-            preceded(opt(ws(tag("|"))), separated_list0(ws(tag("|")), command)),
-            ws(tag("]")),
-        ),
+        delimited(ws(tag("[")), commands, ws(tag("]"))),
         |commands| ast::Pipeline { commands },
     )(input)
 }
 
 //   def pipeline[_: P]: P[Pipeline] = (command rep(sep = "|")) ~ End map Pipeline
 pub fn pipeline(input: &str) -> IResult<&str, ast::Pipeline> {
-    map(
-        preceded(
-            opt(ws(tag("|"))),
-            all_consuming(ws(separated_list0(ws(tag("|")), command))),
-        ),
-        |commands| ast::Pipeline { commands },
-    )(input)
+    map(all_consuming(ws(commands)), |commands| ast::Pipeline {
+        commands,
+    })(input)
 }
 
 // <expression>
-- 
2.43.0


From d13b3cdeaeffceebca55a3b99eeb4a37507517de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:05 +0000
Subject: [PATCH 14/60] fix: reject a negative or overflowing number of rows

---
 src/commands/cmd_head/pyspark.rs | 18 ++++++++++--------
 src/commands/cmd_rare/spl.rs     |  8 ++++----
 src/commands/cmd_sort/pyspark.rs |  2 +-
 src/commands/cmd_tail/spl.rs     |  4 ++--
 src/commands/cmd_top/spl.rs      |  8 ++++----
 src/spl/parser.rs                | 10 ++++++++++
 6 files changed, 31 insertions(+), 19 deletions(-)

diff --git a/src/commands/cmd_head/pyspark.rs b/src/commands/cmd_head/pyspark.rs
index b27bf3d..f4d9f67 100644
--- a/src/commands/cmd_head/pyspark.rs
+++ b/src/commands/cmd_head/pyspark.rs
@@ -1,7 +1,7 @@
 use crate::commands::cmd_head::spl::HeadCommand;
 use crate::pyspark::transpiler::{PipelineTransformState, PipelineTransformer};
 use crate::spl::ast;
-use anyhow::bail;
+use anyhow::{anyhow, bail};
 
 impl PipelineTransformer for HeadCommand {
     fn transform_standalone(
@@ -30,25 +30,27 @@ impl PipelineTransformer for HeadCommand {
                     ))) => limit,
                     _ => bail!("Unable to find a constant integer being compared against `count`"),
                 };
-                let limit = match (was_left, symbol.as_str()) {
-                    (true, "<") => limit_value,
-                    (true, "<=") => limit_value + 1,
-                    (false, ">") => limit_value,
-                    (false, ">=") => limit_value + 1,
+                let extra_rows = match (was_left, symbol.as_str()) {
+                    (true, "<") => 0,
+                    (true, "<=") => 1,
+                    (false, ">") => 0,
+                    (false, ">=") => 1,
                     _ => bail!(
                         "Unsupported `count` comparison ({}, {}) for head command",
                         was_left,
                         symbol
                     ),
                 } + if self.keep_last.0 { 1 } else { 0 };
-                limit
+                limit_value
+                    .checked_add(extra_rows)
+                    .ok_or(anyhow!("Limit for head command is too large"))?
             }
             _ => bail!(
                 "Limit for head command must be an integer (or equivalent `count<N` expression)"
             ),
         };
 
-        df = df.limit(limit as u64);
+        df = df.limit(u64::try_from(limit)?);
         Ok(state.with_df(df))
     }
 }
diff --git a/src/commands/cmd_rare/spl.rs b/src/commands/cmd_rare/spl.rs
index f6441b6..3c1519f 100644
--- a/src/commands/cmd_rare/spl.rs
+++ b/src/commands/cmd_rare/spl.rs
@@ -1,6 +1,6 @@
 use crate::commands::spl::{SplCommand, SplCommandOptions};
 use crate::spl::ast::{Field, ParsedCommandOptions};
-use crate::spl::parser::{field_list0, int, ws};
+use crate::spl::parser::{field_list0, opt_non_negative_int, ws};
 use crate::spl::python::*;
 use nom::bytes::complete::tag_no_case;
 use nom::combinator::{map, opt};
@@ -95,7 +95,7 @@ impl TryFrom<ParsedCommandOptions> for RareCommandOptions {
     fn try_from(value: ParsedCommandOptions) -> Result<Self, Self::Error> {
         Ok(Self {
             count_field: value.get_string("countfield", "count")?,
-            limit: value.get_int("limit", 10)? as u64,
+            limit: value.get_int("limit", 10)?.try_into()?,
             other_str: value.get_string("otherstr", "OTHER")?,
             percent_field: value.get_string("percentfield", "percent")?,
             show_count: value.get_boolean("showcount", true)?,
@@ -112,14 +112,14 @@ impl SplCommand<RareCommand> for RareParser {
     fn parse_body(input: &str) -> IResult<&str, RareCommand> {
         map(
             tuple((
-                ws(opt(int)),
+                ws(opt_non_negative_int),
                 ws(Self::Options::match_options),
                 ws(field_list0),
                 ws(opt(preceded(ws(tag_no_case("BY")), field_list0))),
             )),
             |(n, opts, fields, by_fields)| RareCommand {
                 fields,
-                n: n.map(|i| i.0 as u64).unwrap_or(opts.limit),
+                n: n.unwrap_or(opts.limit),
                 by: by_fields,
                 count_field: opts.count_field,
                 // limit: opts.limit,
diff --git a/src/commands/cmd_sort/pyspark.rs b/src/commands/cmd_sort/pyspark.rs
index c5ee775..913dac9 100644
--- a/src/commands/cmd_sort/pyspark.rs
+++ b/src/commands/cmd_sort/pyspark.rs
@@ -62,7 +62,7 @@ impl PipelineTransformer for SortCommand {
         df = df.order_by(sort_fields?);
 
         if self.count != 0 {
-            df = df.limit(self.count as u64);
+            df = df.limit(u64::try_from(self.count)?);
         }
 
         Ok(state.with_df(df))
diff --git a/src/commands/cmd_tail/spl.rs b/src/commands/cmd_tail/spl.rs
index f0187e9..ccfe9d0 100644
--- a/src/commands/cmd_tail/spl.rs
+++ b/src/commands/cmd_tail/spl.rs
@@ -1,6 +1,6 @@
 use crate::commands::spl::{SplCommand, SplCommandOptions};
 use crate::spl::ast::ParsedCommandOptions;
-use crate::spl::parser::int;
+use crate::spl::parser::non_negative_int;
 use crate::spl::python::*;
 use nom::combinator::map;
 use nom::IResult;
@@ -35,6 +35,6 @@ impl SplCommand<TailCommand> for TailParser {
     type Options = TailCommandOptions;
 
     fn parse_body(input: &str) -> IResult<&str, TailCommand> {
-        map(int, |n| TailCommand { n: n.0 as u64 })(input)
+        map(non_negative_int, |n| TailCommand { n })(input)
     }
 }
diff --git a/src/commands/cmd_top/spl.rs b/src/commands/cmd_top/spl.rs
index 09bd0ee..385f179 100644
--- a/src/commands/cmd_top/spl.rs
+++ b/src/commands/cmd_top/spl.rs
@@ -1,6 +1,6 @@
 use crate::commands::spl::{SplCommand, SplCommandOptions};
 use crate::spl::ast::{Field, ParsedCommandOptions};
-use crate::spl::parser::{field_list1, int, ws};
+use crate::spl::parser::{field_list1, opt_non_negative_int, ws};
 use crate::spl::python::*;
 use nom::bytes::complete::tag_no_case;
 use nom::combinator::{map, opt};
@@ -95,7 +95,7 @@ impl TryFrom<ParsedCommandOptions> for TopCommandOptions {
     fn try_from(value: ParsedCommandOptions) -> Result<Self, Self::Error> {
         Ok(Self {
             count_field: value.get_string("countfield", "count")?,
-            limit: value.get_int("limit", 10)? as u64,
+            limit: value.get_int("limit", 10)?.try_into()?,
             other_str: value.get_string("otherstr", "OTHER")?,
             percent_field: value.get_string("percentfield", "percent")?,
             show_count: value.get_boolean("showcount", true)?,
@@ -112,14 +112,14 @@ impl SplCommand<TopCommand> for TopParser {
     fn parse_body(input: &str) -> IResult<&str, TopCommand> {
         map(
             tuple((
-                ws(opt(int)),
+                ws(opt_non_negative_int),
                 ws(Self::Options::match_options),
                 field_list1,
                 ws(opt(preceded(ws(tag_no_case("BY")), field_list1))),
             )),
             |(n, opts, fields, by_fields)| TopCommand {
                 fields,
-                n: n.map(|i| i.0 as u64).unwrap_or(opts.limit),
+                n: n.unwrap_or(opts.limit),
                 by: by_fields,
                 count_field: opts.count_field,
                 // limit: opts.limit,
diff --git a/src/spl/parser.rs b/src/spl/parser.rs
index ff19abf..7b2d965 100644
--- a/src/spl/parser.rs
+++ b/src/spl/parser.rs
@@ -606,6 +606,16 @@ pub fn int(input: &str) -> IResult<&str, ast::IntValue> {
     )(input)
 }
 
+/// An integer for what cannot be negative, such as the number of rows to keep
+pub fn non_negative_int(input: &str) -> IResult<&str, u64> {
+    unwrapped(map(int, |n| u64::try_from(n.0))).parse(input)
+}
+
+/// An optional `non_negative_int`. A negative one is an error rather than the start of what follows.
+pub fn opt_non_negative_int(input: &str) -> IResult<&str, Option<u64>> {
+    terminated(opt(non_negative_int), not(preceded(tag("-"), digit1)))(input)
+}
+
 //   private[spl] def double[_: P]: P[DoubleValue] =
 //     ("+" | "-").?.! ~~ digit.rep(1).! ~~ "." ~~ digit.rep(1).! map {
 //       case (sign, i, j) => DoubleValue(
-- 
2.43.0


From 57cdb049337cf8358e3bef505afbbc10d70cb065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:17 +0000
Subject: [PATCH 15/60] fix: take a mvindex range that counts from the end from
 the right place

---
 src/functions/eval_fns.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/functions/eval_fns.rs b/src/functions/eval_fns.rs
index 67b5bf8..19721a6 100644
--- a/src/functions/eval_fns.rs
+++ b/src/functions/eval_fns.rs
@@ -517,7 +517,19 @@ fn eval_fn_bare(name: String, args: Vec<ContextualizedExpr<ast::Expr>>) -> Resul
                 None => column_like!(get([x], [py_lit(start)])),
                 Some(end) => {
                     let end: i64 = map_arg(end) ?;
-                    column_like!(slice([x], [py_lit(start + 1)], [py_lit(end - start + 1)]))
+                    ensure!(
+                        (start < 0) == (end < 0),
+                        "UNIMPLEMENTED: `mvindex` needs a start and an end which count from the same side"
+                    );
+                    ensure!(start <= end, "`mvindex` has an end before its start");
+                    let length = end.checked_sub(start).and_then(|v| v.checked_add(1));
+                    let first = if start < 0 { Some(start) } else { start.checked_add(1) };
+                    match (first, length) {
+                        (Some(first), Some(length)) => {
+                            column_like!(slice([x], [py_lit(first)], [py_lit(length)]))
+                        },
+                        _ => bail!("`mvindex` range is too large: {} to {}", start, end),
+                    }
                 },
             }
         }),
-- 
2.43.0


From db68c97870fc8e54248d092b6b37911f99f2df2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:50 +0000
Subject: [PATCH 16/60] fix: subtract the aggregated minimum in stats range

---
 src/functions/stat_fns.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/functions/stat_fns.rs b/src/functions/stat_fns.rs
index 3724c76..c72e517 100644
--- a/src/functions/stat_fns.rs
+++ b/src/functions/stat_fns.rs
@@ -162,7 +162,7 @@ fn stats_fn_bare(
         }
         // range(<value>)                       	 If the field values are numeric, returns the difference between the maximum and minimum values in the field specified.
         "range" => {
-            function_transform!(range [args] (x) { column_like!(max([[x.clone()] - [min([x])]])) })
+            function_transform!(range [args] (x) { column_like!([max([x.clone()])] - [min([x])]) })
         }
         // stdev(<value>)                       	 Returns the sample standard deviation of the values in the field specified.
         "stdev" => function_transform!(stdev [args] (x) { column_like!(stddev_samp([x])) }),
-- 
2.43.0


From 678ab0cbfdaf7a40e164514571fa464b1f483981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:49 +0000
Subject: [PATCH 17/60] fix: render the concatenation operator as a function
 call

---
 src/pyspark/transpiler/expr.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pyspark/transpiler/expr.rs b/src/pyspark/transpiler/expr.rs
index dd7f2c9..b071059 100644
--- a/src/pyspark/transpiler/expr.rs
+++ b/src/pyspark/transpiler/expr.rs
@@ -71,6 +71,12 @@ impl ToSparkExpr for ast::Expr {
                         _ => bail!("Unsupported comparison operator for wildcard rhs: {}", op),
                     }
                 }
+                // a . b -> F.concat(a, b)
+                (left, ".", right) => {
+                    let left: Expr = left.with_context(ctx).try_into()?;
+                    let right: Expr = right.with_context(ctx).try_into()?;
+                    Ok(column_like!(concat([left.unaliased()], [right.unaliased()])).into())
+                }
                 // a [op] b -> a [op] b
                 (left, op, right) => Ok(ColumnLike::try_binary_op(
                     left.with_context(ctx),
-- 
2.43.0


From ebda691e3d83bd3f6c70f3015c051434729ec98a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:40 +0000
Subject: [PATCH 18/60] fix: fill only the listed fields with fillnull

---
 src/commands/cmd_fill_null/pyspark.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/commands/cmd_fill_null/pyspark.rs b/src/commands/cmd_fill_null/pyspark.rs
index c424d1a..8e9a3ec 100644
--- a/src/commands/cmd_fill_null/pyspark.rs
+++ b/src/commands/cmd_fill_null/pyspark.rs
@@ -27,10 +27,16 @@ impl PipelineTransformer for FillNullCommand {
     ) -> anyhow::Result<PipelineTransformState> {
         let df = state.df.clone().unwrap_or_default();
 
-        let df = df.arbitrary_method(
-            "fillna",
-            vec![column_like!(py_lit(self.value.clone())).into()],
-        );
+        let mut params: Vec<Expr> = vec![column_like!(py_lit(self.value.clone())).into()];
+        if let Some(fields) = &self.fields {
+            let names = fields
+                .iter()
+                .map(|f| PyLiteral::from(f.0.clone()).0)
+                .collect::<Vec<_>>()
+                .join(", ");
+            params.push(PyLiteral(format!("[{}]", names)).into());
+        }
+        let df = df.arbitrary_method("fillna", params);
 
         Ok(state.with_df(df))
     }
-- 
2.43.0


From d5cf17c14aa1f6cd835e85bff181be4c44253b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:58 +0000
Subject: [PATCH 19/60] fix: compare with the text of an unquoted value in a
 search

---
 src/commands/cmd_search/pyspark.rs | 31 ++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/src/commands/cmd_search/pyspark.rs b/src/commands/cmd_search/pyspark.rs
index d9d73ed..a20d94d 100644
--- a/src/commands/cmd_search/pyspark.rs
+++ b/src/commands/cmd_search/pyspark.rs
@@ -62,6 +62,33 @@ fn split_conditions(
     }
 }
 
+/// The right-hand side of a comparison in a search is always a value, even without quotes
+fn compare_with_values(expr: &ast::Expr) -> ast::Expr {
+    match expr.clone() {
+        ast::Expr::Binary(ast::Binary {
+            left,
+            symbol,
+            right,
+        }) => {
+            let is_comparison = matches!(
+                symbol.as_str(),
+                "=" | "==" | "!=" | "<" | "<=" | ">" | ">="
+            );
+            let right = match *right {
+                ast::Expr::Leaf(ast::LeafExpr::Constant(ast::Constant::Field(ast::Field(
+                    value,
+                )))) if is_comparison => ast::StrValue(value).into(),
+                right => compare_with_values(&right),
+            };
+            ast::Binary::new(compare_with_values(&left), symbol, right).into()
+        }
+        ast::Expr::Unary(ast::Unary { symbol, right }) => {
+            ast::Unary::new(symbol, compare_with_values(&right)).into()
+        }
+        expr => expr,
+    }
+}
+
 fn break_down_ands(expr: &ast::Expr, exprs: &mut Vec<ast::Expr>) {
     match expr {
         ast::Expr::Binary(ast::Binary {
@@ -92,7 +119,7 @@ impl PipelineTransformer for SearchCommand {
         state: PipelineTransformState,
     ) -> Result<PipelineTransformState> {
         let mut exprs = vec![];
-        break_down_ands(&self.expr, &mut exprs);
+        break_down_ands(&compare_with_values(&self.expr), &mut exprs);
 
         let df = state.df.clone();
 
@@ -196,7 +223,7 @@ impl PipelineTransformer for SearchCommand {
         df = match condition_expr {
             None => df,
             Some(condition) => {
-                let condition: Expr = condition.with_context(&state.ctx).try_into()?;
+                let condition: Expr = compare_with_values(&condition).with_context(&state.ctx).try_into()?;
                 df.where_(condition.into_search_expr())
             }
         };
-- 
2.43.0


From 64c0636cfff6bc3f21d918ed89d99045e3c5bef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:52 +0000
Subject: [PATCH 20/60] fix: call the runtime functions that exist for stats
 aggregations

---
 .../spl_transpiler/runtime/functions/stats.py | 11 ++--
 src/commands/cmd_stats/pyspark.rs             |  8 +--
 src/commands/stats_utils.rs                   |  9 +--
 src/functions/stat_fns.rs                     | 55 +++++++++++--------
 4 files changed, 43 insertions(+), 40 deletions(-)

diff --git a/python/spl_transpiler/runtime/functions/stats.py b/python/spl_transpiler/runtime/functions/stats.py
index b3595a2..afb77ad 100644
--- a/python/spl_transpiler/runtime/functions/stats.py
+++ b/python/spl_transpiler/runtime/functions/stats.py
@@ -41,14 +41,17 @@ def avg(value: Expr) -> AvgStatsFn:
 #         }),
 class CountStatsFn(StatsFunction):
     name: Literal["count"] = "count"
+    value: Expr | None = None
 
     def to_pyspark_expr_simple(self):
-        return F.count(F.lit(1))
+        if self.value is None:
+            return F.count(F.lit(1))
+        return F.count(self.value.to_pyspark_expr())
 
 
 @enforce_types
-def count() -> CountStatsFn:
-    return CountStatsFn()
+def count(value: Expr | None = None) -> CountStatsFn:
+    return CountStatsFn(value=value)
 
 
 #         // distinct_count(<value>)              	 Returns the count of distinct values in the field specified.
@@ -63,7 +66,7 @@ class DistinctCountStatsFn(StatsFunction):
     x: Expr
 
     def to_pyspark_expr_simple(self):
-        return F.approx_count_distinct(self.x.to_pyspark_expr())
+        return F.count_distinct(self.x.to_pyspark_expr())
 
 
 @enforce_types
diff --git a/src/commands/cmd_stats/pyspark.rs b/src/commands/cmd_stats/pyspark.rs
index 5c2897f..ad4a286 100644
--- a/src/commands/cmd_stats/pyspark.rs
+++ b/src/commands/cmd_stats/pyspark.rs
@@ -1,7 +1,7 @@
 use super::spl::*;
 use crate::commands::stats_utils;
+use crate::functions::stat_fns::stats_runtime_call;
 use crate::pyspark::alias::Aliasable;
-use crate::pyspark::ast::ColumnLike::FunctionCall;
 use crate::pyspark::ast::*;
 use crate::pyspark::base::{PysparkTranspileContext, ToSparkExpr};
 use crate::pyspark::transpiler::{PipelineTransformState, PipelineTransformer};
@@ -27,11 +27,7 @@ fn transform_stats_runtime_expr(
         .into_iter()
         .map(|e| e.with_context(ctx).try_into())
         .collect();
-    let expr: Expr = FunctionCall {
-        func: format!("functions.stats.{}", name).to_string(),
-        args: args?,
-    }
-    .into();
+    let expr: Expr = stats_runtime_call(&name, args?)?.into();
     Ok((alias, RuntimeExpr::from(expr)))
 }
 
diff --git a/src/commands/stats_utils.rs b/src/commands/stats_utils.rs
index bb133dc..a1b22fb 100644
--- a/src/commands/stats_utils.rs
+++ b/src/commands/stats_utils.rs
@@ -1,6 +1,5 @@
-use crate::functions::stat_fns::stats_fn;
+use crate::functions::stat_fns::{stats_fn, stats_runtime_call};
 use crate::pyspark::alias::Aliasable;
-use crate::pyspark::ast::ColumnLike::FunctionCall;
 use crate::pyspark::ast::*;
 use crate::pyspark::base::{PysparkTranspileContext, ToSparkExpr};
 use crate::spl::ast;
@@ -63,11 +62,7 @@ pub fn transform_stats_runtime_expr(
         .into_iter()
         .map(|e| e.with_context(ctx).try_into())
         .collect();
-    let expr: Expr = FunctionCall {
-        func: format!("functions.stats.{}", name).to_string(),
-        args: args?,
-    }
-    .into();
+    let expr: Expr = stats_runtime_call(&name, args?)?.into();
     Ok((alias, RuntimeExpr::from(expr)))
 }
 
diff --git a/src/functions/stat_fns.rs b/src/functions/stat_fns.rs
index c72e517..eb79346 100644
--- a/src/functions/stat_fns.rs
+++ b/src/functions/stat_fns.rs
@@ -48,7 +48,7 @@ rate_sum(<value>)                    	 Returns the summed rates for the time ser
 use crate::functions::*;
 use crate::pyspark::ast::ColumnLike;
 use crate::pyspark::ast::*;
-use crate::pyspark::base::{PysparkTranspileContext, RuntimeSelection, ToSparkExpr};
+use crate::pyspark::base::{PysparkTranspileContext, ToSparkExpr};
 use crate::spl::ast;
 use anyhow::{bail, ensure, Result};
 use log::warn;
@@ -76,32 +76,41 @@ pub fn stats_fn(
     };
     let args: Vec<_> = args.into_iter().map(|arg| arg.with_context(ctx)).collect();
 
-    let (df, expr) = match ctx.runtime {
-        RuntimeSelection::Disallow => stats_fn_bare(name, args, df),
-        RuntimeSelection::Require => stats_fn_runtime(name, args, df),
-        RuntimeSelection::Allow => stats_fn_runtime(name.clone(), args.clone(), df.clone())
-            .or_else(|_| stats_fn_bare(name, args, df)),
-    }?;
+    // A dataframe aggregation takes columns only, so the runtime functions are not an option here
+    let (df, expr) = stats_fn_bare(name, args, df)?;
 
     Ok((df, expr.maybe_with_alias(maybe_alias)))
 }
 
-fn stats_fn_runtime(
-    name: String,
-    args: Vec<ContextualizedExpr<ast::Expr>>,
-    df: DataFrame,
-) -> Result<(DataFrame, ColumnLike)> {
-    // match name.as_str() {
-    //     name => {
-    // warn!(
-    //     "Unknown eval function encountered, returning as is: {}",
-    //     name
-    // );
-    let func = format!("functions.stats.{}", name);
-    let args: Result<Vec<Expr>> = map_args(args);
-    Ok((df, ColumnLike::FunctionCall { func, args: args? }))
-    // }
-    // }
+/// The call of the runtime function for a stats function, if there is one
+pub fn stats_runtime_call(name: &str, mut args: Vec<Expr>) -> Result<ColumnLike> {
+    let func = match name {
+        "avg" | "count" | "distinct_count" | "estdc" | "max" | "mean" | "median" | "min"
+        | "mode" | "range" | "stdev" | "sumsq" | "var" | "varp" | "first" | "last" | "values"
+        | "earliest" | "latest" | "rate" => name,
+        "earliest_time" | "latest_time" => {
+            args.clear();
+            name
+        }
+        "dc" => "distinct_count",
+        "sum" => "sum_",
+        "list" => "list_",
+        _ => {
+            let digits = name.len() - name.trim_end_matches(|c: char| c.is_ascii_digit()).len();
+            let (func, percentile) = name.split_at(name.len() - digits);
+            ensure!(
+                matches!(func, "exactperc" | "percentile" | "upperperc"),
+                "No runtime function for stats function `{}`",
+                name
+            );
+            args.push(column_like!(py_lit(percentile.parse::<i64>()?)).into());
+            func
+        }
+    };
+    Ok(ColumnLike::FunctionCall {
+        func: format!("functions.stats.{}", func),
+        args,
+    })
 }
 
 fn stats_fn_bare(
-- 
2.43.0


From d95dfe3f8c59aafe20f69f88b471809f00393039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:21 +0000
Subject: [PATCH 21/60] fix: pass only valid and distinct names as keyword
 arguments of runtime commands

---
 src/commands/cmd_eval/pyspark.rs    |  4 +-
 src/commands/cmd_stats/pyspark.rs   |  3 ++
 src/commands/cmd_t_stats/pyspark.rs |  6 +++
 src/pyspark/ast.rs                  | 62 +++++++++++++++++++++++++++++
 4 files changed, 74 insertions(+), 1 deletion(-)

diff --git a/src/commands/cmd_eval/pyspark.rs b/src/commands/cmd_eval/pyspark.rs
index 632d50a..aa989fd 100644
--- a/src/commands/cmd_eval/pyspark.rs
+++ b/src/commands/cmd_eval/pyspark.rs
@@ -34,8 +34,10 @@ impl PipelineTransformer for EvalCommand {
                 ))
             })
             .collect();
+        let kwargs = kwargs?;
+        ensure_keyword_arguments(kwargs.iter().map(|(name, _)| name), &["df"])?;
 
-        let df = DataFrame::runtime(state.df.clone(), "eval", vec![], kwargs?, &state.ctx);
+        let df = DataFrame::runtime(state.df.clone(), "eval", vec![], kwargs, &state.ctx);
 
         Ok(state.with_df(df))
     }
diff --git a/src/commands/cmd_stats/pyspark.rs b/src/commands/cmd_stats/pyspark.rs
index ad4a286..3fbf241 100644
--- a/src/commands/cmd_stats/pyspark.rs
+++ b/src/commands/cmd_stats/pyspark.rs
@@ -62,10 +62,13 @@ impl PipelineTransformer for StatsCommand {
             all_kwargs.push("by", PyList(by_fields));
         }
 
+        let mut names = vec![];
         for e in self.funcs.iter() {
             let (name, e) = transform_stats_runtime_expr(e, &state.ctx)?;
+            names.push(name.clone());
             all_kwargs.push(name, e);
         }
+        ensure_keyword_arguments(&names, &["df", "by"])?;
 
         let df = DataFrame::runtime(state.df.clone(), "stats", vec![], all_kwargs.0, &state.ctx);
 
diff --git a/src/commands/cmd_t_stats/pyspark.rs b/src/commands/cmd_t_stats/pyspark.rs
index 071bb96..c79493c 100644
--- a/src/commands/cmd_t_stats/pyspark.rs
+++ b/src/commands/cmd_t_stats/pyspark.rs
@@ -75,10 +75,16 @@ impl PipelineTransformer for TStatsCommand {
             all_kwargs.push("by", PyList(by_fields));
         }
 
+        let mut names = vec![];
         for e in self.exprs.iter() {
             let (name, e) = stats_utils::transform_stats_runtime_expr(e, &state.ctx)?;
+            names.push(name.clone());
             all_kwargs.push(name, e);
         }
+        ensure_keyword_arguments(
+            &names,
+            &["df", "fill_null_value", "from_", "where", "by"],
+        )?;
 
         let df = DataFrame::runtime(state.df.clone(), "tstats", vec![], all_kwargs.0, &state.ctx);
 
diff --git a/src/pyspark/ast.rs b/src/pyspark/ast.rs
index b9c4db4..423b51e 100644
--- a/src/pyspark/ast.rs
+++ b/src/pyspark/ast.rs
@@ -434,6 +434,68 @@ impl PyDict {
     }
 }
 
+const PYTHON_KEYWORDS: [&str; 36] = [
+    "False",
+    "None",
+    "True",
+    "__debug__",
+    "and",
+    "as",
+    "assert",
+    "async",
+    "await",
+    "break",
+    "class",
+    "continue",
+    "def",
+    "del",
+    "elif",
+    "else",
+    "except",
+    "finally",
+    "for",
+    "from",
+    "global",
+    "if",
+    "import",
+    "in",
+    "is",
+    "lambda",
+    "nonlocal",
+    "not",
+    "or",
+    "pass",
+    "raise",
+    "return",
+    "try",
+    "while",
+    "with",
+    "yield",
+];
+
+/// Whether a field can be passed to a Python function as a keyword argument of that name
+pub fn is_keyword_argument(name: &str) -> bool {
+    name.starts_with(|c: char| c.is_ascii_alphabetic() || c == '_')
+        && name.chars().all(|c| c.is_ascii_alphanumeric() || c == '_')
+        && !PYTHON_KEYWORDS.contains(&name)
+}
+
+/// Fails unless every field can be passed to the runtime function as its own keyword argument
+pub fn ensure_keyword_arguments<'a>(
+    names: impl IntoIterator<Item = &'a String>,
+    reserved: &[&str],
+) -> Result<()> {
+    let mut seen = std::collections::HashSet::new();
+    for name in names {
+        anyhow::ensure!(
+            is_keyword_argument(name) && !reserved.contains(&name.as_str()) && seen.insert(name),
+            "Cannot pass `{}` to a runtime command as a keyword argument",
+            name
+        );
+    }
+    Ok(())
+}
+
 impl ToSparkQuery for PyDict {
     fn to_spark_query(&self, ctx: &PysparkTranspileContext) -> Result<PythonCode> {
         let mut out_preface = vec![];
-- 
2.43.0


From 272ae3ceea55015e765930596764739ebf471454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:21 +0000
Subject: [PATCH 22/60] fix: search the rows of the pipeline for terms,
 patterns and lookup fields

---
 src/commands/cmd_search/pyspark.rs | 57 +++++++++++++++++++++++++-----
 1 file changed, 49 insertions(+), 8 deletions(-)

diff --git a/src/commands/cmd_search/pyspark.rs b/src/commands/cmd_search/pyspark.rs
index a20d94d..4c3fb86 100644
--- a/src/commands/cmd_search/pyspark.rs
+++ b/src/commands/cmd_search/pyspark.rs
@@ -113,6 +113,35 @@ const EVENT_TYPE_TAG: &str = "eventtypetag";
 const SAVED_SPLUNK: &str = "savedsplunk";
 const SPLUNK_SERVER: &str = "splunk_server";
 
+/// Arguments of the runtime command that are not conditions on a field of that name
+const RESERVED: [&str; 10] = [
+    "df",
+    "index",
+    "source",
+    "source_type",
+    "host",
+    "host_tag",
+    "event_type",
+    "event_type_tag",
+    "saved_splunk",
+    "splunk_server",
+];
+
+/// Whether a comparison with this value is more than an equality
+fn is_pattern(expr: &ast::Expr) -> bool {
+    matches!(
+        expr,
+        ast::Expr::Leaf(ast::LeafExpr::Constant(
+            ast::Constant::Wildcard(_) | ast::Constant::IPv4CIDR(_)
+        ))
+    )
+}
+
+fn condition(expr: ast::Expr, ctx: &PysparkTranspileContext) -> Result<RuntimeExpr> {
+    let expr: Expr = expr.with_context(ctx).try_into()?;
+    Ok(expr.into_search_expr().into())
+}
+
 impl PipelineTransformer for SearchCommand {
     fn transform_for_runtime(
         &self,
@@ -139,7 +168,7 @@ impl PipelineTransformer for SearchCommand {
                                 ast::Field(name),
                             ))),
                             op,
-                        ) if matches!(
+                        ) if df.is_none() && matches!(
                             name.as_str(),
                             INDEX
                                 | SOURCE
@@ -175,6 +204,11 @@ impl PipelineTransformer for SearchCommand {
                             ast::Expr::Leaf(ast::LeafExpr::Constant(ast::Constant::Str(ast::StrValue(val)))) => val,
                             _ => bail!("Right-hand side of comparison to {} must be a string-like value", name),
                         };
+                            ensure!(
+                                !kwargs.iter().any(|(key, _)| key == name),
+                                "Cannot look up several values of `{}`",
+                                name
+                            );
                             kwargs.push((name.to_string(), column_like!(py_lit(rhs_value)).into()))
                         }
                         (
@@ -182,14 +216,17 @@ impl PipelineTransformer for SearchCommand {
                                 ast::Field(name),
                             ))),
                             "=" | "==",
-                        ) => kwargs.push((
-                            name.to_string(),
-                            (*right).with_context(&state.ctx).try_into()?,
-                        )),
-                        _ => args.push(expr.with_context(&state.ctx).try_into()?),
+                        ) if is_keyword_argument(&name)
+                            && !RESERVED.contains(&name.as_str())
+                            && !is_pattern(&right)
+                            && !kwargs.iter().any(|(key, _)| *key == name) =>
+                        {
+                            kwargs.push((name, (*right).with_context(&state.ctx).try_into()?))
+                        }
+                        _ => args.push(condition(expr, &state.ctx)?),
                     }
                 }
-                _ => args.push(expr.with_context(&state.ctx).try_into()?),
+                _ => args.push(condition(expr, &state.ctx)?),
             }
         }
 
@@ -203,7 +240,11 @@ impl PipelineTransformer for SearchCommand {
         state: PipelineTransformState,
     ) -> Result<PipelineTransformState> {
         let mut indices = HashSet::new();
-        let condition_expr = split_conditions(&self.expr, true, &mut indices, &state.ctx)?;
+        let condition_expr = match state.df {
+            // Only the first search of a pipeline selects indices, later ones filter its rows
+            Some(_) => Some(self.expr.clone()),
+            None => split_conditions(&self.expr, true, &mut indices, &state.ctx)?,
+        };
         let mut df = if !indices.is_empty() {
             let mut _df: Option<DataFrame> = None;
             let mut indices: Vec<_> = indices.into_iter().collect();
-- 
2.43.0


From a7cd912eb685d1d4aa441b681a6fafa22f75b0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:05 +0000
Subject: [PATCH 23/60] fix: read the data model that a datamodel command names

---
 .../spl_transpiler/runtime/commands/data_model.py   | 13 +++++++++----
 src/commands/cmd_data_model/pyspark.rs              |  7 ++++++-
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/python/spl_transpiler/runtime/commands/data_model.py b/python/spl_transpiler/runtime/commands/data_model.py
index 0f1351a..f2fcee2 100644
--- a/python/spl_transpiler/runtime/commands/data_model.py
+++ b/python/spl_transpiler/runtime/commands/data_model.py
@@ -9,16 +9,21 @@ from spl_transpiler.runtime.config import settings
 
 @enforce_types
 def data_model(
-    # df: DataFrame | None,
-    data_model_name: str,
+    df: DataFrame | str | None = None,
+    data_model_name: str | None = None,
     dataset_name: str | None = None,
     search_mode: str | None = "search",
     strict_fields: bool | None = None,
     allow_old_summaries: bool | None = None,
     summaries_only: bool | None = None,
 ) -> DataFrame:
-    # if df is not None:
-    #     raise NotImplementedError("Cannot pass input to `data_model`")
+    if isinstance(df, str) and data_model_name is None:
+        # The name may be given as the only positional argument
+        df, data_model_name = None, df
+    if df is not None:
+        raise NotImplementedError("Cannot pass input to `data_model`")
+    if data_model_name is None:
+        raise ValueError("`data_model` requires the name of a data model")
     if search_mode and search_mode != "search":
         raise NotImplementedError(
             "`data_model` command does not support search_mode other than 'search'"
diff --git a/src/commands/cmd_data_model/pyspark.rs b/src/commands/cmd_data_model/pyspark.rs
index b164f56..9627776 100644
--- a/src/commands/cmd_data_model/pyspark.rs
+++ b/src/commands/cmd_data_model/pyspark.rs
@@ -58,7 +58,12 @@ impl PipelineTransformer for DataModelCommand {
                     // node_name = <root_dataset_name>.<...>.<target_dataset_name>
                     // return <data_model_name>.<root_dataset_name>.<...>.<target_dataset_name>
                     let truncated_node_name = node_name.split(".").skip(1).collect::<Vec<_>>().join(".");
-                    format!("{}.{}", data_model, truncated_node_name)
+                    if truncated_node_name.is_empty() {
+                        // The root dataset itself
+                        data_model
+                    } else {
+                        format!("{}.{}", data_model, truncated_node_name)
+                    }
                 }
                 _ => bail!("I think we received a dataset ({:?}) with no data model ({:?}) in `datamodel`?", self.dataset_name, self.data_model_name),
             }),
-- 
2.43.0


From f2658b0c6a75f7a8866ecf916eac85e1bf2010b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:05 +0000
Subject: [PATCH 24/60] fix: return usable columns from the runtime functions

---
 python/spl_transpiler/runtime/base.py         |  6 +-
 .../spl_transpiler/runtime/functions/eval.py  | 63 +++++++++----------
 .../spl_transpiler/runtime/functions/utils.py |  4 +-
 .../spl_transpiler/runtime/udfs/__init__.py   | 12 ++--
 4 files changed, 40 insertions(+), 45 deletions(-)

diff --git a/python/spl_transpiler/runtime/base.py b/python/spl_transpiler/runtime/base.py
index 013d1ee..713fed9 100644
--- a/python/spl_transpiler/runtime/base.py
+++ b/python/spl_transpiler/runtime/base.py
@@ -4,9 +4,9 @@ from typing import Any
 from pydantic import validate_call, ConfigDict, BaseModel, model_validator
 import pyspark.sql.functions as F
 
-enforce_types = validate_call(
-    config=ConfigDict(arbitrary_types_allowed=True), validate_return=True
-)
+# Results are not validated: an `Expr` is returned as the PySpark column that it stands for,
+# so that it can be used wherever PySpark expects one
+enforce_types = validate_call(config=ConfigDict(arbitrary_types_allowed=True))
 
 
 class ExprKind(str, enum.Enum):
diff --git a/python/spl_transpiler/runtime/functions/eval.py b/python/spl_transpiler/runtime/functions/eval.py
index 446a0ba..1e43eeb 100644
--- a/python/spl_transpiler/runtime/functions/eval.py
+++ b/python/spl_transpiler/runtime/functions/eval.py
@@ -17,7 +17,7 @@ from spl_transpiler.runtime.functions import utils
 
 @enforce_types
 def bit_and(a: Expr, b: Expr) -> Expr:
-    a.to_pyspark_expr().bitwiseAND(b.to_pyspark_expr())
+    return a.to_pyspark_expr().bitwiseAND(b.to_pyspark_expr())
 
 
 #         // bit_or(<values>)                                    	 Bitwise OR function that takes two or more non-negative integers as arguments and sequentially performs bitwise OR on them.
@@ -102,7 +102,7 @@ def case(*args: Expr) -> Expr:
 
     result = F
     for condition, value in zip(args[::2], args[1::2]):
-        result.when(condition.to_pyspark_expr(), value.to_pyspark_expr())
+        result = result.when(condition.to_pyspark_expr(), value.to_pyspark_expr())
 
     return result
 
@@ -114,8 +114,8 @@ def case(*args: Expr) -> Expr:
 
 
 @enforce_types
-def cidrmatch(cidr: Expr, ip: Expr) -> Expr:
-    return udfs.cidr_match(cidr.to_pyspark_expr(), ip.to_pyspark_expr())
+def cidrmatch(cidr: str, ip: Expr) -> Expr:
+    return udfs.cidr_match(ip.to_pyspark_expr(), F.lit(cidr))
 
 
 #         // coalesce(<values>)                                  	 Takes one or more values and returns the first value that is not NULL.
@@ -156,8 +156,8 @@ def if_(condition: Expr, true_value: Expr, false_value: Expr) -> Expr:
 
 
 @enforce_types
-def in_(field: Expr, values: list) -> Expr:
-    return field.to_pyspark_expr().isin(values)
+def in_(field: Expr, *values: Expr) -> Expr:
+    return field.to_pyspark_expr().isin([v.to_pyspark_expr() for v in values])
 
 
 #         // like(<str>,<pattern>)                               	 Returns TRUE only if <str> matches <pattern>.
@@ -249,7 +249,7 @@ def true() -> Expr:
 
 
 @enforce_types
-def validate(*args) -> Expr:
+def validate(*args: Expr) -> Expr:
     if len(args) % 2 != 0:
         raise ValueError(
             "validate() function requires an even number of arguments (conditions and values)."
@@ -286,7 +286,7 @@ def ipmask(mask: Expr, ip: Expr) -> Expr:
 @enforce_types
 def printf(format_str: Expr, *args: Expr) -> Expr:
     return udfs.printf(
-        format_str.to_pyspark_expr(), [arg.to_pyspark_expr() for arg in args]
+        format_str.to_pyspark_expr(), F.struct(*(arg.to_pyspark_expr() for arg in args))
     )
 
 
@@ -299,7 +299,9 @@ def printf(format_str: Expr, *args: Expr) -> Expr:
 
 @enforce_types
 def tonumber(value: Expr, base: int = 10) -> Expr:
-    return udfs.tonumber(value.to_pyspark_expr(), base=base)
+    if base == 10:
+        return value.to_pyspark_expr().cast("double")
+    return udfs.tonumber(value.to_pyspark_expr(), F.lit(base))
 
 
 #         // tostring(<value>,<format>)                          	 Converts the input, such as a number or a Boolean value, to a string.
@@ -310,8 +312,10 @@ def tonumber(value: Expr, base: int = 10) -> Expr:
 
 
 @enforce_types
-def tostring(value, format=None):
-    return udfs.tostring(value.to_pyspark_expr(), format=format)
+def tostring(value: Expr, format: str | None = None):
+    if format is None:
+        return value.to_pyspark_expr().cast("string")
+    return udfs.tostring(value.to_pyspark_expr(), F.lit(format))
 
 
 #
@@ -427,10 +431,10 @@ def strftime(date: Expr, format: str, is_spl_format=True) -> Expr:
 
 
 @enforce_types
-def strptime(date: str, format: str, is_spl_format=True) -> Expr:
+def strptime(date: Expr, format: str, is_spl_format=True) -> Expr:
     if is_spl_format:
         format = utils.convert_time_format(format)
-    return F.to_timestamp(date, format)
+    return F.to_timestamp(date.to_pyspark_expr(), format)
 
 
 #         // time()                                              	 The time that eval function was computed. The time will be different for each event, based on when the event was processed.
@@ -708,7 +712,7 @@ def ln(num: Expr) -> Expr:
 
 @enforce_types
 def log(num: Expr, base: int = 10) -> Expr:
-    return F.log(num.to_pyspark_expr(), base)
+    return F.log(float(base), num.to_pyspark_expr())
 
 
 #         // pi()                                                	 Returns the constant pi to 11 digits of precision.
@@ -763,7 +767,7 @@ def sqrt(num: Expr) -> Expr:
 @enforce_types
 def sum_(*nums: Expr) -> Expr:
     # Adds the columns together, creating a new column whose value is the sum of the others
-    return sum(*(n.to_pyspark_expr() for n in nums))
+    return sum(n.to_pyspark_expr() for n in nums)
 
 
 #
@@ -786,7 +790,7 @@ def commands(value: Expr) -> Expr:
 
 
 @enforce_types
-def mvappend(values: Expr) -> Expr:
+def mvappend(*values: Expr) -> Expr:
     return F.concat(*[v.to_pyspark_expr() for v in values])
 
 
@@ -851,7 +855,8 @@ def mvindex(column: Expr, start: int, end: int | None = None) -> Expr:
     if end is None:
         return F.get(column.to_pyspark_expr(), start)
     else:
-        return F.slice(column.to_pyspark_expr(), start + 1, end - start + 1)
+        first = start if start < 0 else start + 1
+        return F.slice(column.to_pyspark_expr(), first, end - start + 1)
 
 
 #         // mvjoin(<mv>,<delim>)                                	 Takes all of the values in a multivalue field and appends the values together using a delimiter.
@@ -920,7 +925,9 @@ def mvsort(column: Expr) -> Expr:
 @enforce_types
 def mvzip(left: Expr, right: Expr, delimiter: str = ",") -> Expr:
     return F.zip_with(
-        left, right, lambda left_, right_: F.concat_ws(delimiter, left_, right_)
+        left.to_pyspark_expr(),
+        right.to_pyspark_expr(),
+        lambda left_, right_: F.concat_ws(delimiter, left_, right_),
     )
 
 
@@ -966,7 +973,7 @@ def split(column: Expr, delimiter: str) -> Expr:
 
 @enforce_types
 def avg(*args: Expr) -> Expr:
-    return sum(*(a.to_pyspark_expr() for a in args)) / len(args)
+    return sum(a.to_pyspark_expr() for a in args) / len(args)
 
 
 #         // max(<values>)                                       	 Returns the maximum of a set of string or numeric values.
@@ -986,11 +993,7 @@ def avg(*args: Expr) -> Expr:
 
 @enforce_types
 def max_(*args: Expr) -> Expr:
-    return reduce(
-        lambda a, b: F.greatest(a.to_pyspark_expr(), b.to_pyspark_expr()),
-        args[1:],
-        args[0].to_pyspark_expr(),
-    )
+    return reduce(F.greatest, (a.to_pyspark_expr() for a in args))
 
 
 #         // min(<values>)                                       	 Returns the minimum of a set of string or numeric values.
@@ -1010,11 +1013,7 @@ def max_(*args: Expr) -> Expr:
 
 @enforce_types
 def min_(*args: Expr) -> Expr:
-    return reduce(
-        lambda a, b: F.least(a.to_pyspark_expr(), b.to_pyspark_expr()),
-        args[1:],
-        args[0].to_pyspark_expr(),
-    )
+    return reduce(F.least, (a.to_pyspark_expr() for a in args))
 
 
 #         // random()                                            	 Returns a pseudo-random integer ranging from zero to 2^31-1.
@@ -1054,7 +1053,7 @@ def lower(x: Expr):
 
 @enforce_types
 def ltrim(x: Expr, chars: str):
-    return F.ltrim(x.to_pyspark_expr(), chars)
+    return F.ltrim(x.to_pyspark_expr(), F.lit(chars))
 
 
 #         // replace(<str>,<regex>,<replacement>)                	 Substitutes the replacement string for every occurrence of the regular expression in the string.
@@ -1078,7 +1077,7 @@ def replace(input: Expr, regex: str, replacement: str):
 
 @enforce_types
 def rtrim(x: Expr, chars: str):
-    return F.rtrim(x.to_pyspark_expr(), chars)
+    return F.rtrim(x.to_pyspark_expr(), F.lit(chars))
 
 
 #         // spath(<value>,<path>)                               	 Extracts information from the structured data formats XML and JSON.
@@ -1109,7 +1108,7 @@ def substr(column: Expr, start: int, length: int):
 
 @enforce_types
 def trim(x: Expr, chars: str):
-    return F.trim(x.to_pyspark_expr(), chars)
+    return F.trim(x.to_pyspark_expr(), F.lit(chars))
 
 
 #         // upper(<str>)                                        	 Returns the string in uppercase.
diff --git a/python/spl_transpiler/runtime/functions/utils.py b/python/spl_transpiler/runtime/functions/utils.py
index b9a1ae5..b3a87fa 100644
--- a/python/spl_transpiler/runtime/functions/utils.py
+++ b/python/spl_transpiler/runtime/functions/utils.py
@@ -9,9 +9,7 @@ from pyspark.sql import functions as F
 
 @enforce_types
 def offset_time(time_col, offset: TimeSpan):
-    return time_col + F.expr(
-        f"INTERVAL {offset.value} {offset.scale.to_ascii_uppercase()}"
-    )
+    return time_col + F.expr(f"INTERVAL {offset.value} {offset.scale.value.upper()}")
 
 
 #
diff --git a/python/spl_transpiler/runtime/udfs/__init__.py b/python/spl_transpiler/runtime/udfs/__init__.py
index 81fcb27..f123b58 100644
--- a/python/spl_transpiler/runtime/udfs/__init__.py
+++ b/python/spl_transpiler/runtime/udfs/__init__.py
@@ -22,14 +22,12 @@ def cidr_match(ip_address, cidr_range):
 @udf(returnType=StringType())
 def ipmask(mask, ip):
     try:
-        # Convert mask to integer
-        mask_int = int(mask)
+        # Combine the bits of the mask and of the address
+        mask_int = int(ipaddress.IPv4Address(mask))
+        ip_int = int(ipaddress.IPv4Address(ip))
 
-        # Create an IPv4Network object
-        network = ipaddress.IPv4Network(f"{ip}/{mask_int}", strict=False)
-
-        # Return the network address (masked IP)
-        return str(network.network_address)
+        # Return the masked IP
+        return str(ipaddress.IPv4Address(mask_int & ip_int))
     except ValueError:
         # Return None if there's an error (invalid IP or mask)
         return None
-- 
2.43.0


From f1f55dd2f545113535e715127f7dff5f27c76fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:05 +0000
Subject: [PATCH 25/60] fix: render calls of functions that Python and the
 runtime accept

---
 src/commands/cmd_search/pyspark.rs |  2 +-
 src/functions/convert_fns.rs       |  5 ++
 src/functions/eval_fns.rs          | 85 ++++++++++++++++++++++++------
 src/functions/stat_fns.rs          |  5 ++
 src/pyspark/ast.rs                 |  6 +--
 5 files changed, 83 insertions(+), 20 deletions(-)

diff --git a/src/commands/cmd_search/pyspark.rs b/src/commands/cmd_search/pyspark.rs
index 4c3fb86..279295c 100644
--- a/src/commands/cmd_search/pyspark.rs
+++ b/src/commands/cmd_search/pyspark.rs
@@ -216,7 +216,7 @@ impl PipelineTransformer for SearchCommand {
                                 ast::Field(name),
                             ))),
                             "=" | "==",
-                        ) if is_keyword_argument(&name)
+                        ) if is_python_name(&name)
                             && !RESERVED.contains(&name.as_str())
                             && !is_pattern(&right)
                             && !kwargs.iter().any(|(key, _)| *key == name) =>
diff --git a/src/functions/convert_fns.rs b/src/functions/convert_fns.rs
index fbdda4c..205624b 100644
--- a/src/functions/convert_fns.rs
+++ b/src/functions/convert_fns.rs
@@ -56,6 +56,11 @@ pub fn convert_fn(
         "rmcomma" => Ok(rmcomma(column_like!(col(field_name)))),
 
         name => {
+            anyhow::ensure!(
+                is_python_name(name),
+                "`{}` is not the name of a function",
+                name
+            );
             warn!(
                 "Unknown convert function encountered, returning as is: {}",
                 name
diff --git a/src/functions/eval_fns.rs b/src/functions/eval_fns.rs
index 19721a6..c183608 100644
--- a/src/functions/eval_fns.rs
+++ b/src/functions/eval_fns.rs
@@ -193,26 +193,72 @@ fn eval_fn_runtime(name: String, args: Vec<ContextualizedExpr<ast::Expr>>) -> Re
             }
         }),
         name => {
-            // warn!(
-            //     "Unknown eval function encountered, returning as is: {}",
-            //     name
-            // );
-            let name = match name {
-                "if" => "if_",
-                "in" => "in_",
-                "len" => "len_",
-                "sum" => "sum_",
-                "max" => "max_",
-                "min" => "min_",
-                name => name,
+            let Some((func, arity, plain_values)) = runtime_function(name) else {
+                bail!("No runtime function for eval function `{}`", name)
             };
-            let func = format!("functions.eval.{}", name);
-            let args: Result<Vec<Expr>> = map_args(args);
-            Ok(ColumnLike::FunctionCall { func, args: args? })
+            ensure!(
+                arity.contains(&args.len()),
+                "Invalid number of arguments for eval function `{}`",
+                name
+            );
+            let args: Result<Vec<Expr>> = args
+                .iter()
+                .enumerate()
+                .map(|(i, arg)| match plain_values.contains(&i) {
+                    true => map_plain_value(arg),
+                    false => map_arg(arg),
+                })
+                .collect();
+            Ok(ColumnLike::FunctionCall {
+                func: format!("functions.eval.{}", func),
+                args: args?,
+            })
+        }
+    }
+}
+
+/// An argument that the runtime takes as a Python value instead of a column
+fn map_plain_value(arg: &ContextualizedExpr<ast::Expr>) -> Result<Expr> {
+    match i64::try_from(arg.clone()) {
+        Ok(value) => Ok(column_like!(py_lit(value)).into()),
+        Err(_) => {
+            let value: String = map_arg(arg)?;
+            Ok(PyLiteral::text(value).into())
         }
     }
 }
 
+/// The runtime function for an eval function, how many arguments it takes, and the positions of
+/// those that it takes as Python values instead of columns
+fn runtime_function(
+    name: &str,
+) -> Option<(&str, std::ops::RangeInclusive<usize>, &'static [usize])> {
+    const ANY: usize = usize::MAX;
+    Some(match name {
+        "false" | "null" | "true" | "now" | "time" | "pi" | "random" => (name, 0..=0, &[]),
+        "bit_not" | "md5" | "sha1" | "sha256" | "sha512" | "isnotnull" | "isnull" | "json_keys"
+        | "json_valid" | "abs" | "ceiling" | "exact" | "exp" | "floor" | "ln" | "sqrt"
+        | "mvcount" | "lower" | "upper" | "urldecode" | "acos" | "acosh" | "asin" | "asinh"
+        | "atan" | "atanh" | "cos" | "cosh" | "sin" | "sinh" | "tan" | "tanh" => (name, 1..=1, &[]),
+        "len" => ("len_", 1..=1, &[]),
+        "bit_and" | "bit_or" | "bit_xor" | "like" | "match" | "nullif" | "ipmask" | "pow"
+        | "atan2" | "hypot" => (name, 2..=2, &[]),
+        "if" => ("if_", 3..=3, &[]),
+        "in" => ("in_", 2..=ANY, &[]),
+        "case" | "validate" => (name, 2..=ANY, &[]),
+        "printf" | "coalesce" | "mvappend" | "avg" => (name, 1..=ANY, &[]),
+        "sum" => ("sum_", 1..=ANY, &[]),
+        "max" => ("max_", 1..=ANY, &[]),
+        "min" => ("min_", 1..=ANY, &[]),
+        "bit_shift_left" | "bit_shift_right" | "strftime" | "strptime" | "split" | "ltrim"
+        | "rtrim" | "trim" => (name, 2..=2, &[1]),
+        "tonumber" | "tostring" | "log" | "round" => (name, 1..=2, &[1]),
+        "mvzip" => (name, 2..=3, &[2]),
+        "replace" | "substr" => (name, 3..=3, &[1, 2]),
+        _ => return None,
+    })
+}
+
 fn eval_fn_bare(name: String, args: Vec<ContextualizedExpr<ast::Expr>>) -> Result<ColumnLike> {
     match name.as_str() {
         // Convert functions (not sure this is actually valid, but it's in the original transpiler...)
@@ -468,7 +514,9 @@ fn eval_fn_bare(name: String, args: Vec<ContextualizedExpr<ast::Expr>>) -> Resul
         // ln(<num>)                                           	 Returns the natural logarithm.
         "ln" => function_transform!(ln [args] (x) { column_like!(log([x])) }),
         // log(<num>,<base>)                                   	 Returns the logarithm of <num> using <base> as the base. If <base> is omitted, base 10 is used.
-        "log" => function_transform!(log [args] (x, base) { column_like!(log([x], [base])) }),
+        "log" => {
+            function_transform!(log [args] (x, base) { column_like!([log([x])] / [log([base])]) })
+        }
         // pi()                                                	 Returns the constant pi to 11 digits of precision.
         "pi" => function_transform!(pi [args] () { column_like!(lit(3.141592653589793)) }),
         // pow(<num>,<exp>)                                    	 Returns <num> to the power of <exp>, <num><exp>.
@@ -685,6 +733,11 @@ fn eval_fn_bare(name: String, args: Vec<ContextualizedExpr<ast::Expr>>) -> Resul
 
         // Fallback
         name => {
+            ensure!(
+                is_python_name(name),
+                "`{}` is not the name of a function",
+                name
+            );
             warn!(
                 "Unknown eval function encountered, returning as is: {}",
                 name
diff --git a/src/functions/stat_fns.rs b/src/functions/stat_fns.rs
index eb79346..eebb245 100644
--- a/src/functions/stat_fns.rs
+++ b/src/functions/stat_fns.rs
@@ -267,6 +267,11 @@ fn stats_fn_bare(
 
         // Fallback
         name => {
+            ensure!(
+                is_python_name(name),
+                "`{}` is not the name of a function",
+                name
+            );
             warn!(
                 "Unknown eval function encountered, returning as is: {}",
                 name
diff --git a/src/pyspark/ast.rs b/src/pyspark/ast.rs
index 423b51e..5960770 100644
--- a/src/pyspark/ast.rs
+++ b/src/pyspark/ast.rs
@@ -473,8 +473,8 @@ const PYTHON_KEYWORDS: [&str; 36] = [
     "yield",
 ];
 
-/// Whether a field can be passed to a Python function as a keyword argument of that name
-pub fn is_keyword_argument(name: &str) -> bool {
+/// Whether Python accepts this as the name of a function or of a keyword argument
+pub fn is_python_name(name: &str) -> bool {
     name.starts_with(|c: char| c.is_ascii_alphabetic() || c == '_')
         && name.chars().all(|c| c.is_ascii_alphanumeric() || c == '_')
         && !PYTHON_KEYWORDS.contains(&name)
@@ -488,7 +488,7 @@ pub fn ensure_keyword_arguments<'a>(
     let mut seen = std::collections::HashSet::new();
     for name in names {
         anyhow::ensure!(
-            is_keyword_argument(name) && !reserved.contains(&name.as_str()) && seen.insert(name),
+            is_python_name(name) && !reserved.contains(&name.as_str()) && seen.insert(name),
             "Cannot pass `{}` to a runtime command as a keyword argument",
             name
         );
-- 
2.43.0


From a6597cdf7274c9490a1368bb6dec180d7d311370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:16 +0000
Subject: [PATCH 26/60] fix: substitute the arguments of a macro all at once
 and check their names

---
 python/spl_transpiler/macros.py | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/python/spl_transpiler/macros.py b/python/spl_transpiler/macros.py
index 75223d2..c6b544b 100644
--- a/python/spl_transpiler/macros.py
+++ b/python/spl_transpiler/macros.py
@@ -94,29 +94,34 @@ def substitute_macros(code, macros: MacroLoader):
 
         macro_final_value = macro_spec.definition
 
+        if len(macro_spec.arguments) != len(args):
+            raise ValueError(
+                f"Mismatched number of arguments in macro call {macro_name}: expected {len(macro_spec.arguments)}, got {len(args)}: {args}"
+            )
+
         if args:
             if all(name is None for name, _ in args):
-                if len(macro_spec.arguments) != len(args):
-                    raise ValueError(
-                        f"Mismatched number of arguments in macro call {macro_name}: expected {len(macro_spec.arguments)}, got {len(args)}: {args}"
-                    )
                 args = dict(zip(macro_spec.arguments, [value for _, value in args]))
             elif all(name is not None for name, _ in args):
-                if len(macro_spec.arguments) != len(args):
-                    raise ValueError(
-                        f"Mismatched number of arguments in macro call {macro_name}: expected {len(macro_spec.arguments)}, got {len(args)}: {args}"
-                    )
                 args = dict(args)
             else:
                 raise ValueError(
                     f"Mixture of named and positional arguments in macro call {macro_name}"
                 )
 
-            for arg_name, arg_substitute_value in args.items():
-                macro_final_value = re.sub(
-                    f"\\${arg_name}\\$", arg_substitute_value, macro_final_value
+            if set(args) != set(macro_spec.arguments):
+                raise ValueError(
+                    f"Mismatched names of arguments in macro call {macro_name}: expected {macro_spec.arguments}, got {list(args)}"
                 )
 
+            # All at once, since a value may itself look like an argument or a regex escape
+            arg_pattern = "|".join(re.escape(arg_name) for arg_name in args)
+            macro_final_value = re.sub(
+                rf"\$({arg_pattern})\$",
+                lambda arg: args[arg[1]],
+                macro_final_value,
+            )
+
         printable_args = ",".join(
             value if name is None else f"{name}={value}"
             for name, value in macro_call.args
-- 
2.43.0


From 2c2311c3ce2f93e89874b2619d8cdad1201382ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:29 +0000
Subject: [PATCH 27/60] fix: match keywords as whole words and in any case

---
 src/commands/cmd_convert/spl.rs      |  5 +++--
 src/commands/cmd_event_stats/spl.rs  |  4 ++--
 src/commands/cmd_input_lookup/spl.rs |  4 ++--
 src/commands/cmd_rare/spl.rs         |  4 ++--
 src/commands/cmd_stats/spl.rs        |  3 ++-
 src/commands/cmd_stream_stats/spl.rs |  4 ++--
 src/commands/cmd_t_stats/spl.rs      |  9 +++++----
 src/commands/cmd_top/spl.rs          |  4 ++--
 src/spl/operators.rs                 | 26 +++++++++++++++++++++++---
 src/spl/parser.rs                    | 14 +++++++++-----
 10 files changed, 52 insertions(+), 25 deletions(-)

diff --git a/src/commands/cmd_convert/spl.rs b/src/commands/cmd_convert/spl.rs
index f84c7d4..9ed4b99 100644
--- a/src/commands/cmd_convert/spl.rs
+++ b/src/commands/cmd_convert/spl.rs
@@ -1,8 +1,9 @@
 use crate::commands::spl::{SplCommand, SplCommandOptions};
 use crate::spl::ast::{Field, ParsedCommandOptions};
 use crate::spl::parser::{field, token, ws};
+use crate::spl::operators::keyword;
 use crate::spl::python::*;
-use nom::bytes::complete::{tag, tag_no_case};
+use nom::bytes::complete::tag;
 use nom::combinator::{map, opt};
 use nom::multi::many0;
 use nom::sequence::{delimited, pair, preceded, tuple};
@@ -75,7 +76,7 @@ impl SplCommand<ConvertCommand> for ConvertParser {
                     ws(tuple((
                         token,
                         delimited(tag("("), ws(field), tag(")")),
-                        ws(opt(preceded(ws(tag_no_case("AS")), field))),
+                        ws(opt(preceded(ws(keyword("AS")), field))),
                     ))),
                     |(token, field, as_field)| FieldConversion {
                         func: token.into(),
diff --git a/src/commands/cmd_event_stats/spl.rs b/src/commands/cmd_event_stats/spl.rs
index 3a44200..6bf6ed1 100644
--- a/src/commands/cmd_event_stats/spl.rs
+++ b/src/commands/cmd_event_stats/spl.rs
@@ -1,8 +1,8 @@
 use crate::commands::spl::{SplCommand, SplCommandOptions};
 use crate::spl::ast::{Expr, Field, ParsedCommandOptions};
 use crate::spl::parser::{field_list0, stats_call, ws};
+use crate::spl::operators::keyword;
 use crate::spl::python::*;
-use nom::bytes::complete::tag_no_case;
 use nom::combinator::{map, opt};
 use nom::sequence::{preceded, tuple};
 use nom::IResult;
@@ -57,7 +57,7 @@ impl SplCommand<EventStatsCommand> for EventStatsParser {
             tuple((
                 Self::Options::match_options,
                 ws(stats_call),
-                opt(preceded(ws(tag_no_case("by")), field_list0)),
+                opt(preceded(ws(keyword("BY")), field_list0)),
             )),
             |(options, funcs, by)| EventStatsCommand {
                 all_num: options.all_num,
diff --git a/src/commands/cmd_input_lookup/spl.rs b/src/commands/cmd_input_lookup/spl.rs
index 8e5c416..a144b6e 100644
--- a/src/commands/cmd_input_lookup/spl.rs
+++ b/src/commands/cmd_input_lookup/spl.rs
@@ -1,8 +1,8 @@
 use crate::commands::spl::{SplCommand, SplCommandOptions};
 use crate::spl::ast::{Expr, ParsedCommandOptions};
 use crate::spl::parser::{expr, token, ws};
+use crate::spl::operators::keyword;
 use crate::spl::python::*;
-use nom::bytes::complete::tag_no_case;
 use nom::combinator::{map, opt};
 use nom::sequence::{preceded, tuple};
 use nom::IResult;
@@ -71,7 +71,7 @@ impl SplCommand<InputLookupCommand> for InputLookupParser {
             tuple((
                 Self::Options::match_options,
                 ws(token),
-                ws(opt(preceded(ws(tag_no_case("where")), expr))),
+                ws(opt(preceded(ws(keyword("WHERE")), expr))),
             )),
             |(options, table_name, where_options)| InputLookupCommand {
                 append: options.append,
diff --git a/src/commands/cmd_rare/spl.rs b/src/commands/cmd_rare/spl.rs
index 3c1519f..5cabeca 100644
--- a/src/commands/cmd_rare/spl.rs
+++ b/src/commands/cmd_rare/spl.rs
@@ -1,8 +1,8 @@
 use crate::commands::spl::{SplCommand, SplCommandOptions};
 use crate::spl::ast::{Field, ParsedCommandOptions};
 use crate::spl::parser::{field_list0, opt_non_negative_int, ws};
+use crate::spl::operators::keyword;
 use crate::spl::python::*;
-use nom::bytes::complete::tag_no_case;
 use nom::combinator::{map, opt};
 use nom::sequence::{preceded, tuple};
 use nom::IResult;
@@ -115,7 +115,7 @@ impl SplCommand<RareCommand> for RareParser {
                 ws(opt_non_negative_int),
                 ws(Self::Options::match_options),
                 ws(field_list0),
-                ws(opt(preceded(ws(tag_no_case("BY")), field_list0))),
+                ws(opt(preceded(ws(keyword("BY")), field_list0))),
             )),
             |(n, opts, fields, by_fields)| RareCommand {
                 fields,
diff --git a/src/commands/cmd_stats/spl.rs b/src/commands/cmd_stats/spl.rs
index 0348624..af597bd 100644
--- a/src/commands/cmd_stats/spl.rs
+++ b/src/commands/cmd_stats/spl.rs
@@ -3,6 +3,7 @@ use crate::commands::stats_utils;
 use crate::commands::stats_utils::maybe_spanned_field_list1;
 use crate::spl::ast::{Expr, ParsedCommandOptions};
 use crate::spl::parser::{bool_, stats_call, ws};
+use crate::spl::operators::keyword;
 use crate::spl::python::*;
 use nom::bytes::complete::{tag, tag_no_case};
 use nom::combinator::{map, opt};
@@ -74,7 +75,7 @@ impl SplCommand<StatsCommand> for StatsParser {
             tuple((
                 Self::Options::match_options,
                 stats_call,
-                opt(preceded(ws(tag_no_case("by")), maybe_spanned_field_list1)),
+                opt(preceded(ws(keyword("BY")), maybe_spanned_field_list1)),
                 opt(preceded(
                     pair(ws(tag_no_case("dedup_splitvals")), ws(tag("="))),
                     bool_,
diff --git a/src/commands/cmd_stream_stats/spl.rs b/src/commands/cmd_stream_stats/spl.rs
index 7eef5f6..dc66ca2 100644
--- a/src/commands/cmd_stream_stats/spl.rs
+++ b/src/commands/cmd_stream_stats/spl.rs
@@ -2,8 +2,8 @@ use crate::commands::spl::{SplCommand, SplCommandOptions};
 use crate::commands::stats_utils;
 use crate::spl::ast::{Expr, ParsedCommandOptions};
 use crate::spl::parser::{stats_call, ws};
+use crate::spl::operators::keyword;
 use crate::spl::python::*;
-use nom::bytes::complete::tag_no_case;
 use nom::combinator::{map, opt};
 use nom::sequence::{preceded, tuple};
 use nom::IResult;
@@ -64,7 +64,7 @@ impl SplCommand<StreamStatsCommand> for StreamStatsParser {
                 Self::Options::match_options,
                 ws(stats_call),
                 opt(preceded(
-                    ws(tag_no_case("by")),
+                    ws(keyword("BY")),
                     stats_utils::maybe_spanned_field_list1,
                 )),
             )),
diff --git a/src/commands/cmd_t_stats/spl.rs b/src/commands/cmd_t_stats/spl.rs
index 722bf4c..70ac0b0 100644
--- a/src/commands/cmd_t_stats/spl.rs
+++ b/src/commands/cmd_t_stats/spl.rs
@@ -3,6 +3,7 @@ use crate::commands::stats_utils;
 use crate::commands::stats_utils::maybe_spanned_field_list1;
 use crate::spl::ast::{Call, Expr, Field, ParsedCommandOptions};
 use crate::spl::parser::{field, field_in, logical_expression, space_separated_list1, token, ws};
+use crate::spl::operators::keyword;
 use crate::spl::python::*;
 use nom::branch::alt;
 use nom::bytes::complete::{tag, tag_no_case};
@@ -129,14 +130,14 @@ impl TryFrom<ParsedCommandOptions> for TStatsCommandOptions {
 
 fn _parse_from_datamodel(input: &str) -> IResult<&str, (String, Option<String>)> {
     preceded(
-        ws(tag_no_case("from")),
+        ws(keyword("FROM")),
         tuple((
             ws(preceded(
                 ws(tag_no_case("datamodel=")),
                 into(recognize(separated_list1(tag("."), token))),
             )),
             opt(ws(preceded(
-                ws(tag_no_case("where")),
+                ws(keyword("WHERE")),
                 ws(preceded(
                     tag_no_case("nodename="),
                     into(recognize(separated_list1(tag("."), token))),
@@ -148,7 +149,7 @@ fn _parse_from_datamodel(input: &str) -> IResult<&str, (String, Option<String>)>
 
 fn _parse_where(input: &str) -> IResult<&str, Expr> {
     preceded(
-        ws(tag_no_case("where")),
+        ws(keyword("WHERE")),
         ws(alt((logical_expression, into(field_in)))),
     )(input)
 }
@@ -162,7 +163,7 @@ struct ByClause {
 fn _parse_by(input: &str) -> IResult<&str, ByClause> {
     map(
         preceded(
-            ws(tag_no_case("by")),
+            ws(keyword("BY")),
             alt((
                 // Freaking seriously? This can be either a space-delimited or comma-delimited list
                 // WHY?!?
diff --git a/src/commands/cmd_top/spl.rs b/src/commands/cmd_top/spl.rs
index 385f179..6385e29 100644
--- a/src/commands/cmd_top/spl.rs
+++ b/src/commands/cmd_top/spl.rs
@@ -1,8 +1,8 @@
 use crate::commands::spl::{SplCommand, SplCommandOptions};
 use crate::spl::ast::{Field, ParsedCommandOptions};
 use crate::spl::parser::{field_list1, opt_non_negative_int, ws};
+use crate::spl::operators::keyword;
 use crate::spl::python::*;
-use nom::bytes::complete::tag_no_case;
 use nom::combinator::{map, opt};
 use nom::sequence::{preceded, tuple};
 use nom::IResult;
@@ -115,7 +115,7 @@ impl SplCommand<TopCommand> for TopParser {
                 ws(opt_non_negative_int),
                 ws(Self::Options::match_options),
                 field_list1,
-                ws(opt(preceded(ws(tag_no_case("BY")), field_list1))),
+                ws(opt(preceded(ws(keyword("BY")), field_list1))),
             )),
             |(n, opts, fields, by_fields)| TopCommand {
                 fields,
diff --git a/src/spl/operators.rs b/src/spl/operators.rs
index 69eb131..907e403 100644
--- a/src/spl/operators.rs
+++ b/src/spl/operators.rs
@@ -1,9 +1,21 @@
 use nom::branch::alt;
 use nom::bytes::complete::{tag, tag_no_case};
-use nom::character::complete::{multispace0, multispace1};
-use nom::sequence::delimited;
+use nom::character::complete::{alphanumeric1, multispace0, multispace1, one_of};
+use nom::combinator::{not, recognize, value};
+use nom::sequence::{delimited, terminated};
 use nom::IResult;
 
+/// Matches a whole word in any case, as opposed to the first letters of a longer one.
+pub fn keyword<'a>(word: &'static str) -> impl FnMut(&'a str) -> IResult<&'a str, &'a str> {
+    value(
+        word,
+        terminated(
+            tag_no_case(word),
+            not(alt((alphanumeric1, recognize(one_of("_*:/-%{}@\\."))))),
+        ),
+    )
+}
+
 pub trait OperatorSymbolTrait {
     const SYMBOL: &'static str;
     const PRECEDENCE: i32;
@@ -16,12 +28,20 @@ pub struct UnaryNot;
 impl OperatorSymbolTrait for UnaryNot {
     const SYMBOL: &'static str = "NOT";
     const PRECEDENCE: i32 = 2;
+
+    fn pattern(input: &str) -> IResult<&str, &str> {
+        keyword(Self::SYMBOL)(input)
+    }
 }
 #[derive(Debug, PartialEq, Clone)]
 pub struct Or;
 impl OperatorSymbolTrait for Or {
     const SYMBOL: &'static str = "OR";
     const PRECEDENCE: i32 = 9;
+
+    fn pattern(input: &str) -> IResult<&str, &str> {
+        keyword(Self::SYMBOL)(input)
+    }
 }
 #[derive(Debug, PartialEq, Clone)]
 pub struct And;
@@ -29,7 +49,7 @@ impl OperatorSymbolTrait for And {
     const SYMBOL: &'static str = "AND";
     const PRECEDENCE: i32 = 8;
     fn pattern(input: &str) -> IResult<&str, &str> {
-        alt((tag_no_case("AND"), tag(" ")))(input)
+        alt((keyword(Self::SYMBOL), tag(" ")))(input)
     }
 }
 #[derive(Debug, PartialEq, Clone)]
diff --git a/src/spl/parser.rs b/src/spl/parser.rs
index 7b2d965..2c44b72 100644
--- a/src/spl/parser.rs
+++ b/src/spl/parser.rs
@@ -1161,7 +1161,11 @@ pub fn expr(input: &str) -> IResult<&str, ast::Expr> {
 //   def aliasedField[_: P]: P[Alias] = field ~ W("AS") ~ (token|doubleQuoted) map Alias.tupled
 pub fn aliased_field(input: &str) -> IResult<&str, ast::AliasedField> {
     map(
-        separated_pair(field, ws(tag_no_case("AS")), alt((token, double_quoted))),
+        separated_pair(
+            field,
+            ws(operators::keyword("AS")),
+            alt((token, double_quoted)),
+        ),
         |(field, alias)| ast::AliasedField {
             field,
             alias: alias.into(),
@@ -1172,7 +1176,7 @@ pub fn aliased_field(input: &str) -> IResult<&str, ast::AliasedField> {
 //   def aliasedCall[_: P]: P[Alias] = call ~ W("as") ~ token map Alias.tupled
 pub fn aliased_call(input: &str) -> IResult<&str, ast::Alias> {
     map(
-        separated_pair(call, ws(tag_no_case("as")), token),
+        separated_pair(call, ws(operators::keyword("AS")), token),
         |(expr, name)| ast::Alias {
             expr: Box::new(expr.into()),
             name: name.into(),
@@ -1351,7 +1355,7 @@ pub fn combine_all_expressions(exprs: Vec<ast::Expr>, symbol: impl ToString) ->
 // <logical-expression> | <time-opts> | <search-modifier> | NOT <logical-expression> | <index-expression> | <comparison-expression> | <logical-expression> [OR] <logical-expression>
 pub fn logical_expression(input: &str) -> IResult<&str, ast::Expr> {
     map(
-        separated_list1(ws(tag_no_case("OR")), logical_expression_group),
+        separated_list1(ws(operators::Or::pattern), logical_expression_group),
         |exprs| combine_all_expressions(exprs, operators::Or::SYMBOL).unwrap(),
     )(input)
 }
@@ -1359,7 +1363,7 @@ pub fn logical_expression(input: &str) -> IResult<&str, ast::Expr> {
 pub fn logical_expression_group(input: &str) -> IResult<&str, ast::Expr> {
     map(
         separated_list1(
-            alt((ws(tag_no_case("AND")), multispace1)),
+            alt((ws(operators::keyword("AND")), multispace1)),
             logical_expression_term,
         ),
         |exprs| combine_all_expressions(exprs, operators::And::SYMBOL).unwrap(),
@@ -1370,7 +1374,7 @@ pub fn logical_expression_term(input: &str) -> IResult<&str, ast::Expr> {
     alt((
         parenthesized(logical_expression),
         map(
-            preceded(ws(tag_no_case("NOT")), logical_expression_term),
+            preceded(ws(operators::UnaryNot::pattern), logical_expression_term),
             |expr| ast::Unary::new(operators::UnaryNot::SYMBOL, expr).into(),
         ),
         map(time_opts, |opts| {
-- 
2.43.0


From 6538e8da0ea965949c62a8f5298d6615c81ace8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:36 +0000
Subject: [PATCH 28/60] fix: match addresses against a range in != and IN

---
 src/pyspark/transpiler/expr.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/pyspark/transpiler/expr.rs b/src/pyspark/transpiler/expr.rs
index b071059..33e075c 100644
--- a/src/pyspark/transpiler/expr.rs
+++ b/src/pyspark/transpiler/expr.rs
@@ -26,6 +26,12 @@ fn sql_name(name: &str) -> String {
     }
 }
 
+/// Whether the address in a column belongs to a range.
+fn cidr_match(cidr: &str, col: &str) -> ColumnLike {
+    let sql = format!("cidr_match('{}', {})", cidr, sql_name(&spl_unescape(col)));
+    column_like!(expr([PyLiteral::text(sql)]))
+}
+
 impl ToSparkExpr for ast::Expr {
     fn to_spark_expr(&self, ctx: &PysparkTranspileContext) -> anyhow::Result<Expr> {
         match self.clone() {
@@ -45,13 +51,16 @@ impl ToSparkExpr for ast::Expr {
                 // src_ip = 10.0.0.0/16 -> F.expr("cidr_match('10.0.0.0/16', src_ip)")
                 (
                     ast::Expr::Leaf(ast::LeafExpr::Constant(ast::Constant::Field(ast::Field(col)))),
-                    "==",
+                    op @ ("==" | "!="),
                     ast::Expr::Leaf(ast::LeafExpr::Constant(ast::Constant::IPv4CIDR(
                         ast::IPv4CIDR(cidr),
                     ))),
                 ) => {
-                    let sql = format!("cidr_match('{}', {})", cidr, sql_name(&spl_unescape(col)));
-                    Ok(column_like!(expr([PyLiteral::text(sql)])).into())
+                    let matches = cidr_match(&cidr, &col);
+                    match op {
+                        "!=" => Ok(column_like!(~[matches]).into()),
+                        _ => Ok(matches.into()),
+                    }
                 }
                 // src_ip = "x*" -> F.like(F.col("src_ip"), "x%"),
                 (
@@ -172,7 +181,7 @@ impl ToSparkExpr for ast::Expr {
                                 bail!("Unimplemented value in field-in rhs: {:?}", const_)
                             }
                             ast::Constant::IPv4CIDR(ast::IPv4CIDR(val)) => {
-                                Ok(column_like!([c.clone()] == [PyLiteral::from(val.clone())]))
+                                Ok(cidr_match(val, &field))
                             }
                         },
                         // Handle exact case
-- 
2.43.0


From 9ee208e306f316d7dc836ee52a6ff85aa762f784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:45 +0000
Subject: [PATCH 29/60] fix: reject wildcards in renames and removed fields

---
 src/commands/cmd_fields/pyspark.rs | 5 +++++
 src/commands/cmd_rename/pyspark.rs | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/commands/cmd_fields/pyspark.rs b/src/commands/cmd_fields/pyspark.rs
index 21e3c63..f4990e5 100644
--- a/src/commands/cmd_fields/pyspark.rs
+++ b/src/commands/cmd_fields/pyspark.rs
@@ -2,6 +2,7 @@ use super::spl::*;
 use crate::pyspark::ast::*;
 use crate::pyspark::transpiler::{PipelineTransformState, PipelineTransformer};
 use crate::spl::ast;
+use anyhow::ensure;
 
 impl PipelineTransformer for FieldsCommand {
     fn transform_standalone(
@@ -11,6 +12,10 @@ impl PipelineTransformer for FieldsCommand {
         let mut df = state.df.clone().unwrap_or_default();
 
         if self.remove_fields {
+            ensure!(
+                !self.fields.iter().any(|f| f.0.contains('*')),
+                "UNIMPLEMENTED: Removing fields by wildcard is not supported yet"
+            );
             let names = self
                 .fields
                 .iter()
diff --git a/src/commands/cmd_rename/pyspark.rs b/src/commands/cmd_rename/pyspark.rs
index add8f82..8e34cf7 100644
--- a/src/commands/cmd_rename/pyspark.rs
+++ b/src/commands/cmd_rename/pyspark.rs
@@ -12,6 +12,11 @@ impl PipelineTransformer for RenameCommand {
 
         for alias in self.alias.clone() {
             let old_name = match *alias.expr {
+                ast::Expr::Leaf(ast::LeafExpr::Constant(ast::Constant::Field(ast::Field(
+                    name,
+                )))) if name.contains('*') => {
+                    bail!("UNIMPLEMENTED: Wildcard renaming is not supported yet")
+                }
                 ast::Expr::Leaf(ast::LeafExpr::Constant(ast::Constant::Field(ast::Field(
                     name,
                 )))) => name,
-- 
2.43.0


From 4995b5544af8fe9f174f3fa545dc48cbcd7824e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:45 +0000
Subject: [PATCH 30/60] fix: reject options of addtotals, bin and rex without a
 translation

---
 src/commands/cmd_add_totals/pyspark.rs | 9 +++++++++
 src/commands/cmd_bin/pyspark.rs        | 5 +++++
 src/commands/cmd_rex/pyspark.rs        | 5 +++++
 3 files changed, 19 insertions(+)

diff --git a/src/commands/cmd_add_totals/pyspark.rs b/src/commands/cmd_add_totals/pyspark.rs
index 9aa2952..07b80b8 100644
--- a/src/commands/cmd_add_totals/pyspark.rs
+++ b/src/commands/cmd_add_totals/pyspark.rs
@@ -1,12 +1,21 @@
 use crate::pyspark::ast::*;
 use crate::pyspark::transpiler::utils::join_as_binaries;
 use crate::pyspark::transpiler::{PipelineTransformState, PipelineTransformer};
+use anyhow::ensure;
 
 impl PipelineTransformer for super::spl::AddTotalsCommand {
     fn transform_standalone(
         &self,
         state: PipelineTransformState,
     ) -> anyhow::Result<PipelineTransformState> {
+        ensure!(
+            self.row && !self.fields.is_empty(),
+            "UNIMPLEMENTED: `addtotals` only supports the total of a list of fields"
+        );
+        ensure!(
+            !self.col,
+            "UNIMPLEMENTED: No implementation yet for `col=true` in `addtotals`"
+        );
         let cast_columns: Vec<ColumnLike> = self
             .fields
             .iter()
diff --git a/src/commands/cmd_bin/pyspark.rs b/src/commands/cmd_bin/pyspark.rs
index 9ed01b1..cb850ea 100644
--- a/src/commands/cmd_bin/pyspark.rs
+++ b/src/commands/cmd_bin/pyspark.rs
@@ -3,12 +3,17 @@ use crate::pyspark::ast::*;
 use crate::pyspark::transpiler::{PipelineTransformState, PipelineTransformer};
 use crate::spl::ast;
 use crate::spl::ast::FieldOrAlias;
+use anyhow::ensure;
 
 impl PipelineTransformer for BinCommand {
     fn transform_standalone(
         &self,
         state: PipelineTransformState,
     ) -> anyhow::Result<PipelineTransformState> {
+        ensure!(
+            self.span.is_some() && self.align_time.is_none(),
+            "UNIMPLEMENTED: `bin` only supports `span`"
+        );
         let mut df = state.df.clone().unwrap_or_default();
         let col_name = match self.field.clone() {
             FieldOrAlias::Field(ast::Field(name)) => name,
diff --git a/src/commands/cmd_rex/pyspark.rs b/src/commands/cmd_rex/pyspark.rs
index 7f77fc1..c7b37e9 100644
--- a/src/commands/cmd_rex/pyspark.rs
+++ b/src/commands/cmd_rex/pyspark.rs
@@ -20,6 +20,11 @@ impl PipelineTransformer for RexCommand {
             "Rex not yet implemented for multiple matches"
         );
 
+        ensure!(
+            self.offset_field.is_none(),
+            "UNIMPLEMENTED: No implementation yet for `offset_field` in `rex`"
+        );
+
         let regex_groups = get_groups(self.regex.clone())?;
 
         for (group_index, group_name) in regex_groups {
-- 
2.43.0


From be0b74669a162f9d848559a0e7431798e935cbbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:51 +0000
Subject: [PATCH 31/60] fix: pass text without its escapes to the runtime
 functions

---
 src/functions/eval_fns.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/functions/eval_fns.rs b/src/functions/eval_fns.rs
index c183608..e2d73d7 100644
--- a/src/functions/eval_fns.rs
+++ b/src/functions/eval_fns.rs
@@ -223,7 +223,7 @@ fn map_plain_value(arg: &ContextualizedExpr<ast::Expr>) -> Result<Expr> {
         Ok(value) => Ok(column_like!(py_lit(value)).into()),
         Err(_) => {
             let value: String = map_arg(arg)?;
-            Ok(PyLiteral::text(value).into())
+            Ok(PyLiteral::from(value).into())
         }
     }
 }
-- 
2.43.0


From 015089140e8f320260c443aaa9549f2a164d0703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:50 +0000
Subject: [PATCH 32/60] fix: keep the type of whole-numbered doubles in the
 rendered code

---
 src/pyspark/ast.rs             | 2 +-
 src/pyspark/transpiler/expr.rs | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pyspark/ast.rs b/src/pyspark/ast.rs
index 5960770..e6f834f 100644
--- a/src/pyspark/ast.rs
+++ b/src/pyspark/ast.rs
@@ -128,7 +128,7 @@ impl From<i64> for PyLiteral {
 }
 impl From<f64> for PyLiteral {
     fn from(value: f64) -> PyLiteral {
-        PyLiteral(value.to_string())
+        PyLiteral(format!("{:?}", value))
     }
 }
 impl From<bool> for PyLiteral {
diff --git a/src/pyspark/transpiler/expr.rs b/src/pyspark/transpiler/expr.rs
index 33e075c..769bf48 100644
--- a/src/pyspark/transpiler/expr.rs
+++ b/src/pyspark/transpiler/expr.rs
@@ -113,7 +113,10 @@ impl ToSparkExpr for ast::Expr {
             // Double constant -> Double literal column
             ast::Expr::Leaf(ast::LeafExpr::Constant(ast::Constant::Double(ast::DoubleValue(
                 val,
-            )))) => Ok(ColumnLike::literal(val).into()),
+            )))) => {
+                let PyLiteral(code) = val.into();
+                Ok(ColumnLike::literal(code).into())
+            }
 
             // String constant -> String literal column
             ast::Expr::Leaf(ast::LeafExpr::Constant(ast::Constant::Str(ast::StrValue(val)))) => {
-- 
2.43.0


From c1df9ed6a378d65e417db2e0a44211b2d0ec7e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:27 +0000
Subject: [PATCH 33/60] fix: pass only numbers as numbers and quote the field
 of cidrmatch

---
 src/functions/eval_fns.rs      | 31 +++++++++++++++++++++++--------
 src/pyspark/transpiler/expr.rs |  5 ++++-
 2 files changed, 27 insertions(+), 9 deletions(-)

diff --git a/src/functions/eval_fns.rs b/src/functions/eval_fns.rs
index e2d73d7..c6435fd 100644
--- a/src/functions/eval_fns.rs
+++ b/src/functions/eval_fns.rs
@@ -6,6 +6,7 @@ use crate::pyspark::ast::*;
 use crate::pyspark::base::{
     ContextualizedExpr, PysparkTranspileContext, RuntimeSelection, ToSparkExpr,
 };
+use crate::pyspark::transpiler::expr::cidr_match;
 use crate::pyspark::transpiler::utils::convert_time_format;
 use crate::spl::ast;
 use crate::spl::ast::TimeSpan;
@@ -205,7 +206,7 @@ fn eval_fn_runtime(name: String, args: Vec<ContextualizedExpr<ast::Expr>>) -> Re
                 .iter()
                 .enumerate()
                 .map(|(i, arg)| match plain_values.contains(&i) {
-                    true => map_plain_value(arg),
+                    true => map_plain_value(func, arg),
                     false => map_arg(arg),
                 })
                 .collect();
@@ -217,11 +218,22 @@ fn eval_fn_runtime(name: String, args: Vec<ContextualizedExpr<ast::Expr>>) -> Re
     }
 }
 
-/// An argument that the runtime takes as a Python value instead of a column
-fn map_plain_value(arg: &ContextualizedExpr<ast::Expr>) -> Result<Expr> {
-    match i64::try_from(arg.clone()) {
-        Ok(value) => Ok(column_like!(py_lit(value)).into()),
-        Err(_) => {
+/// An argument that the runtime function takes as a Python value instead of a column
+fn map_plain_value(func: &str, arg: &ContextualizedExpr<ast::Expr>) -> Result<Expr> {
+    match (func, arg.deref()) {
+        ("bit_shift_left" | "bit_shift_right" | "log" | "round" | "substr" | "tonumber", _) => {
+            let value: i64 = map_arg(arg)?;
+            Ok(column_like!(py_lit(value)).into())
+        }
+        (
+            "ltrim" | "rtrim" | "trim",
+            ast::Expr::Leaf(ast::LeafExpr::Constant(ast::Constant::Field(field))),
+        ) => bail!(
+            "`{}` takes text at runtime, not the field {:?}",
+            func,
+            field
+        ),
+        _ => {
             let value: String = map_arg(arg)?;
             Ok(PyLiteral::from(value).into())
         }
@@ -305,8 +317,11 @@ fn eval_fn_bare(name: String, args: Vec<ContextualizedExpr<ast::Expr>>) -> Resul
             c.unwrap()
         }),
         // cidrmatch(<cidr>,<ip>)                              	 Returns TRUE when an IP address, <ip>, belongs to a particular CIDR subnet, <cidr>.
-        "cidrmatch" => function_transform!(cidrmatch [args] (cidr: String, col: String) {
-            column_like!(expr("cidr_match('{}', {})", cidr, col))
+        "cidrmatch" => function_transform!(cidrmatch [args] (cidr: String, col) {
+            match col {
+                Expr::Column(ColumnLike::Named { name }) => cidr_match(&cidr, &name),
+                col => bail!("UNIMPLEMENTED: `cidrmatch` requires a field, got {:?}", col),
+            }
         }),
         // coalesce(<values>)                                  	 Takes one or more values and returns the first value that is not NULL.
         "coalesce" => function_transform!(coalesce [args -> mapped_args] () {
diff --git a/src/pyspark/transpiler/expr.rs b/src/pyspark/transpiler/expr.rs
index 769bf48..e89ecaa 100644
--- a/src/pyspark/transpiler/expr.rs
+++ b/src/pyspark/transpiler/expr.rs
@@ -27,7 +27,10 @@ fn sql_name(name: &str) -> String {
 }
 
 /// Whether the address in a column belongs to a range.
-fn cidr_match(cidr: &str, col: &str) -> ColumnLike {
+pub fn cidr_match(cidr: &str, col: &str) -> ColumnLike {
+    let cidr = spl_unescape(cidr)
+        .replace('\\', "\\\\")
+        .replace('\'', "\\'");
     let sql = format!("cidr_match('{}', {})", cidr, sql_name(&spl_unescape(col)));
     column_like!(expr([PyLiteral::text(sql)]))
 }
-- 
2.43.0


From 079928b38eadd01488cba4871c78103ea26f4b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:57 +0000
Subject: [PATCH 34/60] fix: take a command without arguments directly before a
 pipe or a bracket

---
 src/commands/spl.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/commands/spl.rs b/src/commands/spl.rs
index 8f7e6f4..4613ce4 100644
--- a/src/commands/spl.rs
+++ b/src/commands/spl.rs
@@ -2,9 +2,9 @@ use crate::commands::CommandBase;
 use crate::spl::ast::ParsedCommandOptions;
 use crate::spl::parser::{command_options, unwrapped};
 use nom::branch::alt;
-use nom::bytes::complete::tag_no_case;
+use nom::bytes::complete::{tag, tag_no_case};
 use nom::character::complete::multispace1;
-use nom::combinator::{eof, map};
+use nom::combinator::{eof, map, peek};
 use nom::sequence::{preceded, tuple};
 use nom::{IResult, Parser};
 
@@ -46,7 +46,10 @@ pub trait SplCommand<T> {
 
     fn match_name(input: &str) -> IResult<&str, ()> {
         map(
-            tuple((Self::match_name_raw, alt((multispace1, eof)))),
+            tuple((
+                Self::match_name_raw,
+                alt((multispace1, eof, peek(tag("|")), peek(tag("]")))),
+            )),
             |_| (),
         )(input)
     }
-- 
2.43.0


From f9ac99cf507d217bd393ff0384ba4376bec158c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:23 +0000
Subject: [PATCH 35/60] fix: end a boolean option at a pipe or a bracket

---
 src/spl/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spl/parser.rs b/src/spl/parser.rs
index 2c44b72..b003844 100644
--- a/src/spl/parser.rs
+++ b/src/spl/parser.rs
@@ -439,7 +439,7 @@ pub fn bool_(input: &str) -> IResult<&str, ast::BoolValue> {
                 map(tag_no_case("false"), |_| false),
                 map(tag_no_case("f"), |_| false),
             )),
-            peek(alt((eof, multispace1, recognize(one_of("().:"))))),
+            peek(alt((eof, multispace1, recognize(one_of("().:|]"))))),
         ),
         ast::BoolValue::from,
     )(input)
-- 
2.43.0


From 68e4954316c02332efaa9618036960610bde1986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:24 +0000
Subject: [PATCH 36/60] fix: take the arguments of the cidr_match UDF in the
 documented order

---
 python/spl_transpiler/runtime/functions/eval.py | 2 +-
 python/spl_transpiler/runtime/udfs/__init__.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/spl_transpiler/runtime/functions/eval.py b/python/spl_transpiler/runtime/functions/eval.py
index 1e43eeb..a0787e2 100644
--- a/python/spl_transpiler/runtime/functions/eval.py
+++ b/python/spl_transpiler/runtime/functions/eval.py
@@ -115,7 +115,7 @@ def case(*args: Expr) -> Expr:
 
 @enforce_types
 def cidrmatch(cidr: str, ip: Expr) -> Expr:
-    return udfs.cidr_match(ip.to_pyspark_expr(), F.lit(cidr))
+    return udfs.cidr_match(F.lit(cidr), ip.to_pyspark_expr())
 
 
 #         // coalesce(<values>)                                  	 Takes one or more values and returns the first value that is not NULL.
diff --git a/python/spl_transpiler/runtime/udfs/__init__.py b/python/spl_transpiler/runtime/udfs/__init__.py
index f123b58..b768ba6 100644
--- a/python/spl_transpiler/runtime/udfs/__init__.py
+++ b/python/spl_transpiler/runtime/udfs/__init__.py
@@ -4,7 +4,7 @@ import ipaddress
 
 
 @udf(returnType=BooleanType())
-def cidr_match(ip_address, cidr_range):
+def cidr_match(cidr_range, ip_address):
     try:
         # Parse the IP address
         ip = ipaddress.ip_address(ip_address)
-- 
2.43.0


From 420d2ad2773b9531ba1512cb7a273a9665c6d9c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:42 +0000
Subject: [PATCH 37/60] fix: reject stats functions with a wrong number of
 arguments

---
 src/functions/stat_fns.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/functions/stat_fns.rs b/src/functions/stat_fns.rs
index eebb245..6396f7c 100644
--- a/src/functions/stat_fns.rs
+++ b/src/functions/stat_fns.rs
@@ -84,6 +84,15 @@ pub fn stats_fn(
 
 /// The call of the runtime function for a stats function, if there is one
 pub fn stats_runtime_call(name: &str, mut args: Vec<Expr>) -> Result<ColumnLike> {
+    let required_args = match name {
+        "count" | "earliest_time" | "latest_time" => 0..=1,
+        _ => 1..=1,
+    };
+    ensure!(
+        required_args.contains(&args.len()),
+        "Invalid number of arguments for stats function `{}`",
+        name
+    );
     let func = match name {
         "avg" | "count" | "distinct_count" | "estdc" | "max" | "mean" | "median" | "min"
         | "mode" | "range" | "stdev" | "sumsq" | "var" | "varp" | "first" | "last" | "values"
-- 
2.43.0


From 5ef2d2b1a7b75c5d8d36c42c5029a6abeebd1a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:34 +0000
Subject: [PATCH 38/60] fix: leave reading a data model to code that can run

---
 src/commands/cmd_data_model/pyspark.rs | 9 +++++++++
 src/commands/cmd_t_stats/pyspark.rs    | 9 +++++++++
 2 files changed, 18 insertions(+)

diff --git a/src/commands/cmd_data_model/pyspark.rs b/src/commands/cmd_data_model/pyspark.rs
index 9627776..9f4a140 100644
--- a/src/commands/cmd_data_model/pyspark.rs
+++ b/src/commands/cmd_data_model/pyspark.rs
@@ -11,6 +11,15 @@ impl PipelineTransformer for DataModelCommand {
         state: PipelineTransformState,
     ) -> anyhow::Result<PipelineTransformState> {
         let df = state.df.clone();
+        ensure!(
+            df.is_none() && self.data_model_name.is_some(),
+            "`datamodel` requires the name of a data model and cannot follow another command"
+        );
+        ensure!(
+            matches!(self.search_mode.as_deref(), None | Some("" | "search")),
+            "UNIMPLEMENTED: `datamodel` command does not support search_mode other than 'search'"
+        );
+
         let mut kwargs = py_dict! {};
 
         kwargs.push(
diff --git a/src/commands/cmd_t_stats/pyspark.rs b/src/commands/cmd_t_stats/pyspark.rs
index c79493c..830f64c 100644
--- a/src/commands/cmd_t_stats/pyspark.rs
+++ b/src/commands/cmd_t_stats/pyspark.rs
@@ -37,6 +37,15 @@ impl PipelineTransformer for TStatsCommand {
             "`tstats` only supports `include_reduced_buckets`=false"
         );
 
+        ensure!(
+            self.datamodel.is_some(),
+            "`tstats` requires the name of a data model"
+        );
+        ensure!(
+            state.df.is_none(),
+            "`tstats` reads a data model and cannot follow another command"
+        );
+
         let mut all_kwargs = py_dict! {};
 
         // Options
-- 
2.43.0


From 3379b7eac2b4e80ad46dab55e77ddb716b0e3300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:54 +0000
Subject: [PATCH 39/60] fix: read two colons as the equals sign that they stand
 for

---
 src/spl/operators.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spl/operators.rs b/src/spl/operators.rs
index 907e403..fd2e8ad 100644
--- a/src/spl/operators.rs
+++ b/src/spl/operators.rs
@@ -126,7 +126,7 @@ impl OperatorSymbolTrait for Equals {
     const SYMBOL: &'static str = "=";
     const PRECEDENCE: i32 = 7;
     fn pattern(input: &str) -> IResult<&str, &str> {
-        alt((tag("="), tag("::")))(input)
+        value(Self::SYMBOL, alt((tag("="), tag("::"))))(input)
     }
 }
 #[derive(Debug, PartialEq, Clone)]
-- 
2.43.0


From fc00b22d53de02bb9b43c1dbf12de9bfa00d2874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:37 +0000
Subject: [PATCH 40/60] fix: try a search whose name is given once only

---
 src/spl/parser.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/spl/parser.rs b/src/spl/parser.rs
index b003844..9c88dcd 100644
--- a/src/spl/parser.rs
+++ b/src/spl/parser.rs
@@ -1247,11 +1247,22 @@ pub fn stats_call(input: &str) -> IResult<&str, Vec<ast::Expr>> {
 //     | _map
 //     | impliedSearch)
 pub fn command(input: &str) -> IResult<&str, ast::Command> {
-    alt((named_command, into(SearchParser::parse)))(input)
+    alt((other_command, into(SearchParser::parse)))(input)
 }
 
 /// A command which starts with its name, i.e. anything but an implied search
 fn named_command(input: &str) -> IResult<&str, ast::Command> {
+    alt((
+        other_command,
+        preceded(
+            peek(pair(tag_no_case("search"), multispace1)),
+            into(SearchParser::parse),
+        ),
+    ))(input)
+}
+
+/// A command other than a search
+fn other_command(input: &str) -> IResult<&str, ast::Command> {
     alt((
         // `alt` has a hard count limit, so we just break it up into sub-alts
         alt((
@@ -1292,10 +1303,6 @@ fn named_command(input: &str) -> IResult<&str, ast::Command> {
             into(TStatsParser::parse),
             into(WhereParser::parse),
         )),
-        preceded(
-            peek(pair(tag_no_case("search"), multispace1)),
-            into(SearchParser::parse),
-        ),
     ))(input)
 }
 
-- 
2.43.0


From 8e187f6061cf3f9bdbcae91c02646658c94b004a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:09 +0000
Subject: [PATCH 41/60] fix: parse calls of like() and in() and accept several
 values for in()

---
 src/functions/eval_fns.rs |  5 ++++-
 src/spl/parser.rs         | 15 ++++++++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/functions/eval_fns.rs b/src/functions/eval_fns.rs
index c6435fd..f8eeada 100644
--- a/src/functions/eval_fns.rs
+++ b/src/functions/eval_fns.rs
@@ -334,7 +334,10 @@ fn eval_fn_bare(name: String, args: Vec<ContextualizedExpr<ast::Expr>>) -> Resul
             column_like!([when([condition], [then_expr])].otherwise([else_expr]))
         }),
         // in(<field>,<list>)                                  	 Returns TRUE if one of the values in the list matches a value that you specify.
-        "in" => function_transform!(in [args] (x, vals) { column_like!([x].isin([vals])) }),
+        "in" => function_transform!(in [args -> mapped_args] (x) {
+            ensure!(!mapped_args.is_empty(), "in() function requires a field and at least one value.");
+            ColumnLike::method_call(x, "isin", mapped_args)
+        }),
         // like(<str>,<pattern>)                               	 Returns TRUE only if <str> matches <pattern>.
         "like" => {
             function_transform!(like [args] (x, pattern) { column_like!(like([x], [pattern])) })
diff --git a/src/spl/parser.rs b/src/spl/parser.rs
index 9c88dcd..43d012f 100644
--- a/src/spl/parser.rs
+++ b/src/spl/parser.rs
@@ -918,7 +918,20 @@ pub fn field_in(input: &str) -> IResult<&str, ast::FieldIn> {
 //   def call[_: P]: P[Call] = (token ~~ "(" ~~ expr.rep(sep = ",") ~~ ")").map(Call.tupled)
 pub fn call(input: &str) -> IResult<&str, ast::Call> {
     map(
-        pair(token, parenthesized(comma_separated_list0(expr))),
+        pair(
+            // The reserved words `like` and `in` also name functions
+            alt((
+                token,
+                terminated(
+                    alt((
+                        value("like", tag_no_case("like")),
+                        value("in", tag_no_case("in")),
+                    )),
+                    peek(tag("(")),
+                ),
+            )),
+            parenthesized(comma_separated_list0(expr)),
+        ),
         |(token, exprs)| ast::Call {
             name: token.into(),
             args: exprs,
-- 
2.43.0


From a155e9583633d012e2d88ba230b16ca395c91e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:10 +0000
Subject: [PATCH 42/60] fix: give Spark the patterns of rex without group names
 that Java refuses

---
 src/commands/cmd_rex/pyspark.rs |  5 ++--
 src/commands/regex_utils.rs     | 46 +++++++++++++++++++++++++++++++++
 2 files changed, 49 insertions(+), 2 deletions(-)

diff --git a/src/commands/cmd_rex/pyspark.rs b/src/commands/cmd_rex/pyspark.rs
index c7b37e9..cf141f0 100644
--- a/src/commands/cmd_rex/pyspark.rs
+++ b/src/commands/cmd_rex/pyspark.rs
@@ -1,5 +1,5 @@
 use crate::commands::cmd_rex::spl::RexCommand;
-use crate::commands::regex_utils::get_groups;
+use crate::commands::regex_utils::{get_groups, with_java_group_names};
 use crate::pyspark::ast::*;
 use crate::pyspark::transpiler::{PipelineTransformState, PipelineTransformer};
 use anyhow::ensure;
@@ -26,13 +26,14 @@ impl PipelineTransformer for RexCommand {
         );
 
         let regex_groups = get_groups(self.regex.clone())?;
+        let regex = with_java_group_names(&self.regex)?;
 
         for (group_index, group_name) in regex_groups {
             df = df.with_column(
                 group_name.unwrap_or(group_index.to_string()),
                 column_like!(regexp_extract(
                     [col(self.field.clone())],
-                    [Expr::PyLiteral(PyLiteral(py_regex(&self.regex)))],
+                    [Expr::PyLiteral(PyLiteral(py_regex(&regex)))],
                     [py_lit(group_index as i64)]
                 )),
             );
diff --git a/src/commands/regex_utils.rs b/src/commands/regex_utils.rs
index a725059..4c92a83 100644
--- a/src/commands/regex_utils.rs
+++ b/src/commands/regex_utils.rs
@@ -96,6 +96,52 @@ pub fn get_groups(regex: impl ToString) -> Result<Vec<SimplifiedGroup>> {
     Ok(get_groups_from_ast(regex_ast))
 }
 
+/// Collects the openings of groups, `(?<name>` or `(?P<name>`, which Java does not accept.
+struct UnsupportedGroupNames(Vec<(usize, usize, String)>);
+
+impl Visitor for UnsupportedGroupNames {
+    type Output = Vec<(usize, usize, String)>;
+    type Err = anyhow::Error;
+
+    fn finish(self) -> Result<Self::Output> {
+        Ok(self.0)
+    }
+
+    fn visit_pre(&mut self, node: &Ast) -> Result<()> {
+        if let Ast::Group(group) = node {
+            if let GroupKind::CaptureName {
+                starts_with_p,
+                ref name,
+            } = group.kind
+            {
+                let is_java_name = name.name.starts_with(|c: char| c.is_ascii_alphabetic())
+                    && name.name.chars().all(|c| c.is_ascii_alphanumeric());
+                let (start, end) = (group.span.start.offset, name.span.end.offset + 1);
+                if !is_java_name {
+                    self.0.push((start, end, "(".into()));
+                } else if starts_with_p {
+                    self.0.push((start, end, format!("(?<{}>", name.name)));
+                }
+            }
+        }
+        Ok(())
+    }
+}
+
+/// Rewrites a regex such that Java, and thereby Spark, accepts the names of its groups.
+/// Groups keep their numbers, but lose a name that is not allowed.
+pub fn with_java_group_names(regex: &str) -> Result<String> {
+    let regex_ast = parse::Parser::new().parse(regex)?;
+    let mut result = regex.to_string();
+    for (start, end, opening) in visit(&regex_ast, UnsupportedGroupNames(vec![]))?
+        .into_iter()
+        .rev()
+    {
+        result.replace_range(start..end, &opening);
+    }
+    Ok(result)
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From 57a163f30b11da150995dcc9fe84b1d49e62a862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:40 +0000
Subject: [PATCH 43/60] fix: extract all groups of rex before one of them
 replaces the field

---
 src/commands/cmd_rex/pyspark.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/commands/cmd_rex/pyspark.rs b/src/commands/cmd_rex/pyspark.rs
index cf141f0..8d23bac 100644
--- a/src/commands/cmd_rex/pyspark.rs
+++ b/src/commands/cmd_rex/pyspark.rs
@@ -25,7 +25,9 @@ impl PipelineTransformer for RexCommand {
             "UNIMPLEMENTED: No implementation yet for `offset_field` in `rex`"
         );
 
-        let regex_groups = get_groups(self.regex.clone())?;
+        let mut regex_groups = get_groups(self.regex.clone())?;
+        // A group that replaces the field comes last, as the others read the field as well
+        regex_groups.sort_by_key(|(_, name)| name.as_ref() == Some(&self.field));
         let regex = with_java_group_names(&self.regex)?;
 
         for (group_index, group_name) in regex_groups {
-- 
2.43.0


From a2f78e9f58ebe8929999e46fe0b22ba3f57b91b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:01 +0000
Subject: [PATCH 44/60] fix: convert SPL time formats in one pass and keep
 their literal text literal

---
 .../spl_transpiler/runtime/functions/utils.py | 84 +++++++++++--------
 src/functions/eval_fns.rs                     |  4 +-
 src/functions/shared.rs                       |  2 +-
 src/pyspark/transpiler/utils.rs               | 78 +++++++++++++----
 4 files changed, 115 insertions(+), 53 deletions(-)

diff --git a/python/spl_transpiler/runtime/functions/utils.py b/python/spl_transpiler/runtime/functions/utils.py
index b3a87fa..c95dd99 100644
--- a/python/spl_transpiler/runtime/functions/utils.py
+++ b/python/spl_transpiler/runtime/functions/utils.py
@@ -3,6 +3,8 @@
 #     let time_col: Expr = time_col.into();
 #     column_like!([time_col] + [expr("INTERVAL {} {}", value, scale.to_ascii_uppercase())])
 # }
+import re
+
 from spl_transpiler.runtime.base import enforce_types, TimeSpan, TimeScale, Expr
 from pyspark.sql import functions as F
 
@@ -46,18 +48,21 @@ def round_time(time_col, scale: TimeScale) -> Expr:
     return F.date_trunc(round_to, time_col)
 
 
-# const CONVERSIONS: [(&str, Option<&str>); 37] = [
+# const CONVERSIONS: [(&str, Option<&str>); 40] = [
 #     // Date and time variables
 #     ("%c", None), // No direct equivalent
 #     ("%+", None), // No direct equivalent
 #     // Time variables
 #     ("%Ez", None),              // No direct equivalent
-#     ("%f", Some("SSS")),        // Microseconds as a decimal number
+#     ("%f", Some("SSSSSS")),     // Microseconds as a decimal number
 #     ("%H", Some("HH")),         // Hour (24-hour clock)
 #     ("%I", Some("hh")),         // Hour (12-hour clock)
 #     ("%k", Some("H")),          // Hour (24-hour clock, leading space)
 #     ("%M", Some("mm")),         // Minute
 #     ("%N", Some("SSS")),        // Subsecond digits (default to milliseconds)
+#     ("%3N", Some("SSS")),       // Subsecond digits (milliseconds)
+#     ("%6N", Some("SSSSSS")),    // Subsecond digits (microseconds)
+#     ("%9N", Some("SSSSSSSSS")), // Subsecond digits (nanoseconds)
 #     ("%p", Some("a")),          // AM or PM
 #     ("%Q", Some("SSS")),        // Subsecond component of a UTC timestamp (default to milliseconds)
 #     ("%3Q", Some("SSS")),       // Subsecond component of a UTC timestamp (milliseconds)
@@ -72,10 +77,10 @@ def round_time(time_col, scale: TimeScale) -> Expr:
 #     // Use %:z to specify hour and minute separated by a colon, for example -05:00
 #     // Use %::z to specify hour minute and second separated with colons, for example -05:00:00
 #     // Use %:::z to specify hour only, for example -05
-#     ("%z", Some("x")),        // Timezone offset from UTC
-#     ("%:z", Some("xxxx")),    // Timezone offset from UTC
-#     ("%::z", Some("xxxxxx")), // Timezone offset from UTC
-#     ("%:::z", Some("xx")),    // Timezone offset from UTC
+#     ("%z", Some("xx")),      // Timezone offset from UTC
+#     ("%:z", Some("xxx")),    // Timezone offset from UTC
+#     ("%::z", Some("xxxxx")), // Timezone offset from UTC
+#     ("%:::z", Some("x")),    // Timezone offset from UTC
 #     // Date variables
 #     ("%F", Some("yyyy-MM-dd")), // ISO 8601 date format
 #     ("%x", None),               // No direct equivalent for locale-specific date
@@ -84,10 +89,10 @@ def round_time(time_col, scale: TimeScale) -> Expr:
 #     ("%a", Some("EEE")),  // Abbreviated weekday name
 #     ("%d", Some("dd")),   // Day of the month
 #     ("%e", Some("d")),    // Day of the month (leading space)
-#     ("%j", Some("D")),    // Day of year
+#     ("%j", Some("DDD")),  // Day of year
 #     // ("%V", Some("w")), // Week of the year (ISO)
 #     // ("%U", Some("w")), // Week of the year (starting with 0)
-#     ("%w", Some("e")), // Weekday as a decimal number (1 = Monday, ..., 7 = Sunday)
+#     ("%w", None), // No equivalent since Spark 3.0
 #     // Specifying months
 #     ("%b", Some("MMM")),  // Abbreviated month name
 #     ("%B", Some("MMMM")), // Full month name
@@ -103,12 +108,15 @@ CONVERSIONS = {
     "%c": None,
     "%+": None,
     "%Ez": None,
-    "%f": "SSS",
+    "%f": "SSSSSS",
     "%H": "HH",
     "%I": "hh",
     "%k": "H",
     "%M": "mm",
     "%N": "SSS",
+    "%3N": "SSS",
+    "%6N": "SSSSSS",
+    "%9N": "SSSSSSSSS",
     "%p": "a",
     "%Q": "SSS",
     "%3Q": "SSS",
@@ -119,20 +127,20 @@ CONVERSIONS = {
     "%T": "HH:mm:ss",
     "%X": None,
     "%Z": "z",
-    "%z": "x",
-    "%:z": "xxxx",
-    "%::z": "xxxxxx",
-    "%:::z": "xx",
+    "%z": "xx",
+    "%:z": "xxx",
+    "%::z": "xxxxx",
+    "%:::z": "x",
     "%F": "yyyy-MM-dd",
     "%x": None,
     "%A": "EEEE",
     "%a": "EEE",
     "%d": "dd",
     "%e": "d",
-    "%j": "D",
+    "%j": "DDD",
     # "%V": "w",
     # "%U": "w",
-    "%w": "e",
+    "%w": None,
     "%b": "MMM",
     "%B": "MMMM",
     "%m": "MM",
@@ -141,28 +149,36 @@ CONVERSIONS = {
     "%%": "%",
 }
 
-#
-# pub fn convert_time_format(spl_time_format: impl ToString) -> Result<String> {
-#     let mut fmt_string = spl_time_format.to_string();
-#
-#     for (original, replacement) in CONVERSIONS {
-#         if !fmt_string.contains(original) {
-#             continue;
-#         }
-#         match replacement {
-#             None => bail!("No known replacement pattern for `{}`", original),
-#             Some(replacement) => fmt_string = fmt_string.replace(original, replacement),
-#         }
-#     }
-#     Ok(fmt_string)
-# }
+
+# Characters of a time format that Spark does not take literally
+SPECIAL_TEXT = re.compile(r"[A-Za-z\[\]{}#']+")
+
+
+def _quote_time_text(text: str) -> str:
+    """Text between the variables of a time format, such that Spark takes it literally."""
+    return SPECIAL_TEXT.sub(lambda m: "'" + m.group().replace("'", "''") + "'", text)
 
 
 def convert_time_format(fmt_string: str) -> str:
-    for original, replacement in CONVERSIONS.items():
-        if original not in fmt_string:
+    # Without any variable this is no SPL time format, so it is given to Spark as it is
+    if "%" not in fmt_string:
+        return fmt_string
+
+    result, text, rest = "", "", fmt_string
+    while rest:
+        if rest[0] != "%":
+            text, rest = text + rest[0], rest[1:]
             continue
+        original = next((o for o in CONVERSIONS if rest.startswith(o)), None)
+        if original is None:
+            raise ValueError(f"Unknown time format variable at `{rest}`")
+        replacement = CONVERSIONS[original]
         if replacement is None:
             raise ValueError(f"No known replacement pattern for `{original}`")
-        fmt_string = fmt_string.replace(original, replacement)
-    return fmt_string
+        if original == "%%":
+            text += replacement
+        else:
+            result += _quote_time_text(text) + replacement
+            text = ""
+        rest = rest[len(original) :]
+    return result + _quote_time_text(text)
diff --git a/src/functions/eval_fns.rs b/src/functions/eval_fns.rs
index f8eeada..e04f3ce 100644
--- a/src/functions/eval_fns.rs
+++ b/src/functions/eval_fns.rs
@@ -433,12 +433,12 @@ fn eval_fn_bare(name: String, args: Vec<ContextualizedExpr<ast::Expr>>) -> Resul
         // strftime(<time>,<format>)                           	 Takes a UNIX time and renders it into a human readable format.
         "strftime" => function_transform!(strftime [args] (date, format: String) {
             let converted_time_format = convert_time_format(format)?;
-            column_like!(date_format([date], [py_lit(converted_time_format)]))
+            column_like!(date_format([date], [converted_time_format]))
         }),
         // strptime(<str>,<format>)                            	 Takes a human readable time and renders it into UNIX time.
         "strptime" => function_transform!(strptime [args] (date, format: String) {
             let converted_time_format = convert_time_format(format)?;
-            column_like!(to_timestamp([date], [py_lit(converted_time_format)]))
+            column_like!(to_timestamp([date], [converted_time_format]))
         }),
         // time()                                              	 The time that eval function was computed. The time will be different for each event, based on when the event was processed.
         "time" => function_transform!(time [args] () { column_like!(current_timestamp()) }),
diff --git a/src/functions/shared.rs b/src/functions/shared.rs
index 5daf48c..5095a01 100644
--- a/src/functions/shared.rs
+++ b/src/functions/shared.rs
@@ -6,7 +6,7 @@ pub fn ctime(c: impl Into<Expr>, timeformat: String) -> Result<ColumnLike> {
     let converted_time_format = convert_time_format(timeformat)?;
     Ok(column_like!(date_format(
         [c.into()],
-        [py_lit(converted_time_format)]
+        [converted_time_format]
     )))
 }
 
diff --git a/src/pyspark/transpiler/utils.rs b/src/pyspark/transpiler/utils.rs
index c497615..be17dd1 100644
--- a/src/pyspark/transpiler/utils.rs
+++ b/src/pyspark/transpiler/utils.rs
@@ -112,18 +112,21 @@ Z      	 zone-offset                  	 offset-Z     	 +0000; -0800; -08:00;
 ]      	 optional section end
  */
 
-const CONVERSIONS: [(&str, Option<&str>); 37] = [
+const CONVERSIONS: [(&str, Option<&str>); 40] = [
     // Date and time variables
     ("%c", None), // No direct equivalent
     ("%+", None), // No direct equivalent
     // Time variables
     ("%Ez", None),              // No direct equivalent
-    ("%f", Some("SSS")),        // Microseconds as a decimal number
+    ("%f", Some("SSSSSS")),     // Microseconds as a decimal number
     ("%H", Some("HH")),         // Hour (24-hour clock)
     ("%I", Some("hh")),         // Hour (12-hour clock)
     ("%k", Some("H")),          // Hour (24-hour clock, leading space)
     ("%M", Some("mm")),         // Minute
     ("%N", Some("SSS")),        // Subsecond digits (default to milliseconds)
+    ("%3N", Some("SSS")),       // Subsecond digits (milliseconds)
+    ("%6N", Some("SSSSSS")),    // Subsecond digits (microseconds)
+    ("%9N", Some("SSSSSSSSS")), // Subsecond digits (nanoseconds)
     ("%p", Some("a")),          // AM or PM
     ("%Q", Some("SSS")),        // Subsecond component of a UTC timestamp (default to milliseconds)
     ("%3Q", Some("SSS")),       // Subsecond component of a UTC timestamp (milliseconds)
@@ -138,10 +141,10 @@ const CONVERSIONS: [(&str, Option<&str>); 37] = [
     // Use %:z to specify hour and minute separated by a colon, for example -05:00
     // Use %::z to specify hour minute and second separated with colons, for example -05:00:00
     // Use %:::z to specify hour only, for example -05
-    ("%z", Some("x")),        // Timezone offset from UTC
-    ("%:z", Some("xxxx")),    // Timezone offset from UTC
-    ("%::z", Some("xxxxxx")), // Timezone offset from UTC
-    ("%:::z", Some("xx")),    // Timezone offset from UTC
+    ("%z", Some("xx")),      // Timezone offset from UTC
+    ("%:z", Some("xxx")),    // Timezone offset from UTC
+    ("%::z", Some("xxxxx")), // Timezone offset from UTC
+    ("%:::z", Some("x")),    // Timezone offset from UTC
     // Date variables
     ("%F", Some("yyyy-MM-dd")), // ISO 8601 date format
     ("%x", None),               // No direct equivalent for locale-specific date
@@ -150,10 +153,10 @@ const CONVERSIONS: [(&str, Option<&str>); 37] = [
     ("%a", Some("EEE")),  // Abbreviated weekday name
     ("%d", Some("dd")),   // Day of the month
     ("%e", Some("d")),    // Day of the month (leading space)
-    ("%j", Some("D")),    // Day of year
+    ("%j", Some("DDD")),  // Day of year
     // ("%V", Some("w")), // Week of the year (ISO)
     // ("%U", Some("w")), // Week of the year (starting with 0)
-    ("%w", Some("e")), // Weekday as a decimal number (1 = Monday, ..., 7 = Sunday)
+    ("%w", None), // No equivalent since Spark 3.0
     // Specifying months
     ("%b", Some("MMM")),  // Abbreviated month name
     ("%B", Some("MMMM")), // Full month name
@@ -165,17 +168,60 @@ const CONVERSIONS: [(&str, Option<&str>); 37] = [
     ("%%", Some("%")), // A literal "%" character
 ];
 
-pub fn convert_time_format(spl_time_format: impl ToString) -> Result<String> {
-    let mut fmt_string = spl_time_format.to_string();
+/// Text between the variables of a time format, such that Spark takes it literally.
+fn quote_time_text(text: &str) -> String {
+    let mut out = String::new();
+    let mut quoted = false;
+    for c in text.chars() {
+        let special = c.is_ascii_alphabetic() || matches!(c, '[' | ']' | '{' | '}' | '#' | '\'');
+        if special != quoted {
+            out.push('\'');
+            quoted = special;
+        }
+        if c == '\'' {
+            out.push(c);
+        }
+        out.push(c);
+    }
+    if quoted {
+        out.push('\'');
+    }
+    out
+}
 
-    for (original, replacement) in CONVERSIONS {
-        if !fmt_string.contains(original) {
+pub fn convert_time_format(spl_time_format: impl AsRef<str>) -> Result<PyLiteral> {
+    let spl_time_format = spl_unescape(spl_time_format);
+    // Without any variable this is no SPL time format, so it is given to Spark as it is
+    if !spl_time_format.contains('%') {
+        return Ok(PyLiteral::text(spl_time_format));
+    }
+
+    let mut fmt_string = String::new();
+    let mut text = String::new();
+    let mut rest = spl_time_format.as_str();
+    while let Some(c) = rest.chars().next() {
+        if c != '%' {
+            text.push(c);
+            rest = &rest[c.len_utf8()..];
             continue;
         }
-        match replacement {
-            None => bail!("No known replacement pattern for `{}`", original),
-            Some(replacement) => fmt_string = fmt_string.replace(original, replacement),
+        let conversion = CONVERSIONS
+            .into_iter()
+            .find(|(original, _)| rest.starts_with(original));
+        match conversion {
+            Some(("%%", _)) => text.push('%'),
+            Some((_, Some(replacement))) => {
+                fmt_string.push_str(&quote_time_text(&text));
+                text.clear();
+                fmt_string.push_str(replacement);
+            }
+            Some((original, None)) => {
+                bail!("No known replacement pattern for `{}`", original)
+            }
+            None => bail!("Unknown time format variable at `{}`", rest),
         }
+        rest = &rest[conversion.map_or(0, |(original, _)| original.len())..];
     }
-    Ok(fmt_string)
+    fmt_string.push_str(&quote_time_text(&text));
+    Ok(PyLiteral::text(fmt_string))
 }
-- 
2.43.0


From 253f4aa82cd8dfa6128c2943eb0349caa23f5f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:54 +0000
Subject: [PATCH 45/60] fix: split at the delimiter as text instead of as a
 regular expression

---
 python/spl_transpiler/runtime/functions/eval.py | 8 ++++++--
 src/functions/eval_fns.rs                       | 4 +++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/python/spl_transpiler/runtime/functions/eval.py b/python/spl_transpiler/runtime/functions/eval.py
index a0787e2..f776a69 100644
--- a/python/spl_transpiler/runtime/functions/eval.py
+++ b/python/spl_transpiler/runtime/functions/eval.py
@@ -1,3 +1,4 @@
+import re
 import warnings
 from functools import reduce
 
@@ -944,13 +945,16 @@ def mv_to_json_array(column: Expr, invert_types: bool = False) -> Expr:
 
 #         // split(<str>,<delim>)                                	 Splits the string values on the delimiter and returns the string values as a multivalue field.
 #         "split" => function_transform!(split [args] (x, delim: String) {
-#             column_like!(split([x], [py_lit(delim)]))
+#             // The delimiter is plain text, Spark takes a regular expression
+#             let delim = PyLiteral::text(regex_syntax::escape(&spl_unescape(delim)));
+#             column_like!(split([x], [delim]))
 #         }),
 
 
 @enforce_types
 def split(column: Expr, delimiter: str) -> Expr:
-    return F.split(column.to_pyspark_expr(), delimiter)
+    # The delimiter is plain text, Spark takes a regular expression
+    return F.split(column.to_pyspark_expr(), re.escape(delimiter))
 
 
 #
diff --git a/src/functions/eval_fns.rs b/src/functions/eval_fns.rs
index e04f3ce..a0659da 100644
--- a/src/functions/eval_fns.rs
+++ b/src/functions/eval_fns.rs
@@ -638,7 +638,9 @@ fn eval_fn_bare(name: String, args: Vec<ContextualizedExpr<ast::Expr>>) -> Resul
         }
         // split(<str>,<delim>)                                	 Splits the string values on the delimiter and returns the string values as a multivalue field.
         "split" => function_transform!(split [args] (x, delim: String) {
-            column_like!(split([x], [py_lit(delim)]))
+            // The delimiter is plain text, Spark takes a regular expression
+            let delim = PyLiteral::text(regex_syntax::escape(&spl_unescape(delim)));
+            column_like!(split([x], [delim]))
         }),
 
         // Statistical eval functions
-- 
2.43.0


From 8c15106b2dfee63203147b57fb8262f04b446350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:18 +0000
Subject: [PATCH 46/60] fix: give Spark the group references of replace() in
 its own notation

---
 .../spl_transpiler/runtime/functions/eval.py  |  4 +++-
 .../spl_transpiler/runtime/functions/utils.py | 15 ++++++++++++
 src/functions/eval_fns.rs                     | 24 ++++++++++++++++++-
 3 files changed, 41 insertions(+), 2 deletions(-)

diff --git a/python/spl_transpiler/runtime/functions/eval.py b/python/spl_transpiler/runtime/functions/eval.py
index f776a69..e2a687e 100644
--- a/python/spl_transpiler/runtime/functions/eval.py
+++ b/python/spl_transpiler/runtime/functions/eval.py
@@ -1063,13 +1063,15 @@ def ltrim(x: Expr, chars: str):
 #         // replace(<str>,<regex>,<replacement>)                	 Substitutes the replacement string for every occurrence of the regular expression in the string.
 #         "replace" => {
 #             function_transform!(replace [args] (input, regex: String, replacement: String) {
-#                 column_like!(regexp_replace([input.clone()], [py_lit(regex)], [py_lit(replacement)]))
+#                 let replacement = PyLiteral::text(convert_replacement(&spl_unescape(replacement)));
+#                 column_like!(regexp_replace([input.clone()], [py_lit(regex)], [replacement]))
 #             })
 #         }
 
 
 @enforce_types
 def replace(input: Expr, regex: str, replacement: str):
+    replacement = utils.convert_replacement(replacement)
     return F.regexp_replace(input.to_pyspark_expr(), regex, replacement)
 
 
diff --git a/python/spl_transpiler/runtime/functions/utils.py b/python/spl_transpiler/runtime/functions/utils.py
index c95dd99..d213dcd 100644
--- a/python/spl_transpiler/runtime/functions/utils.py
+++ b/python/spl_transpiler/runtime/functions/utils.py
@@ -182,3 +182,18 @@ def convert_time_format(fmt_string: str) -> str:
             text = ""
         rest = rest[len(original) :]
     return result + _quote_time_text(text)
+
+
+def convert_replacement(replacement: str) -> str:
+    """
+    Rewrites a replacement text so that Spark reads it as SPL does: groups are `\\1` in SPL
+    and `$1` in Spark, where a `$` or a final backslash has to be escaped.
+    """
+
+    def convert(match: re.Match) -> str:
+        text = match.group()
+        if text in ("$", "\\"):
+            return "\\" + text
+        return "$" + text[1] if text[1] in "0123456789" else text
+
+    return re.sub(r"\$|\\.|\\", convert, replacement, flags=re.DOTALL)
diff --git a/src/functions/eval_fns.rs b/src/functions/eval_fns.rs
index a0659da..55ef250 100644
--- a/src/functions/eval_fns.rs
+++ b/src/functions/eval_fns.rs
@@ -172,6 +172,27 @@ fn round_time(time_col: impl Into<Expr>, scale: String) -> Result<ColumnLike> {
     Ok(column_like!(date_trunc([py_lit(round_to)], [time_col])))
 }
 
+/// Rewrites a replacement text so that Spark reads it as SPL does: groups are `\1` in SPL
+/// and `$1` in Spark, where a `$` or a final backslash has to be escaped.
+fn convert_replacement(replacement: &str) -> String {
+    let mut out = String::new();
+    let mut chars = replacement.chars().peekable();
+    while let Some(c) = chars.next() {
+        match (c, chars.peek()) {
+            ('$', _) => out.push_str(r"\$"),
+            ('\\', Some('0'..='9')) => out.push('$'),
+            ('\\', Some(&next)) => {
+                out.push(c);
+                out.push(next);
+                chars.next();
+            }
+            ('\\', None) => out.push_str(r"\\"),
+            (c, _) => out.push(c),
+        }
+    }
+    out
+}
+
 pub fn eval_fn(call: ast::Call, ctx: &PysparkTranspileContext) -> Result<ColumnLike> {
     let ast::Call { name, args } = call;
     let args: Vec<_> = args.into_iter().map(|arg| arg.with_context(ctx)).collect();
@@ -699,7 +720,8 @@ fn eval_fn_bare(name: String, args: Vec<ContextualizedExpr<ast::Expr>>) -> Resul
         // replace(<str>,<regex>,<replacement>)                	 Substitutes the replacement string for every occurrence of the regular expression in the string.
         "replace" => {
             function_transform!(replace [args] (input, regex: String, replacement: String) {
-                column_like!(regexp_replace([input.clone()], [py_lit(regex)], [py_lit(replacement)]))
+                let replacement = PyLiteral::text(convert_replacement(&spl_unescape(replacement)));
+                column_like!(regexp_replace([input.clone()], [py_lit(regex)], [replacement]))
             })
         }
         // rtrim(<str>,<trim_chars>)                           	 Removes the trim characters from the right side of the string.
-- 
2.43.0


From 961678ac4c53338de55cc0c396f0c0800574d3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:08 +0000
Subject: [PATCH 47/60] fix: give null for missing values in printf() and
 tostring() instead of failing

---
 python/spl_transpiler/runtime/udfs/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/spl_transpiler/runtime/udfs/__init__.py b/python/spl_transpiler/runtime/udfs/__init__.py
index b768ba6..6861366 100644
--- a/python/spl_transpiler/runtime/udfs/__init__.py
+++ b/python/spl_transpiler/runtime/udfs/__init__.py
@@ -35,6 +35,8 @@ def ipmask(mask, ip):
 
 @udf(returnType=StringType())
 def printf(format_str, args):
+    if format_str is None or any(arg is None for arg in args):
+        return None
     return format_str % args
 
 
@@ -50,6 +52,8 @@ def tonumber(value, base=10):
 def tostring(value, format: str | None = None):
     # "binary", "hex", "commas", "duration"
     match (value, format):
+        case (None, _):
+            return None
         case (bool(), None):
             return "True" if value else "False"
         case (int() | float(), None):
-- 
2.43.0


From be9db1ec237cc4dfaf8c77806f4e7fe8bbc4b470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:01 +0000
Subject: [PATCH 48/60] fix: keep the sign of negative numbers in tostring() as
 binary, hex or duration

---
 python/spl_transpiler/runtime/udfs/__init__.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/python/spl_transpiler/runtime/udfs/__init__.py b/python/spl_transpiler/runtime/udfs/__init__.py
index 6861366..2243a92 100644
--- a/python/spl_transpiler/runtime/udfs/__init__.py
+++ b/python/spl_transpiler/runtime/udfs/__init__.py
@@ -59,14 +59,15 @@ def tostring(value, format: str | None = None):
         case (int() | float(), None):
             return str(value)
         case (int(), "binary"):
-            return bin(value)[2:]
+            return f"{value:b}"
         case (int(), "hex"):
-            return hex(value)[2:]
+            return f"{value:x}"
         case (int() | float(), "commas"):
             return "{:,}".format(value)
         case (int(), "duration"):
-            hours, remainder = divmod(value, 3600)
+            sign = "-" if value < 0 else ""
+            hours, remainder = divmod(abs(value), 3600)
             minutes, seconds = divmod(remainder, 60)
-            return f"{hours:02d}:{minutes:02d}:{seconds:02d}"
+            return f"{sign}{hours:02d}:{minutes:02d}:{seconds:02d}"
         case _:
             raise TypeError(f"Unsupported value+format pair: ({value}, {format})")
-- 
2.43.0


From dac78a1030dd47fc0c13ae7178a5cc2cf5b440d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:01 +0000
Subject: [PATCH 49/60] fix: keep numbers of more than 32 bits in tonumber()

---
 python/spl_transpiler/runtime/udfs/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/spl_transpiler/runtime/udfs/__init__.py b/python/spl_transpiler/runtime/udfs/__init__.py
index 2243a92..fa436a4 100644
--- a/python/spl_transpiler/runtime/udfs/__init__.py
+++ b/python/spl_transpiler/runtime/udfs/__init__.py
@@ -1,5 +1,5 @@
 from pyspark.sql.functions import udf
-from pyspark.sql.types import BooleanType, StringType, IntegerType
+from pyspark.sql.types import BooleanType, StringType, LongType
 import ipaddress
 
 
@@ -40,7 +40,7 @@ def printf(format_str, args):
     return format_str % args
 
 
-@udf(returnType=IntegerType())
+@udf(returnType=LongType())
 def tonumber(value, base=10):
     try:
         return int(value, base)
-- 
2.43.0


From 3ca31dfd2726064962b92014d2ade06bd573eefa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:25 +0000
Subject: [PATCH 50/60] fix: start the weeks of relative_time() on Sunday, as
 SPL does

---
 python/spl_transpiler/runtime/functions/utils.py | 5 ++++-
 src/functions/eval_fns.rs                        | 9 ++++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/python/spl_transpiler/runtime/functions/utils.py b/python/spl_transpiler/runtime/functions/utils.py
index d213dcd..caccb4f 100644
--- a/python/spl_transpiler/runtime/functions/utils.py
+++ b/python/spl_transpiler/runtime/functions/utils.py
@@ -34,10 +34,13 @@ def offset_time(time_col, offset: TimeSpan):
 
 @enforce_types
 def round_time(time_col, scale: TimeScale) -> Expr:
+    if scale == TimeScale.WEEKS:
+        # Weeks of SPL start on Sunday, those of Spark on Monday
+        day = F.expr("INTERVAL 1 DAYS")
+        return F.date_trunc("week", time_col + day) - day
     try:
         round_to = {
             scale.MONTHS: "month",
-            scale.WEEKS: "week",
             scale.DAYS: "day",
             scale.HOURS: "hour",
             scale.MINUTES: "minute",
diff --git a/src/functions/eval_fns.rs b/src/functions/eval_fns.rs
index 55ef250..4ea1087 100644
--- a/src/functions/eval_fns.rs
+++ b/src/functions/eval_fns.rs
@@ -157,10 +157,17 @@ fn offset_time(time_col: impl Into<Expr>, offset: TimeSpan) -> ColumnLike {
 }
 
 fn round_time(time_col: impl Into<Expr>, scale: String) -> Result<ColumnLike> {
+    if scale == "weeks" {
+        // Weeks of SPL start on Sunday, those of Spark on Monday
+        let time_col: Expr = time_col.into();
+        let next_day = column_like!([time_col] + [expr("INTERVAL 1 DAYS")]);
+        return Ok(column_like!(
+            [date_trunc([py_lit("week")], [next_day])] - [expr("INTERVAL 1 DAYS")]
+        ));
+    }
     let round_to = match scale.as_str() {
         "years" => "year",
         "months" => "month",
-        "weeks" => "week",
         "days" => "day",
         "hours" => "hour",
         "minutes" => "minute",
-- 
2.43.0


From 516450b6412fd889e2655a2eae45fd1db2aa11bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:57 +0000
Subject: [PATCH 51/60] fix: compute earliest, latest and rate in the runtime
 library whatever they are combined with

---
 .../spl_transpiler/runtime/functions/stats.py | 29 ++++++++++---------
 src/functions/stat_fns.rs                     |  8 ++---
 2 files changed, 20 insertions(+), 17 deletions(-)

diff --git a/python/spl_transpiler/runtime/functions/stats.py b/python/spl_transpiler/runtime/functions/stats.py
index afb77ad..b56e11d 100644
--- a/python/spl_transpiler/runtime/functions/stats.py
+++ b/python/spl_transpiler/runtime/functions/stats.py
@@ -476,13 +476,17 @@ def values(value: Expr) -> ValuesStatsFn:
 #         }),
 
 
+def _at_time(extreme_by, value):
+    # Sorting the rows instead would depend on the other aggregations of the same command
+    return extreme_by(value, F.when(value.isNotNull(), F.col("_time")))
+
+
 class EarliestStatsFn(StatsFunction):
     name: Literal["earliest"] = "earliest"
     value: Expr
 
-    def to_pyspark_expr(self, df: DataFrame):
-        df = df.orderBy(F.col("_time").asc())
-        return (df, F.first(self.value.to_pyspark_expr(), ignorenulls=True))
+    def to_pyspark_expr_simple(self):
+        return _at_time(F.min_by, self.value.to_pyspark_expr())
 
 
 @enforce_types
@@ -519,9 +523,8 @@ class LatestStatsFn(StatsFunction):
     name: Literal["latest"] = "latest"
     value: Expr
 
-    def to_pyspark_expr(self, df: DataFrame):
-        df = df.orderBy(F.col("_time").asc())
-        return (df, F.last(self.value.to_pyspark_expr(), ignorenulls=True))
+    def to_pyspark_expr_simple(self):
+        return _at_time(F.max_by, self.value.to_pyspark_expr())
 
 
 @enforce_types
@@ -650,13 +653,13 @@ class RateStatsFn(StatsFunction):
     name: Literal["rate"] = "rate"
     value: Expr
 
-    def to_pyspark_expr(self, df: DataFrame):
-        df = df.orderBy(F.col("_time").asc())
-        latest_value = F.last(self.value.to_pyspark_expr())
-        earliest_value = F.first(self.value.to_pyspark_expr())
-        latest_time = F.max(F.col("_time"))
-        earliest_time = F.min(F.col("_time"))
-        return (df, (latest_value - earliest_value) / (latest_time - earliest_time))
+    def to_pyspark_expr_simple(self):
+        value = self.value.to_pyspark_expr()
+        latest_value = _at_time(F.max_by, value)
+        earliest_value = _at_time(F.min_by, value)
+        latest_time = F.max(F.col("_time")).cast("double")
+        earliest_time = F.min(F.col("_time")).cast("double")
+        return (latest_value - earliest_value) / (latest_time - earliest_time)
 
 
 @enforce_types
diff --git a/src/functions/stat_fns.rs b/src/functions/stat_fns.rs
index 6396f7c..f74bb8f 100644
--- a/src/functions/stat_fns.rs
+++ b/src/functions/stat_fns.rs
@@ -257,10 +257,10 @@ fn stats_fn_bare(
         // rate(<value>)                        	 Returns the per-second rate change of the value of the field. Represents (latest - earliest) / (latest_time - earliest_time) Requires the earliest and latest values of the field to be numerical, and the earliest_time and latest_time values to be different.
         "rate" => function_transform!(rate [args] (x) {
             df = df.order_by(vec![column_like!([col("_time")].asc())]);
-            let latest_value = column_like!(last([x.clone()]));
-            let earliest_value = column_like!(first([x]));
-            let latest_time = column_like!(max([col("_time")]));
-            let earliest_time = column_like!(min([col("_time")]));
+            let latest_value = column_like!(last([x.clone()], [py_lit(true)]));
+            let earliest_value = column_like!(first([x], [py_lit(true)]));
+            let latest_time = column_like!([max([col("_time")])].cast([py_lit("double")]));
+            let earliest_time = column_like!([min([col("_time")])].cast([py_lit("double")]));
             column_like!([[latest_value] - [earliest_value]] / [[latest_time] - [earliest_time]])
         }),
         // rate_avg(<value>)                    	 Returns the average rates for the time series associated with a specified accumulating counter metric.
-- 
2.43.0


From 0dd11dc40c1c72ec2722c30ffa39cb6d90c2a978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:59 +0000
Subject: [PATCH 52/60] fix: translate eval() in the arguments of stats
 functions

---
 src/commands/cmd_stats/pyspark.rs |  4 +--
 src/commands/stats_utils.rs       |  4 +--
 src/functions/stat_fns.rs         | 47 ++++++++++++++++++++++++++++++-
 3 files changed, 50 insertions(+), 5 deletions(-)

diff --git a/src/commands/cmd_stats/pyspark.rs b/src/commands/cmd_stats/pyspark.rs
index 3fbf241..8598a0c 100644
--- a/src/commands/cmd_stats/pyspark.rs
+++ b/src/commands/cmd_stats/pyspark.rs
@@ -1,6 +1,6 @@
 use super::spl::*;
 use crate::commands::stats_utils;
-use crate::functions::stat_fns::stats_runtime_call;
+use crate::functions::stat_fns::{stats_runtime_call, unwrap_eval};
 use crate::pyspark::alias::Aliasable;
 use crate::pyspark::ast::*;
 use crate::pyspark::base::{PysparkTranspileContext, ToSparkExpr};
@@ -23,7 +23,7 @@ fn transform_stats_runtime_expr(
         ),
     };
     let alias = maybe_name.unwrap_or(name.clone());
-    let args: Result<Vec<Expr>> = args
+    let args: Result<Vec<Expr>> = unwrap_eval(&name, args)
         .into_iter()
         .map(|e| e.with_context(ctx).try_into())
         .collect();
diff --git a/src/commands/stats_utils.rs b/src/commands/stats_utils.rs
index a1b22fb..2e6d21d 100644
--- a/src/commands/stats_utils.rs
+++ b/src/commands/stats_utils.rs
@@ -1,4 +1,4 @@
-use crate::functions::stat_fns::{stats_fn, stats_runtime_call};
+use crate::functions::stat_fns::{stats_fn, stats_runtime_call, unwrap_eval};
 use crate::pyspark::alias::Aliasable;
 use crate::pyspark::ast::*;
 use crate::pyspark::base::{PysparkTranspileContext, ToSparkExpr};
@@ -58,7 +58,7 @@ pub fn transform_stats_runtime_expr(
         ),
     };
     let alias = maybe_name.unwrap_or(name.clone());
-    let args: anyhow::Result<Vec<Expr>> = args
+    let args: anyhow::Result<Vec<Expr>> = unwrap_eval(&name, args)
         .into_iter()
         .map(|e| e.with_context(ctx).try_into())
         .collect();
diff --git a/src/functions/stat_fns.rs b/src/functions/stat_fns.rs
index f74bb8f..7d334e7 100644
--- a/src/functions/stat_fns.rs
+++ b/src/functions/stat_fns.rs
@@ -64,6 +64,48 @@ fn _as_call_and_alias(expr: &ast::Expr) -> Result<(ast::Call, Option<String>)> {
     }
 }
 
+/// Whether an expression is a condition rather than a value
+fn is_condition(expr: &ast::Expr) -> bool {
+    match expr {
+        ast::Expr::Unary(ast::Unary { symbol, .. }) => symbol == "NOT",
+        ast::Expr::Binary(ast::Binary { symbol, .. }) => matches!(
+            symbol.as_str(),
+            "=" | "==" | "!=" | "<" | "<=" | ">" | ">=" | "AND" | "OR"
+        ),
+        ast::Expr::Call(ast::Call { name, .. }) => matches!(
+            name.as_str(),
+            "cidrmatch" | "isnotnull" | "isnull" | "like" | "match" | "true" | "false"
+        ),
+        ast::Expr::FieldIn(_) => true,
+        _ => false,
+    }
+}
+
+/// Replaces arguments of the form `eval(...)` by the expression inside; `count` counts the rows
+/// for which a condition holds
+pub fn unwrap_eval(name: &str, args: Vec<ast::Expr>) -> Vec<ast::Expr> {
+    let call = |name: &str, args| ast::Call {
+        name: name.to_string(),
+        args,
+    };
+    args.into_iter()
+        .map(|arg| match arg {
+            ast::Expr::Call(ast::Call { name: eval, args })
+                if eval == "eval" && args.len() == 1 =>
+            {
+                let inner = args[0].clone();
+                if name == "count" && is_condition(&inner) {
+                    let null = call("null", vec![]).into();
+                    call("if", vec![inner, ast::IntValue::from(1).into(), null]).into()
+                } else {
+                    inner
+                }
+            }
+            arg => arg,
+        })
+        .collect()
+}
+
 pub fn stats_fn(
     expr: ast::Expr,
     df: DataFrame,
@@ -74,7 +116,10 @@ pub fn stats_fn(
         ast::Expr::Call(ast::Call { name, args }) => (name, args),
         _ => bail!("Expected a stats function call, got {:?}", expr),
     };
-    let args: Vec<_> = args.into_iter().map(|arg| arg.with_context(ctx)).collect();
+    let args: Vec<_> = unwrap_eval(&name, args)
+        .into_iter()
+        .map(|arg| arg.with_context(ctx))
+        .collect();
 
     // A dataframe aggregation takes columns only, so the runtime functions are not an option here
     let (df, expr) = stats_fn_bare(name, args, df)?;
-- 
2.43.0


From 156bc34279469948932bdbb0d66cfc49902f4bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:02 +0000
Subject: [PATCH 53/60] fix: fill missing numbers too in fillnull, and only
 with values that fit their type

---
 .../runtime/commands/fill_null.py              |  8 +++++---
 src/commands/cmd_fill_null/pyspark.rs          | 18 +++++++++++++-----
 2 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/python/spl_transpiler/runtime/commands/fill_null.py b/python/spl_transpiler/runtime/commands/fill_null.py
index 9a57f4d..43528a1 100644
--- a/python/spl_transpiler/runtime/commands/fill_null.py
+++ b/python/spl_transpiler/runtime/commands/fill_null.py
@@ -13,11 +13,13 @@ def fill_null(
     fields = fields if fields is not None else list(type_map)
 
     for field in fields:
+        if type_map[field].startswith(("array", "map", "struct")):
+            continue
+        # A value that does not fit the type of a column leaves the column as it is
+        fill_value = F.lit(value).try_cast(type_map[field])
         df = df.withColumn(
             field,
-            F.when(F.col(field).isNull(), F.lit(value).cast(type_map[field])).otherwise(
-                F.col(field)
-            ),
+            F.when(F.col(field).isNull(), fill_value).otherwise(F.col(field)),
         )
 
     return df
diff --git a/src/commands/cmd_fill_null/pyspark.rs b/src/commands/cmd_fill_null/pyspark.rs
index 8e9a3ec..887ad05 100644
--- a/src/commands/cmd_fill_null/pyspark.rs
+++ b/src/commands/cmd_fill_null/pyspark.rs
@@ -25,18 +25,26 @@ impl PipelineTransformer for FillNullCommand {
         &self,
         state: PipelineTransformState,
     ) -> anyhow::Result<PipelineTransformState> {
-        let df = state.df.clone().unwrap_or_default();
+        let mut df = state.df.clone().unwrap_or_default();
 
-        let mut params: Vec<Expr> = vec![column_like!(py_lit(self.value.clone())).into()];
-        if let Some(fields) = &self.fields {
+        let fields: Option<Expr> = self.fields.as_ref().map(|fields| {
             let names = fields
                 .iter()
                 .map(|f| PyLiteral::from(f.0.clone()).0)
                 .collect::<Vec<_>>()
                 .join(", ");
-            params.push(PyLiteral(format!("[{}]", names)).into());
+            PyLiteral(format!("[{}]", names)).into()
+        });
+
+        // PySpark fills only columns of the type of the value
+        let mut values: Vec<Expr> = vec![column_like!(py_lit(self.value.clone())).into()];
+        if let Ok(number) = self.value.parse::<i64>() {
+            values.push(column_like!(py_lit(number)).into());
+        }
+        for value in values {
+            let params = [Some(value), fields.clone()].into_iter().flatten().collect();
+            df = df.arbitrary_method("fillna", params);
         }
-        let df = df.arbitrary_method("fillna", params);
 
         Ok(state.with_df(df))
     }
-- 
2.43.0


From 1410b82e63c15f09039386dbc4474a0605ef622d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:29 +0000
Subject: [PATCH 54/60] fix: order the values of values() in the runtime
 library

---
 python/spl_transpiler/runtime/functions/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/spl_transpiler/runtime/functions/stats.py b/python/spl_transpiler/runtime/functions/stats.py
index b56e11d..05d9503 100644
--- a/python/spl_transpiler/runtime/functions/stats.py
+++ b/python/spl_transpiler/runtime/functions/stats.py
@@ -459,7 +459,7 @@ class ValuesStatsFn(StatsFunction):
     value: Expr
 
     def to_pyspark_expr_simple(self):
-        return F.collect_set(self.value.to_pyspark_expr())
+        return F.sort_array(F.collect_set(self.value.to_pyspark_expr()))
 
 
 @enforce_types
-- 
2.43.0


From 43be80184cca193fc8a9f6074628c10f02778b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:49 +0000
Subject: [PATCH 55/60] fix: compare expressions in where, not fields with text

---
 src/commands/cmd_where/spl.rs | 56 ++++++++++++++++++++++++++++++++---
 1 file changed, 52 insertions(+), 4 deletions(-)

diff --git a/src/commands/cmd_where/spl.rs b/src/commands/cmd_where/spl.rs
index edad280..c8b06b4 100644
--- a/src/commands/cmd_where/spl.rs
+++ b/src/commands/cmd_where/spl.rs
@@ -1,8 +1,16 @@
 use crate::commands::spl::{SplCommand, SplCommandOptions};
-use crate::spl::ast::{Expr, ParsedCommandOptions};
-use crate::spl::parser::logical_expression;
+use crate::spl::ast::{Binary, Expr, ParsedCommandOptions, Unary};
+use crate::spl::operators::{self, OperatorSymbolTrait};
+use crate::spl::parser::{
+    combine_all_expressions, comparison_operator, expr5, logical_expression_term, parenthesized,
+    time_opts, ws,
+};
 use crate::spl::python::*;
-use nom::combinator::map;
+use nom::branch::alt;
+use nom::character::complete::{multispace0, multispace1, one_of};
+use nom::combinator::{map, not, peek};
+use nom::multi::separated_list1;
+use nom::sequence::{preceded, terminated, tuple};
 use nom::IResult;
 use pyo3::prelude::*;
 //   // where <predicate-expression>
@@ -30,12 +38,52 @@ impl TryFrom<ParsedCommandOptions> for WhereCommandOptions {
     }
 }
 
+/// Combines comparisons like a search does, but both sides of a comparison are expressions
+fn predicate(input: &str) -> IResult<&str, Expr> {
+    map(
+        separated_list1(ws(operators::Or::pattern), predicate_group),
+        |exprs| combine_all_expressions(exprs, operators::Or::SYMBOL).unwrap(),
+    )(input)
+}
+
+fn predicate_group(input: &str) -> IResult<&str, Expr> {
+    map(
+        separated_list1(
+            alt((ws(operators::keyword("AND")), multispace1)),
+            predicate_term,
+        ),
+        |exprs| combine_all_expressions(exprs, operators::And::SYMBOL).unwrap(),
+    )(input)
+}
+
+fn predicate_term(input: &str) -> IResult<&str, Expr> {
+    alt((
+        // Parentheses may also belong to the left side of a comparison
+        terminated(
+            parenthesized(predicate),
+            not(peek(preceded(multispace0, one_of("+-*/.=<>!")))),
+        ),
+        map(
+            preceded(ws(operators::UnaryNot::pattern), predicate_term),
+            |expr| Unary::new(operators::UnaryNot::SYMBOL, expr).into(),
+        ),
+        map(time_opts, |opts| {
+            combine_all_expressions(opts, operators::Or::SYMBOL).unwrap()
+        }),
+        map(
+            tuple((expr5, ws(comparison_operator), expr5)),
+            |(left, symbol, right)| Binary::new(left, symbol.symbol_string(), right).into(),
+        ),
+        logical_expression_term,
+    ))(input)
+}
+
 impl SplCommand<WhereCommand> for WhereParser {
     type RootCommand = crate::commands::WhereCommandRoot;
     type Options = WhereCommandOptions;
 
     fn parse_body(input: &str) -> IResult<&str, WhereCommand> {
-        map(logical_expression, |v| WhereCommand { expr: v })(input)
+        map(predicate, |v| WhereCommand { expr: v })(input)
     }
 }
 
-- 
2.43.0


From e698f1003813837a2fc7ed2bba193c2a49e60d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:41 +0000
Subject: [PATCH 56/60] fix: take quoted names before a comparison for fields
 in a search

---
 src/commands/cmd_search/pyspark.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/commands/cmd_search/pyspark.rs b/src/commands/cmd_search/pyspark.rs
index 279295c..b10c35a 100644
--- a/src/commands/cmd_search/pyspark.rs
+++ b/src/commands/cmd_search/pyspark.rs
@@ -62,7 +62,8 @@ fn split_conditions(
     }
 }
 
-/// The right-hand side of a comparison in a search is always a value, even without quotes
+/// In a search, the left-hand side of a comparison is always a field, even with quotes, and the
+/// right-hand side is always a value, even without
 fn compare_with_values(expr: &ast::Expr) -> ast::Expr {
     match expr.clone() {
         ast::Expr::Binary(ast::Binary {
@@ -80,7 +81,13 @@ fn compare_with_values(expr: &ast::Expr) -> ast::Expr {
                 )))) if is_comparison => ast::StrValue(value).into(),
                 right => compare_with_values(&right),
             };
-            ast::Binary::new(compare_with_values(&left), symbol, right).into()
+            let left = match *left {
+                ast::Expr::Leaf(ast::LeafExpr::Constant(ast::Constant::Str(ast::StrValue(
+                    name,
+                )))) if is_comparison => ast::Field(name).into(),
+                left => compare_with_values(&left),
+            };
+            ast::Binary::new(left, symbol, right).into()
         }
         ast::Expr::Unary(ast::Unary { symbol, right }) => {
             ast::Unary::new(symbol, compare_with_values(&right)).into()
@@ -240,10 +247,11 @@ impl PipelineTransformer for SearchCommand {
         state: PipelineTransformState,
     ) -> Result<PipelineTransformState> {
         let mut indices = HashSet::new();
+        let expr = compare_with_values(&self.expr);
         let condition_expr = match state.df {
             // Only the first search of a pipeline selects indices, later ones filter its rows
-            Some(_) => Some(self.expr.clone()),
-            None => split_conditions(&self.expr, true, &mut indices, &state.ctx)?,
+            Some(_) => Some(expr),
+            None => split_conditions(&expr, true, &mut indices, &state.ctx)?,
         };
         let mut df = if !indices.is_empty() {
             let mut _df: Option<DataFrame> = None;
@@ -264,7 +272,7 @@ impl PipelineTransformer for SearchCommand {
         df = match condition_expr {
             None => df,
             Some(condition) => {
-                let condition: Expr = compare_with_values(&condition).with_context(&state.ctx).try_into()?;
+                let condition: Expr = condition.with_context(&state.ctx).try_into()?;
                 df.where_(condition.into_search_expr())
             }
         };
-- 
2.43.0


From 9052f6e5d77bc6c23d3a4a0fb5fac5ad1c05b5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:41 +0000
Subject: [PATCH 57/60] fix: accept the join types inner and outer and the
 option limit of top

---
 src/commands/cmd_join/pyspark.rs |  4 ++--
 src/spl/parser.rs                | 11 ++++++++++-
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/commands/cmd_join/pyspark.rs b/src/commands/cmd_join/pyspark.rs
index 2f3c50a..8544a44 100644
--- a/src/commands/cmd_join/pyspark.rs
+++ b/src/commands/cmd_join/pyspark.rs
@@ -28,8 +28,8 @@ impl PipelineTransformer for JoinCommand {
 
         let join_type = match self.join_type.clone().as_str() {
             "inner" => "inner",
-            "left" => "left",
-            "outer" => "outer",
+            // Rows of the subsearch only come with matching rows, unlike in a full outer join
+            "left" | "outer" => "left",
             _ => bail!("Unsupported join type: {}", self.join_type),
         };
 
diff --git a/src/spl/parser.rs b/src/spl/parser.rs
index 43d012f..509e215 100644
--- a/src/spl/parser.rs
+++ b/src/spl/parser.rs
@@ -692,7 +692,16 @@ pub fn field_and_value(input: &str) -> IResult<&str, ast::FV> {
 
 //   def fieldAndConstant[_: P]: P[FC] = (token ~ "=" ~ constant) map { case (k, v) => FC(k, v) }
 pub fn field_and_constant(input: &str) -> IResult<&str, ast::FC> {
-    map(separated_pair(token, ws(tag("=")), constant), |(k, v)| {
+    // Some options and their values share their name with a keyword
+    let name = alt((token, terminated(tag_no_case("limit"), peek(ws(tag("="))))));
+    let setting = alt((
+        constant,
+        map(
+            alt((operators::keyword("INNER"), operators::keyword("OUTER"))),
+            |s: &str| ast::Field(s.to_ascii_lowercase()).into(),
+        ),
+    ));
+    map(separated_pair(name, ws(tag("=")), setting), |(k, v)| {
         ast::FC {
             field: k.into(),
             value: v,
-- 
2.43.0


From 099bb5873b1f426a72c68b72e329a12d1b440dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:38 +0000
Subject: [PATCH 58/60] fix: take the option limit of top in any case

---
 src/spl/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spl/parser.rs b/src/spl/parser.rs
index 509e215..22c41b1 100644
--- a/src/spl/parser.rs
+++ b/src/spl/parser.rs
@@ -693,7 +693,7 @@ pub fn field_and_value(input: &str) -> IResult<&str, ast::FV> {
 //   def fieldAndConstant[_: P]: P[FC] = (token ~ "=" ~ constant) map { case (k, v) => FC(k, v) }
 pub fn field_and_constant(input: &str) -> IResult<&str, ast::FC> {
     // Some options and their values share their name with a keyword
-    let name = alt((token, terminated(tag_no_case("limit"), peek(ws(tag("="))))));
+    let name = alt((token, value("limit", tag_no_case("limit"))));
     let setting = alt((
         constant,
         map(
-- 
2.43.0


From e6560e69b900d5c72eff1df8d14519f98ed80363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:38 +0000
Subject: [PATCH 59/60] fix: take parentheses in where only for whole
 conditions

---
 src/commands/cmd_where/spl.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/commands/cmd_where/spl.rs b/src/commands/cmd_where/spl.rs
index c8b06b4..dd9aa6d 100644
--- a/src/commands/cmd_where/spl.rs
+++ b/src/commands/cmd_where/spl.rs
@@ -2,13 +2,13 @@ use crate::commands::spl::{SplCommand, SplCommandOptions};
 use crate::spl::ast::{Binary, Expr, ParsedCommandOptions, Unary};
 use crate::spl::operators::{self, OperatorSymbolTrait};
 use crate::spl::parser::{
-    combine_all_expressions, comparison_operator, expr5, logical_expression_term, parenthesized,
-    time_opts, ws,
+    call, combine_all_expressions, comparison_expression, comparison_operator, expr5,
+    parenthesized, search_modifier, time_opts, ws,
 };
 use crate::spl::python::*;
 use nom::branch::alt;
 use nom::character::complete::{multispace0, multispace1, one_of};
-use nom::combinator::{map, not, peek};
+use nom::combinator::{into, map, not, peek};
 use nom::multi::separated_list1;
 use nom::sequence::{preceded, terminated, tuple};
 use nom::IResult;
@@ -74,7 +74,9 @@ fn predicate_term(input: &str) -> IResult<&str, Expr> {
             tuple((expr5, ws(comparison_operator), expr5)),
             |(left, symbol, right)| Binary::new(left, symbol.symbol_string(), right).into(),
         ),
-        logical_expression_term,
+        into(call),
+        comparison_expression,
+        search_modifier,
     ))(input)
 }
 
-- 
2.43.0


From 3cdc5be1854d83f60a4510175fbaa4ed479dee3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:37 +0000
Subject: [PATCH 60/60] fix: write the array positions of an spath path as JSON
 paths do

SPL counts the elements of an array as items{0}; get_json_object knows
items[0] only and returned null for every such path.
---
 src/commands/cmd_s_path/pyspark.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/commands/cmd_s_path/pyspark.rs b/src/commands/cmd_s_path/pyspark.rs
index 6346504..9f8b6a4 100644
--- a/src/commands/cmd_s_path/pyspark.rs
+++ b/src/commands/cmd_s_path/pyspark.rs
@@ -1,6 +1,13 @@
 use super::spl::*;
 use crate::pyspark::ast::*;
 use crate::pyspark::transpiler::{PipelineTransformState, PipelineTransformer};
+use regex::Regex;
+
+/// SPL writes the position in a JSON array as `{n}`, a JSON path as `[n]`; both count from zero.
+fn json_path(path: &str) -> String {
+    let position = Regex::new(r"\{([0-9]+)\}").unwrap();
+    format!("$.{}", position.replace_all(path, "[$1]"))
+}
 
 impl PipelineTransformer for SPathCommand {
     fn transform_standalone(
@@ -15,7 +22,7 @@ impl PipelineTransformer for SPathCommand {
             output_name,
             column_like!(get_json_object(
                 [col(self.input.clone())],
-                [py_lit(format!("$.{}", self.path.clone()))]
+                [py_lit(json_path(&self.path))]
             )),
         );
 
-- 
2.43.0

