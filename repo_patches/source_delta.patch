From 08a9f3672813eb39f8fc5e08e291f36f9091bc51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:59 +0000
Subject: [PATCH 01/54] fix: quote reserved column names in comparisons and in
 RETURNING

---
 butane_core/src/db/helper.rs | 27 ++++++++++++++++++---------
 butane_core/src/db/pg.rs     |  7 ++++++-
 2 files changed, 24 insertions(+), 10 deletions(-)

diff --git a/butane_core/src/db/helper.rs b/butane_core/src/db/helper.rs
index b141d48..b86f20e 100644
--- a/butane_core/src/db/helper.rs
+++ b/butane_core/src/db/helper.rs
@@ -55,18 +55,27 @@ where
         Condition(c) => match *c {
             True => write!(w, "TRUE"),
             Eq(col, ex) => match ex {
-                Expr::Val(SqlVal::Null) => write!(w, "{col} IS NULL"),
-                _ => write!(w, "{col} = ").and_then(|_| Ok(f(ex, values, pls, w))),
+                Expr::Val(SqlVal::Null) => write!(w, "{} IS NULL", quote_reserved_word(col)),
+                _ => write!(w, "{} = ", quote_reserved_word(col))
+                    .and_then(|_| Ok(f(ex, values, pls, w))),
             },
             Ne(col, ex) => match ex {
-                Expr::Val(SqlVal::Null) => write!(w, "{col} IS NOT NULL"),
-                _ => write!(w, "{col} <> ").and_then(|_| Ok(f(ex, values, pls, w))),
+                Expr::Val(SqlVal::Null) => write!(w, "{} IS NOT NULL", quote_reserved_word(col)),
+                _ => write!(w, "{} <> ", quote_reserved_word(col))
+                    .and_then(|_| Ok(f(ex, values, pls, w))),
             },
-            Lt(col, ex) => write!(w, "{col} < ").and_then(|_| Ok(f(ex, values, pls, w))),
-            Gt(col, ex) => write!(w, "{col} > ").and_then(|_| Ok(f(ex, values, pls, w))),
-            Le(col, ex) => write!(w, "{col} <= ").and_then(|_| Ok(f(ex, values, pls, w))),
-            Ge(col, ex) => write!(w, "{col} >= ").and_then(|_| Ok(f(ex, values, pls, w))),
-            Like(col, ex) => write!(w, "{col} like ").and_then(|_| Ok(f(ex, values, pls, w))),
+            Lt(col, ex) => {
+                write!(w, "{} < ", quote_reserved_word(col)).and_then(|_| Ok(f(ex, values, pls, w)))
+            }
+            Gt(col, ex) => {
+                write!(w, "{} > ", quote_reserved_word(col)).and_then(|_| Ok(f(ex, values, pls, w)))
+            }
+            Le(col, ex) => write!(w, "{} <= ", quote_reserved_word(col))
+                .and_then(|_| Ok(f(ex, values, pls, w))),
+            Ge(col, ex) => write!(w, "{} >= ", quote_reserved_word(col))
+                .and_then(|_| Ok(f(ex, values, pls, w))),
+            Like(col, ex) => write!(w, "{} like ", quote_reserved_word(col))
+                .and_then(|_| Ok(f(ex, values, pls, w))),
             AllOf(conds) => {
                 let mut remaining = conds.len();
                 for cond in conds {
diff --git a/butane_core/src/db/pg.rs b/butane_core/src/db/pg.rs
index ce1accb..1d05621 100644
--- a/butane_core/src/db/pg.rs
+++ b/butane_core/src/db/pg.rs
@@ -241,7 +241,12 @@ where
             &mut PgPlaceholderSource::new(),
             &mut sql,
         );
-        write!(&mut sql, " RETURNING {}", pkcol.name()).unwrap();
+        write!(
+            &mut sql,
+            " RETURNING {}",
+            helper::quote_reserved_word(pkcol.name())
+        )
+        .unwrap();
         if cfg!(feature = "log") {
             debug!("insert sql {sql}");
         }
-- 
2.43.0


From 87995494db73e6e9dabdca7a33797d302f705eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:59 +0000
Subject: [PATCH 02/54] fix: removing a value from a Many no longer removes it
 from other owners

---
 butane_core/src/many.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/butane_core/src/many.rs b/butane_core/src/many.rs
index 17de3bd..5adb748 100644
--- a/butane_core/src/many.rs
+++ b/butane_core/src/many.rs
@@ -260,7 +260,13 @@ impl<T: DataObject> ManyOps<T> for Many<T> {
         if !self.removed_values.is_empty() {
             conn.delete_where(
                 &self.item_table,
-                BoolExpr::In("has", std::mem::take(&mut self.removed_values)),
+                BoolExpr::And(
+                    Box::new(BoolExpr::Eq("owner", Expr::Val(owner.clone()))),
+                    Box::new(BoolExpr::In(
+                        "has",
+                        std::mem::take(&mut self.removed_values),
+                    )),
+                ),
             )
             .await?;
         }
-- 
2.43.0


From 05cb6f0505a2bc538ae5d59de0d56b1bd80d5285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:59 +0000
Subject: [PATCH 03/54] fix: preserve the structure of nested boolean
 expressions in SQL

---
 butane_core/src/db/helper.rs | 43 +++++++++++++++++++++++++++++++-----
 1 file changed, 37 insertions(+), 6 deletions(-)

diff --git a/butane_core/src/db/helper.rs b/butane_core/src/db/helper.rs
index b86f20e..9739120 100644
--- a/butane_core/src/db/helper.rs
+++ b/butane_core/src/db/helper.rs
@@ -76,11 +76,12 @@ where
                 .and_then(|_| Ok(f(ex, values, pls, w))),
             Like(col, ex) => write!(w, "{} like ", quote_reserved_word(col))
                 .and_then(|_| Ok(f(ex, values, pls, w))),
+            AllOf(conds) if conds.is_empty() => write!(w, "TRUE"),
             AllOf(conds) => {
                 let mut remaining = conds.len();
                 for cond in conds {
                     // future perf improvement: figure out a clean way to avoid the extra boxing
-                    f(Condition(Box::new(cond)), values, pls, w);
+                    sql_for_operand(Box::new(cond), &f, values, pls, w);
                     if remaining > 1 {
                         write!(w, " AND ").unwrap();
                         remaining -= 1;
@@ -89,18 +90,22 @@ where
                 Ok(())
             }
             And(a, b) => {
-                f(Condition(a), values, pls, w);
+                sql_for_operand(a, &f, values, pls, w);
                 write!(w, " AND ").unwrap();
-                f(Condition(b), values, pls, w);
+                sql_for_operand(b, &f, values, pls, w);
                 Ok(())
             }
             Or(a, b) => {
-                f(Condition(a), values, pls, w);
+                sql_for_operand(a, &f, values, pls, w);
                 write!(w, " OR ").unwrap();
-                f(Condition(b), values, pls, w);
+                sql_for_operand(b, &f, values, pls, w);
+                Ok(())
+            }
+            Not(a) => {
+                write!(w, "NOT ").unwrap();
+                sql_for_operand(a, &f, values, pls, w);
                 Ok(())
             }
-            Not(a) => write!(w, "NOT ").and_then(|_| Ok(f(Condition(a), values, pls, w))),
             Subquery {
                 col,
                 tbl2,
@@ -136,6 +141,8 @@ where
                 write!(w, ")").unwrap();
                 Ok(())
             }
+            // `IN ()` is not valid SQL on all backends
+            In(_, vals) if vals.is_empty() => write!(w, "FALSE"),
             In(col, vals) => {
                 write!(w, "{} IN (", quote_reserved_word(col)).unwrap();
                 let mut remaining = vals.len();
@@ -153,6 +160,30 @@ where
     .unwrap()
 }
 
+/// Writes to `w` the SQL for `operand`, which is an operand of a logical operator.
+///
+/// Compound conditions are parenthesized so that the structure of the
+/// expression doesn't depend on SQL operator precedence.
+fn sql_for_operand<F, P, W>(
+    operand: Box<query::BoolExpr>,
+    f: &F,
+    values: &mut Vec<SqlVal>,
+    pls: &mut P,
+    w: &mut W,
+) where
+    F: Fn(Expr, &mut Vec<SqlVal>, &mut P, &mut W),
+    P: PlaceholderSource,
+    W: Write,
+{
+    if matches!(*operand, AllOf(_) | And(_, _) | Or(_, _) | Not(_)) {
+        write!(w, "(").unwrap();
+        f(Condition(operand), values, pls, w);
+        write!(w, ")").unwrap();
+    } else {
+        f(Condition(operand), values, pls, w);
+    }
+}
+
 pub fn sql_select(columns: &[Column], table: &str, w: &mut impl Write) {
     write!(w, "SELECT ").unwrap();
     list_columns(columns, w);
-- 
2.43.0


From ea2d2432b9f675e088714ea5b6ca2679091f1135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:59 +0000
Subject: [PATCH 04/54] fix: allow more than 127 placeholders in a PostgreSQL
 query

---
 butane_core/src/db/pg.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/butane_core/src/db/pg.rs b/butane_core/src/db/pg.rs
index 1d05621..79fa739 100644
--- a/butane_core/src/db/pg.rs
+++ b/butane_core/src/db/pg.rs
@@ -940,7 +940,7 @@ fn pgtype_for_val(val: &SqlVal) -> postgres::types::Type {
 
 #[derive(Debug)]
 struct PgPlaceholderSource {
-    n: i8,
+    n: u32,
 }
 impl PgPlaceholderSource {
     fn new() -> Self {
-- 
2.43.0


From dbbae49ba9b953d5ba2d4ade90448c13a789da1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:10 +0000
Subject: [PATCH 05/54] fix: write text, date, timestamp and JSON default
 values as valid literals

---
 butane_core/src/db/helper.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/butane_core/src/db/helper.rs b/butane_core/src/db/helper.rs
index 9739120..a16a7cd 100644
--- a/butane_core/src/db/helper.rs
+++ b/butane_core/src/db/helper.rs
@@ -339,6 +339,11 @@ pub(crate) fn sql_column(col: query::Column, w: &mut impl Write) {
     .unwrap()
 }
 
+/// Quotes `val` as a SQL string literal.
+fn quote_literal(val: &str) -> String {
+    format!("'{}'", val.replace('\'', "''"))
+}
+
 pub fn sql_literal_value(val: &SqlVal) -> Result<String> {
     use SqlVal::*;
     match val {
@@ -347,14 +352,14 @@ pub fn sql_literal_value(val: &SqlVal) -> Result<String> {
         Int(val) => Ok(val.to_string()),
         BigInt(val) => Ok(val.to_string()),
         Real(val) => Ok(val.to_string()),
-        Text(val) => Ok(format!("'{val}'")),
+        Text(val) => Ok(quote_literal(val)),
         Blob(val) => Ok(format!("x'{}'", hex::encode_upper(val))),
         #[cfg(feature = "json")]
-        Json(val) => Ok(format!("{val}")),
+        Json(val) => Ok(quote_literal(&val.to_string())),
         #[cfg(feature = "datetime")]
-        Date(val) => Ok(format!("'{}'", val.format("'%Y-%m-%d'"))),
+        Date(val) => Ok(val.format("'%Y-%m-%d'").to_string()),
         #[cfg(feature = "datetime")]
-        Timestamp(ndt) => Ok(ndt.format("'%Y-%m-%dT%H:%M:%S%.f'").to_string()),
+        Timestamp(ndt) => Ok(ndt.format("'%Y-%m-%d %H:%M:%S%.f'").to_string()),
         #[cfg(feature = "pg")]
         Custom(val) => Err(Error::LiteralForCustomUnsupported(*(*val).clone())),
     }
-- 
2.43.0


From b35e82027b0cd6703bed7d9acb87b62e4ca21fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:10 +0000
Subject: [PATCH 06/54] fix: write blob default values as bytea literals for
 PostgreSQL

---
 butane_core/src/db/pg.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/butane_core/src/db/pg.rs b/butane_core/src/db/pg.rs
index 79fa739..a2079b3 100644
--- a/butane_core/src/db/pg.rs
+++ b/butane_core/src/db/pg.rs
@@ -738,13 +738,21 @@ fn drop_table(name: &str) -> String {
     format!("DROP TABLE {};", helper::quote_reserved_word(name))
 }
 
+fn sql_literal_value(val: &SqlVal) -> Result<String> {
+    match val {
+        // x'..' is a bit string rather than a bytea
+        SqlVal::Blob(val) => Ok(format!("'\\x{}'", hex::encode(val))),
+        _ => helper::sql_literal_value(val),
+    }
+}
+
 fn add_column(tbl_name: &str, col: &AColumn) -> Result<String> {
     let default: SqlVal = helper::column_default(col)?;
     let mut stmts = vec![format!(
         "ALTER TABLE {} ADD COLUMN {} DEFAULT {};",
         helper::quote_reserved_word(tbl_name),
         define_column(col)?,
-        helper::sql_literal_value(&default)?
+        sql_literal_value(&default)?
     )];
     if col.reference().is_some() {
         stmts.push(define_fkey_constraint(tbl_name, col));
@@ -847,7 +855,7 @@ fn change_column(table: &ATable, old: &AColumn, new: &AColumn) -> Result<String>
                 "ALTER TABLE {} ALTER COLUMN {} SET DEFAULT {};",
                 quote_reserved_word(tbl_name),
                 quote_reserved_word(old.name()),
-                helper::sql_literal_value(val)?
+                sql_literal_value(val)?
             ),
         });
     }
-- 
2.43.0


From d75a8568d96d8dd7a3fdd688d6abe5eae6772633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:26 +0000
Subject: [PATCH 07/54] fix: evaluate nested and delete-by-query subqueries on
 turso

---
 butane_core/src/db/turso.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/butane_core/src/db/turso.rs b/butane_core/src/db/turso.rs
index 38635c5..e8d518c 100644
--- a/butane_core/src/db/turso.rs
+++ b/butane_core/src/db/turso.rs
@@ -218,6 +218,8 @@ impl TursoConnection {
         tbl2_col: &'static str,
         inner_expr: Box<BoolExpr>,
     ) -> Result<BoolExpr> {
+        // The inner expression may itself contain subqueries
+        let inner_expr = Box::new(Box::pin(self.transform_subqueries(*inner_expr)).await?);
         let mut sql = format!(
             "SELECT DISTINCT {} FROM {} WHERE ",
             helper::quote_reserved_word(tbl2_col),
@@ -244,6 +246,8 @@ impl TursoConnection {
         joins: Vec<query::Join>,
         inner_expr: Box<BoolExpr>,
     ) -> Result<BoolExpr> {
+        // The inner expression may itself contain subqueries
+        let inner_expr = Box::new(Box::pin(self.transform_subqueries(*inner_expr)).await?);
         let mut sql = String::new();
         write!(&mut sql, "SELECT DISTINCT ").unwrap();
         helper::sql_column(col2, &mut sql);
@@ -544,6 +548,9 @@ impl ConnectionMethods for TursoConnection {
     }
 
     async fn delete_where(&self, table: &str, expr: BoolExpr) -> Result<usize> {
+        // Transform Subquery expressions since Turso doesn't support them
+        let expr = self.transform_subqueries(expr).await?;
+
         let mut sql = format!("DELETE FROM {}", helper::quote_reserved_word(table));
         let mut values: Vec<SqlVal> = Vec::new();
         sql.write_str(" WHERE ").unwrap();
-- 
2.43.0


From 27b4dab00f5da162c1678d247d16a741ee412e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:32 +0000
Subject: [PATCH 08/54] fix: don't split turso statements inside quoted
 literals

---
 butane_core/src/db/turso.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/butane_core/src/db/turso.rs b/butane_core/src/db/turso.rs
index e8d518c..11f0f0d 100644
--- a/butane_core/src/db/turso.rs
+++ b/butane_core/src/db/turso.rs
@@ -329,7 +329,7 @@ impl ConnectionMethods for TursoConnection {
         }
         // Turso doesn't have execute_batch, so we need to execute statements one by one
         // Split on semicolons and execute each statement separately
-        for statement in sql.split(';').map(str::trim).filter(|s| !s.is_empty()) {
+        for statement in split_statements(sql) {
             self.conn()?
                 .execute(statement, ())
                 .await
@@ -758,6 +758,21 @@ impl<'c> Drop for TursoTransaction<'c> {
     }
 }
 
+/// Splits `sql` into statements on the semicolons which are not inside a quoted literal or identifier.
+fn split_statements(sql: &str) -> impl Iterator<Item = &str> {
+    let mut quote: Option<char> = None;
+    sql.split(move |c: char| {
+        match quote {
+            Some(q) if c == q => quote = None,
+            None if c == '\'' || c == '"' => quote = Some(c),
+            _ => (),
+        }
+        c == ';' && quote.is_none()
+    })
+    .map(str::trim)
+    .filter(|s| !s.is_empty())
+}
+
 // Value conversion functions
 fn sqlval_to_turso(val: &SqlValRef<'_>) -> turso::Value {
     use SqlValRef::*;
-- 
2.43.0


From 51dc090c75c66e0cd5ea9dd05e972d88cc57211d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:28 +0000
Subject: [PATCH 09/54] fix: load_first returns nothing for a query limited to
 zero rows

---
 butane_core/src/query/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/butane_core/src/query/mod.rs b/butane_core/src/query/mod.rs
index 9c3dd12..06ef734 100644
--- a/butane_core/src/query/mod.rs
+++ b/butane_core/src/query/mod.rs
@@ -276,7 +276,9 @@ pub trait QueryOps<T> {
 )]
 impl<T: DataResult> QueryOps<T> for Query<T> {
     async fn load_first(self, conn: &impl ConnectionMethods) -> Result<Option<T>> {
-        QueryOpsInternal::fetch(self, conn, Some(1))
+        // A query limited to no rows has no first row.
+        let limit = self.limit.map_or(1, |lim| lim.min(1));
+        QueryOpsInternal::fetch(self, conn, Some(limit))
             .await?
             .mapped(T::from_row)
             .nth(0)
-- 
2.43.0


From 01557bf516d7e66ed0f4abca5301668982543db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:12 +0000
Subject: [PATCH 10/54] fix: give turso membership tests SQL's three-valued
 result

---
 butane_core/src/db/turso.rs | 43 ++++++++++++++++++++++++++++++++++++-
 1 file changed, 42 insertions(+), 1 deletion(-)

diff --git a/butane_core/src/db/turso.rs b/butane_core/src/db/turso.rs
index 11f0f0d..0d04043 100644
--- a/butane_core/src/db/turso.rs
+++ b/butane_core/src/db/turso.rs
@@ -1241,7 +1241,48 @@ fn sql_for_expr(
 ) {
     // Subqueries should already be transformed by transform_subqueries before reaching here
     // So we can just use the default helper implementation
-    helper::sql_for_expr(expr, sql_for_expr, values, placeholder_source, out)
+    match expr {
+        query::Expr::Condition(cond) if matches!(&*cond, BoolExpr::In(_, vals) if !vals.is_empty()) =>
+        {
+            let BoolExpr::In(col, vals) = *cond else {
+                unreachable!()
+            };
+            sql_for_in(col, vals, values, placeholder_source, out)
+        }
+        expr => helper::sql_for_expr(expr, sql_for_expr, values, placeholder_source, out),
+    }
+}
+
+/// Write a membership test. Turso considers NULL to be a member of every list, and a list which contains NULL to
+/// have every member, so both must be kept away from its `IN` operator to get SQL's three-valued result.
+fn sql_for_in(
+    col: &'static str,
+    vals: Vec<SqlVal>,
+    values: &mut Vec<SqlVal>,
+    placeholder_source: &mut TursoPlaceholderSource,
+    out: &mut impl Write,
+) {
+    let (nulls, vals): (Vec<SqlVal>, Vec<SqlVal>) =
+        vals.into_iter().partition(|v| matches!(v, SqlVal::Null));
+    if vals.is_empty() {
+        out.write_str("NULL").unwrap();
+        return;
+    }
+    write!(
+        out,
+        "CASE WHEN {} IS NULL THEN NULL WHEN ",
+        helper::quote_reserved_word(col)
+    )
+    .unwrap();
+    helper::sql_for_expr(
+        query::Expr::Condition(Box::new(BoolExpr::In(col, vals))),
+        sql_for_expr,
+        values,
+        placeholder_source,
+        out,
+    );
+    let otherwise = if nulls.is_empty() { "FALSE" } else { "NULL" };
+    write!(out, " THEN TRUE ELSE {otherwise} END").unwrap();
 }
 
 #[derive(Debug)]
-- 
2.43.0


From 893d2f01f11d3fc7d71756e2f3f1ad45094da3a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:39 +0000
Subject: [PATCH 11/54] fix: keep relation table columns out of scope of
 many-to-many filters

---
 butane_core/src/query/fieldexpr.rs | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/butane_core/src/query/fieldexpr.rs b/butane_core/src/query/fieldexpr.rs
index f2c3f70..081647a 100644
--- a/butane_core/src/query/fieldexpr.rs
+++ b/butane_core/src/query/fieldexpr.rs
@@ -4,7 +4,7 @@ use std::borrow::{Borrow, Cow};
 use std::marker::PhantomData;
 
 use crate::fkey::ForeignKey;
-use crate::query::{BoolExpr, Column, Expr, Join};
+use crate::query::{BoolExpr, Expr};
 use crate::sqlval::{FieldType, SqlVal, ToSql};
 use crate::DataObject;
 
@@ -120,16 +120,18 @@ where
         }
     }
     pub fn contains(&self, q: BoolExpr) -> BoolExpr {
-        BoolExpr::SubqueryJoin {
+        // Nested rather than joined so that `q` only sees the columns of `T` and
+        // not those of the relation table.
+        BoolExpr::Subquery {
             col: O::PKCOL,
-            tbl2: Cow::Borrowed(T::TABLE),
-            col2: Column::new(self.many_table, "owner"),
-            joins: vec![Join::Inner {
-                join_table: self.many_table,
-                col1: Column::new(self.many_table, "has"),
-                col2: Column::new(T::TABLE, T::PKCOL),
-            }],
-            expr: Box::new(q),
+            tbl2: Cow::Borrowed(self.many_table),
+            tbl2_col: "owner",
+            expr: Box::new(BoolExpr::Subquery {
+                col: "has",
+                tbl2: Cow::Borrowed(T::TABLE),
+                tbl2_col: T::PKCOL,
+                expr: Box::new(q),
+            }),
         }
     }
     pub fn containspk(&self, pk: impl Borrow<<T::PKType as FieldType>::RefType>) -> BoolExpr {
-- 
2.43.0


From 69cc883f6cfbe856cdfb920ce10bf415246f36e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:11 +0000
Subject: [PATCH 12/54] fix: load each value of a Many once, including unsaved
 additions

---
 butane_core/src/many.rs | 52 +++++++++++------------------------------
 1 file changed, 14 insertions(+), 38 deletions(-)

diff --git a/butane_core/src/many.rs b/butane_core/src/many.rs
index 5adb748..8df06a4 100644
--- a/butane_core/src/many.rs
+++ b/butane_core/src/many.rs
@@ -116,12 +116,20 @@ where
             Some(o) => o,
             None => return Err(Error::NotInitialized),
         };
-        Ok(T::query().filter(BoolExpr::Subquery {
+        let mut related = BoolExpr::Subquery {
             col: T::PKCOL,
             tbl2: self.item_table.clone(),
             tbl2_col: "has",
             expr: Box::new(BoolExpr::Eq("owner", Expr::Val(owner.clone()))),
-        }))
+        };
+        // Also include the values for things not saved to the db yet
+        if !self.new_values.is_empty() {
+            related = BoolExpr::Or(
+                Box::new(related),
+                Box::new(BoolExpr::In(T::PKCOL, self.new_values.clone())),
+            );
+        }
+        Ok(T::query().filter(related))
     }
 
     /// Describes the columns of the Many table.
@@ -133,46 +141,13 @@ where
     }
 }
 
-#[maybe_async_cfg::maybe(
-    idents(ConnectionMethods(sync, async = "ConnectionMethodsAsync"), QueryOps),
-    sync(),
-    async(feature = "async")
-)]
-/// Load the values referred to by this many relationship from a database query, if necessary.
-///
-/// Returns a reference to them.
-async fn load_query_uncached<'a, T>(
-    many: &'a Many<T>,
-    conn: &impl ConnectionMethods,
-    query: Query<T>,
-) -> Result<Vec<T>>
-where
-    T: DataObject + 'a,
-{
-    use crate::query::QueryOps;
-    let mut vals: Vec<T> = query.load(conn).await?;
-    // Now add in the values for things not saved to the db yet
-    if !many.new_values.is_empty() {
-        vals.append(
-            &mut T::query()
-                .filter(BoolExpr::In(T::PKCOL, many.new_values.clone()))
-                .load(conn)
-                .await?,
-        );
-    }
-    Ok(vals)
-}
-
 /// Load the values referred to by this many relationship from a database query, if necessary.
 ///
 /// Returns a reference to them.
 #[maybe_async_cfg::maybe(
-    idents(load_query_uncached(snake)),
+    idents(ConnectionMethods(sync, async = "ConnectionMethodsAsync"), QueryOps),
     sync(),
-    async(
-        feature = "async",
-        idents(get_or_init_once_lock(snake), ConnectionMethods)
-    )
+    async(feature = "async", idents(get_or_init_once_lock(snake)))
 )]
 async fn load_query<'a, T>(
     many: &'a Many<T>,
@@ -182,7 +157,8 @@ async fn load_query<'a, T>(
 where
     T: DataObject + 'a,
 {
-    get_or_init_once_lock(&many.all_values, || load_query_uncached(many, conn, query))
+    use crate::query::QueryOps;
+    get_or_init_once_lock(&many.all_values, || query.load(conn))
         .await
         .map(|v| v.iter())
 }
-- 
2.43.0


From e47a620576b9de91a1c8abf403607e53b2c2ef85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:33 +0000
Subject: [PATCH 13/54] fix: keep pending changes of a Many when saving fails,
 and don't serve removed values afterwards

---
 butane_core/src/many.rs | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/butane_core/src/many.rs b/butane_core/src/many.rs
index 8df06a4..73776bb 100644
--- a/butane_core/src/many.rs
+++ b/butane_core/src/many.rs
@@ -222,31 +222,28 @@ pub trait ManyOps<T: DataObject> {
 impl<T: DataObject> ManyOps<T> for Many<T> {
     async fn save(&mut self, conn: &impl ConnectionMethods) -> Result<()> {
         let owner = self.owner.as_ref().ok_or(Error::NotInitialized)?;
-        while !self.new_values.is_empty() {
+        while let Some(value) = self.new_values.last() {
             conn.insert_only(
                 &self.item_table,
                 &self.columns(),
-                &[
-                    owner.as_ref(),
-                    self.new_values.pop().unwrap().as_ref().clone(),
-                ],
+                &[owner.as_ref(), value.as_ref()],
             )
             .await?;
+            self.new_values.pop();
         }
         if !self.removed_values.is_empty() {
             conn.delete_where(
                 &self.item_table,
                 BoolExpr::And(
                     Box::new(BoolExpr::Eq("owner", Expr::Val(owner.clone()))),
-                    Box::new(BoolExpr::In(
-                        "has",
-                        std::mem::take(&mut self.removed_values),
-                    )),
+                    Box::new(BoolExpr::In("has", self.removed_values.clone())),
                 ),
             )
             .await?;
+            self.removed_values.clear();
+            // anything loaded since the removal was requested is now out of date
+            self.all_values = OnceLock::new();
         }
-        self.new_values.clear();
         Ok(())
     }
 
-- 
2.43.0


From f68dd3d104aaf0552d3f223e674404bc9dfc269b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:10 +0000
Subject: [PATCH 14/54] fix: report an error when committing an aborted
 PostgreSQL transaction

A statement failing in a PostgreSQL transaction aborts it, and PostgreSQL then
answers COMMIT by rolling back without an error, so commit() returned Ok though
nothing was committed.
---
 butane_core/src/db/pg.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/butane_core/src/db/pg.rs b/butane_core/src/db/pg.rs
index a2079b3..cb93e44 100644
--- a/butane_core/src/db/pg.rs
+++ b/butane_core/src/db/pg.rs
@@ -400,7 +400,13 @@ impl<'c> BackendTransaction<'c> for PgTransaction<'c> {
     async fn commit(&mut self) -> Result<()> {
         match self.trans.take() {
             None => Err(Self::already_consumed()),
-            Some(trans) => Ok(trans.commit().await?),
+            Some(trans) => {
+                // PostgreSQL answers the COMMIT of a transaction in which a statement has failed
+                // by rolling it back, without an error. Any statement detects that state. On
+                // error the transaction is dropped, which rolls it back.
+                trans.batch_execute("SELECT 1").await?;
+                Ok(trans.commit().await?)
+            }
         }
     }
 
-- 
2.43.0


From dd98c3f32282e4bfeb8425576bb3dc6b8156d167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:10 +0000
Subject: [PATCH 15/54] fix: roll back a dropped turso transaction in any
 runtime

Dropping it panicked in a current-thread runtime and left the transaction open
where no runtime was current.
---
 butane_core/src/db/turso.rs | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/butane_core/src/db/turso.rs b/butane_core/src/db/turso.rs
index 0d04043..80999da 100644
--- a/butane_core/src/db/turso.rs
+++ b/butane_core/src/db/turso.rs
@@ -737,21 +737,20 @@ impl<'c> Drop for TursoTransaction<'c> {
     fn drop(&mut self) {
         if let Some(conn) = self.conn.take() {
             if !self.committed {
-                // If transaction was not committed or rolled back, roll it back
-                // Use block_in_place to execute async rollback in a sync Drop context
-                if tokio::runtime::Handle::try_current().is_ok() {
-                    let conn_clone = conn.conn.clone();
-                    let _ = tokio::task::block_in_place(|| {
-                        tokio::runtime::Handle::current().block_on(async move {
-                            conn_clone
-                                .execute("ROLLBACK", Vec::<turso::Value>::new())
-                                .await
+                // If transaction was not committed or rolled back, roll it back. Drop is
+                // synchronous and may run in any kind of tokio runtime (or in none), so
+                // block on a runtime which belongs to a thread of its own.
+                let result = std::thread::scope(|scope| {
+                    scope
+                        .spawn(|| {
+                            tokio::runtime::Builder::new_current_thread()
+                                .build()?
+                                .block_on(conn.execute("ROLLBACK"))
                         })
-                    });
-                } else {
-                    eprintln!(
-                        "Warning: TursoTransaction dropped without commit or rollback and no tokio runtime available"
-                    );
+                        .join()
+                });
+                if !matches!(result, Ok(Ok(()))) {
+                    crate::warn!("Failed to roll back a dropped TursoTransaction");
                 }
             }
         }
-- 
2.43.0


From d6ae58c3d9652fd011238f774e3bc58c4bb0fc16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:10 +0000
Subject: [PATCH 16/54] fix: leave the transaction when committing it fails on
 turso

---
 butane_core/src/db/turso.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/butane_core/src/db/turso.rs b/butane_core/src/db/turso.rs
index 80999da..5b26bbb 100644
--- a/butane_core/src/db/turso.rs
+++ b/butane_core/src/db/turso.rs
@@ -717,7 +717,13 @@ impl<'c> ConnectionMethods for TursoTransaction<'c> {
 impl<'c> BackendTransaction<'c> for TursoTransaction<'c> {
     async fn commit(&mut self) -> Result<()> {
         let conn = self.conn.take().ok_or_else(Self::already_consumed)?;
-        conn.execute("COMMIT").await?;
+        if let Err(e) = conn.execute("COMMIT").await {
+            // Don't leave the connection inside the transaction.
+            if conn.execute("ROLLBACK").await.is_err() {
+                crate::warn!("Failed to roll back a transaction which failed to commit");
+            }
+            return Err(e);
+        }
         self.committed = true;
         Ok(())
     }
-- 
2.43.0


From e293ae0a28ce91093081ceeaaa67a403486bb006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:10 +0000
Subject: [PATCH 17/54] fix: remove tables after the tables which refer to them

---
 butane_core/src/migrations/adb.rs | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/butane_core/src/migrations/adb.rs b/butane_core/src/migrations/adb.rs
index 4afeb16..b2960e6 100644
--- a/butane_core/src/migrations/adb.rs
+++ b/butane_core/src/migrations/adb.rs
@@ -327,6 +327,11 @@ impl ATable {
     pub fn pk(&self) -> Option<&AColumn> {
         self.columns.iter().find(|c| c.is_pk())
     }
+    fn refers_to(&self, other: &ATable) -> bool {
+        self.columns.iter().any(|c| {
+            matches!(&c.reference, Some(ARef::Literal(target)) if target.table_name == other.name)
+        })
+    }
 }
 
 /// SqlType which may not yet be known.
@@ -624,8 +629,8 @@ pub fn diff(old: &ADB, new: &ADB) -> Vec<Operation> {
         let table = old.tables.get(removed).expect("no table").clone();
         ops.push(Operation::RemoveTableConstraints(table));
     }
-    for removed in removed_tables {
-        ops.push(Operation::RemoveTable((*removed).to_string()));
+    for removed in order_for_removal(removed_tables.map(|name| &old.tables[*name]).collect()) {
+        ops.push(Operation::RemoveTable(removed.name.clone()));
     }
 
     // Change existing tables
@@ -646,6 +651,21 @@ pub fn diff(old: &ADB, new: &ADB) -> Vec<Operation> {
     ops
 }
 
+/// Order tables so that, as far as possible, each precedes the tables it refers to. Backends which cannot remove
+/// constraints separately can not remove a table with rows referred to by other tables.
+fn order_for_removal(mut tables: Vec<&ATable>) -> Vec<&ATable> {
+    let mut ordered = Vec::with_capacity(tables.len());
+    while !tables.is_empty() {
+        let next = tables
+            .iter()
+            .position(|t| !tables.iter().any(|x| x.name != t.name && x.refers_to(t)))
+            // The tables refer to each other
+            .unwrap_or(0);
+        ordered.push(tables.remove(next));
+    }
+    ordered
+}
+
 fn col_by_name<'a>(columns: &'a [AColumn], name: &str) -> Option<&'a AColumn> {
     columns.iter().find(|c| c.name == name)
 }
-- 
2.43.0


From 959fd5b6aea0d9005f030f99b38493d7b512c973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:10 +0000
Subject: [PATCH 18/54] fix: quote PostgreSQL constraint names derived from
 reserved words

---
 butane_core/src/db/pg.rs | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/butane_core/src/db/pg.rs b/butane_core/src/db/pg.rs
index cb93e44..89d010a 100644
--- a/butane_core/src/db/pg.rs
+++ b/butane_core/src/db/pg.rs
@@ -775,6 +775,25 @@ fn remove_column(tbl_name: &str, name: &str) -> String {
     )
 }
 
+/// The name Postgres gives to a constraint.
+fn constraint_name(parts: &[&str], suffix: &str) -> String {
+    let quoted = |part: &str| matches!(helper::quote_reserved_word(part), Cow::Owned(_));
+    let name = parts
+        .iter()
+        // Names which are not quoted are folded
+        .map(|part| match quoted(part) {
+            true => part.to_string(),
+            false => part.to_lowercase(),
+        })
+        .collect::<Vec<String>>()
+        .join("_");
+    if parts.iter().any(|part| quoted(part)) {
+        format!("\"{name}_{suffix}\"")
+    } else {
+        format!("{}_{suffix}", parts.join("_"))
+    }
+}
+
 fn change_column(table: &ATable, old: &AColumn, new: &AColumn) -> Result<String> {
     use helper::quote_reserved_word;
     let tbl_name = &table.name;
@@ -815,9 +834,9 @@ fn change_column(table: &ATable, old: &AColumn, new: &AColumn) -> Result<String>
         if new.is_pk() {
             // Drop the old primary key
             stmts.push(format!(
-                "ALTER TABLE {} DROP CONSTRAINT IF EXISTS {}_pkey;",
+                "ALTER TABLE {} DROP CONSTRAINT IF EXISTS {};",
                 quote_reserved_word(tbl_name),
-                tbl_name
+                constraint_name(&[tbl_name], "pkey")
             ));
 
             // add the new primary key
@@ -842,10 +861,9 @@ fn change_column(table: &ATable, old: &AColumn, new: &AColumn) -> Result<String>
         } else {
             // Standard constraint naming scheme
             stmts.push(format!(
-                "ALTER TABLE {} DROP CONSTRAINT {}_{}_key;",
+                "ALTER TABLE {} DROP CONSTRAINT {};",
                 quote_reserved_word(tbl_name),
-                tbl_name,
-                old.name()
+                constraint_name(&[tbl_name, old.name()], "key")
             ));
         }
     }
@@ -870,10 +888,9 @@ fn change_column(table: &ATable, old: &AColumn, new: &AColumn) -> Result<String>
         if old.reference().is_some() {
             // Drop the old reference
             stmts.push(format!(
-                "ALTER TABLE {} DROP CONSTRAINT {}_{}_fkey;",
+                "ALTER TABLE {} DROP CONSTRAINT {};",
                 quote_reserved_word(tbl_name),
-                tbl_name,
-                old.name()
+                constraint_name(&[tbl_name, old.name()], "fkey")
             ));
         }
         if new.reference().is_some() {
-- 
2.43.0


From a5a205fcbbccf661f72098fc0f30e07c61e044ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:37 +0000
Subject: [PATCH 19/54] fix: report errors reading the chain of migrations when
 undoing it

---
 butane_core/src/migrations/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/butane_core/src/migrations/mod.rs b/butane_core/src/migrations/mod.rs
index 87fe3c5..782a265 100644
--- a/butane_core/src/migrations/mod.rs
+++ b/butane_core/src/migrations/mod.rs
@@ -147,7 +147,7 @@ pub trait Migrations: Clone {
         };
         migration.downgrade(connection)?;
 
-        while let Ok(Some(migration_name)) = migration.migration_from() {
+        while let Some(migration_name) = migration.migration_from()? {
             migration = self
                 .get_migration(&migration_name)
                 .ok_or(Error::MigrationError("Migration not in chain".to_string()))?;
-- 
2.43.0


From d73d74f61864f71417be4a28c6efcc58c7553d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:11 +0000
Subject: [PATCH 20/54] fix: remove tables after removing the references of
 remaining tables to them

---
 butane_core/src/migrations/adb.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/butane_core/src/migrations/adb.rs b/butane_core/src/migrations/adb.rs
index b2960e6..86a4588 100644
--- a/butane_core/src/migrations/adb.rs
+++ b/butane_core/src/migrations/adb.rs
@@ -629,9 +629,6 @@ pub fn diff(old: &ADB, new: &ADB) -> Vec<Operation> {
         let table = old.tables.get(removed).expect("no table").clone();
         ops.push(Operation::RemoveTableConstraints(table));
     }
-    for removed in order_for_removal(removed_tables.map(|name| &old.tables[*name]).collect()) {
-        ops.push(Operation::RemoveTable(removed.name.clone()));
-    }
 
     // Change existing tables
     for table in new_names.intersection(&old_names) {
@@ -641,6 +638,13 @@ pub fn diff(old: &ADB, new: &ADB) -> Vec<Operation> {
             new.tables.get(table).expect("no table"),
         ));
     }
+
+    // Existing tables no longer refer to removed tables
+    for removed in order_for_removal(removed_tables.map(|name| &old.tables[*name]).collect()) {
+        ops.push(Operation::RemoveTable(removed.name.clone()));
+    }
+
+    // Constrain new tables
     for added in new_tables {
         let added: &str = added.as_ref();
         let table = new.tables.get(added).expect("no table");
-- 
2.43.0


From dbe39eb4a950ec15dc5de7f40366052f67a19484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:11 +0000
Subject: [PATCH 21/54] fix: tell PostgreSQL how to convert a column between
 types it doesn't convert by itself

---
 butane_core/src/db/pg.rs          | 41 +++++++++++++++++++++++++++----
 butane_core/src/migrations/adb.rs |  4 +++
 2 files changed, 40 insertions(+), 5 deletions(-)

diff --git a/butane_core/src/db/pg.rs b/butane_core/src/db/pg.rs
index 89d010a..b15101d 100644
--- a/butane_core/src/db/pg.rs
+++ b/butane_core/src/db/pg.rs
@@ -794,6 +794,21 @@ fn constraint_name(parts: &[&str], suffix: &str) -> String {
     }
 }
 
+/// Whether Postgres converts the values of a column to a new type without being told how.
+fn converts_automatically(old: &TypeIdentifier, new: &TypeIdentifier) -> bool {
+    use SqlType::*;
+    let (TypeIdentifier::Ty(old), TypeIdentifier::Ty(new)) = (old, new) else {
+        return true; // not known to us
+    };
+    match (old, new) {
+        (Custom(_), _) | (_, Custom(_) | Text) => true,
+        (Int | BigInt | Real, Int | BigInt | Real) => true,
+        #[cfg(feature = "datetime")]
+        (Date | Timestamp, Date | Timestamp) => true,
+        _ => false,
+    }
+}
+
 fn change_column(table: &ATable, old: &AColumn, new: &AColumn) -> Result<String> {
     use helper::quote_reserved_word;
     let tbl_name = &table.name;
@@ -809,14 +824,30 @@ fn change_column(table: &ATable, old: &AColumn, new: &AColumn) -> Result<String>
             quote_reserved_word(new.name())
         ));
     }
+    let mut default_dropped = false;
     if old.typeid()? != new.typeid()? {
         // column type change
-        stmts.push(format!(
-            "ALTER TABLE {} ALTER COLUMN {} SET DATA TYPE {};",
+        let mut plain = new.clone();
+        plain.set_auto(false); // SERIAL is not a type, only a way to declare a column
+        let ty = col_sqltype(&plain)?;
+        let (table, column) = (
             quote_reserved_word(tbl_name),
             quote_reserved_word(old.name()),
-            col_sqltype(new)?,
-        ));
+        );
+        if converts_automatically(&old.typeid()?, &new.typeid()?) {
+            stmts.push(format!(
+                "ALTER TABLE {table} ALTER COLUMN {column} SET DATA TYPE {ty};"
+            ));
+        } else {
+            // There may be a default even if none is declared, from when the column was added
+            default_dropped = true;
+            stmts.push(format!(
+                "ALTER TABLE {table} ALTER COLUMN {column} DROP DEFAULT;"
+            ));
+            stmts.push(format!(
+                "ALTER TABLE {table} ALTER COLUMN {column} SET DATA TYPE {ty} USING {column}::text::{ty};"
+            ));
+        }
     }
     if old.nullable() != new.nullable() {
         stmts.push(format!(
@@ -868,7 +899,7 @@ fn change_column(table: &ATable, old: &AColumn, new: &AColumn) -> Result<String>
         }
     }
 
-    if old.default() != new.default() {
+    if old.default() != new.default() || (default_dropped && new.default().is_some()) {
         stmts.push(match new.default() {
             None => format!(
                 "ALTER TABLE {} ALTER COLUMN {} DROP DEFAULT;",
diff --git a/butane_core/src/migrations/adb.rs b/butane_core/src/migrations/adb.rs
index 86a4588..6888762 100644
--- a/butane_core/src/migrations/adb.rs
+++ b/butane_core/src/migrations/adb.rs
@@ -550,6 +550,10 @@ impl AColumn {
     pub fn is_auto(&self) -> bool {
         self.auto
     }
+    #[cfg(feature = "pg")]
+    pub(crate) fn set_auto(&mut self, auto: bool) {
+        self.auto = auto
+    }
 }
 /// Create table for the [`Many`](crate::many::Many) relationship.
 ///
-- 
2.43.0


From 09bd25e30e026e0328d942330558d14da826249d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:11 +0000
Subject: [PATCH 22/54] fix: rebuild SQLite tables to add or remove constrained
 columns, and keep references to rebuilt tables

---
 butane_core/src/db/sqlite.rs      | 116 +++++++++++++++++++++---------
 butane_core/src/migrations/adb.rs |   3 +-
 2 files changed, 83 insertions(+), 36 deletions(-)

diff --git a/butane_core/src/db/sqlite.rs b/butane_core/src/db/sqlite.rs
index ec0c987..e6a0c9f 100644
--- a/butane_core/src/db/sqlite.rs
+++ b/butane_core/src/db/sqlite.rs
@@ -666,9 +666,9 @@ fn sql_for_op(current: &mut ADB, op: &Operation) -> Result<String> {
         Operation::AddTableIfNotExists(table) => Ok(create_table(table, true)),
         Operation::RemoveTable(name) => Ok(drop_table(name)),
         Operation::RemoveTableConstraints(_table) => Ok("".to_owned()),
-        Operation::AddColumn(tbl, col) => add_column(tbl, col),
+        Operation::AddColumn(tbl, col) => add_column(current, tbl, col),
         Operation::RemoveColumn(tbl, name) => remove_column(current, tbl, name),
-        Operation::ChangeColumn(tbl, old, new) => Ok(change_column(current, tbl, old, Some(new))),
+        Operation::ChangeColumn(tbl, old, new) => change_column(current, tbl, old, Some(new)),
     }
 }
 
@@ -786,7 +786,15 @@ fn drop_table(name: &str) -> String {
     format!("DROP TABLE {};", helper::quote_reserved_word(name))
 }
 
-fn add_column(tbl_name: &str, col: &AColumn) -> Result<String> {
+fn add_column(current: &mut ADB, tbl_name: &str, col: &AColumn) -> Result<String> {
+    // ALTER TABLE does not add unique columns, nor references to existing rows
+    if col.unique() || col.reference().is_some() {
+        if let Some(table) = current.get_table(tbl_name) {
+            let mut new_table = table.clone();
+            new_table.add_column(col.clone());
+            return rebuild_table(current, new_table);
+        }
+    }
     let default: SqlVal = helper::column_default(col)?;
     Ok(format!(
         "ALTER TABLE {} ADD COLUMN {} DEFAULT {};",
@@ -805,9 +813,9 @@ fn remove_column(current: &mut ADB, tbl_name: &str, name: &str) -> Result<String
         .column(name)
         .ok_or_else(|| Error::ColumnNotFound(tbl_name.to_string(), name.to_string()))?;
     // "ALTER TABLE b DROP COLUMN fkey;" fails due to sqlite not being
-    // able to remove the attached constraint.
-    if col.reference().is_some() {
-        Ok(change_column(current, tbl_name, col, None))
+    // able to remove the attached constraint, as does dropping a unique column.
+    if col.reference().is_some() || col.unique() {
+        change_column(current, tbl_name, col, None)
     } else {
         Ok(format!(
             "ALTER TABLE {} DROP COLUMN {};",
@@ -817,19 +825,26 @@ fn remove_column(current: &mut ADB, tbl_name: &str, name: &str) -> Result<String
     }
 }
 
-fn copy_table(old: &ATable, new: &ATable) -> String {
-    let column_names = new
+/// The values of the columns of `new` for existing rows of `old`.
+fn column_values(old: &ATable, new: &ATable) -> Result<String> {
+    let values = new
         .columns
         .iter()
-        .map(|col| helper::quote_reserved_word(col.name()))
-        .collect::<Vec<Cow<str>>>()
-        .join(", ");
-    format!(
+        .map(|col| match old.column(col.name()) {
+            Some(_) => Ok(helper::quote_reserved_word(col.name()).into_owned()),
+            None => helper::sql_literal_value(&helper::column_default(col)?),
+        })
+        .collect::<Result<Vec<String>>>()?;
+    Ok(values.join(", "))
+}
+
+fn copy_table(old: &ATable, new: &ATable) -> Result<String> {
+    Ok(format!(
         "INSERT INTO {} SELECT {} FROM {};",
         helper::quote_reserved_word(&new.name),
-        column_names,
+        column_values(old, new)?,
         helper::quote_reserved_word(&old.name)
-    )
+    ))
 }
 
 fn tmp_table_name(name: &str) -> String {
@@ -841,37 +856,68 @@ fn change_column(
     tbl_name: &str,
     old: &AColumn,
     new: Option<&AColumn>,
-) -> String {
-    let table = current.get_table(tbl_name);
-    if table.is_none() {
+) -> Result<String> {
+    let Some(table) = current.get_table(tbl_name) else {
         crate::warn!(
             "Cannot alter column {} from table {} that does not exist",
             old.name(),
             tbl_name
         );
-        return "".to_string();
-    }
-    let old_table = table.unwrap();
-    let mut new_table = old_table.clone();
-    new_table.name = tmp_table_name(&new_table.name);
+        return Ok("".to_string());
+    };
+    let mut new_table = table.clone();
     match new {
         Some(col) => new_table.replace_column(col.clone()),
         None => new_table.remove_column(old.name()),
     }
-    let stmts: [&str; 4] = [
-        &create_table(&new_table, false),
-        &copy_table(old_table, &new_table),
-        &drop_table(&old_table.name),
-        &format!(
-            "ALTER TABLE {} RENAME TO {};",
-            helper::quote_reserved_word(&new_table.name),
-            helper::quote_reserved_word(tbl_name)
-        ),
-    ];
-    let result = stmts.join("\n");
-    new_table.name.clone_from(&old_table.name);
+    rebuild_table(current, new_table)
+}
+
+/// Replaces the table with the same name as `new_table` in `current`, and writes the SQL which does so, keeping its rows.
+fn rebuild_table(current: &mut ADB, new_table: ATable) -> Result<String> {
+    let old_table = current
+        .get_table(&new_table.name)
+        .ok_or_else(|| Error::TableNotFound(new_table.name.clone()))?;
+    let mut tmp_table = new_table.clone();
+    tmp_table.name = tmp_table_name(&new_table.name);
+    let referred =
+        new_table.refers_to(old_table) || current.tables().any(|t| t.refers_to(old_table));
+    let result = if referred {
+        // Rows which refer to the table are not to be left dangling when it is dropped: check them when
+        // the transaction ends, and insert the rows into a table that they refer to.
+        [
+            "PRAGMA defer_foreign_keys = ON;".to_string(),
+            format!(
+                "CREATE TABLE {} AS SELECT * FROM {};",
+                helper::quote_reserved_word(&tmp_table.name),
+                helper::quote_reserved_word(&old_table.name)
+            ),
+            drop_table(&old_table.name),
+            create_table(&new_table, false),
+            format!(
+                "INSERT INTO {} SELECT {} FROM {};",
+                helper::quote_reserved_word(&new_table.name),
+                column_values(old_table, &new_table)?,
+                helper::quote_reserved_word(&tmp_table.name)
+            ),
+            drop_table(&tmp_table.name),
+        ]
+        .join("\n")
+    } else {
+        [
+            create_table(&tmp_table, false),
+            copy_table(old_table, &tmp_table)?,
+            drop_table(&old_table.name),
+            format!(
+                "ALTER TABLE {} RENAME TO {};",
+                helper::quote_reserved_word(&tmp_table.name),
+                helper::quote_reserved_word(&new_table.name)
+            ),
+        ]
+        .join("\n")
+    };
     current.replace_table(new_table);
-    result
+    Ok(result)
 }
 
 /// Write SQL that performs an insert or update.
diff --git a/butane_core/src/migrations/adb.rs b/butane_core/src/migrations/adb.rs
index 6888762..0fef916 100644
--- a/butane_core/src/migrations/adb.rs
+++ b/butane_core/src/migrations/adb.rs
@@ -327,7 +327,8 @@ impl ATable {
     pub fn pk(&self) -> Option<&AColumn> {
         self.columns.iter().find(|c| c.is_pk())
     }
-    fn refers_to(&self, other: &ATable) -> bool {
+    /// Whether a column of this table refers to `other`.
+    pub(crate) fn refers_to(&self, other: &ATable) -> bool {
         self.columns.iter().any(|c| {
             matches!(&c.reference, Some(ARef::Literal(target)) if target.table_name == other.name)
         })
-- 
2.43.0


From 66fa9054fcd418dab22c2bef0efc490e8c8aea5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:11 +0000
Subject: [PATCH 23/54] fix: rebuild turso tables to add or remove constrained
 columns

---
 butane_core/src/db/turso.rs | 82 +++++++++++++++++++++++--------------
 1 file changed, 51 insertions(+), 31 deletions(-)

diff --git a/butane_core/src/db/turso.rs b/butane_core/src/db/turso.rs
index 5b26bbb..f5e70b8 100644
--- a/butane_core/src/db/turso.rs
+++ b/butane_core/src/db/turso.rs
@@ -971,11 +971,9 @@ fn sql_for_op(current: &mut ADB, op: &Operation) -> Result<String> {
         Operation::AddTable(tbl) => Ok(create_table(tbl, false)),
         Operation::AddTableIfNotExists(tbl) => Ok(create_table(tbl, true)),
         Operation::RemoveTable(name) => Ok(drop_table(name)),
-        Operation::AddColumn(tname, col) => add_column(tname, col),
+        Operation::AddColumn(tname, col) => add_column(current, tname, col),
         Operation::RemoveColumn(tname, colname) => remove_column(current, tname, colname),
-        Operation::ChangeColumn(tname, old, new) => {
-            Ok(change_column(current, tname, old, Some(new)))
-        }
+        Operation::ChangeColumn(tname, old, new) => change_column(current, tname, old, Some(new)),
         Operation::AddTableConstraints(_) | Operation::RemoveTableConstraints(_) => {
             // Turso/SQLite doesn't support adding/removing constraints separately
             // They must be included when creating the table
@@ -1095,7 +1093,15 @@ fn drop_table(name: &str) -> String {
     format!("DROP TABLE {};", helper::quote_reserved_word(name))
 }
 
-fn add_column(tbl_name: &str, col: &AColumn) -> Result<String> {
+fn add_column(current: &mut ADB, tbl_name: &str, col: &AColumn) -> Result<String> {
+    // ALTER TABLE does not add unique columns, nor references to existing rows
+    if col.unique() || col.reference().is_some() {
+        if let Some(table) = current.get_table(tbl_name) {
+            let mut new_table = table.clone();
+            new_table.add_column(col.clone());
+            return rebuild_table(current, new_table);
+        }
+    }
     let default: SqlVal = helper::column_default(col)?;
     Ok(format!(
         "ALTER TABLE {} ADD COLUMN {} DEFAULT {};",
@@ -1113,8 +1119,9 @@ fn remove_column(current: &mut ADB, tbl_name: &str, name: &str) -> Result<String
     let col = table
         .column(name)
         .ok_or_else(|| Error::ColumnNotFound(tbl_name.to_string(), name.to_string()))?;
-    if col.reference().is_some() {
-        Ok(change_column(current, tbl_name, col, None))
+    // ALTER TABLE does not remove columns with constraints
+    if col.reference().is_some() || col.unique() {
+        change_column(current, tbl_name, col, None)
     } else {
         Ok(format!(
             "ALTER TABLE {} DROP COLUMN {};",
@@ -1124,14 +1131,21 @@ fn remove_column(current: &mut ADB, tbl_name: &str, name: &str) -> Result<String
     }
 }
 
-fn copy_table(old: &ATable, new: &ATable) -> String {
-    let column_names: Vec<Cow<str>> = new
-        .columns
+/// The values of the columns of `new` for existing rows of `old`.
+fn column_values(old: &ATable, new: &ATable) -> Result<Vec<String>> {
+    new.columns
         .iter()
-        .map(|col| helper::quote_reserved_word(col.name()))
-        .collect();
+        .map(|col| match old.column(col.name()) {
+            Some(_) => Ok(helper::quote_reserved_word(col.name()).into_owned()),
+            None => helper::sql_literal_value(&helper::column_default(col)?),
+        })
+        .collect()
+}
+
+fn copy_table(old: &ATable, new: &ATable) -> Result<String> {
+    let column_values = column_values(old, new)?;
 
-    let column_list = column_names.join(", ");
+    let column_list = column_values.join(", ");
     let single_line = format!(
         "INSERT INTO {} SELECT {} FROM {};",
         helper::quote_reserved_word(&new.name),
@@ -1141,16 +1155,16 @@ fn copy_table(old: &ATable, new: &ATable) -> String {
 
     // If the single line is too long, format with line breaks
     if single_line.len() <= 120 {
-        single_line
+        Ok(single_line)
     } else {
         // Multi-line format
-        let formatted_columns = column_names.join(",\n    ");
-        format!(
+        let formatted_columns = column_values.join(",\n    ");
+        Ok(format!(
             "INSERT INTO {} SELECT\n    {}\nFROM {};",
             helper::quote_reserved_word(&new.name),
             formatted_columns,
             helper::quote_reserved_word(&old.name)
-        )
+        ))
     }
 }
 
@@ -1163,42 +1177,48 @@ fn change_column(
     tbl_name: &str,
     old: &AColumn,
     new: Option<&AColumn>,
-) -> String {
-    let table = current.get_table(tbl_name);
-    if table.is_none() {
+) -> Result<String> {
+    let Some(table) = current.get_table(tbl_name) else {
         crate::warn!(
             "Cannot alter column {} from table {} that does not exist",
             old.name(),
             tbl_name
         );
-        return "".to_string();
-    }
-    let old_table = table.unwrap();
-    let mut new_table = old_table.clone();
-    new_table.name = tmp_table_name(&new_table.name);
+        return Ok("".to_string());
+    };
+    let mut new_table = table.clone();
     match new {
         Some(col) => new_table.replace_column(col.clone()),
         None => new_table.remove_column(old.name()),
     }
+    rebuild_table(current, new_table)
+}
+
+/// Replaces the table with the same name as `new_table` in `current`, and writes the SQL which does so, keeping its rows.
+fn rebuild_table(current: &mut ADB, new_table: ATable) -> Result<String> {
+    let old_table = current
+        .get_table(&new_table.name)
+        .ok_or_else(|| Error::TableNotFound(new_table.name.clone()))?;
+    let mut tmp_table = new_table.clone();
+    tmp_table.name = tmp_table_name(&new_table.name);
     // NOTE: Turso has a known limitation with ALTER TABLE RENAME operations within transactions
     // The error "table being renamed should be in schema" occurs because libSQL's schema
     // tracking doesn't properly register tables created in the same transaction.
     // For migrations that require column changes, consider skipping unmigrate for Turso.
     // See docs/turso-backend.md for details.
     let stmts: Vec<String> = vec![
-        create_table(&new_table, false),
-        copy_table(old_table, &new_table),
+        create_table(&tmp_table, false),
+        copy_table(old_table, &tmp_table)?,
         drop_table(&old_table.name),
         format!(
             "ALTER TABLE {} RENAME TO {};",
-            helper::quote_reserved_word(&new_table.name),
-            helper::quote_reserved_word(tbl_name)
+            helper::quote_reserved_word(&tmp_table.name),
+            helper::quote_reserved_word(&new_table.name)
         ),
     ];
     let result = stmts.join("\n");
-    new_table.name.clone_from(&old_table.name);
     current.replace_table(new_table);
-    result
+    Ok(result)
 }
 
 /// Write SQL that performs an insert or update.
-- 
2.43.0


From 9e8f5dd0eb18600aefe8f336b263c06ab857ea39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:33 +0000
Subject: [PATCH 24/54] fix: compare JSON columns with values of their own type
 on PostgreSQL

---
 butane_core/src/db/pg.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/butane_core/src/db/pg.rs b/butane_core/src/db/pg.rs
index b15101d..c9cc78f 100644
--- a/butane_core/src/db/pg.rs
+++ b/butane_core/src/db/pg.rs
@@ -988,7 +988,7 @@ fn pgtype_for_val(val: &SqlVal) -> postgres::types::Type {
         Some(SqlType::Text) => postgres::types::Type::TEXT,
         Some(SqlType::Blob) => postgres::types::Type::BYTEA,
         #[cfg(feature = "json")]
-        Some(SqlType::Json) => postgres::types::Type::JSON,
+        Some(SqlType::Json) => postgres::types::Type::JSONB,
         #[cfg(feature = "datetime")]
         Some(SqlType::Date) => postgres::types::Type::DATE,
         #[cfg(feature = "datetime")]
-- 
2.43.0


From cbee606cc4ff59655cafc59ea5edea5c541d0663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:12 +0000
Subject: [PATCH 25/54] fix: execute one operation at a time on a turso
 connection

turso panics or answers the wrong statement when statements of one connection
are executed concurrently, and the key of an inserted object could be that of
another one inserted at the same time.
---
 butane_core/src/db/turso.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/butane_core/src/db/turso.rs b/butane_core/src/db/turso.rs
index f5e70b8..d5efd9f 100644
--- a/butane_core/src/db/turso.rs
+++ b/butane_core/src/db/turso.rs
@@ -143,6 +143,8 @@ impl Backend for TursoBackend {
 #[derive(Debug)]
 pub struct TursoConnection {
     conn: turso::Connection,
+    /// Held during each operation, as turso does not support concurrent statements on a connection.
+    lock: tokio::sync::Mutex<()>,
 }
 
 impl TursoConnection {
@@ -170,7 +172,10 @@ impl TursoConnection {
             .await
             .map_err(|e| Error::Internal(e.to_string()))?;
 
-        Ok(TursoConnection { conn })
+        Ok(TursoConnection {
+            conn,
+            lock: tokio::sync::Mutex::new(()),
+        })
     }
 
     /// Transform Subquery expressions into In expressions by executing the subquery first.
@@ -324,6 +329,7 @@ impl TursoConnection {
 #[async_trait]
 impl ConnectionMethods for TursoConnection {
     async fn execute(&self, sql: &str) -> Result<()> {
+        let _lock = self.lock.lock().await;
         if cfg!(feature = "log") {
             debug!("execute sql {sql}");
         }
@@ -347,6 +353,7 @@ impl ConnectionMethods for TursoConnection {
         offset: Option<i32>,
         order: Option<&[Order]>,
     ) -> Result<RawQueryResult<'c>> {
+        let _lock = self.lock.lock().await;
         // Transform Subquery expressions since Turso doesn't support them
         let expr = if let Some(expr) = expr {
             Some(self.transform_subqueries(expr).await?)
@@ -426,6 +433,7 @@ impl ConnectionMethods for TursoConnection {
         pkcol: &Column,
         values: &[SqlValRef<'_>],
     ) -> Result<SqlVal> {
+        let _lock = self.lock.lock().await;
         let mut sql = String::new();
         helper::sql_insert_with_placeholders(
             table,
@@ -476,6 +484,7 @@ impl ConnectionMethods for TursoConnection {
         columns: &[Column],
         values: &[SqlValRef<'_>],
     ) -> Result<()> {
+        let _lock = self.lock.lock().await;
         let mut sql = String::new();
         helper::sql_insert_with_placeholders(
             table,
@@ -498,6 +507,7 @@ impl ConnectionMethods for TursoConnection {
         pkcol: &Column,
         values: &[SqlValRef<'_>],
     ) -> Result<()> {
+        let _lock = self.lock.lock().await;
         let mut sql = String::new();
         sql_insert_or_update(table, columns, pkcol, &mut sql);
         let params: Vec<turso::Value> = values.iter().map(|v| sqlval_to_turso(v)).collect();
@@ -516,6 +526,7 @@ impl ConnectionMethods for TursoConnection {
         columns: &[Column],
         values: &[SqlValRef<'_>],
     ) -> Result<()> {
+        let _lock = self.lock.lock().await;
         let mut sql = String::new();
         helper::sql_update_with_placeholders(
             table,
@@ -534,6 +545,7 @@ impl ConnectionMethods for TursoConnection {
     }
 
     async fn delete(&self, table: &str, pkcol: &'static str, pk: SqlVal) -> Result<()> {
+        let _lock = self.lock.lock().await;
         let sql = format!(
             "DELETE FROM {} WHERE {} = ?",
             helper::quote_reserved_word(table),
@@ -548,6 +560,7 @@ impl ConnectionMethods for TursoConnection {
     }
 
     async fn delete_where(&self, table: &str, expr: BoolExpr) -> Result<usize> {
+        let _lock = self.lock.lock().await;
         // Transform Subquery expressions since Turso doesn't support them
         let expr = self.transform_subqueries(expr).await?;
 
@@ -573,6 +586,7 @@ impl ConnectionMethods for TursoConnection {
     }
 
     async fn has_table(&self, table: &str) -> Result<bool> {
+        let _lock = self.lock.lock().await;
         let sql = "SELECT name FROM sqlite_master WHERE type='table' AND name=?";
         let params = vec![turso::Value::Text(table.to_string())];
         let mut rows = self
-- 
2.43.0


From 70e820ea57b1269fc0625c1f90dd7b8a1a1e8b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:12 +0000
Subject: [PATCH 26/54] fix: don't let abandoned operations of adapted
 connections use what they borrowed

Dropping the future of an operation on an AsyncAdapter left the worker thread
executing it with dangling references, or left a transaction open forever. A
panic in an operation ended the worker thread, and then dropping the connection
panicked too.
---
 butane_core/src/db/adapter.rs | 104 ++++++++++++++++++++++------------
 1 file changed, 69 insertions(+), 35 deletions(-)

diff --git a/butane_core/src/db/adapter.rs b/butane_core/src/db/adapter.rs
index b4f2c6f..e0d75a1 100644
--- a/butane_core/src/db/adapter.rs
+++ b/butane_core/src/db/adapter.rs
@@ -6,15 +6,43 @@
 
 use super::*;
 use crate::query::Order;
-use std::sync::Arc;
+use std::panic::{catch_unwind, AssertUnwindSafe};
+use std::sync::{Arc, Mutex, PoisonError};
 use std::thread;
 use std::thread::JoinHandle;
 
 enum Command {
-    Func(Box<dyn FnOnce() + Send>),
+    Func(Arc<Call>),
     Shutdown,
 }
 
+/// A function for the worker thread to execute, until it is either executed or cancelled. Remains
+/// locked while the function is being executed.
+struct Call(Mutex<Option<Box<dyn FnOnce() + Send>>>);
+
+impl Call {
+    /// Executes the function unless it has been cancelled.
+    fn run(&self) {
+        let mut func = self.0.lock().unwrap_or_else(PoisonError::into_inner);
+        if let Some(func) = func.take() {
+            func();
+        }
+    }
+}
+
+/// Held by those who have sent a [`Call`] to the worker thread. Once it has been dropped, the
+/// function is not being executed and never will be, so what the function borrows may cease to
+/// exist. The result may not have been waited for, because futures can be dropped at any time.
+struct CallGuard(Arc<Call>);
+
+impl Drop for CallGuard {
+    fn drop(&mut self) {
+        // Waits for the function if it is being executed.
+        let mut func = self.0 .0.lock().unwrap_or_else(PoisonError::into_inner);
+        func.take();
+    }
+}
+
 #[derive(Debug)]
 struct AsyncAdapterEnv {
     sender: crossbeam_channel::Sender<Command>,
@@ -29,7 +57,12 @@ impl AsyncAdapterEnv {
         let thread_handle = thread::spawn(move || {
             while let Ok(cmd) = receiver.recv() {
                 match cmd {
-                    Command::Func(func) => func(),
+                    Command::Func(call) => {
+                        // If the function panics, the caller finds that there is no result.
+                        if catch_unwind(AssertUnwindSafe(|| call.run())).is_err() {
+                            crate::error!("Panic in an operation on a connection");
+                        }
+                    }
                     Command::Shutdown => {
                         return; // break out of the loop
                     }
@@ -69,13 +102,15 @@ impl AsyncAdapterEnv {
         // it. So despite fact that we pass the context pointer back
         // and forth, it's essentially owned by the worker thread -- all operations
         // with context occur on that worker thread.
-        let (tx, rx) = tokio::sync::oneshot::channel();
+        let (tx, mut rx) = tokio::sync::oneshot::channel();
         let func_taking_ptr = |ctx: SyncSendPtrMut<T>| func(unsafe { ctx.inner.as_ref() }.unwrap());
-        unsafe {
+        // Must not outlive the borrows of func, and must be dropped before rx, which may receive
+        // something that may not be dropped by the worker thread.
+        let _guard = unsafe {
             let wrapped_func = move || _ = tx.send(func_taking_ptr(context.clone_unsafe()));
-            self.invoke_internal_unsafe(wrapped_func)?;
-        }
-        rx.await?
+            self.invoke_internal_unsafe(wrapped_func)?
+        };
+        (&mut rx).await?
     }
 
     async fn invoke_mut<'c, 's, 'result, F, T, U>(
@@ -91,13 +126,15 @@ impl AsyncAdapterEnv {
         's: 'result,
         'c: 'result,
     {
-        let (tx, rx) = tokio::sync::oneshot::channel();
+        let (tx, mut rx) = tokio::sync::oneshot::channel();
         let func_taking_ptr = |ctx: SyncSendPtrMut<T>| func(unsafe { ctx.inner.as_mut().unwrap() });
-        unsafe {
+        // Must not outlive the borrows of func, and must be dropped before rx, which may receive
+        // something that may not be dropped by the worker thread.
+        let _guard = unsafe {
             let wrapped_func = move || _ = tx.send(func_taking_ptr(context.clone_unsafe()));
-            self.invoke_internal_unsafe(wrapped_func)?;
-        }
-        rx.await?
+            self.invoke_internal_unsafe(wrapped_func)?
+        };
+        (&mut rx).await?
     }
 
     fn invoke_blocking<'c, 's, 'result, F, T, U>(&'s self, context: *const T, func: F) -> Result<U>
@@ -112,10 +149,10 @@ impl AsyncAdapterEnv {
         let (tx, rx) = crossbeam_channel::unbounded();
         let context_ptr = unsafe { SendPtr::new(context) };
         let func_taking_ptr = |ctx: SendPtr<T>| func(unsafe { ctx.inner.as_ref() }.unwrap());
-        unsafe {
+        let _guard = unsafe {
             let wrapped_func = move || _ = tx.send(func_taking_ptr(context_ptr));
-            self.invoke_internal_unsafe(wrapped_func)?;
-        }
+            self.invoke_internal_unsafe(wrapped_func)?
+        };
         rx.recv()?
     }
 
@@ -124,21 +161,23 @@ impl AsyncAdapterEnv {
         // wrapped_func is a complete encapsulation of the function we
         // want to invoke without any parameters left to provide
         wrapped_func: impl FnOnce() + Send + 'result,
-    ) -> Result<()> {
+    ) -> Result<CallGuard> {
         // We transmute wrapped_func (with an intermediate boxing
         // step) solely to transform it's lifetime. The lifetime is an
         // issue here because Rust itself has no way of knowing how
         // long our sync worker thread is going to use it for.  But
-        // *we* know that our worker thread will immediately execute
-        // the function and the caller to this method will wait to
-        // hear from the worker thread before proceeding (and thus
-        // before letting the lifetime lapse)
+        // *we* know that our worker thread will not use the function
+        // once the returned guard has been dropped, and the caller to
+        // this method will drop the guard before letting the lifetime
+        // lapse.
         // https://stackoverflow.com/questions/52424449/
         let boxed_func: Box<dyn FnOnce() + Send + 'result> = Box::new(wrapped_func);
         let static_func: Box<dyn FnOnce() + Send + 'static> =
             unsafe { std::mem::transmute(boxed_func) };
-        self.sender.send(Command::Func(static_func))?;
-        Ok(())
+        let call = Arc::new(Call(Mutex::new(Some(static_func))));
+        let guard = CallGuard(call.clone());
+        self.sender.send(Command::Func(call))?;
+        Ok(guard)
     }
 }
 
@@ -208,14 +247,6 @@ pub(super) struct AsyncAdapter<T: ?Sized> {
 }
 
 impl<T: ?Sized> AsyncAdapter<T> {
-    /// Create an `AsyncAdapter` with the given context, using the same `env` as self.
-    fn create_with_same_env<U: ?Sized>(&self, context_ptr: SyncSendPtrMut<U>) -> AsyncAdapter<U> {
-        AsyncAdapter {
-            env: self.env.clone(),
-            context: context_ptr,
-        }
-    }
-
     /// Invokes the provided function with a sync method.
     async fn invoke<'c, 's, 'result, F, U>(&'s self, func: F) -> Result<U>
     where
@@ -373,14 +404,17 @@ where
     T: BackendConnection,
 {
     async fn transaction<'c>(&'c mut self) -> Result<TransactionAsync<'c>> {
-        let transaction_ptr: SyncSendPtrMut<dyn BackendTransaction> = self
-            .invoke_mut(|conn| {
+        let env = self.env.clone();
+        // The adapter is created along with the transaction, so that the transaction does not stay
+        // open if our caller gives up while it is being created.
+        let transaction_adapter = self
+            .invoke_mut(move |conn| {
                 let transaction: Transaction = conn.transaction()?;
                 let transaction_ptr: *mut dyn BackendTransaction = Box::into_raw(transaction.trans);
-                Ok(unsafe { SyncSendPtrMut::new(transaction_ptr) })
+                let context = unsafe { SyncSendPtrMut::new(transaction_ptr) };
+                Ok(AsyncAdapter { env, context })
             })
             .await?;
-        let transaction_adapter = self.create_with_same_env(transaction_ptr);
         Ok(TransactionAsync::new(Box::new(transaction_adapter)))
     }
 
-- 
2.43.0


From a256abbd3dfa8d7a781d123881f07c85d443f4ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:26 +0000
Subject: [PATCH 27/54] fix: chained filters of a query restrict it further

A later filter replaced the earlier ones, so that a query (or a deletion by it)
matched objects it had been restricted not to match.
---
 butane_core/src/query/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/butane_core/src/query/mod.rs b/butane_core/src/query/mod.rs
index 06ef734..14548c7 100644
--- a/butane_core/src/query/mod.rs
+++ b/butane_core/src/query/mod.rs
@@ -146,9 +146,14 @@ impl<T: DataResult> Query<T> {
 
     /// Restricts the query to matching only objects for which `expr` is true.
     ///
+    /// Multiple calls to this method may be made, restricting the query further.
+    ///
     /// Returns `self` as this method is expected to be chained.
     pub fn filter(mut self, expr: BoolExpr) -> Query<T> {
-        self.filter = Some(expr);
+        self.filter = Some(match self.filter {
+            None => expr,
+            Some(filter) => BoolExpr::And(Box::new(filter), Box::new(expr)),
+        });
         self
     }
 
-- 
2.43.0


From f0ff0aa1878c56c67fb558715a67a1108e639006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:24 +0000
Subject: [PATCH 28/54] fix: deleting by a query respects its limit and offset

The limit and offset of a query were ignored by delete, which deleted all objects
matching its filter.
---
 butane_core/src/query/mod.rs | 41 +++++++++++++++++++++++++++++++-----
 1 file changed, 36 insertions(+), 5 deletions(-)

diff --git a/butane_core/src/query/mod.rs b/butane_core/src/query/mod.rs
index 14548c7..9a22917 100644
--- a/butane_core/src/query/mod.rs
+++ b/butane_core/src/query/mod.rs
@@ -11,8 +11,8 @@ use fallible_iterator::FallibleIterator;
 
 #[cfg(feature = "async")]
 use crate::db::ConnectionMethodsAsync;
-use crate::db::{BackendRows, ConnectionMethods, QueryResult};
-use crate::{DataResult, Result, SqlVal};
+use crate::db::{self, BackendRows, ConnectionMethods, QueryResult};
+use crate::{DataObject, DataResult, FieldType, Result, SqlVal};
 
 mod fieldexpr;
 
@@ -221,6 +221,9 @@ trait QueryOpsInternal<T> {
         conn: &impl ConnectionMethods,
         limit: Option<i32>,
     ) -> Result<Box<dyn BackendRows + '_>>;
+
+    /// Primary keys of the matching objects
+    async fn fetch_pks(self, conn: &impl ConnectionMethods) -> Result<Vec<SqlVal>>;
 }
 #[maybe_async_cfg::maybe(
     idents(ConnectionMethods(sync = "ConnectionMethods"), QueryOpsInternal),
@@ -249,6 +252,26 @@ impl<T: DataResult> QueryOpsInternal<T> for Query<T> {
         )
         .await
     }
+    async fn fetch_pks(self, conn: &impl ConnectionMethods) -> Result<Vec<SqlVal>> {
+        let pktype = <<T::DBO as DataObject>::PKType as FieldType>::SQLTYPE;
+        let columns = [db::Column::new(T::DBO::PKCOL, pktype.clone())];
+        let sort = if self.sort.is_empty() {
+            None
+        } else {
+            Some(self.sort.as_slice())
+        };
+        conn.query(
+            &self.table,
+            &columns,
+            self.filter,
+            self.limit,
+            self.offset,
+            sort,
+        )
+        .await?
+        .mapped(|row| row.get(0, pktype.clone()).map(SqlVal::from))
+        .collect()
+    }
 }
 
 /// [`Query`] operations which require a `Connection`
@@ -265,7 +288,8 @@ pub trait QueryOps<T> {
     /// Executes the query against `conn`.
     async fn load(self, conn: &impl ConnectionMethods) -> Result<QueryResult<T>>;
 
-    /// Executes the query against `conn` and deletes all matching objects.
+    /// Executes the query against `conn` and deletes all matching objects. A limit or
+    /// offset of the query is respected.
     async fn delete(self, conn: &impl ConnectionMethods) -> Result<usize>;
 }
 
@@ -296,7 +320,14 @@ impl<T: DataResult> QueryOps<T> for Query<T> {
             .collect()
     }
     async fn delete(self, conn: &impl ConnectionMethods) -> Result<usize> {
-        conn.delete_where(&self.table, self.filter.unwrap_or(BoolExpr::True))
-            .await
+        let table = self.table.clone();
+        let expr = if self.limit.is_none() && self.offset.is_none() {
+            self.filter.unwrap_or(BoolExpr::True)
+        } else {
+            // Not all backends can limit a deletion
+            let pks: Vec<SqlVal> = QueryOpsInternal::fetch_pks(self, conn).await?;
+            BoolExpr::In(T::DBO::PKCOL, pks)
+        };
+        conn.delete_where(&table, expr).await
     }
 }
-- 
2.43.0


From cb30033ad6098212c477660b0ac24321db073447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:10 +0000
Subject: [PATCH 29/54] fix: don't panic when writing empty SQL of a migration
 to the filesystem

---
 butane_core/src/migrations/fsmigrations.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/butane_core/src/migrations/fsmigrations.rs b/butane_core/src/migrations/fsmigrations.rs
index a1dc4a5..af8b00f 100644
--- a/butane_core/src/migrations/fsmigrations.rs
+++ b/butane_core/src/migrations/fsmigrations.rs
@@ -115,7 +115,7 @@ impl FsMigration {
         self.ensure_dir()?;
         let path = self.root.join(fname);
         let mut contents: Vec<u8> = contents.into();
-        if contents[contents.len() - 1] != b'\n' {
+        if contents.last().is_some_and(|last| *last != b'\n') {
             contents.push(b'\n');
         }
         self.fs
-- 
2.43.0


From 3e298788eff8ced20388fd19ff3d2c3370d203f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:10 +0000
Subject: [PATCH 30/54] fix: clear migrations which were never applied to the
 database

---
 butane_core/src/migrations/mod.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/butane_core/src/migrations/mod.rs b/butane_core/src/migrations/mod.rs
index 782a265..cf58664 100644
--- a/butane_core/src/migrations/mod.rs
+++ b/butane_core/src/migrations/mod.rs
@@ -198,9 +198,11 @@ where
     /// the record of their existence/application from the database. The database
     /// schema is not modified, nor is any other data removed. Use carefully.
     fn clear_migrations(&mut self, conn: &impl ConnectionMethods) -> Result<()> {
-        self.delete_migrations()?;
-        conn.delete_where(ButaneMigration::TABLE, query::BoolExpr::True)?;
-        Ok(())
+        // Nothing may ever have been applied to the database.
+        if conn.has_table(ButaneMigration::TABLE)? {
+            conn.delete_where(ButaneMigration::TABLE, query::BoolExpr::True)?;
+        }
+        self.delete_migrations()
     }
 
     /// Get a pseudo-migration representing the current state.
-- 
2.43.0


From 67a042e442402b812d193d130d8335c1796e699f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:10 +0000
Subject: [PATCH 31/54] fix: let tables be added to an in-memory migration
 before the types they use

---
 butane_core/src/migrations/memmigrations.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/butane_core/src/migrations/memmigrations.rs b/butane_core/src/migrations/memmigrations.rs
index b6ce3f5..1585fae 100644
--- a/butane_core/src/migrations/memmigrations.rs
+++ b/butane_core/src/migrations/memmigrations.rs
@@ -68,7 +68,6 @@ impl Eq for MemMigration {}
 impl MigrationMut for MemMigration {
     fn add_modified_table(&mut self, table: &ATable) -> Result<()> {
         self.db.replace_table(table.clone());
-        self.db.resolve_types()?;
         Ok(())
     }
     #[allow(unused_variables)]
@@ -92,7 +91,6 @@ impl MigrationMut for MemMigration {
     }
     fn add_type(&mut self, key: TypeKey, sqltype: DeferredSqlType) -> Result<()> {
         self.db.add_type(key, sqltype);
-        self.db.resolve_types()?;
         Ok(())
     }
     fn set_migration_from(&mut self, prev: Option<String>) -> Result<()> {
-- 
2.43.0


From c85f5a4924dca7493b39bce4c0b248ebe2d66afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:34 +0000
Subject: [PATCH 32/54] fix: don't store part of a migration whose SQL cannot
 be generated

---
 butane_core/src/migrations/mod.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/butane_core/src/migrations/mod.rs b/butane_core/src/migrations/mod.rs
index cf58664..48904a2 100644
--- a/butane_core/src/migrations/mod.rs
+++ b/butane_core/src/migrations/mod.rs
@@ -273,6 +273,14 @@ where
             ops.push(Operation::AddTableIfNotExists(migrations_table()));
         }
 
+        // Generate everything which may fail before anything is stored
+        let mut sql: Vec<(&'static str, String, String)> = Vec::new();
+        for backend in backends {
+            let up_sql = backend.create_migration_sql(&from_db, ops.clone())?;
+            let down_sql = backend.create_migration_sql(&to_db, adb::diff(&to_db, &from_db))?;
+            sql.push((backend.name(), up_sql, down_sql));
+        }
+
         let mut m = self.new_migration(name);
         // Save the DB for use by other migrations from this one
         for table in to_db.tables() {
@@ -285,10 +293,8 @@ where
             }
         }
 
-        for backend in backends {
-            let up_sql = backend.create_migration_sql(&from_db, ops.clone())?;
-            let down_sql = backend.create_migration_sql(&to_db, adb::diff(&to_db, &from_db))?;
-            m.add_sql(backend.name(), &up_sql, &down_sql)?;
+        for (backend_name, up_sql, down_sql) in &sql {
+            m.add_sql(backend_name, up_sql, down_sql)?;
         }
 
         m.set_migration_from(from.map(|m| m.name().to_string()))?;
-- 
2.43.0


From 42fa26e7387079d88cb7923beba30f4061f60b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:34 +0000
Subject: [PATCH 33/54] fix: refuse to create a migration based on itself

---
 butane_core/src/migrations/mod.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/butane_core/src/migrations/mod.rs b/butane_core/src/migrations/mod.rs
index 48904a2..277eb4e 100644
--- a/butane_core/src/migrations/mod.rs
+++ b/butane_core/src/migrations/mod.rs
@@ -252,6 +252,20 @@ where
             return Ok(false);
         }
 
+        // The series would never end
+        let mut base = from.map(|m| m.name().to_string());
+        while let Some(base_name) = base {
+            if base_name == name {
+                return Err(Error::MigrationError(format!(
+                    "Migration {name} can not be based on itself"
+                )));
+            }
+            base = match self.get_migration(&base_name) {
+                Some(m) => m.migration_from()?.map(|s| s.to_string()),
+                None => None,
+            };
+        }
+
         let mut modified_tables: Vec<String> = Vec::new();
 
         for op in &ops {
-- 
2.43.0


From b75c35f013e21d877455e7fc1c9cebd7b081136e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:34 +0000
Subject: [PATCH 34/54] fix: create a migration in place of a detached one
 without leftovers of that

---
 butane_core/src/migrations/fsmigrations.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/butane_core/src/migrations/fsmigrations.rs b/butane_core/src/migrations/fsmigrations.rs
index af8b00f..d2db61c 100644
--- a/butane_core/src/migrations/fsmigrations.rs
+++ b/butane_core/src/migrations/fsmigrations.rs
@@ -459,10 +459,17 @@ impl MigrationsMut for FsMigrations {
     fn new_migration(&self, name: &str) -> Self::M {
         let mut dir = self.root.clone();
         dir.push(name);
-        FsMigration {
+        let m = FsMigration {
             fs: self.fs.clone(),
             root: dir,
+        };
+        if m.root.is_dir() {
+            // Leave nothing of a (detached) migration which had the same name
+            if let Err(e) = m.delete_db() {
+                crate::warn!("Can not delete {}: {e}", m.root.display());
+            }
         }
+        m
     }
     fn add_migration(&mut self, m: Self::M) -> Result<()> {
         // Update state
-- 
2.43.0


From d2b4f088a9950cebcad738277a707641d3d33187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:34 +0000
Subject: [PATCH 35/54] fix: lock the current migration whenever models and
 types are recorded

---
 butane_core/src/migrations/fsmigrations.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/butane_core/src/migrations/fsmigrations.rs b/butane_core/src/migrations/fsmigrations.rs
index d2db61c..691503a 100644
--- a/butane_core/src/migrations/fsmigrations.rs
+++ b/butane_core/src/migrations/fsmigrations.rs
@@ -178,6 +178,8 @@ impl FsMigration {
 
 impl MigrationMut for FsMigration {
     fn add_modified_table(&mut self, table: &ATable) -> Result<()> {
+        self.ensure_dir()?;
+        let _lock = self.lock_exclusive()?;
         self.write_contents(
             &format!("{}.table", table.name),
             serde_json::to_string_pretty(table)?.as_bytes(),
@@ -241,14 +243,16 @@ impl MigrationMut for FsMigration {
     }
 
     fn add_type(&mut self, key: TypeKey, sqltype: DeferredSqlType) -> Result<()> {
-        let _lock = self.lock_exclusive();
+        self.ensure_dir()?;
+        let _lock = self.lock_exclusive()?;
         let typefile = self.root.join(TYPES_FILENAME);
 
         let mut types: SqlTypeMap = match self.fs.read(&typefile) {
             Ok(reader) => serde_json::from_reader(reader).inspect_err(|_| {
                 eprintln!("failed to read types {typefile:?}");
             })?,
-            Err(_) => BTreeMap::new(),
+            Err(e) if e.kind() == std::io::ErrorKind::NotFound => BTreeMap::new(),
+            Err(e) => return Err(e.into()),
         };
         types.insert(key, sqltype);
         self.write_contents(
-- 
2.43.0


From 8932f6e3075fe601cb5ad53ce84e22986ae8f016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:14 +0000
Subject: [PATCH 36/54] fix: apply no other migrations when migrating to an
 unknown or already applied one

---
 butane_cli/src/lib.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/butane_cli/src/lib.rs b/butane_cli/src/lib.rs
index 4088bc6..ef5ac53 100644
--- a/butane_cli/src/lib.rs
+++ b/butane_cli/src/lib.rs
@@ -266,16 +266,23 @@ pub fn detach_latest_migration(base_dir: &PathBuf) -> Result<()> {
 pub fn migrate(base_dir: &PathBuf, name: Option<String>) -> Result<()> {
     let spec = load_connspec(base_dir)?;
     let mut conn = db::connect(&spec)?;
-    let to_apply = get_migrations(base_dir)?.unapplied_migrations(&conn)?;
+    let ms = get_migrations(base_dir)?;
+    let mut to_apply = ms.unapplied_migrations(&conn)?;
+    if let Some(ref name) = name {
+        if !ms.all_migrations()?.iter().any(|m| m.name() == *name) {
+            eprintln!("No such migration!");
+            std::process::exit(1);
+        }
+        // There is nothing to apply if the named one has already been
+        let end = to_apply.iter().position(|m| m.name() == *name);
+        to_apply.truncate(end.map_or(0, |i| i + 1));
+    }
     println!("{} migrations to apply", to_apply.len());
     for m in to_apply {
         println!("Applying migration {}", m.name());
         m.apply(&mut conn)?;
-        if let Some(ref name) = name {
-            if name == &m.name().to_string() {
-                println!("Finishing at migration {}", m.name());
-                break;
-            }
+        if name.as_deref() == Some(&*m.name()) {
+            println!("Finishing at migration {}", m.name());
         }
     }
     Ok(())
-- 
2.43.0


From d2d03d08d592646d872261ef60be5322c3eaec59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:14 +0000
Subject: [PATCH 37/54] fix: refuse to roll back to a migration that has not
 been applied

---
 butane_cli/src/lib.rs | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/butane_cli/src/lib.rs b/butane_cli/src/lib.rs
index ef5ac53..777ce85 100644
--- a/butane_cli/src/lib.rs
+++ b/butane_cli/src/lib.rs
@@ -324,19 +324,17 @@ pub fn unmigrate_to(base_dir: &Path, mut conn: Connection, to: &str) -> Result<(
         std::process::exit(1);
     }
 
-    let mut to_unapply = ms.migrations_since(&to_migration)?;
-    if to_unapply.is_empty() {
-        return Err(anyhow::anyhow!(
-            "That is the latest migration. No schema change required."
-        ));
-    }
-
-    if *to_unapply.last().unwrap() != latest {
-        let index = to_unapply
-            .iter()
-            .position(|m| m.name() == latest.name())
-            .unwrap();
-        to_unapply = to_unapply.split_at(index + 1).0.into();
+    let mut to_unapply = ms.all_migrations()?;
+    let index = to_unapply.iter().position(|m| *m == to_migration);
+    let latest_index = to_unapply.iter().position(|m| *m == latest);
+    match (index, latest_index) {
+        (Some(index), Some(latest_index)) if index < latest_index => {
+            to_unapply = to_unapply.drain(index + 1..=latest_index).collect();
+        }
+        _ => {
+            eprintln!("That migration has not been applied!");
+            std::process::exit(1);
+        }
     }
 
     for m in to_unapply.into_iter().rev() {
-- 
2.43.0


From 65b6f88581a1208c3026259a28d1c56aada92e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:14 +0000
Subject: [PATCH 38/54] fix: clear the data of tables that refer to others
 first

---
 butane_cli/src/lib.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/butane_cli/src/lib.rs b/butane_cli/src/lib.rs
index 777ce85..87c5d8b 100644
--- a/butane_cli/src/lib.rs
+++ b/butane_cli/src/lib.rs
@@ -657,13 +657,28 @@ pub fn clear_data(base_dir: &PathBuf) -> Result<()> {
             std::process::exit(1);
         }
     };
-    for table in latest.db()?.tables() {
+    let latest_db = latest.db()?;
+    let mut tables: Vec<_> = latest_db.tables().collect();
+    while !tables.is_empty() {
+        // Rows that refer to others have to be deleted before those
+        let next = tables
+            .iter()
+            .position(|t| !tables.iter().any(|u| u.name != t.name && refers_to(u, t)))
+            .unwrap_or(0);
+        let table = tables.remove(next);
         println!("Deleting data from {}", table.name);
         conn.delete_where(&table.name, BoolExpr::True)?;
     }
     Ok(())
 }
 
+fn refers_to(table: &adb::ATable, other: &adb::ATable) -> bool {
+    table
+        .columns
+        .iter()
+        .any(|c| matches!(c.reference(), Some(ARef::Literal(l)) if l.table_name() == other.name))
+}
+
 pub fn clean(base_dir: &Path) -> Result<()> {
     get_migrations(base_dir)?.clear_current()?;
     Ok(())
-- 
2.43.0


From edc1a3451b9a89f6a0648ade78a89f3129d25df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:14 +0000
Subject: [PATCH 39/54] fix: embed migrations whose content would end the raw
 string

---
 butane_cli/src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/butane_cli/src/lib.rs b/butane_cli/src/lib.rs
index 87c5d8b..10ed1ed 100644
--- a/butane_cli/src/lib.rs
+++ b/butane_cli/src/lib.rs
@@ -376,6 +376,11 @@ pub fn embed(base_dir: &Path) -> Result<()> {
         mem_ms.add_migration(new_m)?;
     }
     let json = serde_json::to_string_pretty(&mem_ms)?;
+    // Enough of them that nothing within ends the raw string
+    let mut hashes = "#".to_string();
+    while json.contains(&format!("\"{hashes}")) {
+        hashes.push('#');
+    }
 
     let src = format!(
         "//! Butane migrations embedded in Rust.
@@ -384,7 +389,7 @@ use butane::migrations::MemMigrations;
 
 /// Load the butane migrations embedded in Rust.
 pub fn get_migrations() -> Result<MemMigrations, butane::Error> {{
-    let json = r#\"{json}\"#;
+    let json = r{hashes}\"{json}\"{hashes};
     MemMigrations::from_json(json)
 }}
 "
-- 
2.43.0


From 06e72ab98087484c6ce38ddb572611099e473f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:14 +0000
Subject: [PATCH 40/54] fix: add a backend to all migrations or to none

---
 butane_cli/src/lib.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/butane_cli/src/lib.rs b/butane_cli/src/lib.rs
index 10ed1ed..a9bd818 100644
--- a/butane_cli/src/lib.rs
+++ b/butane_cli/src/lib.rs
@@ -452,13 +452,14 @@ pub fn add_backend(base_dir: &Path, backend_name: &str) -> Result<()> {
     let migrations = get_migrations(base_dir)?;
     let migration_list = migrations.all_migrations()?;
     let mut from_db = adb::ADB::new();
-    for mut m in migration_list {
-        println!("Updating {}", m.name());
+    // Generate everything which may fail before anything is stored
+    let mut sql = Vec::new();
+    for m in &migration_list {
         let to_db = m.db()?;
         let mut ops = diff(&from_db, &to_db);
         assert!(!ops.is_empty());
 
-        if from_db.tables().count() == 0 {
+        if sql.is_empty() {
             // This is the first migration. Create the butane_migration table
             ops.push(adb::Operation::AddTableIfNotExists(
                 migrations::migrations_table(),
@@ -467,10 +468,14 @@ pub fn add_backend(base_dir: &Path, backend_name: &str) -> Result<()> {
 
         let up_sql = backend.create_migration_sql(&from_db, ops)?;
         let down_sql = backend.create_migration_sql(&to_db, diff(&to_db, &from_db))?;
-        m.add_sql(backend.name(), &up_sql, &down_sql)?;
+        sql.push((up_sql, down_sql));
 
         from_db = to_db;
     }
+    for (mut m, (up_sql, down_sql)) in migration_list.into_iter().zip(sql) {
+        println!("Updating {}", m.name());
+        m.add_sql(backend.name(), &up_sql, &down_sql)?;
+    }
 
     update_embedded(base_dir)?;
 
-- 
2.43.0


From 0f6967e9e96c09ec1dd5e4f95091885aa873096a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:14 +0000
Subject: [PATCH 41/54] fix: keep the migrations if they can not be collapsed

---
 butane_cli/src/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/butane_cli/src/lib.rs b/butane_cli/src/lib.rs
index a9bd818..e6a4d57 100644
--- a/butane_cli/src/lib.rs
+++ b/butane_cli/src/lib.rs
@@ -639,6 +639,11 @@ pub fn collapse_migrations(base_dir: &PathBuf, new_initial_name: Option<&String>
     }
 
     let latest_db = latest.unwrap().db()?;
+    // Check that it can be made before anything is removed
+    if !MemMigrations::new().create_migration_to(&backends, &name, None, latest_db.clone())? {
+        eprintln!("There is nothing left to collapse");
+        std::process::exit(1);
+    }
     ms.clear_migrations(&conn)?;
     ms.create_migration_to(&backends, &name, None, latest_db)?;
     let new_migration = ms.latest().unwrap();
-- 
2.43.0


From 0fad2d676dff29e22279ee0b36f45959855ce8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:39 +0000
Subject: [PATCH 42/54] fix: read back built-in PostgreSQL types as what was
 stored

---
 butane_core/src/custom.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/butane_core/src/custom.rs b/butane_core/src/custom.rs
index 8b1fd3e..f78dd9f 100644
--- a/butane_core/src/custom.rs
+++ b/butane_core/src/custom.rs
@@ -177,7 +177,11 @@ mod pgtypeser {
     }
     impl From<SerializablePgType> for postgres::types::Type {
         fn from(spt: SerializablePgType) -> postgres::types::Type {
-            postgres::types::Type::new(spt.name, spt.oid, (*spt.kind).into(), spt.schema)
+            // A type that is built in is not equal to any made by Type::new
+            match postgres::types::Type::from_oid(spt.oid) {
+                Some(ty) if ty.name() == spt.name && ty.schema() == spt.schema => ty,
+                _ => postgres::types::Type::new(spt.name, spt.oid, (*spt.kind).into(), spt.schema),
+            }
         }
     }
 
-- 
2.43.0


From a30b9605da46407f49d4624358bd5c0892c92d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:36 +0000
Subject: [PATCH 43/54] fix: find tables whatever their name

---
 butane_core/src/db/pg.rs     | 12 ++++++++----
 butane_core/src/db/sqlite.rs |  5 +++--
 butane_core/src/db/turso.rs  |  9 +++++++--
 3 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/butane_core/src/db/pg.rs b/butane_core/src/db/pg.rs
index c9cc78f..a0cb2be 100644
--- a/butane_core/src/db/pg.rs
+++ b/butane_core/src/db/pg.rs
@@ -350,10 +350,14 @@ where
         Ok(cnt as usize)
     }
     async fn has_table(&self, table: &str) -> Result<bool> {
-        // future improvement, should be schema-aware
-        let future = self
-            .client()?
-            .prepare("SELECT table_name FROM information_schema.tables WHERE table_name=$1;");
+        // Names are stored in lower case unless they have been quoted
+        let table = match helper::quote_reserved_word(table) {
+            Cow::Borrowed(table) => table.to_ascii_lowercase(),
+            Cow::Owned(_) => table.to_string(),
+        };
+        let future = self.client()?.prepare(
+            "SELECT relname FROM pg_class WHERE oid=to_regclass(quote_ident($1)) AND relkind IN ('r', 'p', 'v', 'm', 'f');",
+        );
         let stmt = future.await?;
         let tableref: &[&(dyn postgres::types::ToSql + Sync)] = &[&table];
         let future = self.client()?.query(&stmt, tableref);
diff --git a/butane_core/src/db/sqlite.rs b/butane_core/src/db/sqlite.rs
index e6a0c9f..3368f40 100644
--- a/butane_core/src/db/sqlite.rs
+++ b/butane_core/src/db/sqlite.rs
@@ -389,8 +389,9 @@ impl ConnectionMethods for rusqlite::Connection {
         Ok(cnt)
     }
     fn has_table(&self, table: &str) -> Result<bool> {
-        let mut stmt =
-            self.prepare("SELECT name FROM sqlite_master WHERE type='table' AND name=?;")?;
+        let mut stmt = self.prepare(
+            "SELECT name FROM sqlite_master WHERE type='table' AND name=? COLLATE NOCASE;",
+        )?;
         let mut rows = stmt.query([table])?;
         Ok(rows.next()?.is_some())
     }
diff --git a/butane_core/src/db/turso.rs b/butane_core/src/db/turso.rs
index d5efd9f..5b3384f 100644
--- a/butane_core/src/db/turso.rs
+++ b/butane_core/src/db/turso.rs
@@ -587,8 +587,13 @@ impl ConnectionMethods for TursoConnection {
 
     async fn has_table(&self, table: &str) -> Result<bool> {
         let _lock = self.lock.lock().await;
-        let sql = "SELECT name FROM sqlite_master WHERE type='table' AND name=?";
-        let params = vec![turso::Value::Text(table.to_string())];
+        // Names are stored in lower case unless they have been quoted
+        let sql =
+            "SELECT name FROM sqlite_master WHERE type='table' AND lower(name) IN (lower(?), ?)";
+        let params = vec![
+            turso::Value::Text(table.to_string()),
+            turso::Value::Text(table.to_lowercase()),
+        ];
         let mut rows = self
             .conn()?
             .query(sql, params)
-- 
2.43.0


From a99382eb2a3aba5daf53f648dbe9108688bd1cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:37 +0000
Subject: [PATCH 44/54] fix: quote reserved words that sqlparser does not know

---
 butane_core/src/db/helper.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/butane_core/src/db/helper.rs b/butane_core/src/db/helper.rs
index a16a7cd..a73d071 100644
--- a/butane_core/src/db/helper.rs
+++ b/butane_core/src/db/helper.rs
@@ -19,9 +19,15 @@ pub(crate) trait PlaceholderSource {
     fn next_placeholder(&mut self) -> Cow<'_, str>;
 }
 
+/// Words reserved by some backend which are unknown to [`sqlparser`].
+const MORE_KEYWORDS: &[&str] = &["ANALYSE", "ISNULL", "VARIADIC"];
+
 /// Quotes the `word` if it is a reserved word.
 pub fn quote_reserved_word(word: &str) -> Cow<'_, str> {
-    if sqlparser::keywords::ALL_KEYWORDS.contains(&word.to_uppercase().as_str()) {
+    let upper = word.to_uppercase();
+    if sqlparser::keywords::ALL_KEYWORDS.contains(&upper.as_str())
+        || MORE_KEYWORDS.contains(&upper.as_str())
+    {
         format!("\"{}\"", word).into()
     } else {
         word.into()
-- 
2.43.0


From 7515bef24cec4593241d76847ade547898c01376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:37 +0000
Subject: [PATCH 45/54] fix: keep columns called true or false when a referred
 table is rebuilt

---
 butane_core/src/db/sqlite.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/butane_core/src/db/sqlite.rs b/butane_core/src/db/sqlite.rs
index 3368f40..5b0ae41 100644
--- a/butane_core/src/db/sqlite.rs
+++ b/butane_core/src/db/sqlite.rs
@@ -889,16 +889,17 @@ fn rebuild_table(current: &mut ADB, new_table: ATable) -> Result<String> {
         [
             "PRAGMA defer_foreign_keys = ON;".to_string(),
             format!(
-                "CREATE TABLE {} AS SELECT * FROM {};",
+                "CREATE TABLE {} AS SELECT {} FROM {};",
                 helper::quote_reserved_word(&tmp_table.name),
+                column_values(old_table, &new_table)?,
                 helper::quote_reserved_word(&old_table.name)
             ),
             drop_table(&old_table.name),
             create_table(&new_table, false),
+            // by position, as not all names of columns are kept by `CREATE TABLE ... AS`
             format!(
-                "INSERT INTO {} SELECT {} FROM {};",
+                "INSERT INTO {} SELECT * FROM {};",
                 helper::quote_reserved_word(&new_table.name),
-                column_values(old_table, &new_table)?,
                 helper::quote_reserved_word(&tmp_table.name)
             ),
             drop_table(&tmp_table.name),
-- 
2.43.0


From 73f4ca7f15cd0a1f46311f18d9b9aa548d231b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:37 +0000
Subject: [PATCH 46/54] fix: name constraints as PostgreSQL does

---
 butane_core/src/db/pg.rs | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/butane_core/src/db/pg.rs b/butane_core/src/db/pg.rs
index a0cb2be..b3ab9d3 100644
--- a/butane_core/src/db/pg.rs
+++ b/butane_core/src/db/pg.rs
@@ -779,20 +779,36 @@ fn remove_column(tbl_name: &str, name: &str) -> String {
     )
 }
 
+/// The longest name, in bytes, which Postgres does not truncate.
+const MAX_NAME_LEN: usize = 63;
+
 /// The name Postgres gives to a constraint.
 fn constraint_name(parts: &[&str], suffix: &str) -> String {
     let quoted = |part: &str| matches!(helper::quote_reserved_word(part), Cow::Owned(_));
-    let name = parts
+    let mut names: Vec<String> = parts
         .iter()
         // Names which are not quoted are folded
         .map(|part| match quoted(part) {
             true => part.to_string(),
-            false => part.to_lowercase(),
+            false => part.to_ascii_lowercase(),
         })
-        .collect::<Vec<String>>()
-        .join("_");
-    if parts.iter().any(|part| quoted(part)) {
-        format!("\"{name}_{suffix}\"")
+        .collect();
+    // Postgres shortens the longest part for the whole to fit.
+    let mut lens: Vec<usize> = names.iter().map(|n| n.len().min(MAX_NAME_LEN)).collect();
+    while lens.iter().map(|len| len + 1).sum::<usize>() + suffix.len() > MAX_NAME_LEN {
+        let (longest, _) = (lens.iter().enumerate())
+            .max_by_key(|(_, len)| **len)
+            .expect("a constraint has a table");
+        lens[longest] -= 1;
+    }
+    let truncated = names.iter().zip(&lens).any(|(n, len)| n.len() > *len);
+    for (name, len) in names.iter_mut().zip(lens) {
+        while name.len() > len {
+            name.pop();
+        }
+    }
+    if truncated || parts.iter().any(|part| quoted(part)) {
+        format!("\"{}_{suffix}\"", names.join("_"))
     } else {
         format!("{}_{suffix}", parts.join("_"))
     }
-- 
2.43.0


From ad7d3a72b2aeafe7dbc03b6d71e4117a4754d4ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:18 +0000
Subject: [PATCH 47/54] fix: write conditions which a column may not be
 mistaken for

---
 butane_core/src/db/helper.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/butane_core/src/db/helper.rs b/butane_core/src/db/helper.rs
index a73d071..7f92842 100644
--- a/butane_core/src/db/helper.rs
+++ b/butane_core/src/db/helper.rs
@@ -59,7 +59,8 @@ where
         },
         Placeholder => w.write_str(&pls.next_placeholder()),
         Condition(c) => match *c {
-            True => write!(w, "TRUE"),
+            // not `TRUE`, which may be the name of a column
+            True => write!(w, "1 = 1"),
             Eq(col, ex) => match ex {
                 Expr::Val(SqlVal::Null) => write!(w, "{} IS NULL", quote_reserved_word(col)),
                 _ => write!(w, "{} = ", quote_reserved_word(col))
@@ -82,7 +83,7 @@ where
                 .and_then(|_| Ok(f(ex, values, pls, w))),
             Like(col, ex) => write!(w, "{} like ", quote_reserved_word(col))
                 .and_then(|_| Ok(f(ex, values, pls, w))),
-            AllOf(conds) if conds.is_empty() => write!(w, "TRUE"),
+            AllOf(conds) if conds.is_empty() => write!(w, "1 = 1"),
             AllOf(conds) => {
                 let mut remaining = conds.len();
                 for cond in conds {
@@ -148,7 +149,7 @@ where
                 Ok(())
             }
             // `IN ()` is not valid SQL on all backends
-            In(_, vals) if vals.is_empty() => write!(w, "FALSE"),
+            In(_, vals) if vals.is_empty() => write!(w, "1 = 0"),
             In(col, vals) => {
                 write!(w, "{} IN (", quote_reserved_word(col)).unwrap();
                 let mut remaining = vals.len();
-- 
2.43.0


From 6c95b4e1ae718d0d68f9b86e03a7514dc5a1ffe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:18 +0000
Subject: [PATCH 48/54] fix: insert into SQLite tables with a column called
 rowid

---
 butane_core/src/db/sqlite.rs | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/butane_core/src/db/sqlite.rs b/butane_core/src/db/sqlite.rs
index 5b0ae41..ca5908a 100644
--- a/butane_core/src/db/sqlite.rs
+++ b/butane_core/src/db/sqlite.rs
@@ -295,21 +295,23 @@ impl ConnectionMethods for rusqlite::Connection {
             &mut SQLitePlaceholderSource::new(),
             &mut sql,
         );
+        write!(
+            &mut sql,
+            " RETURNING {}",
+            helper::quote_reserved_word(pkcol.name())
+        )
+        .unwrap();
         if cfg!(feature = "log") {
             debug!("insert sql {sql}");
             #[cfg(feature = "debug")]
             debug!("values {values:?}");
         }
-        self.execute(&sql, rusqlite::params_from_iter(values))?;
-        let pk: SqlVal = self.query_row_and_then(
-            &format!(
-                "SELECT {} FROM {} WHERE ROWID = last_insert_rowid()",
-                helper::quote_reserved_word(pkcol.name()),
-                helper::quote_reserved_word(table),
-            ),
-            [],
-            |row| sql_val_from_rusqlite(row.get_ref_unwrap(0), pkcol),
-        )?;
+        let mut stmt = self.prepare(&sql)?;
+        let mut rows = stmt.query(rusqlite::params_from_iter(values))?;
+        let row = rows.next()?.ok_or(rusqlite::Error::QueryReturnedNoRows)?;
+        let pk = sql_val_from_rusqlite(row.get_ref_unwrap(0), pkcol)?;
+        // The statement is to run to its end.
+        while rows.next()?.is_some() {}
         Ok(pk)
     }
     fn insert_only(&self, table: &str, columns: &[Column], values: &[SqlValRef<'_>]) -> Result<()> {
-- 
2.43.0


From 1a2f2a393319df0208703c7870438d3b5aaacefe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:39 +0000
Subject: [PATCH 49/54] fix: let filters name fields with raw identifiers

---
 butane_codegen/src/filter.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/butane_codegen/src/filter.rs b/butane_codegen/src/filter.rs
index c8627e6..12cdf4a 100755
--- a/butane_codegen/src/filter.rs
+++ b/butane_codegen/src/filter.rs
@@ -30,7 +30,10 @@ pub fn handle_expr(fields: &impl ToTokens, expr: &Expr) -> TokenStream2 {
 }
 
 fn ident(name: &str) -> Ident {
-    Ident::new(name, Span::call_site())
+    match name.strip_prefix("r#") {
+        Some(raw) => Ident::new_raw(raw, Span::call_site()),
+        None => Ident::new(name, Span::call_site()),
+    }
 }
 
 fn handle_block(block: &syn::Block) -> TokenStream2 {
-- 
2.43.0


From 45ad2ebd8d6a1a11ae1d3c5cf83cce80e5b1f4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:02:25 +0000
Subject: [PATCH 50/54] fix: save objects of a model called Excluded

---
 butane_core/src/db/pg.rs     | 8 +++++++-
 butane_core/src/db/sqlite.rs | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/butane_core/src/db/pg.rs b/butane_core/src/db/pg.rs
index b3ab9d3..ec9a066 100644
--- a/butane_core/src/db/pg.rs
+++ b/butane_core/src/db/pg.rs
@@ -961,7 +961,13 @@ pub fn sql_insert_or_replace_with_placeholders(
     w: &mut impl Write,
 ) {
     write!(w, "INSERT ").unwrap();
-    write!(w, "INTO {} (", helper::quote_reserved_word(table)).unwrap();
+    // A table which is itself called `excluded` is not to be mistaken for the row that was not inserted.
+    write!(
+        w,
+        "INTO {} AS existing (",
+        helper::quote_reserved_word(table)
+    )
+    .unwrap();
     helper::list_columns(columns, w);
     write!(w, ") VALUES (").unwrap();
     columns.iter().fold(1, |n, _| {
diff --git a/butane_core/src/db/sqlite.rs b/butane_core/src/db/sqlite.rs
index ca5908a..2f5cd24 100644
--- a/butane_core/src/db/sqlite.rs
+++ b/butane_core/src/db/sqlite.rs
@@ -927,7 +927,13 @@ fn rebuild_table(current: &mut ADB, new_table: ATable) -> Result<String> {
 /// Write SQL that performs an insert or update.
 pub fn sql_insert_or_update(table: &str, columns: &[Column], pkcol: &Column, w: &mut impl Write) {
     write!(w, "INSERT ").unwrap();
-    write!(w, "INTO {} (", helper::quote_reserved_word(table)).unwrap();
+    // A table which is itself called `excluded` is not to be mistaken for the row that was not inserted.
+    write!(
+        w,
+        "INTO {} AS existing (",
+        helper::quote_reserved_word(table)
+    )
+    .unwrap();
     helper::list_columns(columns, w);
     write!(w, ") VALUES (").unwrap();
     columns.iter().fold("", |sep, _| {
-- 
2.43.0


From 2f180faad9bf70176733fedfe070cf34b07ba327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:29:14 +0000
Subject: [PATCH 51/54] fix: know types by paths from the root and primitives
 by paths

---
 butane_core/src/codegen/mod.rs | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/butane_core/src/codegen/mod.rs b/butane_core/src/codegen/mod.rs
index 6813275..3584e11 100644
--- a/butane_core/src/codegen/mod.rs
+++ b/butane_core/src/codegen/mod.rs
@@ -526,7 +526,16 @@ fn some_known(ty: SqlType) -> Option<DeferredSqlType> {
 
 /// If the field refers to a primitive, return its SqlType.
 pub fn get_primitive_sql_type(path: &syn::Path) -> Option<DeferredSqlType> {
-    let path = &path.strip_raw();
+    let mut path = path.strip_raw();
+    // `::uuid::Uuid` is `uuid::Uuid`, and `std::primitive::bool` is `bool`
+    path.leading_colon = None;
+    if path.segments.len() == 3
+        && (path.segments[0].ident == "std" || path.segments[0].ident == "core")
+        && path.segments[1].ident == "primitive"
+    {
+        path = path.segments[2].clone().into();
+    }
+    let path = &path;
     if *path == parse_quote!(bool) {
         return some_known(SqlType::Bool);
     } else if *path == parse_quote!(u8)
@@ -543,15 +552,9 @@ pub fn get_primitive_sql_type(path: &syn::Path) -> Option<DeferredSqlType> {
         return some_known(SqlType::BigInt);
     } else if *path == parse_quote!(f32) || *path == parse_quote!(f64) {
         return some_known(SqlType::Real);
-    } else if *path == parse_quote!(String)
-        || *path == parse_quote!(std::string::String)
-        || *path == parse_quote!(::std::string::String)
-    {
+    } else if *path == parse_quote!(String) || *path == parse_quote!(std::string::String) {
         return some_known(SqlType::Text);
-    } else if *path == parse_quote!(Vec<u8>)
-        || *path == parse_quote!(std::vec::Vec<u8>)
-        || *path == parse_quote!(::std::vec::Vec<u8>)
-    {
+    } else if *path == parse_quote!(Vec<u8>) || *path == parse_quote!(std::vec::Vec<u8>) {
         return some_known(SqlType::Blob);
     }
 
-- 
2.43.0


From 22acc656d6c14865e8033c33d58cf9f25fd62e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:29:14 +0000
Subject: [PATCH 52/54] fix: resolve custom types given by qualified paths

---
 butane_core/src/codegen/mod.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/butane_core/src/codegen/mod.rs b/butane_core/src/codegen/mod.rs
index 3584e11..d5f4139 100644
--- a/butane_core/src/codegen/mod.rs
+++ b/butane_core/src/codegen/mod.rs
@@ -485,12 +485,13 @@ pub fn get_deferred_sql_type(path: &syn::Path) -> DeferredSqlType {
         .or_else(|| get_foreign_sql_type(path, "ForeignKey"))
         .or_else(|| get_autopk_sql_type(path))
         .unwrap_or_else(|| {
-            DeferredSqlType::Deferred(TypeKey::CustomType(
-                path.strip_raw()
-                    .into_token_stream()
-                    .to_string()
-                    .replace(' ', ""),
-            ))
+            let path = path.strip_raw();
+            // `#[butane_type]` records the type by its name alone
+            let name = match path.segments.last() {
+                Some(seg) if seg.arguments.is_none() => seg.into_token_stream(),
+                _ => path.into_token_stream(),
+            };
+            DeferredSqlType::Deferred(TypeKey::CustomType(name.to_string().replace(' ', "")))
         })
 }
 
-- 
2.43.0


From c132a80766fe937c9d809c7c3f4babe02c53d329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:07 +0000
Subject: [PATCH 53/54] fix: refer to a model when another has a table of its
 name

---
 butane_core/src/migrations/adb.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/butane_core/src/migrations/adb.rs b/butane_core/src/migrations/adb.rs
index 0fef916..6e17714 100644
--- a/butane_core/src/migrations/adb.rs
+++ b/butane_core/src/migrations/adb.rs
@@ -223,7 +223,13 @@ impl ADB {
             for table in &mut self.tables.values_mut() {
                 if let Some(pk) = table.pk() {
                     let pktype = pk.typeid();
-                    if let Ok(pktype) = pktype {
+                    // The model with the name of this table may have another table
+                    let is_models = match self.extra_types.get(&TypeKey::PK(table.name.clone())) {
+                        Some(DeferredSqlType::Deferred(TypeKey::PK(name))) => *name == table.name,
+                        Some(_) => false,
+                        None => true,
+                    };
+                    if let (Ok(pktype), true) = (pktype, is_models) {
                         changed |= resolver.insert_pk(&table.name, pktype.clone());
                     }
                 } else if !table.name.ends_with(MANY_SUFFIX) {
@@ -243,7 +249,15 @@ impl ADB {
                         changed |= resolver.insert(key.clone(), ty.clone()) || changed;
                     }
                     DeferredSqlType::Deferred(tykey) => {
-                        if let Some(sqltype) = resolver.find_type(tykey) {
+                        let sqltype = match tykey {
+                            TypeKey::PK(table) => self
+                                .tables
+                                .get(table)
+                                .and_then(|table| table.pk())
+                                .and_then(|pk| pk.typeid().ok()),
+                            _ => resolver.find_type(tykey),
+                        };
+                        if let Some(sqltype) = sqltype {
                             *ty = sqltype.into();
                             changed = true;
                         }
-- 
2.43.0


From 3ca50a628538d4e770774e960c794968c8b1c769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:39:59 +0000
Subject: [PATCH 54/54] fix: know maps by paths from the root

---
 butane_core/src/codegen/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/butane_core/src/codegen/mod.rs b/butane_core/src/codegen/mod.rs
index d5f4139..fd1efee 100644
--- a/butane_core/src/codegen/mod.rs
+++ b/butane_core/src/codegen/mod.rs
@@ -485,7 +485,8 @@ pub fn get_deferred_sql_type(path: &syn::Path) -> DeferredSqlType {
         .or_else(|| get_foreign_sql_type(path, "ForeignKey"))
         .or_else(|| get_autopk_sql_type(path))
         .unwrap_or_else(|| {
-            let path = path.strip_raw();
+            let mut path = path.strip_raw();
+            path.leading_colon = None;
             // `#[butane_type]` records the type by its name alone
             let name = match path.segments.last() {
                 Some(seg) if seg.arguments.is_none() => seg.into_token_stream(),
-- 
2.43.0

