//! Schema.tla: migrations generated between schemas (G02).
use crate::core::*;
use crate::on;
use crate::w_migr::{insert, rows, ty, Coll};
use crate::w_txn::{drive, Conn};
use butane::db::{ConnectionMethods, ConnectionSpec};
use butane::migrations::adb::{create_many_table, AColumn, ARef, ARefLiteral, ATable, DeferredSqlType, TypeIdentifier, TypeKey, ADB};
use butane::migrations::{MemMigrations, Migration, Migrations, MigrationsMut};
use butane::{SqlType, SqlVal};
use serde_json::Value;
use std::collections::BTreeSet;
use std::sync::atomic::{AtomicUsize, Ordering};

struct Names {
    a: &'static str,
    b: &'static str,
    id: &'static str,
    x: &'static str,
    r: &'static str,
    m: &'static str,
}
const NAMES: &[Names] = &[
    Names { a: "Alpha", b: "Beta", id: "id", x: "extra", r: "refers", m: "many" },
    // in the other alphabetical order
    Names { a: "Zeta", b: "Beta", id: "key_", x: "a1", r: "z9", m: "m" },
    Names { a: "Order", b: "Group", id: "from", x: "where", r: "select", m: "in" },
    Names { a: "user", b: "Table", id: "primary", x: "Values", r: "references", m: "check" },
];
const LOWER: &[Names] = &[
    Names { a: "alpha", b: "beta", id: "id", x: "extra", r: "refers", m: "many" },
    Names { a: "zeta", b: "beta", id: "key_", x: "a1", r: "z9", m: "m" },
];

fn copy_dir(from: &std::path::Path, to: &std::path::Path) -> std::io::Result<()> {
    std::fs::create_dir_all(to)?;
    for e in std::fs::read_dir(from)? {
        let e = e?;
        let t = to.join(e.file_name());
        if e.file_type()?.is_dir() {
            copy_dir(&e.path(), &t)?;
        } else {
            std::fs::copy(e.path(), t)?;
        }
    }
    Ok(())
}

struct W {
    be: String,
    names: &'static Names,
    /// the types called t1 and t2, k1 and k2
    t: [SqlType; 2],
    k: [SqlType; 2],
    auto: bool,
    /// where the migrations are kept on disk, if so
    dir: Option<tempfile::TempDir>,
    stack: Vec<Coll>,
    n: usize,
    ended: bool,
}
fn date(d: i64) -> chrono::NaiveDate {
    chrono::NaiveDate::from_ymd_opt(2024, 2, 28).unwrap() + chrono::Duration::days(d)
}
/// The value a token stands for.
fn value(t: &SqlType, tok: &str) -> SqlVal {
    let i = match tok {
        "n" => return SqlVal::Null,
        "z" => 0,
        "1" | "v1" => 1,
        "2" | "v2" => 2,
        "d" => 3,
        x => panic!("value {x}"),
    };
    let ints = [0i64, 5, -7, 42];
    match t {
        SqlType::Bool => SqlVal::Bool(i == 1 || i == 3),
        SqlType::Int => SqlVal::Int(ints[i] as i32),
        SqlType::BigInt => SqlVal::BigInt(ints[i]),
        SqlType::Real => SqlVal::Real([0.0, 1.5, -2.25, 1e10][i]),
        SqlType::Text => SqlVal::Text(["", "it's; one", "two \\ \"q\"", "de'f;--"][i].into()),
        SqlType::Blob => SqlVal::Blob([&[][..], &[0, 1, 255], b"x';", &[39, 59, 0]][i].to_vec()),
        SqlType::Date => SqlVal::Date(if i == 0 { chrono::NaiveDate::from_ymd_opt(1, 1, 1).unwrap() } else { date(i as i64) }),
        SqlType::Timestamp => SqlVal::Timestamp(if i == 0 {
            chrono::DateTime::from_timestamp(0, 0).unwrap().naive_utc()
        } else {
            date(i as i64).and_hms_micro_opt(23, 59, 58, [0, 0, 120000, 123456][i]).unwrap()
        }),
        SqlType::Json => SqlVal::Json([serde_json::Value::Null, serde_json::json!({"a": [1, "it's"]}), serde_json::json!([]), serde_json::json!({"d;": null})][i].clone()),
        t => panic!("{t:?}"),
    }
}
fn name_of(be: &str, t: &SqlType) -> &'static str {
    match (be == "pg", t) {
        (true, SqlType::Bool) => "boolean",
        (true, SqlType::Int) => "integer",
        (true, SqlType::BigInt) => "bigint",
        (true, SqlType::Real) => "double precision",
        (true, SqlType::Text) => "text",
        (true, SqlType::Blob) => "bytea",
        (true, SqlType::Date) => "date",
        (true, SqlType::Timestamp) => "timestamp without time zone",
        (true, SqlType::Json) => "jsonb",
        (_, SqlType::Bool | SqlType::Int | SqlType::BigInt) => "integer",
        (_, SqlType::Real) => "real",
        (_, SqlType::Blob) => "blob",
        (_, _) => "text",
    }
}
fn there(v: &Value) -> Option<&Value> {
    Some(v).filter(|v| v.is_object())
}
fn tx(v: &SqlVal) -> String {
    match v {
        SqlVal::Text(s) => s.to_lowercase(),
        SqlVal::Int(i) => i.to_string(),
        SqlVal::BigInt(i) => i.to_string(),
        v => format!("{v:?}"),
    }
}

impl W {
    fn new(lane: &Lane, walk: &Walk) -> W {
        let mut rng = Rng::new(walk.seed);
        let text = serde_json::to_string(&walk.steps).unwrap();
        let conv = walk.variant.starts_with("conv");
        let names = match lane.backend.as_str() {
            // capitals and keywords: see turso-add-column, turso-alter-keyword
            "turso" => &LOWER[rng.below(2)],
            _ if walk.variant.ends_with("kw") => &NAMES[2 + rng.below(2)],
            _ => &NAMES[rng.below(2)],
        };
        let mut pool = vec![SqlType::Int, SqlType::BigInt, SqlType::Real, SqlType::Text, SqlType::Blob, SqlType::Date, SqlType::Timestamp, SqlType::Json];
        if !text.contains("\"uniq\":true") {
            pool.push(SqlType::Bool);
        }
        let mut t = rng.pick(&pool, 2);
        let mut k = rng.pick(&[SqlType::Int, SqlType::BigInt, SqlType::Text, SqlType::Blob], 2);
        if conv {
            t = rng.pick(&[SqlType::Int, SqlType::BigInt], 2);
            k = rng.pick(&[SqlType::Int, SqlType::BigInt], 2);
        }
        let ints = |t: &SqlType| matches!(t, SqlType::Int | SqlType::BigInt);
        let auto = ints(&k[0]) && (conv || !text.contains("k2")) && rng.below(2) == 0;
        // kept in memory or on disk
        let dir = (rng.below(10) == 0).then(|| tempfile::Builder::new().prefix("bh-schema").tempdir().unwrap());
        let stack = vec![match &dir {
            None => Coll::Mem(MemMigrations::new()),
            Some(d) => Coll::Fs(butane::migrations::from_root(d.path().join("0"))),
        }];
        W { be: lane.backend.clone(), names, t: [t[0].clone(), t[1].clone()], k: [k[0].clone(), k[1].clone()], auto, dir, stack, n: 0, ended: false }
    }
    fn key(&self, s: &Value) -> SqlType {
        self.k[(s["key"] == "k2") as usize].clone()
    }
    fn ty(&self, s: &Value, def: &Value) -> SqlType {
        match def["ty"].as_str().unwrap() {
            "key" => self.key(s),
            "t1" => self.t[0].clone(),
            _ => self.t[1].clone(),
        }
    }
    /// name, contents of the specification, columns as (key in the specification, name)
    fn tables(&self) -> [(&'static str, &'static str); 2] {
        [("A", self.names.a), ("B", self.names.b)]
    }
    fn cols(&self) -> [(&'static str, &'static str); 2] {
        [("x", self.names.x), ("r", self.names.r)]
    }
    fn tname(&self, t: &str) -> &'static str {
        if t == "A" { self.names.a } else { self.names.b }
    }
    fn many(&self) -> String {
        format!("{}_{}_Many", self.names.a, self.names.m)
    }
    fn adb(&self, s: &Value) -> ADB {
        let mut db = ADB::new();
        for (t, name) in self.tables() {
            let Some(tab) = there(&s[t]) else { continue };
            let mut at = ATable::new(name.to_string());
            at.add_column(AColumn::new(self.names.id, ty(self.key(s)), false, true, self.auto, false, None, None));
            for (c, cname) in self.cols() {
                let Some(d) = there(&tab[c]) else { continue };
                let b = |k: &str| d[k].as_bool().unwrap();
                let cty = self.ty(s, d);
                let default = b("def").then(|| value(&cty, "d"));
                let refers = Some(d["ref"].as_str().unwrap()).filter(|r| !r.is_empty()).map(|r| self.tname(r));
                let (sqltype, reference) = match refers {
                    // as the model macro declares them, or already resolved
                    Some(r) if self.n % 2 == 0 => (DeferredSqlType::Deferred(TypeKey::PK(r.into())), Some(ARef::Deferred(DeferredSqlType::Deferred(TypeKey::PK(r.into()))))),
                    Some(r) => (ty(cty), Some(ARef::Literal(ARefLiteral::new(r, self.names.id)))),
                    None => (ty(cty), None),
                };
                at.add_column(AColumn::new(cname, sqltype, b("nul"), false, false, b("uniq"), default, reference));
            }
            db.replace_table(at);
        }
        if s["M"] == true {
            db.replace_table(create_many_table(
                self.names.a,
                self.names.m,
                DeferredSqlType::Deferred(TypeKey::PK(self.names.b.into())),
                self.names.id,
                DeferredSqlType::KnownId(TypeIdentifier::Ty(self.key(s))),
            ));
        }
        db.resolve_types().unwrap();
        db
    }
    /// The catalog a schema should have.
    fn want(&self, s: &Value) -> BTreeSet<String> {
        let mut out = BTreeSet::new();
        let id = self.names.id;
        let key = name_of(&self.be, &self.key(s));
        let mut add = |x: String| {
            out.insert(x.to_lowercase());
        };
        for (t, name) in self.tables() {
            let Some(tab) = there(&s[t]) else { continue };
            add(format!("table {name}"));
            add(format!("{name}.{id} {key} not null"));
            add(format!("{name} key {id}"));
            for (c, cname) in self.cols() {
                let Some(d) = there(&tab[c]) else { continue };
                add(format!("{name}.{cname} {} {}", name_of(&self.be, &self.ty(s, d)), if d["nul"] == true { "null" } else { "not null" }));
                if d["uniq"] == true {
                    add(format!("{name} unique {cname}"));
                }
                let r = d["ref"].as_str().unwrap();
                if !r.is_empty() {
                    add(format!("{name} {cname} refers to {}.{id}", self.tname(r)));
                }
            }
        }
        if s["M"] == true {
            let m = self.many();
            add(format!("table {m}"));
            for (c, r) in [("owner", self.names.a), ("has", self.names.b)] {
                add(format!("{m}.{c} {key} not null"));
                add(format!("{m} {c} refers to {r}.{id}"));
            }
        }
        out
    }
    async fn lite(c: C<'_>) -> butane::Result<BTreeSet<String>> {
        let mut out = BTreeSet::new();
        let (tx_, int) = (SqlType::Text, SqlType::BigInt);
        for t in rows(c, "sqlite_master", &[("type", tx_.clone()), ("name", tx_.clone())]).await? {
            let name = match &t[1] {
                SqlVal::Text(s) => s.clone(),
                _ => continue,
            };
            if tx(&t[0]) != "table" || name == "butane_migrations" || name.starts_with("sqlite_") {
                continue;
            }
            let n = name.to_lowercase();
            out.insert(format!("table {n}"));
            let q = name.replace('\'', "''");
            for r in rows(c, &format!("pragma_table_info('{q}')"), &[("name", tx_.clone()), ("type", tx_.clone()), ("notnull", int.clone()), ("pk", int.clone())]).await? {
                out.insert(format!("{n}.{} {} {}", tx(&r[0]), tx(&r[1]), if tx(&r[2]) == "0" { "null" } else { "not null" }));
                if tx(&r[3]) != "0" {
                    out.insert(format!("{n} key {}", tx(&r[0])));
                }
            }
            for r in rows(c, &format!("pragma_foreign_key_list('{q}')"), &[("from", tx_.clone()), ("table", tx_.clone()), ("to", tx_.clone())]).await? {
                out.insert(format!("{n} {} refers to {}.{}", tx(&r[0]), tx(&r[1]), tx(&r[2])));
            }
            for r in rows(c, &format!("pragma_index_list('{q}')"), &[("name", tx_.clone()), ("unique", int.clone()), ("origin", tx_.clone())]).await? {
                if tx(&r[2]) == "u" {
                    let SqlVal::Text(ix) = &r[0] else { continue };
                    let cs: Vec<String> = rows(c, &format!("pragma_index_info('{ix}')"), &[("name", tx_.clone())]).await?.iter().map(|r| tx(&r[0])).collect();
                    out.insert(format!("{n} unique {}", cs.join(",")));
                }
            }
        }
        Ok(out)
    }
    async fn catalog(&self, c: C<'_>) -> std::result::Result<BTreeSet<String>, String> {
        let e = |e: butane::Error| format!("reading the catalog: {e}");
        let t = SqlType::Text;
        let strip = |s: &SqlVal| tx(s).replace('"', "");
        match self.be.as_str() {
            "sqlite" => Self::lite(c).await.map_err(e),
            "turso" => {
                // let SQLite interpret the definitions
                let defs = rows(c, "sqlite_master", &[("name", t.clone()), ("sql", t)]).await.map_err(e)?;
                let l = backend("sqlite").connect(":memory:").unwrap();
                for d in defs {
                    if let (SqlVal::Text(n), SqlVal::Text(sql)) = (&d[0], &d[1]) {
                        if !n.starts_with("sqlite_") && !n.starts_with("__turso") {
                            ConnectionMethods::execute(&l, sql).map_err(|e| format!("definition {sql}: {e}"))?;
                        }
                    }
                }
                Self::lite(C::S(DynS(&l))).await.map_err(e)
            }
            _ => {
                let mut out = BTreeSet::new();
                for r in rows(c, "bh.cols", &[("t", t.clone()), ("c", t.clone()), ("ty", t.clone()), ("n", t.clone())]).await.map_err(e)? {
                    if tx(&r[0]) == "butane_migrations" {
                        continue;
                    }
                    out.insert(format!("table {}", tx(&r[0])));
                    out.insert(format!("{}.{} {} {}", tx(&r[0]), tx(&r[1]), tx(&r[2]), if tx(&r[3]) == "yes" { "null" } else { "not null" }));
                }
                for r in rows(c, "bh.cons", &[("t", t.clone()), ("k", t.clone()), ("d", t.clone())]).await.map_err(e)? {
                    let tab = strip(&r[0]);
                    if tab == "butane_migrations" {
                        continue;
                    }
                    let d = strip(&r[2]);
                    match tx(&r[1]).as_str() {
                        "p" => out.insert(format!("{tab} key {}", d.trim_start_matches("primary key (").trim_end_matches(')'))),
                        "u" => out.insert(format!("{tab} unique {}", d.trim_start_matches("unique (").trim_end_matches(')'))),
                        "f" => {
                            let d = d.trim_start_matches("foreign key (").replace(") references ", " refers to ").replace('(', ".").replace(')', "");
                            out.insert(format!("{tab} {d}"))
                        }
                        _ => true,
                    };
                }
                Ok(out)
            }
        }
    }
    async fn check(&self, c: C<'_>, st: &Value, what: &str) -> Check {
        let none = serde_json::json!({"A": [], "B": [], "M": false, "key": "k1"});
        let s = st["h"].as_array().unwrap().last().unwrap_or(&none);
        let (want, got) = (self.want(s), self.catalog(c).await?);
        ensure(want == got, || {
            format!("{what}: the database lacks {:?} and has in excess {:?}", want.difference(&got).collect::<Vec<_>>(), got.difference(&want).collect::<Vec<_>>())
        })?;
        for (t, name) in self.tables() {
            let Some(tab) = there(&s[t]) else { continue };
            let mut cs = vec![(self.names.id, self.key(s))];
            for (c, cname) in self.cols() {
                if let Some(d) = there(&tab[c]) {
                    cs.push((cname, self.ty(s, d)));
                }
            }
            let mut got = rows(c, name, &cs).await.map_err(|e| format!("{what}: reading {name}: {e}"))?;
            let mut want: Vec<Vec<SqlVal>> = vec![];
            for (i, row) in st["d"][t].as_array().unwrap().iter().enumerate() {
                let mut v = vec![value(&cs[0].1, ["1", "2"][i])];
                for (c, _) in self.cols() {
                    if there(&tab[c]).is_some() {
                        let tk = row[c].as_str().unwrap();
                        v.push(value(&cs[v.len()].1, tk));
                    }
                }
                want.push(v);
            }
            got.sort_by_key(|r| format!("{:?}", r[0]));
            want.sort_by_key(|r| format!("{:?}", r[0]));
            ensure(format!("{got:?}") == format!("{want:?}"), || format!("{what}: rows of {name}: {got:?}, specified {want:?}"))?;
        }
        if s["M"] == true {
            let k = self.key(s);
            let got = rows(c, &self.many(), &[("owner", k.clone()), ("has", k.clone())]).await.map_err(|e| format!("{what}: reading {}: {e}", self.many()))?;
            let want: Vec<Vec<SqlVal>> = if st["d"]["M"] == true { vec![vec![value(&k, "1"), value(&k, "2")]] } else { vec![] };
            ensure(got == want, || format!("{what}: relations {got:?}, specified {want:?}"))?;
        }
        Ok(())
    }
    async fn fill(&self, c: C<'_>, from: &Value, st: &Value) -> butane::Result<()> {
        let s = st["h"].as_array().unwrap().last().unwrap();
        for t in ["B", "A"] {
            let Some(tab) = there(&s[t]) else { continue };
            if !from[t].as_array().unwrap().is_empty() {
                continue;
            }
            let mut cs = vec![(self.names.id, self.key(s))];
            for (c, cname) in self.cols() {
                if let Some(d) = there(&tab[c]) {
                    cs.push((cname, self.ty(s, d)));
                }
            }
            // rows that refer to later rows of their table come after them
            for (i, row) in st["d"][t].as_array().unwrap().iter().enumerate() {
                let mut v = vec![value(&cs[0].1, ["1", "2"][i])];
                for (c, _) in self.cols() {
                    if there(&tab[c]).is_some() {
                        v.push(value(&cs[v.len()].1, row[c].as_str().unwrap()));
                    }
                }
                insert(c, self.tname(t), &cs, &v).await?;
            }
        }
        if s["M"] == true && from["M"] != true {
            let k = self.key(s);
            insert(c, &self.many(), &[("owner", k.clone()), ("has", k.clone())], &[value(&k, "1"), value(&k, "2")]).await?;
        }
        Ok(())
    }
    async fn step(&mut self, conn: &mut Conn, before: &Value, step: &Step) -> Check {
        let ev = &step.ev;
        let op = ev["op"].as_str().unwrap();
        let r = match op {
            "fill" => self.fill(conn.c(), &before["d"], &step.st).await.map_err(|e| format!("writing rows: {e}")).map(|_| Ok(()))?,
            "evolve" => {
                self.n += 1;
                let mut m = match (self.stack.last().unwrap(), &self.dir) {
                    (Coll::Mem(m), _) => Coll::Mem(m.clone()),
                    (_, Some(d)) => {
                        let old = d.path().join((self.stack.len() - 1).to_string());
                        let new = d.path().join(self.stack.len().to_string());
                        let _ = std::fs::remove_dir_all(&new);
                        if old.exists() {
                            copy_dir(&old, &new).map_err(|e| format!("copying the migrations: {e}"))?;
                        }
                        Coll::Fs(butane::migrations::from_root(new))
                    }
                    _ => unreachable!(),
                };
                let to = self.adb(&ev["to"]);
                let be = nonempty::nonempty![backend(&self.be)];
                let name = format!("m{}", self.n);
                let made = on!(&mut m, m => {
                    let latest = m.latest();
                    m.create_migration_to(&be, &name, latest.as_ref(), to.clone())
                })
                .map_err(|e| format!("create_migration_to: {e}"))?;
                // from nothing to a schema without tables is no change
                let none = before["h"].as_array().unwrap().is_empty() && to.tables().next().is_none();
                if none {
                    self.ended = true;
                    return ensure(!made, || "a migration was made between equal schemas".into());
                }
                let differ = ev["res"] != "none";
                if !differ {
                    return ensure(!made, || "a migration was made between equal schemas".into());
                }
                if !made && differ {
                    // schemas which differ only in what does not show in them (the name of a missing table's key type)
                    let last = before["h"].as_array().unwrap().last().unwrap();
                    let same = self.want(last) == self.want(&ev["to"]) && !last.to_string().contains("\"def\"");
                    self.ended = true;
                    return ensure(same, || "no migration was made although the schemas differ".into());
                }
                let a = on!(&m, m => m.latest().unwrap().db()).map_err(|e| e.to_string())?;
                let b = &to;
                ensure(a.tables().eq(b.tables()), || format!("the migration records the schema {a:?} instead of {b:?}"))?;
                self.stack.push(m);
                match (self.stack.last().unwrap(), &mut *conn) {
                    (Coll::Mem(m), Conn::S(c)) => m.migrate(c),
                    (Coll::Fs(m), Conn::S(c)) => m.migrate(c),
                    (Coll::Mem(m), Conn::A(c)) => m.clone().migrate_async(c).await,
                    (Coll::Fs(m), Conn::A(c)) => m.clone().migrate_async(c).await,
                }
            }
            "undo" => on!(self.stack.last().unwrap(), m => {
                let l = m.latest().unwrap();
                match conn {
                    Conn::S(c) => l.downgrade(c),
                    Conn::A(c) => c.with_sync(move |c| l.downgrade(c)).await,
                }
            }),
            o => panic!("{o}"),
        };
        let sql = || {
            let s = on!(self.stack.last().unwrap(), m => {
                let l = m.latest().unwrap();
                if op == "undo" { l.down_sql(&self.be) } else { l.up_sql(&self.be) }
            });
            s.unwrap().unwrap_or_default()
        };
        if self.be == "turso" {
            if let Err(e) = &r {
                if e.to_string().contains("table being renamed should be in schema") || e.to_string().contains("__butane_tmp_1\" already exists") {
                    known("turso-rebuild");
                    self.ended = true;
                    return Ok(());
                }
            }
        }
        let what = if op == "fill" { op.into() } else { format!("{op} by {}", sql()) };
        ensure((ev["res"] == "ok") == r.is_ok(), || format!("{what} gave {}, specified {}", text(&r), ev["res"]))?;
        let r = self.check(conn.c(), &step.st, &what).await;
        match (op, ev["res"] == "ok") {
            ("evolve", false) | ("undo", true) => {
                self.stack.pop();
            }
            _ => {}
        }
        r
    }
}

pub fn batch(lane: &Lane, walks: &[Walk], beat: &Beat, stop: &AtomicUsize, steps: &AtomicUsize) -> Vec<Mismatch> {
    set_backend(&lane.backend);
    let mut out = vec![];
    let pg = (lane.backend == "pg").then(|| scratch("pg", true));
    let r: std::result::Result<(), (Walk, usize, String)> = drive(lane, async {
        let fresh = || async {
            let spec = match &pg {
                Some(s) => s.spec.clone(),
                None => ConnectionSpec::new(lane.backend.clone(), ":memory:"),
            };
            Conn::open(lane, &spec).await
        };
        let mut conn = fresh().await;
        for walk in walks {
            if stop.load(Ordering::Relaxed) > 3 {
                break;
            }
            *beat.since.lock().unwrap() = Some((std::time::Instant::now(), lane.name.clone(), walk.clone()));
            if pg.is_some() {
                exec(
                    conn.c(),
                    "DROP SCHEMA public CASCADE; CREATE SCHEMA public; DROP SCHEMA IF EXISTS bh CASCADE; CREATE SCHEMA bh; \
                     CREATE VIEW bh.cols AS SELECT table_name::text AS t, column_name::text AS c, data_type::text AS ty, is_nullable::text AS n FROM information_schema.columns WHERE table_schema = 'public'; \
                     CREATE VIEW bh.cons AS SELECT conrelid::regclass::text AS t, contype::text AS k, pg_get_constraintdef(oid)::text AS d FROM pg_constraint WHERE connamespace = 'public'::regnamespace;",
                )
                .await
                .unwrap();
            } else {
                conn = fresh().await;
            }
            let mut w = W::new(lane, walk);
            let mut before = serde_json::json!({"h": [], "d": {"A": [], "B": [], "M": false}});
            for (i, s) in walk.steps.iter().enumerate() {
                beat.at.store(i, Ordering::Relaxed);
                let r = catch(w.step(&mut conn, &before, s)).await.unwrap_or_else(Err);
                steps.fetch_add(1, Ordering::Relaxed);
                r.map_err(|e| (walk.clone(), i, e))?;
                before = s.st.clone();
                if w.ended {
                    break;
                }
            }
        }
        Ok(())
    });
    if let Err((walk, i, m)) = r {
        stop.fetch_add(1, Ordering::Relaxed);
        out.push(Mismatch { lane: lane.name.clone(), walk, failed_step: i, message: m });
    }
    *beat.since.lock().unwrap() = None;
    out
}
