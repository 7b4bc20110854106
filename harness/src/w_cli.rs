//! Cli.tla: the command line tool (C01).
use crate::core::*;
use crate::w_migr::{insert, rows, ty};
use crate::w_txn::{drive, Conn};
use butane::custom::SqlTypeCustom;
use butane::db::{Backend, ConnectionSpec};
use butane::migrations::adb::{AColumn, ARef, ARefLiteral, ATable, DeferredSqlType, TypeIdentifier, ADB};
use butane::migrations::{from_root, FsMigrations, MemMigrations, Migration, MigrationMut, Migrations, MigrationsMut};
use butane::{SqlType, SqlVal};
use nonempty::NonEmpty;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering};

const TABLES: &[(&str, &str)] = &[("Alpha", "Beta"), ("Zeta", "Beta"), ("alpha", "beta"), ("zeta", "beta"), ("Order", "Group"), ("user", "Check")];
const COLS: &[[&str; 5]] = &[["id", "name", "extra", "spot", "alpha"], ["key_", "a", "where", "order", "Refers"], ["from", "select", "z9", "group", "table"]];
const DEFAULTS: &[&str] = &["", "x", "it's", "a\"#b", "\"##\n", "{}", "é \\n", "-- ;"];
const NAMES: &[&str] = &["init", "next", "a-b", "x.y", "Ünï", "current"];

struct W {
    be: String,
    conn_str: String,
    dir: tempfile::TempDir,
    tables: [&'static str; 2],
    cols: [&'static str; 5],
    default: &'static str,
    names: [String; 2],
    /// what is stored in the further column when it is given
    given: &'static str,
    ids: BTreeMap<u64, String>,
    rng: Rng,
    embed_seen: bool,
}
/// An answer of the tool.
struct Said {
    ok: bool,
    out: String,
    err: String,
    code: Option<i32>,
}
impl Said {
    fn text(&self) -> String {
        format!("{} ({:?})\n{}\n{}", if self.ok { "ok" } else { "err" }, self.code, self.out, self.err)
    }
}

impl W {
    fn new(be: &str, conn_str: &str, seed: u64) -> W {
        let mut rng = Rng::new(seed);
        let dir = tempfile::Builder::new().prefix("bh-cli").tempdir().unwrap();
        std::fs::create_dir_all(dir.path().join("src")).unwrap();
        std::fs::create_dir_all(dir.path().join(".butane/migrations")).unwrap();
        let t = TABLES[rng.below(TABLES.len())];
        let n = rng.pick(&["", "a", "it's", "a\"#", "B", "é\u{1F600}"], 2);
        let conn_str = if be == "sqlite" { dir.path().join("data.db").to_str().unwrap().to_string() } else { conn_str.to_string() };
        W {
            be: be.into(),
            conn_str,
            dir,
            tables: [t.0, t.1],
            cols: COLS[rng.below(COLS.len())],
            default: DEFAULTS[rng.below(DEFAULTS.len())],
            names: [n[0].to_string(), n[1].to_string()],
            given: "given",
            ids: BTreeMap::new(),
            rng,
            embed_seen: false,
        }
    }
    fn path(&self) -> PathBuf {
        self.dir.path().join(".butane/migrations")
    }
    fn ms(&self) -> FsMigrations {
        from_root(self.path())
    }
    /// Runs the tool.
    fn run(&mut self, args: &[&str]) -> Said {
        let mut c = Command::new(std::env::var("BH_CLI").expect("BH_CLI"));
        c.env_remove("RUST_LOG").env("RUST_BACKTRACE", "0").stdin(Stdio::null());
        // the project is the working directory, or named, with or without its subdirectory
        let p = self.dir.path();
        match self.rng.below(3) {
            0 => c.current_dir(p).args(args),
            1 => c.arg("-p").arg(p).args(args),
            _ => c.current_dir(p).arg("--path").arg(p.join(".butane")).args(args),
        };
        let o = c.output().expect("running the tool");
        Said { ok: o.status.success(), out: String::from_utf8_lossy(&o.stdout).into(), err: String::from_utf8_lossy(&o.stderr).into(), code: o.status.code() }
    }
    fn table(&self, t: usize, v: u64) -> ATable {
        let mut at = ATable::new(self.tables[t].to_string());
        let known = |t: SqlType| ty(t);
        at.add_column(AColumn::new(self.cols[0], known(SqlType::BigInt), false, true, false, false, None, None));
        if t == 1 {
            at.add_column(AColumn::new(self.cols[4], known(SqlType::BigInt), false, false, false, false, None, Some(ARef::Literal(ARefLiteral::new(self.tables[0], self.cols[0])))));
            return at;
        }
        at.add_column(AColumn::new(self.cols[1], known(SqlType::Text), false, false, false, v == 3, None, None));
        if v == 2 {
            at.add_column(AColumn::new(self.cols[2], known(SqlType::Text), false, false, false, false, Some(SqlVal::Text(self.default.into())), None));
        }
        if v == 4 {
            let point = SqlType::Custom(SqlTypeCustom::Pg(tokio_postgres::types::Type::POINT));
            at.add_column(AColumn::new(self.cols[3], DeferredSqlType::KnownId(TypeIdentifier::Ty(point)), true, false, false, false, None, None));
        }
        at
    }
    fn adb(&self, s: &Value) -> ADB {
        let mut db = ADB::new();
        for (i, t) in ["a", "b"].iter().enumerate() {
            if s[t] != 0 {
                db.replace_table(self.table(i, s[t].as_u64().unwrap()));
            }
        }
        db
    }
    /// What the chain should be.
    fn want(&self, chain: &[Value]) -> Result<MemMigrations, String> {
        let mut ms = MemMigrations::new();
        let mut last: Option<butane::migrations::MemMigration> = None;
        for m in chain {
            let bs: Vec<Box<dyn Backend>> = m["sql"].as_array().unwrap().iter().map(|b| backend(b.as_str().unwrap())).collect();
            let name = &self.ids[&m["id"].as_u64().unwrap()];
            let made = ms.create_migration_to(&NonEmpty::from_vec(bs).unwrap(), name, last.as_ref(), self.adb(&m["s"])).map_err(|e| format!("creating a migration in memory: {e}"))?;
            ensure(made, || "no migration made in memory".into())?;
            last = ms.get_migration(name);
        }
        Ok(ms)
    }
    fn same_chain<A: Migrations, B: Migrations>(&self, what: &str, want: &A, got: &B) -> Check {
        let e = |e: butane::Error| format!("{what}: {e}");
        let (w, g) = (want.all_migrations().map_err(e)?, got.all_migrations().map_err(e)?);
        let names = |v: Vec<std::borrow::Cow<'_, str>>| json!(v.into_iter().map(|s| s.to_string()).collect::<Vec<_>>());
        same(&format!("{what}: migrations"), &names(w.iter().map(|m| m.name()).collect()), &names(g.iter().map(|m| m.name()).collect()))?;
        for (w, g) in w.iter().zip(&g) {
            let what = format!("{what}: migration {}", w.name());
            let e = |e: butane::Error| format!("{what}: {e}");
            same(&format!("{what}: based on"), &json!(w.migration_from().map_err(e)?), &json!(g.migration_from().map_err(e)?))?;
            let (a, b) = (w.db().map_err(e)?, g.db().map_err(e)?);
            ensure(a.tables().eq(b.tables()), || format!("{what}: schema {b:?} instead of {a:?}"))?;
            let bs = |v: Vec<String>| json!(v.into_iter().collect::<BTreeSet<_>>());
            same(&format!("{what}: databases"), &bs(w.sql_backends().map_err(e)?), &bs(g.sql_backends().map_err(e)?))?;
            for be in ["sqlite", "pg", "turso"] {
                // one newline at the end is added when it is stored
                let trim = |s: Option<String>| s.map(|s| s.strip_suffix('\n').map(str::to_string).unwrap_or(s));
                same(&format!("{what}: SQL for {be}"), &json!(trim(w.up_sql(be).map_err(e)?)), &json!(trim(g.up_sql(be).map_err(e)?)))?;
                same(&format!("{what}: SQL to undo it for {be}"), &json!(trim(w.down_sql(be).map_err(e)?)), &json!(trim(g.down_sql(be).map_err(e)?)))?;
            }
        }
        Ok(())
    }
    /// The migrations in the source.
    fn embedded(&self) -> Result<Option<MemMigrations>, String> {
        let p = self.dir.path().join("src/butane_migrations.rs");
        if !p.exists() {
            return Ok(None);
        }
        let src = std::fs::read_to_string(p).map_err(|e| e.to_string())?;
        let file = syn::parse_file(&src).map_err(|e| format!("the embedding is no Rust: {e}"))?;
        let f = file
            .items
            .iter()
            .find_map(|i| match i {
                syn::Item::Fn(f) if f.sig.ident == "get_migrations" => Some(f),
                _ => None,
            })
            .ok_or("the embedding has no get_migrations")?;
        let mut lits = vec![];
        fn strings(t: proc_macro2::TokenStream, out: &mut Vec<String>) {
            for t in t {
                match t {
                    proc_macro2::TokenTree::Group(g) => strings(g.stream(), out),
                    proc_macro2::TokenTree::Literal(l) => {
                        if let Ok(s) = syn::parse_str::<syn::LitStr>(&l.to_string()) {
                            out.push(s.value());
                        }
                    }
                    _ => {}
                }
            }
        }
        strings(quote::ToTokens::to_token_stream(&f.block), &mut lits);
        ensure(lits.len() == 1, || format!("the embedding has {} texts", lits.len()))?;
        MemMigrations::from_json(&lits[0]).map(Some).map_err(|e| format!("the embedding cannot be read: {e}"))
    }
    async fn check(&mut self, c: C<'_>, st: &Value) -> Check {
        let chain = st["chain"].as_array().unwrap().clone();
        let ms = self.ms();
        let want = self.want(&chain)?;
        self.same_chain("migrations", &want, &ms)?;
        match self.embedded()? {
            Some(e) => {
                self.embed_seen = true;
                ensure(st["emb"] == true, || "the migrations have been embedded".into())?;
                self.same_chain("embedded migrations", &want, &e)?;
            }
            None => ensure(st["emb"] == false, || "there is no embedding".into())?,
        }
        let det: BTreeSet<String> = st["det"].as_array().unwrap().iter().map(|i| self.ids[&i.as_u64().unwrap()].clone()).collect();
        let got: BTreeSet<String> = ms.detached_migration_paths().map_err(|e| e.to_string())?.iter().map(|p| PathBuf::from(p).file_name().unwrap().to_str().unwrap().to_string()).collect();
        same("detached migrations", &json!(det), &json!(got))?;
        let mut ms = ms;
        let cur = ms.current().db().map_err(|e| format!("recorded schema: {e}"))?;
        let w = self.adb(&st["cur"]);
        ensure(cur.tables().eq(w.tables()), || format!("the recorded schema is {cur:?} instead of {w:?}"))?;
        // the database
        let app = st["app"].as_u64().unwrap() as usize;
        let last = match c {
            C::S(c) => ms.last_applied_migration(&c),
            C::A(_) => unreachable!(),
        };
        let last = last.map_err(|e| format!("last_applied_migration: {e}"))?.map(|m| m.name().to_string());
        let names: Vec<String> = chain.iter().map(|m| self.ids[&m["id"].as_u64().unwrap()].clone()).collect();
        same("last applied migration", &json!(if app == 0 { None } else { Some(&names[app - 1]) }), &json!(last))?;
        let todo: Vec<String> = match c {
            C::S(c) => ms.unapplied_migrations(&c),
            C::A(_) => unreachable!(),
        }
        .map_err(|e| format!("unapplied_migrations: {e}"))?
        .iter()
        .map(|m| m.name().to_string())
        .collect();
        same("unapplied migrations", &json!(&names[app..]), &json!(todo))?;
        let s = if app == 0 { json!({"a": 0, "b": 0}) } else { chain[app - 1]["s"].clone() };
        let a = rows(c, self.tables[0], &self.cols_of(0, &s)).await;
        if s["a"] == 0 {
            ensure(a.is_err(), || format!("the table {} exists", self.tables[0]))?;
        } else {
            let mut a = a.map_err(|e| format!("reading {}: {e}", self.tables[0]))?;
            a.sort_by_key(|r| format!("{:?}", r[0]));
            let mut w = vec![];
            for (i, r) in st["d"]["a"].as_array().unwrap().iter().enumerate() {
                if r.as_array().unwrap().is_empty() {
                    continue;
                }
                let mut v = vec![SqlVal::BigInt(i as i64 + 1), SqlVal::Text(self.names[tok(&r[0])].clone())];
                match r[1].as_str().unwrap() {
                    "d" => v.push(SqlVal::Text(self.default.into())),
                    "v" => v.push(SqlVal::Text(self.given.into())),
                    _ => {}
                }
                w.push(v);
            }
            ensure(a == w, || format!("rows of {}: specified {w:?}, got {a:?}", self.tables[0]))?;
            let extra = rows(c, self.tables[0], &[(self.cols[2], SqlType::Text)]).await;
            // an unknown name in quotes is a text in SQLite
            ensure((s["a"] == 2) == extra.is_ok() || self.be == "sqlite", || format!("column {}: {:?}", self.cols[2], extra.is_ok()))?;
        }
        let b = rows(c, self.tables[1], &self.cols_of(1, &s)).await;
        if s["b"] == 0 {
            ensure(b.is_err(), || format!("the table {} exists", self.tables[1]))?;
        } else {
            let b = b.map_err(|e| format!("reading {}: {e}", self.tables[1]))?;
            let w: Vec<Vec<SqlVal>> = st["d"]["b"].as_i64().filter(|i| *i != 0).map(|i| vec![SqlVal::BigInt(1), SqlVal::BigInt(i)]).into_iter().collect();
            ensure(b == w, || format!("rows of {}: specified {w:?}, got {b:?}", self.tables[1]))?;
        }
        Ok(())
    }
    fn cols_of(&self, t: usize, s: &Value) -> Vec<(&'static str, SqlType)> {
        let mut v = vec![(self.cols[0], SqlType::BigInt)];
        if t == 1 {
            v.push((self.cols[4], SqlType::BigInt));
        } else {
            v.push((self.cols[1], SqlType::Text));
            if s["a"] == 2 {
                v.push((self.cols[2], SqlType::Text));
            }
        }
        v
    }
    fn id(&self, v: &Value) -> String {
        match v.as_u64().unwrap() {
            99 => "20200101_000000000_nosuch".into(),
            i => self.ids[&i].clone(),
        }
    }
    async fn step(&mut self, c: C<'_>, before: &Value, step: &Step) -> Check {
        let ev = &step.ev;
        let st = &step.st;
        let op = ev["op"].as_str().unwrap();
        let mut said = None;
        match op {
            "edit" | "build" => {
                let mut ms = self.ms();
                for (i, t) in ["a", "b"].iter().enumerate() {
                    let v = st["model"][t].as_u64().unwrap();
                    if v != 0 {
                        ms.current().add_modified_table(&self.table(i, v)).map_err(|e| format!("recording a table: {e}"))?;
                    }
                }
            }
            "adda" => {
                let s = &before["chain"][before["app"].as_u64().unwrap() as usize - 1]["s"];
                let mut v = vec![SqlVal::BigInt(ev["i"].as_i64().unwrap()), SqlVal::Text(self.names[tok(&ev["nm"])].clone())];
                if s["a"] == 2 {
                    v.push(SqlVal::Text(self.given.into()));
                }
                insert(c, self.tables[0], &self.cols_of(0, s), &v).await.map_err(|e| format!("writing data: {e}"))?;
            }
            "addb" => {
                insert(c, self.tables[1], &self.cols_of(1, &Value::Null), &[SqlVal::BigInt(1), SqlVal::BigInt(ev["i"].as_i64().unwrap())]).await.map_err(|e| format!("writing data: {e}"))?;
            }
            "make" | "collapse" => {
                let name = NAMES[self.rng.below(NAMES.len())];
                let cmd = if op == "collapse" { op } else { ["make-migration", "makemigration"][self.rng.below(2)] };
                let r = self.run(&[cmd, name]);
                if r.ok && (op == "collapse" || ev["made"] == true) {
                    let ms = self.ms();
                    let new = ms.latest().ok_or("there is no migration")?.name().to_string();
                    ensure(new.ends_with(&format!("_{name}")) && !self.ids.values().any(|v| *v == new), || format!("{op} {name} made {new:?}"))?;
                    ensure(r.out.contains(&new), || format!("{op} made {new}, but said {}", r.text()))?;
                    self.ids.insert(st["n"].as_u64().unwrap(), new);
                }
                if op == "make" && r.ok {
                    ensure(r.out.contains("No changes") == (ev["made"] == false), || format!("make-migration said {}, but specified is made: {}", r.text(), ev["made"]))?;
                }
                said = Some(r);
            }
            "migrate" | "unmigrate" => {
                let cmd = if op == "unmigrate" { ["unmigrate", "rollback"][self.rng.below(2)] } else { op };
                said = Some(if ev["to"] == 0 {
                    self.run(&[cmd])
                } else {
                    let to = self.id(&ev["to"]);
                    self.run(&[cmd, &to])
                });
            }
            "detach" => {
                let cmd = ["detach-migration", "detachmigration"][self.rng.below(2)];
                said = Some(self.run(&[cmd]));
            }
            "regenerate" | "embed" | "clean" => said = Some(self.run(&[op])),
            "backendadd" => said = Some(self.run(&["backend", "add", ev["b"].as_str().unwrap()])),
            "backendrm" => said = Some(self.run(&["backend", "remove", ev["b"].as_str().unwrap()])),
            "backendlist" => {
                let r = self.run(&["backend", "list"]);
                if r.ok {
                    let got: BTreeSet<&str> = r.out.lines().collect();
                    same("backends", &sorted(ev["val"].clone()), &json!(got))?;
                }
                said = Some(r);
            }
            "list" => {
                let r = self.run(&["list"]);
                if r.ok {
                    let want: Vec<String> = ev["val"]
                        .as_array()
                        .unwrap()
                        .iter()
                        .map(|m| format!("Migration '{}' ({})", self.id(&m["id"]), if m["applied"] == true { "applied" } else { "not applied" }))
                        .collect();
                    same("list", &json!(want), &json!(r.out.lines().filter(|l| l.starts_with("Migration ")).collect::<Vec<_>>()))?;
                }
                let told = |p: &str| r.err.lines().any(|l| l.starts_with("- ") && l.ends_with(&format!("/{p}")));
                for i in before["det"].as_array().unwrap() {
                    ensure(told(&self.id(i)), || format!("the detached migration {} is not reported: {}", self.id(i), r.text()))?;
                }
                ensure(r.err.lines().filter(|l| l.starts_with("- ")).count() == before["det"].as_array().unwrap().len(), || format!("detached migrations reported: {}", r.text()))?;
                said = Some(r);
            }
            "describe" => {
                let to = if ev["id"] == 0 { "current".to_string() } else { self.id(&ev["id"]) };
                let r = self.run(&["describe-migration", &to]);
                if r.ok {
                    for (i, t) in ["a", "b"].iter().enumerate() {
                        let n = self.tables[i];
                        let says = |what: &str| r.out.lines().any(|l| l == format!("{what} {n}"));
                        let some = |what: &str| r.out.lines().any(|l| l.starts_with(&format!("{what} {n}.")));
                        let got = match (says("New table"), says("Remove table"), some("New column") || some("Remove column") || some("Change column")) {
                            (true, false, false) => "new",
                            (false, true, false) => "remove",
                            (false, false, true) => "change",
                            (false, false, false) => "same",
                            _ => "more than one thing",
                        };
                        same(&format!("description of {n} in {:?}", r.out), &ev["val"][t], &json!(got))?;
                    }
                }
                said = Some(r);
            }
            "cleardata" => said = Some(self.run(&["clear", "data"])),
            "deltable" => {
                let t = self.tables[(ev["t"] == "b") as usize];
                said = Some(self.run(&["delete", "table", t]));
            }
            "initdb" => {
                let s = self.conn_str.clone();
                let be = if ev["good"] == true { self.be.clone() } else { ["nosuch", "Sqlite", ""][self.rng.below(3)].to_string() };
                said = Some(self.run(&["init", &be, &s]));
            }
            o => return Err(format!("unknown op {o}")),
        }
        let after = said.as_ref().map(|s| format!("{op} said {}: ", s.text())).unwrap_or_default();
        if let Some(r) = &said {
            ensure(r.code.is_some(), || format!("{op} was killed: {}", r.text()))?;
            // a type that a database does not have makes generating SQL panic
            ensure(r.code != Some(101) || ["make", "backendadd", "collapse"].contains(&op), || format!("{op} panicked: {}", r.text()))?;
            ensure((ev["res"] == "ok") == r.ok, || format!("{op}: specified {}, got {}", ev["res"], r.text()))?;
        }
        self.check(c, st).await.map_err(|e| format!("after {op}: {e}; {after}"))
    }
}

pub fn batch(lane: &Lane, walks: &[Walk], beat: &Beat, stop: &AtomicUsize, steps: &AtomicUsize) -> Vec<Mismatch> {
    set_backend(&lane.backend);
    let mut out = vec![];
    let pg = (lane.backend == "pg").then(|| scratch("pg", true));
    let r: std::result::Result<(), (Walk, usize, String)> = drive(lane, async {
        for walk in walks {
            if stop.load(Ordering::Relaxed) > 3 {
                break;
            }
            *beat.since.lock().unwrap() = Some((std::time::Instant::now(), lane.name.clone(), walk.clone()));
            let mut w = W::new(&lane.backend, pg.as_ref().map(|p| p.spec.conn_str.as_str()).unwrap_or(""), walk.seed);
            let conn = Conn::open(lane, &ConnectionSpec::new(lane.backend.clone(), w.conn_str.clone())).await;
            if pg.is_some() {
                exec(conn.c(), "DROP SCHEMA public CASCADE; CREATE SCHEMA public;").await.unwrap();
            }
            let s = w.conn_str.clone();
            let r = w.run(&["init", &lane.backend, &s]);
            if !r.ok {
                return Err((walk.clone(), 0, format!("init: {}", r.text())));
            }
            let mut before = json!({"model": {"a": 0, "b": 0}, "cur": {"a": 0, "b": 0}, "chain": [], "det": [], "n": 0, "app": 0, "d": {"a": [[], []], "b": 0}, "emb": false});
            for (i, s) in walk.steps.iter().enumerate() {
                beat.at.store(i, Ordering::Relaxed);
                let r = catch(w.step(conn.c(), &before, s)).await.unwrap_or_else(Err);
                steps.fetch_add(1, Ordering::Relaxed);
                r.map_err(|e| (walk.clone(), i, e))?;
                before = s.st.clone();
            }
        }
        Ok(())
    });
    if let Err((walk, i, m)) = r {
        stop.fetch_add(1, Ordering::Relaxed);
        out.push(Mismatch { lane: lane.name.clone(), walk, failed_step: i, message: m });
    }
    *beat.since.lock().unwrap() = None;
    out
}
