//! Coll.tla: collections of migrations (G04).
use crate::core::*;
use crate::on;
use crate::w_migr::{ty, Coll, MNAMES, NEAR};
use butane::db::{Backend, Connection, ConnectionAsync, ConnectionMethods};
use butane::migrations::adb::{AColumn, ARef, ARefLiteral, ATable, DeferredSqlType, Operation, TypeIdentifier, TypeKey, ADB};
use butane::migrations::{copy_migration, FsMigrations, MemMigrations, Migration, MigrationMut, Migrations, MigrationsMut};
use butane::{Result, SqlType, SqlVal};
use nonempty::NonEmpty;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::{AtomicUsize, Ordering};

/// A database for which no SQL can be generated.
#[derive(Clone)]
struct Bad;
#[async_trait::async_trait]
impl Backend for Bad {
    fn name(&self) -> &'static str {
        "bad"
    }
    fn row_id_column(&self) -> Option<&'static str> {
        None
    }
    fn create_migration_sql(&self, _: &ADB, _: Vec<Operation>) -> Result<String> {
        Err(butane::Error::Internal("not possible here".into()))
    }
    fn connect(&self, _: &str) -> Result<Connection> {
        unreachable!()
    }
    async fn connect_async(&self, _: &str) -> Result<ConnectionAsync> {
        unreachable!()
    }
}

type Sqls = BTreeMap<String, (String, String)>;
struct W {
    names: Vec<String>,
    tables: Vec<String>,
    /// table -> variants 1, 2, 3
    variants: Vec<[ATable; 3]>,
    custom: [String; 2],
    meaning: [SqlType; 2],
    extra: Vec<(TypeKey, DeferredSqlType)>,
    backends: Vec<&'static str>,
    coll: Coll,
    fs: Option<tempfile::TempDir>,
    sql: BTreeMap<usize, Sqls>,
    rng: Rng,
}
const COLS: &[&str] = &["a", "b", "where", "Mixed", "ünï", "c_1", "C_1", "x"];
const TABLES: &[&str] = &["Post", "post", "order", "a_b_Many2", "Blog", "Ünïcode", "t.x", "info", "types"];
const TEXTS: &[&str] = &["", "\n", "CREATE TABLE x;", "SELECT 1;\n", "-- \"#; '\n\n", "é\u{1F600}\\n", "  \n \t", "a\r\nb", "\"#\"##", "{\"x\": null}", "\n\nx"];

thread_local! {
    static INEXACT: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
/// The JSON reader (serde_json without its feature float_roundtrip) reads the number's text as the number.
fn exact(x: f64) -> bool {
    serde_json::from_str::<f64>(&serde_json::to_string(&x).unwrap()).unwrap() == x
}
/// Whether tables differ at most in defaults which are not read back exactly.
fn but_for_floats(got: &[ATable], want: &[ATable]) -> bool {
    let blur = |ts: &[ATable]| -> Vec<ATable> {
        ts.iter()
            .map(|t| {
                let mut u = t.clone();
                for c in &t.columns {
                    if let Some(SqlVal::Real(x)) = c.default() {
                        let d = Some(SqlVal::Text(format!("{x:.12e}")));
                        u.replace_column(AColumn::new(c.name(), DeferredSqlType::KnownId(c.typeid().unwrap()), c.nullable(), c.is_pk(), c.is_auto(), c.unique(), d, c.reference().clone()));
                    }
                }
                u
            })
            .collect()
    };
    INEXACT.with(|i| i.get()) && blur(got) == blur(want)
}
const FLOATS: &str = "float-default";

fn value(t: &SqlType, r: &mut Rng) -> SqlVal {
    match t {
        SqlType::Bool => SqlVal::Bool(r.below(2) == 0),
        SqlType::Int => SqlVal::Int(if r.below(2) == 0 { i32::MIN } else { r.next() as i32 }),
        SqlType::BigInt => SqlVal::BigInt(if r.below(3) == 0 { i64::MIN } else { r.next() as i64 }),
        SqlType::Real => SqlVal::Real(match r.below(5) {
            0 => 0.1 + 0.2,
            1 => -0.0,
            2 => 1e300 / 7.0,
            _ => {
                let x = f64::from_bits(r.next() & 0x7fef_ffff_ffff_ffff);
                // see float-default
                if INEXACT.with(|i| i.get()) || exact(x) { x } else { 0.1 }
            }
        }),
        SqlType::Text => SqlVal::Text(["", "it's", "a \"#b", "\\u0000 \n", "ß\u{1F600}", "{}"][r.below(6)].into()),
        SqlType::Blob => SqlVal::Blob((0..r.below(4)).map(|_| r.next() as u8).collect()),
        SqlType::Date => SqlVal::Date(chrono::NaiveDate::from_num_days_from_ce_opt(r.below(3_000_000) as i32).unwrap()),
        SqlType::Timestamp => SqlVal::Timestamp(chrono::DateTime::from_timestamp(r.below(4_000_000_000) as i64, r.below(1_000_000_000) as u32).unwrap().naive_utc()),
        SqlType::Json => SqlVal::Json([json!(null), json!({"a": [1, 0.5, "#\""]}), json!("x")][r.below(3)].clone()),
        t => panic!("{t:?}"),
    }
}
fn sqltype(r: &mut Rng) -> SqlType {
    [SqlType::Bool, SqlType::Int, SqlType::BigInt, SqlType::Real, SqlType::Text, SqlType::Blob, SqlType::Date, SqlType::Timestamp, SqlType::Json][r.below(9)].clone()
}
fn column(name: &str, r: &mut Rng) -> AColumn {
    let t = sqltype(r);
    let nul = r.below(2) == 0;
    let def = (r.below(2) == 0).then(|| value(&t, r));
    let reference = (r.below(5) == 0).then(|| ARef::Literal(ARefLiteral::new("Other", "id")));
    AColumn::new(name, ty(t), nul, false, false, r.below(4) == 0, def, reference)
}
/// The table with one thing about it changed.
fn mutate(t: &ATable, r: &mut Rng) -> ATable {
    let mut t = t.clone();
    let i = 1 + r.below(t.columns.len() - 1);
    let c = t.columns[i].clone();
    let ct = match c.typeid().unwrap() {
        TypeIdentifier::Ty(t) => t,
        _ => unreachable!(),
    };
    let free: Vec<&&str> = COLS.iter().filter(|n| t.column(n).is_none()).collect();
    match r.below(6) {
        0 => t.add_column(column(free[r.below(free.len())], r)),
        1 if t.columns.len() > 2 => t.remove_column(c.name()),
        2 => t.columns[i] = AColumn::new(c.name(), ty(ct), c.nullable(), false, false, !c.unique(), c.default().clone(), c.reference().clone()),
        3 => {
            let def = match c.default() {
                Some(_) => None,
                None => Some(value(&ct, r)),
            };
            t.columns[i] = AColumn::new(c.name(), ty(ct), c.nullable(), false, false, c.unique(), def, c.reference().clone())
        }
        4 => {
            let re = match c.reference() {
                None => Some(ARef::Literal(ARefLiteral::new("Other", "id"))),
                Some(_) => None,
            };
            t.columns[i] = AColumn::new(c.name(), ty(ct), c.nullable(), false, false, c.unique(), c.default().clone(), re)
        }
        _ => t.columns[i] = AColumn::new(c.name(), ty(ct), !c.nullable(), false, false, c.unique(), c.default().clone(), c.reference().clone()),
    }
    t
}
fn adb_of(ts: Vec<ATable>) -> ADB {
    let mut db = ADB::new();
    ts.into_iter().for_each(|t| db.replace_table(t));
    db
}
fn tables_of(db: &ADB) -> Vec<ATable> {
    db.tables().cloned().collect()
}
fn trimmed(s: &str) -> &str {
    s.strip_suffix('\n').unwrap_or(s)
}

/// What the library reports about a migration.
#[derive(PartialEq, Debug)]
struct Info {
    name: String,
    from: Option<String>,
    db: Vec<ATable>,
    types: BTreeMap<TypeKey, DeferredSqlType>,
    backends: BTreeSet<String>,
    sql: BTreeMap<String, (String, String)>,
}
fn info(m: &impl Migration, all: &[&'static str]) -> Result<Info> {
    let db = m.db()?;
    let mut sql = BTreeMap::new();
    for b in all {
        match (m.up_sql(b)?, m.down_sql(b)?) {
            (Some(u), Some(d)) => {
                sql.insert(b.to_string(), (trimmed(&u).to_string(), trimmed(&d).to_string()));
            }
            (None, None) => {}
            x => return Err(butane::Error::Internal(format!("SQL of {b}: {x:?}"))),
        }
    }
    let backends = m.sql_backends()?;
    let set: BTreeSet<String> = backends.iter().cloned().collect();
    if set.len() != backends.len() {
        return Err(butane::Error::Internal(format!("backends {backends:?}")));
    }
    Ok(Info { name: m.name().to_string(), from: m.migration_from()?.map(|s| s.to_string()), db: tables_of(&db), types: db.types().clone(), backends: set, sql })
}

impl W {
    fn new(seed: u64) -> W {
        let mut rng = Rng::new(seed);
        let r = &mut rng;
        INEXACT.with(|i| i.set(r.below(12) == 0));
        let from = if r.below(2) == 0 { MNAMES } else { NEAR };
        let names = r.pick(from, 6).iter().map(|s| s.to_string()).collect();
        let tables: Vec<String> = r.pick(TABLES, 3).iter().map(|s| s.to_string()).collect();
        let custom = [["crate::Kind", "Foo<'a, \"x\">", "Cust:om"][r.below(3)].to_string(), "Extra".to_string()];
        let m = sqltype(r);
        let meaning = [m.clone(), loop {
            let t = sqltype(r);
            if t != m {
                break t;
            }
        }];
        let variants = tables
            .iter()
            .map(|t| {
                let mut v1 = ATable::new(t.clone());
                v1.add_column(AColumn::new("id", ty(SqlType::BigInt), false, true, r.below(2) == 0, false, None, None));
                for c in { let n = 1 + r.below(3); r.pick(COLS, n) } {
                    v1.add_column(column(c, r));
                }
                let v2 = mutate(&v1, r);
                let mut v3 = if r.below(2) == 0 { v1.clone() } else { v2.clone() };
                v3.add_column(AColumn::new("custom", DeferredSqlType::Deferred(TypeKey::CustomType(custom[0].clone())), r.below(2) == 0, false, false, false, None, None));
                [v1, v2, v3]
            })
            .collect();
        let extra = (0..7)
            .map(|i| {
                let v = match r.below(3) {
                    0 => DeferredSqlType::Known(sqltype(r)),
                    1 => DeferredSqlType::KnownId(TypeIdentifier::Name(format!("name{i}"))),
                    _ => ty(sqltype(r)),
                };
                (TypeKey::CustomType(format!("{}{i}", custom[1])), v)
            })
            .collect();
        let backends = r.pick(&["sqlite", "pg", "turso"], 3);
        W { names, tables, variants, custom, meaning, extra, backends, coll: Coll::Mem(MemMigrations::new()), fs: None, sql: BTreeMap::new(), rng }
    }
    fn name(&self, v: &Value) -> &String {
        &self.names[v.as_u64().unwrap() as usize - 1]
    }
    fn opt(&self, v: &Value) -> Option<String> {
        (v.as_u64().unwrap() > 0).then(|| self.name(v).clone())
    }
    fn key(&self) -> TypeKey {
        TypeKey::CustomType(self.custom[0].clone())
    }
    /// A table of a schema of the specification; `deferred`: as it is given to the current migration.
    fn table(&self, t: usize, v: u64) -> ATable {
        match v {
            1 | 2 | 3 => self.variants[t][v as usize - 1].clone(),
            _ => {
                let mut x = self.variants[t][2].clone();
                let c = x.column("custom").unwrap().clone();
                x.replace_column(AColumn::new("custom", ty(self.meaning[v as usize - 31].clone()), c.nullable(), false, false, false, None, None));
                x
            }
        }
    }
    /// A schema (an array over the tables) of the specification.
    fn db(&self, s: &Value) -> Vec<ATable> {
        let a = s.as_array().unwrap();
        let mut v: Vec<ATable> = a.iter().enumerate().filter(|(_, v)| **v != json!(0)).map(|(t, v)| self.table(t, v.as_u64().unwrap())).collect();
        v.sort_by(|a, b| a.name.cmp(&b.name));
        v
    }
    fn from_db(&self, st: &Value, f: &Value) -> Vec<ATable> {
        match f.as_u64().unwrap() {
            0 => vec![],
            i => self.db(&st["store"][i as usize - 1][0]["db"]),
        }
    }
    /// The SQL that a migration from one schema to another has when it is created.
    fn generated(&self, from: Option<Vec<ATable>>, to: Vec<ATable>) -> Result<Sqls> {
        let mut mem = MemMigrations::new();
        let all: Vec<Box<dyn Backend>> = self.backends.iter().map(|b| backend(b)).collect();
        let base = match from {
            None => None,
            Some(ts) => {
                let mut b = mem.new_migration("base");
                for t in &ts {
                    b.add_modified_table(t)?;
                }
                mem.add_migration(b.clone())?;
                Some(b)
            }
        };
        mem.create_migration_to(&NonEmpty::from_vec(all).unwrap(), "x", base.as_ref(), adb_of(to))?;
        let m = mem.get_migration("x").unwrap();
        let mut out = Sqls::new();
        for b in &self.backends {
            out.insert(b.to_string(), (m.up_sql(b)?.unwrap(), m.down_sql(b)?.unwrap()));
        }
        Ok(out)
    }
    fn want_info(&self, i: usize, rec: &Value) -> Info {
        let sql: BTreeMap<String, (String, String)> = rec["sql"]
            .as_array()
            .unwrap()
            .iter()
            .enumerate()
            .filter(|(_, s)| **s != json!(0))
            .map(|(b, _)| {
                let b = self.backends[b].to_string();
                let (u, d) = &self.sql[&i][&b];
                (b, (trimmed(u).to_string(), trimmed(d).to_string()))
            })
            .collect();
        Info { name: self.names[i - 1].clone(), from: self.opt(&rec["from"]), db: self.db(&rec["db"]), types: BTreeMap::new(), backends: sql.keys().cloned().collect(), sql }
    }
    fn types(&self, st: &Value) -> BTreeMap<TypeKey, DeferredSqlType> {
        let mut out = BTreeMap::new();
        let t = st["cur"]["ty"].as_array().unwrap();
        if let v @ 1.. = t[0].as_u64().unwrap() {
            out.insert(self.key(), ty(self.meaning[v as usize - 1].clone()));
        }
        if t[1] != json!(0) {
            out.extend(self.extra.iter().cloned());
        }
        out
    }
    fn observe_on<M: MigrationsMut>(&self, ms: &mut M, st: &Value, what: &str) -> Check
    where
        M::M: MigrationMut,
    {
        let e = |w: &str, e: butane::Error| format!("{what}: {w}: {e}");
        let chain: Vec<String> = st["chain"].as_array().unwrap().iter().map(|n| self.name(n).clone()).collect();
        let latest = ms.latest().map(|m| m.name().to_string());
        ensure(latest == self.opt(&st["latest"]), || format!("{what}: latest: {latest:?}, specified {:?}", self.opt(&st["latest"])))?;
        let all = ms.all_migrations().map_err(|x| e("all_migrations", x))?;
        let got: Vec<String> = all.iter().map(|m| m.name().to_string()).collect();
        ensure(got == chain, || format!("{what}: all_migrations: {got:?}, specified {chain:?}"))?;
        let mut infos = vec![];
        for i in 1..=st["store"].as_array().unwrap().len() {
            let n = &self.names[i - 1];
            let want = st["store"][i - 1].get(0).map(|r| self.want_info(i, r));
            let m = ms.get_migration(n);
            let got = match &m {
                None => None,
                Some(m) => Some(info(m, &self.backends).map_err(|x| e(&format!("reading {n}"), x))?),
            };
            if let (Some(g), Some(w)) = (&got, &want) {
                if g.db != w.db && but_for_floats(&g.db, &w.db) {
                    return Err(FLOATS.into());
                }
            }
            ensure(got == want, || format!("{what}: migration {n}: {got:#?}\nspecified {want:#?}"))?;
            if let Some(m) = m {
                let since = ms.migrations_since(&m).ok().map(|v| v.iter().map(|m| m.name().to_string()).collect::<Vec<_>>());
                let want = chain.iter().position(|c| c == n).map(|p| chain[p + 1..].to_vec());
                ensure(since == want, || format!("{what}: migrations_since({n}): {since:?}, specified {want:?}"))?;
            }
            infos.push(got);
        }
        for (i, m) in all.iter().enumerate() {
            let got = info(m, &self.backends).map_err(|x| e("reading a migration of the chain", x))?;
            let k = self.names.iter().position(|n| *n == chain[i]).unwrap();
            ensure(Some(&got) == infos[k].as_ref(), || format!("{what}: all_migrations and get_migration differ: {got:?}"))?;
        }
        let cur = ms.current().db();
        match st["db"].get(0) {
            None => ensure(cur.is_err(), || format!("{what}: the current schema has an unknown type, but was read: {cur:?}"))?,
            Some(s) => {
                let cur = cur.map_err(|x| e("reading the current schema", x))?;
                let want = self.db(s);
                if tables_of(&cur) != want && but_for_floats(&tables_of(&cur), &want) {
                    return Err(FLOATS.into());
                }
                ensure(tables_of(&cur) == want, || format!("{what}: current schema: {:#?}\nspecified {want:#?}", tables_of(&cur)))?;
                ensure(*cur.types() == self.types(st), || format!("{what}: current types: {:?}, specified {:?}", cur.types(), self.types(st)))?;
            }
        }
        Ok(())
    }
    fn reread(&mut self) -> Check {
        match &mut self.coll {
            Coll::Mem(m) => {
                let a = serde_json::to_string(m).map_err(|e| e.to_string())?;
                let p = serde_json::to_string_pretty(m).map_err(|e| e.to_string())?;
                *m = MemMigrations::from_json(if self.rng.below(2) == 0 { &a } else { &p }).map_err(|e| format!("from_json: {e}"))?;
                let b = serde_json::to_string(m).map_err(|e| e.to_string())?;
                ensure(a == b || INEXACT.with(|i| i.get()), || format!("the text of the collection changed by reading it: {a}\n{b}"))
            }
            Coll::Fs(m) => {
                *m = butane::migrations::from_root(self.fs.as_ref().unwrap().path().join("m"));
                Ok(())
            }
        }
    }
    fn observe(&mut self, st: &Value, op: &str) -> Check {
        let mut c = self.coll.clone();
        on!(&mut c, m => self.observe_on(m, st, &format!("after {op}")))?;
        if let Coll::Fs(_) = self.coll {
            let mut again: FsMigrations = butane::migrations::from_root(self.fs.as_ref().unwrap().path().join("m"));
            self.observe_on(&mut again, st, &format!("after {op}, opened again"))?;
            let mut got: Vec<String> = again.detached_migration_paths().map_err(|e| format!("detached_migration_paths: {e}"))?;
            got.sort();
            let root = self.fs.as_ref().unwrap().path().join("m");
            let chain = st["chain"].as_array().unwrap();
            let mut want: Vec<String> = (1..=st["store"].as_array().unwrap().len())
                .filter(|i| st["store"][i - 1].get(0).is_some() && !chain.contains(&json!(i)))
                .map(|i| root.join(&self.names[i - 1]).display().to_string())
                .collect();
            want.sort();
            ensure(got == want, || format!("after {op}: detached migrations {got:?}, specified {want:?}"))?;
        }
        Ok(())
    }
    /// Gives the current migration the tables and types of the specification.
    fn fill(&self, m: &mut impl MigrationMut, st: &Value) -> Result<()> {
        for (k, v) in self.types(st) {
            m.add_type(k, v)?;
        }
        for (t, v) in st["cur"]["tabs"].as_array().unwrap().iter().enumerate() {
            if *v != json!(0) {
                m.add_modified_table(&self.table(t, v.as_u64().unwrap()))?;
            }
        }
        Ok(())
    }
    fn step(&mut self, before: &Value, step: &Step) -> Check {
        let (ev, st) = (&step.ev, &step.st);
        let op = ev["op"].as_str().unwrap().to_string();
        let r: Result<Value> = match op.as_str() {
            "create" => {
                let to = before["db"].get(0).map(|s| self.db(s));
                let from = self.opt(&ev["f"]);
                if ev["res"] == "ok" {
                    let fdb = from.is_some().then(|| self.from_db(before, &ev["f"]));
                    let g = self.generated(fdb, to.clone().unwrap()).map_err(|e| format!("generating SQL: {e}"))?;
                    let bs: Vec<&str> = ev["bs"].as_array().unwrap().iter().map(|b| self.backends[b.as_u64().unwrap() as usize - 1]).collect();
                    let g = g.into_iter().filter(|(b, _)| bs.contains(&b.as_str())).collect();
                    self.sql.insert(ev["n"].as_u64().unwrap() as usize, g);
                }
                let mut bs: Vec<Box<dyn Backend>> = ev["bs"].as_array().unwrap().iter().map(|b| backend(self.backends[b.as_u64().unwrap() as usize - 1])).collect();
                if ev["bad"] == true {
                    bs.insert(self.rng.below(bs.len() + 1), Box::new(Bad));
                }
                let bs = NonEmpty::from_vec(bs).unwrap();
                let name = self.name(&ev["n"]).clone();
                let explicit = to.filter(|_| self.rng.below(3) == 0).map(adb_of);
                on!(&mut self.coll, ms => {
                    let f = from.as_ref().map(|f| ms.get_migration(f).unwrap());
                    match explicit {
                        Some(db) => ms.create_migration_to(&bs, &name, f.as_ref(), db),
                        None => ms.create_migration(&bs, &name, f.as_ref()),
                    }
                })
                .map(|made| json!(if made { "ok" } else { "none" }))
            }
            "addtable" => {
                let t = self.table(ev["t"].as_u64().unwrap() as usize - 1, ev["v"].as_u64().unwrap());
                on!(&mut self.coll, ms => ms.current().add_modified_table(&t)).map(|_| json!("ok"))
            }
            "deltable" => {
                let t = self.tables[ev["t"].as_u64().unwrap() as usize - 1].clone();
                on!(&mut self.coll, ms => ms.current().delete_table(&t)).map(|_| json!("ok"))
            }
            "addtype" => {
                let (k, v) = (self.key(), self.meaning[ev["v"].as_u64().unwrap() as usize - 1].clone());
                on!(&mut self.coll, ms => ms.current().add_type(k, ty(v))).map(|_| json!("ok"))
            }
            "clearcur" => on!(&mut self.coll, ms => ms.clear_current()).map(|_| json!("ok")),
            "par" => {
                let tables: Vec<ATable> = st["cur"]["tabs"].as_array().unwrap().iter().enumerate().map(|(t, v)| self.table(t, v.as_u64().unwrap())).collect();
                let mut types = self.extra.clone();
                types.push((self.key(), ty(self.meaning[0].clone())));
                match &mut self.coll {
                    Coll::Mem(m) => {
                        for (k, t) in types {
                            m.current().add_type(k, t).map_err(|e| e.to_string())?;
                        }
                        tables.iter().try_for_each(|t| m.current().add_modified_table(t))
                    }
                    Coll::Fs(_) => {
                        let root = self.fs.as_ref().unwrap().path().join("m");
                        let errors = std::sync::Mutex::new(vec![]);
                        let ready = std::sync::Barrier::new(tables.len() + types.len() + 1);
                        let busy = AtomicUsize::new(tables.len() + types.len());
                        std::thread::scope(|s| {
                            type Act<'a> = Box<dyn FnOnce(&mut FsMigrations) -> Result<()> + Send + 'a>;
                            let mut acts: Vec<Act> = vec![];
                            for t in &tables {
                                acts.push(Box::new(move |ms| ms.current().add_modified_table(t)));
                            }
                            for (k, t) in &types {
                                acts.push(Box::new(move |ms| ms.current().add_type(k.clone(), t.clone())));
                            }
                            for f in acts {
                                let (root, errors, ready, busy) = (root.clone(), &errors, &ready, &busy);
                                s.spawn(move || {
                                    let mut ms = butane::migrations::from_root(root);
                                    ready.wait();
                                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut ms))).unwrap_or_else(|e| Err(butane::Error::Internal(panic_msg(e))));
                                    busy.fetch_sub(1, Ordering::SeqCst);
                                    if let Err(e) = r {
                                        errors.lock().unwrap().push(e.to_string());
                                    }
                                });
                            }
                            // and another reads what is there
                            let mut ms = butane::migrations::from_root(root.clone());
                            ready.wait();
                            while busy.load(Ordering::SeqCst) > 0 {
                                match ms.current().db() {
                                    Ok(_) | Err(butane::Error::CannotResolveType(_)) => {}
                                    Err(e) => errors.lock().unwrap().push(format!("reading meanwhile: {e}")),
                                }
                            }
                        });
                        let errors = errors.into_inner().unwrap();
                        if errors.is_empty() { Ok(()) } else { Err(butane::Error::Internal(errors.join("; "))) }
                    }
                }
                .map(|_| json!("ok"))
            }
            "addsql" | "rmsql" => {
                let i = ev["n"].as_u64().unwrap() as usize;
                let name = self.names[i - 1].clone();
                let b = self.backends[ev["b"].as_u64().unwrap() as usize - 1];
                let new = (op == "addsql").then(|| {
                    let t = |r: &mut Rng| TEXTS[r.below(TEXTS.len())].to_string();
                    (t(&mut self.rng), t(&mut self.rng))
                });
                if let Some(n) = &new {
                    self.sql.entry(i).or_default().insert(b.to_string(), n.clone());
                }
                fn go<M: MigrationsMut>(ms: &mut M, name: &str, b: &str, new: &Option<(String, String)>, add: bool) -> Result<()>
                where
                    M::M: MigrationMut,
                {
                    let mut m = ms.get_migration(name).unwrap();
                    match new {
                        Some((u, d)) => m.add_sql(b, u, d)?,
                        None => m.remove_sql(b)?,
                    }
                    if add { ms.add_migration(m) } else { Ok(()) }
                }
                let add = before["chain"].as_array().unwrap().contains(&ev["n"]);
                on!(&mut self.coll, ms => go(ms, &name, b, &new, add)).map(|_| json!("ok"))
            }
            "regen" => {
                let bs: Vec<usize> = before["store"][before["latest"].as_u64().unwrap() as usize - 1][0]["sql"].as_array().unwrap().iter().enumerate().filter(|(_, s)| **s != json!(0)).map(|(b, _)| b).collect();
                for n in before["chain"].as_array().unwrap() {
                    let i = n.as_u64().unwrap() as usize;
                    let rec = &before["store"][i - 1][0];
                    let from = (rec["from"] != json!(0)).then(|| self.from_db(before, &rec["from"]));
                    let g = self.generated(from, self.db(&rec["db"])).map_err(|e| format!("generating SQL: {e}"))?;
                    self.sql.insert(i, g.into_iter().filter(|(b, _)| bs.iter().any(|i| self.backends[*i] == b)).collect());
                }
                let bs = NonEmpty::from_vec(bs.iter().map(|b| backend(self.backends[*b])).collect()).unwrap();
                fn go<M: MigrationsMut>(ms: &mut M, bs: &NonEmpty<Box<dyn Backend>>, clean: impl Fn(&M::M) -> Result<()>) -> Result<()>
                where
                    M::M: MigrationMut,
                {
                    let mut from: Option<String> = None;
                    for m in ms.all_migrations()? {
                        let to = m.db()?;
                        let f = from.as_ref().map(|f| ms.get_migration(f).unwrap());
                        clean(&m)?;
                        if !ms.create_migration_to(bs, &m.name(), f.as_ref(), to)? {
                            return Err(butane::Error::Internal("nothing was made".into()));
                        }
                        from = Some(m.name().to_string());
                    }
                    Ok(())
                }
                let clean = self.rng.below(2) == 0;
                match &mut self.coll {
                    Coll::Mem(ms) => go(ms, &bs, |_| Ok(())),
                    Coll::Fs(ms) => go(ms, &bs, |m| if clean { m.delete_db() } else { Ok(()) }),
                }
                .map(|_| json!("ok"))
            }
            "detach" => match &mut self.coll {
                Coll::Fs(ms) => ms.detach_latest_migration().map(|_| json!("ok")),
                Coll::Mem(_) => unreachable!(),
            },
            "attach" => {
                let n = self.name(&ev["n"]).clone();
                on!(&mut self.coll, ms => {
                    let m = ms.get_migration(&n).unwrap();
                    ms.add_migration(m)
                })
                .map(|_| json!("ok"))
            }
            "dup" => match &mut self.coll {
                Coll::Fs(ms) => {
                    let (a, b) = (ev["n"].as_u64().unwrap() as usize, ev["m"].as_u64().unwrap() as usize);
                    let s = self.sql[&a].clone();
                    self.sql.insert(b, s);
                    let mut to = ms.new_migration(&self.names[b - 1]);
                    ms.get_migration(&self.names[a - 1]).unwrap().copy_to(&mut to).map(|_| json!("ok"))
                }
                Coll::Mem(_) => unreachable!(),
            },
            "delete" => on!(&mut self.coll, ms => ms.delete_migrations()).map(|_| json!("ok")),
            "clear" => {
                let conn = butane::db::connect(&butane::db::ConnectionSpec::new("sqlite", ":memory:")).unwrap();
                conn.execute("CREATE TABLE other (name TEXT); INSERT INTO other VALUES ('x');").unwrap();
                if ev["with"] == true {
                    conn.execute("CREATE TABLE butane_migrations (name TEXT NOT NULL PRIMARY KEY); INSERT INTO butane_migrations VALUES ('q'), ('r');").unwrap();
                }
                let r = on!(&mut self.coll, ms => ms.clear_migrations(&conn));
                let count = |t: &str| conn.delete_where(t, butane::query::BoolExpr::True).ok();
                if ev["with"] == true {
                    ensure(count("butane_migrations") == Some(0), || "clear_migrations left records of migrations".into())?;
                }
                ensure(count("other") == Some(1), || "clear_migrations removed other data".into())?;
                r.map(|_| json!("ok"))
            }
            "reload" => {
                self.reread()?;
                Ok(json!("ok"))
            }
            "copy" => {
                fn go<A: Migrations, B: MigrationsMut>(a: &A, b: &mut B) -> Result<()>
                where
                    B::M: MigrationMut,
                {
                    for m in a.all_migrations()? {
                        let mut n = b.new_migration(&m.name());
                        copy_migration(&m, &mut n)?;
                        b.add_migration(n)?;
                    }
                    Ok(())
                }
                match &self.coll {
                    Coll::Mem(a) => {
                        let d = tempfile::Builder::new().prefix("bh-coll").tempdir().unwrap();
                        let mut b = butane::migrations::from_root(d.path().join("m"));
                        // what writes a collection makes its directory
                        std::fs::create_dir_all(d.path().join("m")).unwrap();
                        let r = go(a, &mut b).and_then(|_| self.fill(b.current(), st));
                        self.coll = Coll::Fs(b);
                        self.fs = Some(d);
                        r
                    }
                    Coll::Fs(a) => {
                        let mut b = MemMigrations::new();
                        let r = go(a, &mut b).and_then(|_| self.fill(b.current(), st));
                        self.coll = Coll::Mem(b);
                        self.fs = None;
                        r
                    }
                }
                .map(|_| json!("ok"))
            }
            o => panic!("{o}"),
        };
        let got = match &r {
            Ok(v) => v.clone(),
            Err(_) => json!("err"),
        };
        ensure(got == ev["res"], || format!("{op}: specified {}, got {got} {}", ev["res"], text(&r)))?;
        self.observe(st, &op)
    }
}

pub fn batch(lane: &Lane, walks: &[Walk], beat: &Beat, stop: &AtomicUsize, steps: &AtomicUsize) -> Vec<Mismatch> {
    let mut out = vec![];
    for walk in walks {
        if stop.load(Ordering::Relaxed) > 3 {
            break;
        }
        *beat.since.lock().unwrap() = Some((std::time::Instant::now(), lane.name.clone(), walk.clone()));
        let mut w = W::new(walk.seed);
        let (t, k, n) = (&walk.steps[0].st["cur"]["tabs"], &walk.steps[0].st["cur"]["ty"], &walk.steps[0].st["store"]);
        let zeros = |v: &Value, z: Value| Value::Array(vec![z; v.as_array().unwrap().len()]);
        let mut st = json!({"kind": "mem", "store": zeros(n, json!([])), "latest": 0, "chain": [], "cur": {"tabs": zeros(t, json!(0)), "ty": zeros(k, json!(0))}, "db": [zeros(t, json!(0))]});
        for (i, s) in walk.steps.iter().enumerate() {
            beat.at.store(i, Ordering::Relaxed);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| w.step(&st, s))).unwrap_or_else(|e| Err(format!("{}: {}", s.ev["op"], panic_msg(e))));
            steps.fetch_add(1, Ordering::Relaxed);
            st = s.st.clone();
            if matches!(&r, Err(m) if m == FLOATS) {
                known(FLOATS);
                break;
            }
            if let Err(m) = r {
                stop.fetch_add(1, Ordering::Relaxed);
                out.push(Mismatch { lane: lane.name.clone(), walk: walk.clone(), failed_step: i, message: m });
                break;
            }
        }
        if !out.is_empty() {
            break;
        }
    }
    *beat.since.lock().unwrap() = None;
    out
}
