//! Migrate.tla: applying and undoing a chain of migrations (G01), and dying on the way (G03).
use crate::core::*;
use crate::w_txn::{drive, Conn};
use butane::db::{Backend, BackendConnection, Column, ConnectionMethods, ConnectionSpec};
use butane::migrations::adb::{AColumn, ARef, ARefLiteral, ATable, DeferredSqlType, TypeIdentifier, ADB};
use butane::migrations::{FsMigrations, MemMigrations, Migration, MigrationMut, Migrations, MigrationsMut};
use butane::{Result, SqlType, SqlVal, SqlValRef, ToSql};
use nonempty::NonEmpty;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::io::{BufRead, Read, Write};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicI64, AtomicUsize, Ordering};

/// A collection of migrations.
#[derive(Clone)]
pub enum Coll {
    Mem(MemMigrations),
    Fs(FsMigrations),
}
#[macro_export]
macro_rules! on {
    ($c:expr, $m:ident => $e:expr) => {
        match $c {
            $crate::w_migr::Coll::Mem($m) => $e,
            $crate::w_migr::Coll::Fs($m) => $e,
        }
    };
}
/// A migration about to be created or repaired: what to make of the SQL generated for it.
fn spoil(m: &mut impl MigrationMut, be: &str, kind: &str, bad: &str, first: bool) -> Result<()> {
    let (mut up, mut down) = (m.up_sql(be)?.unwrap(), m.down_sql(be)?.unwrap());
    let spoil = |s: &str| if first { format!("{bad}\n{s}") } else { format!("{s}\n{bad}\n") };
    match kind {
        "badup" => up = spoil(&up),
        "baddown" => down = spoil(&down),
        "nosql" => return m.remove_sql(be),
        _ => {}
    }
    m.add_sql(be, &up, &down)
}
impl Coll {
    fn create(&mut self, name: &str, to: ADB, be: &str, kind: &str, bad: &str, first: bool) -> Result<Option<(String, String)>> {
        fn go<M: MigrationsMut>(ms: &mut M, name: &str, to: ADB, be: &str, kind: &str, bad: &str, first: bool) -> Result<Option<(String, String)>>
        where
            M::M: MigrationMut,
        {
            let all: NonEmpty<Box<dyn Backend>> = NonEmpty { head: backend(be), tail: ["sqlite", "pg", "turso"].iter().filter(|b| **b != be).map(|b| backend(b)).collect() };
            let from = ms.latest();
            if !ms.create_migration_to(&all, name, from.as_ref(), to)? {
                return Ok(None);
            }
            let mut m = ms.get_migration(name).unwrap();
            let good = (m.up_sql(be)?.unwrap(), m.down_sql(be)?.unwrap());
            spoil(&mut m, be, kind, bad, first)?;
            ms.add_migration(m)?;
            Ok(Some(good))
        }
        on!(self, m => go(m, name, to, be, kind, bad, first))
    }
    fn repair(&mut self, name: &str, be: &str, good: &(String, String)) -> Result<()> {
        fn go<M: MigrationsMut>(ms: &mut M, name: &str, be: &str, good: &(String, String)) -> Result<()>
        where
            M::M: MigrationMut,
        {
            let mut m = ms.get_migration(name).unwrap();
            m.add_sql(be, &good.0, &good.1)?;
            ms.add_migration(m)
        }
        on!(self, m => go(m, name, be, good))
    }
    /// What there is to apply, and the last one applied.
    fn read(&self, conn: &impl ConnectionMethods) -> Result<(Vec<String>, Option<String>)> {
        on!(self, m => Ok((
            m.unapplied_migrations(conn)?.iter().map(|m| m.name().to_string()).collect(),
            m.last_applied_migration(conn)?.map(|m| m.name().to_string())
        )))
    }
    fn one(&self, op: &str, conn: &mut impl BackendConnection) -> Result<()> {
        on!(self, m => match op {
            "apply" => m.unapplied_migrations(conn)?[0].apply(conn),
            _ => m.last_applied_migration(conn)?.unwrap().downgrade(conn),
        })
    }
    pub async fn run(&self, op: &str, conn: &mut Conn) -> Result<()> {
        match conn {
            Conn::S(c) => match op {
                "migrate" => on!(self, m => m.migrate(c)),
                "unmigrate" => on!(self, m => m.unmigrate(c)),
                _ => self.one(op, c),
            },
            Conn::A(c) => match op {
                "migrate" => on!(self, m => m.migrate_async(c).await),
                "unmigrate" => on!(self, m => m.unmigrate_async(c).await),
                _ => {
                    let (me, op) = (self.clone(), op.to_string());
                    c.with_sync(move |c| me.one(&op, c)).await
                }
            },
        }
    }
    async fn state(&self, conn: &Conn) -> Result<(Vec<String>, Option<String>)> {
        match conn {
            Conn::S(c) => self.read(c),
            Conn::A(_) => unreachable!(),
        }
    }
}

pub fn ty(t: SqlType) -> DeferredSqlType {
    DeferredSqlType::KnownId(TypeIdentifier::Ty(t))
}
fn pk(n: &str) -> AColumn {
    AColumn::new(n, ty(SqlType::BigInt), false, true, false, false, None, None)
}

/// The database the chain builds: table and column names.
#[derive(Clone, Serialize, Deserialize)]
struct Names {
    id: String,
    base: String,
    text: String,
    kids: [String; 2],
    parent: String,
}
impl Names {
    fn new(kw: bool) -> Names {
        let s = |x: &str| x.to_string();
        if kw {
            Names { id: s("group"), base: s("Order"), text: s("values"), kids: [s("Check"), s("where")], parent: s("from") }
        } else {
            Names { id: s("id"), base: s("M_base"), text: s("txt"), kids: [s("A_child"), s("Z_child")], parent: s("parent") }
        }
    }
    fn table(&self, i: usize) -> String {
        format!("{}_t{i}", if i % 2 == 0 { "B" } else { "Y" })
    }
    fn col(&self, i: usize) -> String {
        format!("c{i}")
    }
    fn default(&self, i: usize) -> SqlVal {
        match i % 3 {
            2 => SqlVal::Int(42),
            0 => SqlVal::Null,
            _ => SqlVal::Text("it's; x".into()),
        }
    }
    fn ctype(&self, i: usize) -> SqlType {
        if i % 3 == 2 { SqlType::Int } else { SqlType::Text }
    }
    fn given(&self, i: usize) -> SqlVal {
        if i % 3 == 2 { SqlVal::Int(100 + i as i32) } else { SqlVal::Text(format!("given {i}")) }
    }
    fn adb(&self, n: usize) -> ADB {
        let mut db = ADB::new();
        let reference = |t: &str, c: &str| Some(ARef::Literal(ARefLiteral::new(t, c)));
        let fk = |n: &str, t: &str| AColumn::new(n, ty(SqlType::BigInt), true, false, false, false, None, reference(t, &self.id));
        if n >= 1 {
            let mut t = ATable::new(self.base.clone());
            t.add_column(pk(&self.id));
            t.add_column(AColumn::new_simple(&self.text, ty(SqlType::Text)));
            for i in 2..=n {
                let d = Some(self.default(i)).filter(|d| *d != SqlVal::Null);
                t.add_column(AColumn::new(self.col(i), ty(self.ctype(i)), d.is_none(), false, false, false, d, None));
            }
            db.replace_table(t);
            for k in &self.kids {
                let mut t = ATable::new(k.clone());
                t.add_column(pk(&self.id));
                t.add_column(fk(&self.parent, &self.base));
                db.replace_table(t);
            }
        }
        for i in 2..=n {
            let mut t = ATable::new(self.table(i));
            t.add_column(pk(&self.id));
            t.add_column(fk(&self.parent, if i == 2 { &self.base } else { self.kids.first().unwrap() }));
            db.replace_table(t);
        }
        db.resolve_types().unwrap();
        db
    }
}
pub fn leak(s: &str) -> &'static str {
    use std::collections::HashSet;
    use std::sync::Mutex;
    static SEEN: Mutex<Option<HashSet<&'static str>>> = Mutex::new(None);
    let mut g = SEEN.lock().unwrap();
    let m = g.get_or_insert_with(HashSet::new);
    if let Some(x) = m.get(s) {
        return x;
    }
    let l: &'static str = Box::leak(s.to_string().into_boxed_str());
    m.insert(l);
    l
}
pub fn cols(cs: &[(&str, SqlType)]) -> Vec<Column> {
    cs.iter().map(|(n, t)| Column::new(leak(n), t.clone())).collect()
}
/// All rows of a table.
pub async fn rows(c: C<'_>, table: &str, cs: &[(&str, SqlType)]) -> Result<Vec<Vec<SqlVal>>> {
    let cs = cols(cs);
    fn take(mut r: butane::db::RawQueryResult<'_>, cs: &[Column]) -> Result<Vec<Vec<SqlVal>>> {
        let mut out = vec![];
        while let Some(row) = r.next()? {
            out.push(cs.iter().enumerate().map(|(i, c)| row.get(i, c.ty().clone()).map(SqlVal::from)).collect::<Result<Vec<_>>>()?);
        }
        Ok(out)
    }
    match c {
        C::S(c) => take(ConnectionMethods::query(&c, table, &cs, None, None, None, None)?, &cs),
        C::A(c) => take(butane::db::ConnectionMethodsAsync::query(&c, table, &cs, None, None, None, None).await?, &cs),
    }
}
pub async fn insert(c: C<'_>, table: &str, cs: &[(&str, SqlType)], vals: &[SqlVal]) -> Result<()> {
    let cs = cols(cs);
    let vs: Vec<SqlValRef> = vals.iter().map(|v| v.as_ref()).collect();
    match c {
        C::S(c) => ConnectionMethods::insert_only(&c, table, &cs, &vs),
        C::A(c) => butane::db::ConnectionMethodsAsync::insert_only(&c, table, &cs, &vs).await,
    }
}

/// A database that can be copied.
struct Db {
    be: String,
    dir: Option<tempfile::TempDir>,
    pg: Option<Scratch>,
}
fn pgbase() -> String {
    std::env::var("BH_PG").expect("BH_PG")
}
impl Db {
    fn new(be: &str) -> Db {
        if be == "pg" {
            Db { be: be.into(), dir: None, pg: Some(scratch("pg", true)) }
        } else {
            Db { be: be.into(), dir: Some(tempfile::Builder::new().prefix("bh-mig").tempdir().unwrap()), pg: None }
        }
    }
    fn spec(&self) -> ConnectionSpec {
        match (&self.pg, &self.dir) {
            (Some(s), _) => s.spec.clone(),
            (_, Some(d)) => ConnectionSpec::new(self.be.clone(), d.path().join("x.db").to_str().unwrap()),
            _ => unreachable!(),
        }
    }
    /// Nobody may be connected.
    fn copy(&self) -> Db {
        if let Some(s) = &self.pg {
            let n = |s: &ConnectionSpec| s.conn_str.rsplit("dbname=").next().unwrap().to_string();
            return Db { be: self.be.clone(), dir: None, pg: Some(scratch_from(&n(&s.spec))) };
        }
        let new = Db::new(&self.be);
        for e in std::fs::read_dir(self.dir.as_ref().unwrap().path()).unwrap() {
            let e = e.unwrap();
            std::fs::copy(e.path(), new.dir.as_ref().unwrap().path().join(e.file_name())).unwrap();
        }
        new
    }
}

#[derive(Default, Clone)]
struct Row {
    /// which columns and tables were written when the row was (the others have what the migration put there)
    given: BTreeMap<usize, bool>,
}
struct World3 {
    lane: Lane,
    names: Names,
    mnames: Vec<String>,
    coll: Coll,
    json: bool,
    kw: bool,
    _fs: Option<tempfile::TempDir>,
    good: Vec<(String, String)>,
    data: BTreeMap<usize, Row>,
    stray: bool,
    strayed: bool,
    bad: String,
    bad_first: bool,
    n: usize,
    rng: Rng,
    points: usize,
    ended: bool,
}
pub const MNAMES: &[&str] = &["20240101_000000000_init", "b", "a's", "Z", "0", "übergang", "20231231_235959999_later", "select", "a b", "x.y"];

/// names that a careless comparison takes for each other
pub const NEAR: &[&str] = &["add_a", "add1a", "ADD_A", "add", "add_ab", "add%", "_____", "xadd_a", "add-a", "add_1"];

impl World3 {
    fn new(lane: &Lane, variant: &str, seed: u64) -> World3 {
        let mut rng = Rng::new(seed);
        let fs = variant.starts_with("fs").then(|| tempfile::Builder::new().prefix("bh-migs").tempdir().unwrap());
        let bads = ["INSERT INTO no_such_table_x VALUES (1);", "SELEC 1;", "CREATE TABLE no_ref_x (x INTEGER NOT NULL, x INTEGER);"];
        let mut names = Names::new(variant.ends_with("kw"));
        if lane.backend == "turso" && (variant.ends_with('l') || rng.below(8) != 0) {
            // see turso-add-column
            names.base = names.base.to_lowercase();
        }
        World3 {
            lane: lane.clone(),
            names,
            mnames: {
                let from = if rng.below(2) == 0 { MNAMES } else { NEAR };
                rng.pick(from, 6)
            }.iter().map(|s| s.to_string()).collect(),
            coll: match &fs {
                Some(d) => Coll::Fs(butane::migrations::from_root(d.path().join("m"))),
                None => Coll::Mem(MemMigrations::new()),
            },
            json: variant.starts_with("json"),
            kw: variant.ends_with("kw"),
            _fs: fs,
            good: vec![],
            data: BTreeMap::new(),
            stray: rng.below(4) == 0,
            strayed: false,
            bad: bads[rng.below(3)].into(),
            bad_first: rng.below(2) == 0,
            n: 0,
            points: if lane.backend == "pg" { 5 } else { 14 },
            ended: false,
            rng,
        }
    }
    /// The columns and values expected in the base table when n migrations are applied.
    fn want_row(&self, k: usize, r: &Row, n: usize) -> Vec<SqlVal> {
        let mut v = vec![SqlVal::BigInt(k as i64), SqlVal::Text(format!("row {k}"))];
        for i in 2..=n {
            v.push(if r.given.contains_key(&i) { self.names.given(i) } else { self.names.default(i) });
        }
        v
    }
    fn forget(data: &mut BTreeMap<usize, Row>, n: usize) {
        if n == 0 {
            data.clear();
        }
        for r in data.values_mut() {
            r.given.retain(|i, _| *i <= n);
        }
    }
    fn base_cols(&self, n: usize) -> Vec<(String, SqlType)> {
        let mut v = vec![(self.names.id.clone(), SqlType::BigInt), (self.names.text.clone(), SqlType::Text)];
        v.extend((2..=n).map(|i| (self.names.col(i), self.names.ctype(i))));
        v
    }
    /// How many migrations have had their effect, which are recorded, and whether the stored rows are right.
    async fn observe(&self, c: C<'_>, len: usize, data: &BTreeMap<usize, Row>) -> std::result::Result<usize, String> {
        #[allow(non_snake_case)]
        let N = &self.names;
        let n;
        let mut recs: Vec<String> = {
            let has = match c {
                C::S(c) => ConnectionMethods::has_table(&c, "butane_migrations"),
                C::A(c) => butane::db::ConnectionMethodsAsync::has_table(&c, "butane_migrations").await,
            }
            .map_err(|e| format!("has_table: {e}"))?;
            if !has {
                vec![]
            } else {
                let r = rows(c, "butane_migrations", &[("name", SqlType::Text)]).await.map_err(|e| format!("reading butane_migrations: {e}"))?;
                r.into_iter().map(|r| match &r[0] { SqlVal::Text(s) => s.clone(), v => format!("{v:?}") }).collect()
            }
        };
        if self.strayed {
            let before = recs.len();
            recs.retain(|r| r != "zz_unknown");
            ensure(recs.len() + 1 == before, || "the record of a migration which is not in the collection was lost".into())?;
        }
        n = recs.len();
        let mut want: Vec<&String> = self.mnames[..n.min(self.mnames.len())].iter().collect();
        want.sort();
        recs.sort();
        ensure(want == recs.iter().collect::<Vec<_>>(), || format!("migrations recorded as applied: {recs:?}, which is not the first part of {:?}", &self.mnames[..len]))?;
        ensure(n <= len, || format!("{n} migrations recorded, there are {len}"))?;
        let mut data = data.clone();
        Self::forget(&mut data, n);
        // schema and contents
        let id = (N.id.as_str(), SqlType::BigInt);
        let parent = (N.parent.as_str(), SqlType::BigInt);
        let bc = self.base_cols(n);
        let bc: Vec<(&str, SqlType)> = bc.iter().map(|(a, b)| (a.as_str(), b.clone())).collect();
        let at = format!("{n} migrations are recorded");
        let base = rows(c, &N.base, &bc).await;
        if n == 0 {
            for t in [&N.base, &N.kids[0], &N.kids[1]] {
                ensure(rows(c, t, &[id.clone()]).await.is_err(), || format!("{at}, but table {t} exists"))?;
            }
        } else {
            let key = |v: &Vec<SqlVal>| format!("{:?}", v[0]);
            let mut got = base.map_err(|e| format!("{at}, but {} cannot be read: {e}", N.base))?;
            got.sort_by_key(key);
            let mut want: Vec<Vec<SqlVal>> = data.iter().map(|(k, r)| self.want_row(*k, r, n)).collect();
            want.sort_by_key(key);
            ensure(got == want, || format!("{at}; rows of {}: {got:?}, specified {want:?}", N.base))?;
            for (j, t) in N.kids.iter().enumerate() {
                let mut got = rows(c, t, &[id.clone(), parent.clone()]).await.map_err(|e| format!("{at}, but {t} cannot be read: {e}"))?;
                got.sort_by_key(key);
                let mut want: Vec<Vec<SqlVal>> = data.keys().map(|k| vec![SqlVal::BigInt((k * 10 + j) as i64), SqlVal::BigInt(*k as i64)]).collect();
                want.sort_by_key(key);
                ensure(got == want, || format!("{at}; rows of {t}: {got:?}, specified {want:?}"))?;
            }
        }
        for i in 2..=self.mnames.len() {
            let t = N.table(i);
            let r = rows(c, &t, &[id.clone(), parent.clone()]).await;
            if i > n {
                ensure(r.is_err(), || format!("{at}, but table {t} exists"))?;
                if n > 0 {
                    ensure(rows(c, &N.base, &[(N.col(i).as_str(), SqlType::Text)]).await.is_err(), || format!("{at}, but column {} exists", N.col(i)))?;
                }
            } else {
                let got = r.map_err(|e| format!("{at}, but {t} cannot be read: {e}"))?.len();
                let want = data.values().filter(|r| r.given.contains_key(&i)).count();
                ensure(got == want, || format!("{at}; {t} has {got} rows, specified {want}"))?;
            }
        }
        Ok(n)
    }
    async fn collection_says(&self, conn: &mut Conn, st: &Value) -> Check {
        let want = (
            st["un"].as_array().unwrap().iter().map(|i| self.mnames[i.as_u64().unwrap() as usize - 1].clone()).collect::<Vec<_>>(),
            st["n"].as_u64().filter(|n| *n > 0).map(|n| self.mnames[n as usize - 1].clone()),
        );
        let got = match conn {
            Conn::S(_) => self.coll.state(conn).await,
            Conn::A(c) => {
                let me = self.coll.clone();
                c.with_sync(move |c| me.read(c)).await
            }
        }
        .map_err(|e| format!("unapplied_migrations, last_applied_migration: {e}"))?;
        ensure(got == want, || format!("(unapplied migrations, last applied): {got:?}, specified {want:?}"))
    }
    async fn open(&self, spec: &ConnectionSpec) -> Conn {
        let c = Conn::open(&self.lane, spec).await;
        if self.lane.backend == "sqlite" {
            exec(c.c(), "PRAGMA synchronous=OFF").await.unwrap();
        }
        c
    }
    fn saved(&self) -> Saved {
        match &self.coll {
            Coll::Mem(m) => Saved::Mem(serde_json::to_string(m).unwrap()),
            Coll::Fs(_) => Saved::Fs(self._fs.as_ref().unwrap().path().join("m")),
        }
    }
    async fn step(&mut self, db: &mut Db, conn: &mut Option<Conn>, step: &Step) -> Check {
        let ev = &step.ev;
        let op = ev["op"].as_str().unwrap();
        let be = self.lane.backend.clone();
        let len = step.st["c"].as_array().unwrap().len();
        if self.json {
            if let Coll::Mem(m) = &self.coll {
                let j = serde_json::to_string(m).unwrap();
                self.coll = Coll::Mem(MemMigrations::from_json(&j).map_err(|e| format!("from_json: {e}"))?);
            }
        }
        match op {
            "create" => {
                let g = self
                    .coll
                    .create(&self.mnames[len - 1], self.names.adb(len), &be, ev["kind"].as_str().unwrap(), &self.bad, self.bad_first)
                    .map_err(|e| format!("create_migration_to: {e}"))?
                    .ok_or("create_migration_to made nothing although the schema differs")?;
                self.good.push(g);
            }
            "repair" => {
                let i = ev["i"].as_u64().unwrap() as usize - 1;
                self.coll.repair(&self.mnames[i], &be, &self.good[i]).map_err(|e| format!("replacing the SQL of a migration: {e}"))?;
            }
            "addrow" => {
                let k = tok(&ev["k"]) + 1;
                let mut row = Row::default();
                (2..=self.n).for_each(|i| {
                    row.given.insert(i, true);
                });
                self.data.insert(k, row.clone());
                #[allow(non_snake_case)]
        let N = &self.names;
                let c = conn.as_ref().unwrap().c();
                let bc = self.base_cols(self.n);
                let bc: Vec<(&str, SqlType)> = bc.iter().map(|(a, b)| (a.as_str(), b.clone())).collect();
                let e = |e: butane::Error| format!("inserting rows: {e}");
                insert(c, &N.base, &bc, &self.want_row(k, &row, self.n)).await.map_err(e)?;
                let kc = [(N.id.as_str(), SqlType::BigInt), (N.parent.as_str(), SqlType::BigInt)];
                for (j, t) in N.kids.iter().enumerate() {
                    insert(c, t, &kc, &[((k * 10 + j) as i64).to_sql(), (k as i64).to_sql()]).await.map_err(e)?;
                }
                for i in 2..=self.n {
                    insert(c, &N.table(i), &kc, &[(k as i64).to_sql(), (if i == 2 { k } else { k * 10 } as i64).to_sql()]).await.map_err(e)?;
                }
            }
            "reopen" => {
                *conn = None;
                match catch(self.open(&db.spec())).await {
                    Ok(c) => *conn = Some(c),
                    // the engine wrote the definition of an altered table without the quotes
                    Err(e) if be == "turso" && self.kw && e.contains("unexpected token 'order'") => {
                        known("turso-alter-keyword");
                        self.ended = true;
                        return Ok(());
                    }
                    Err(e) => return Err(e),
                }
            }
            _ if ev["res"] == "died" => {
                *conn = None;
                let fin = ev["fin"]["n"].as_u64().unwrap() as usize;
                let to = step.st["n"].as_u64().unwrap() as usize;
                match self.die(db, op, fin, &ev["fin"]["res"], to, len).await? {
                    Some(d) => *db = d,
                    None => {
                        self.ended = true;
                        return Ok(());
                    }
                }
                *conn = Some(self.open(&db.spec()).await);
            }
            _ => {
                let r = catch(self.coll.run(op, conn.as_mut().unwrap())).await;
                let msg = match &r {
                    Ok(Ok(())) => String::new(),
                    Ok(Err(e)) => e.to_string(),
                    Err(e) => e.clone(),
                };
                if be == "turso" && msg.contains("table being renamed should be in schema") && self.names.base != self.names.base.to_lowercase() {
                    // adding a column to a table whose name has capitals
                    known("turso-add-column");
                    *conn = None;
                    let c = self.open(&db.spec()).await;
                    let n = self.observe(c.c(), len, &self.data).await.map_err(|e| format!("after {op} failed: {e}"))?;
                    ensure(n <= step.st["c"].as_array().unwrap().len() && n >= self.n, || format!("after {op} failed {n} migrations are applied"))?;
                    self.ended = true;
                    return Ok(());
                }
                let r = r?;
                ensure(errs(&r) == ev["res"], || format!("{op}: specified {}, got {}", ev["res"], text(&r)))?;
            }
        }
        let n = self.observe(conn.as_ref().unwrap().c(), len, &self.data).await.map_err(|e| format!("after {op}: {e}"))?;
        same(&format!("after {op}: number of migrations applied"), &step.st["n"], &json!(n))?;
        self.n = n;
        Self::forget(&mut self.data, n);
        if self.stray && !self.strayed && n > 0 {
            insert(conn.as_ref().unwrap().c(), "butane_migrations", &[("name", SqlType::Text)], &["zz_unknown".to_sql()]).await.map_err(|e| e.to_string())?;
            self.strayed = true;
        }
        self.collection_says(conn.as_mut().unwrap(), &step.st).await
    }
    /// Runs the operation in processes which die at various points; returns a database in which it died after
    /// reaching `to`, if that happened.
    async fn die(&mut self, db: &Db, op: &str, fin: usize, finres: &Value, to: usize, len: usize) -> std::result::Result<Option<Db>, String> {
        let (name, saved) = (self.lane.name.clone(), self.saved());
        let seg = |d: &Db| Seg { lane: name.clone(), conn_str: d.spec().conn_str, op: op.into(), coll: saved.clone() };
        // undisturbed
        let d = db.copy();
        let (total, res) = run_seg(&self.lane, seg(&d), -1)?;
        ensure(res.as_deref() == finres.as_str(), || format!("{op} in a process of its own: specified {finres}, got {res:?}"))?;
        let n = self.look(&d, len).await.map_err(|e| format!("after {op} in a process of its own: {e}"))?;
        ensure(n == fin, || format!("{op} in a process of its own: {n} migrations applied, specified {fin}"))?;
        drop(d);
        let mut pts: Vec<i64> = (0..total).collect();
        if pts.len() > self.points {
            pts = self.rng.pick(&pts, self.points);
        }
        let mut found = None;
        let (lo, hi) = (self.n.min(fin), self.n.max(fin));
        for p in pts {
            let d = db.copy();
            run_seg(&self.lane, seg(&d), p)?;
            let what = format!("a process running {op} died at its write or message {p} of {total}");
            let n = self.look(&d, len).await.map_err(|e| format!("after {what}: {e}"))?;
            ensure((lo..=hi).contains(&n), || format!("after {what}: {n} migrations are applied; {} were before it and {fin} would be after it", self.n))?;
            if n == to && found.is_none() {
                found = Some(d.copy());
            }
            let (_, res) = run_seg(&self.lane, seg(&d), -1)?;
            ensure(res.as_deref() == finres.as_str(), || format!("{what}; running it again: specified {finres}, got {res:?}"))?;
            let n = self.look(&d, len).await.map_err(|e| format!("{what}; after running it again: {e}"))?;
            ensure(n == fin, || format!("{what}; after running it again {n} migrations are applied, specified {fin}"))?;
        }
        Ok(found)
    }
    async fn look(&self, d: &Db, len: usize) -> std::result::Result<usize, String> {
        let c = self.open(&d.spec()).await;
        self.observe(c.c(), len, &self.data).await
    }
}

#[derive(Serialize, Deserialize, Clone)]
enum Saved {
    Mem(String),
    Fs(PathBuf),
}
#[derive(Serialize, Deserialize)]
struct Seg {
    lane: String,
    conn_str: String,
    op: String,
    coll: Saved,
}

/// Writes left before this process kills itself (negative: never), and writes made.
static FUSE: AtomicI64 = AtomicI64::new(-1);
static WRITES: AtomicI64 = AtomicI64::new(-1);
fn burn() {
    if WRITES.load(Ordering::SeqCst) < 0 {
        return;
    }
    let n = WRITES.fetch_add(1, Ordering::SeqCst);
    if n == FUSE.load(Ordering::SeqCst) {
        unsafe { libc::kill(libc::getpid(), libc::SIGKILL) };
        loop {
            std::thread::sleep(std::time::Duration::from_secs(1));
        }
    }
}
// These replace the C library's functions in this program, for SQLite and turso.
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: i32, b: *const libc::c_void, n: usize, off: i64) -> isize {
    burn();
    libc::syscall(libc::SYS_pwrite64, fd, b, n, off) as isize
}
#[no_mangle]
pub unsafe extern "C" fn pwrite(fd: i32, b: *const libc::c_void, n: usize, off: i64) -> isize {
    burn();
    libc::syscall(libc::SYS_pwrite64, fd, b, n, off) as isize
}
#[no_mangle]
pub unsafe extern "C" fn pwritev(fd: i32, b: *const libc::iovec, n: i32, off: i64) -> isize {
    burn();
    libc::syscall(libc::SYS_pwritev, fd, b, n, off, 0usize) as isize
}
#[no_mangle]
pub unsafe extern "C" fn unlink(p: *const libc::c_char) -> i32 {
    burn();
    libc::syscall(libc::SYS_unlink, p) as i32
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: i32, n: i64) -> i32 {
    burn();
    libc::syscall(libc::SYS_ftruncate, fd, n) as i32
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate(fd: i32, n: i64) -> i32 {
    burn();
    libc::syscall(libc::SYS_ftruncate, fd, n) as i32
}

/// The child: performs one operation.
pub fn segment() {
    let mut inp = std::io::BufReader::new(std::io::stdin());
    let mut line = String::new();
    inp.read_line(&mut line).unwrap();
    let s: Seg = serde_json::from_str(&line).unwrap();
    let lane = Lane::parse(&s.lane);
    set_backend(&lane.backend);
    let coll = match &s.coll {
        Saved::Mem(j) => Coll::Mem(MemMigrations::from_json(j).unwrap()),
        Saved::Fs(p) => Coll::Fs(butane::migrations::from_root(p)),
    };
    drive(&lane, async {
        let mut conn = Conn::open(&lane, &ConnectionSpec::new(lane.backend.clone(), s.conn_str.clone())).await;
        if lane.backend == "sqlite" {
            exec(conn.c(), "PRAGMA synchronous=OFF").await.unwrap();
        }
        println!("ready");
        std::io::stdout().flush().unwrap();
        line.clear();
        inp.read_line(&mut line).unwrap();
        FUSE.store(line.trim().parse().unwrap(), Ordering::SeqCst);
        WRITES.store(0, Ordering::SeqCst);
        let r = match catch(coll.run(&s.op, &mut conn)).await {
            Ok(r) => errs(&r).as_str().unwrap().to_string(),
            Err(e) => e,
        };
        let w = WRITES.swap(-1, Ordering::SeqCst);
        println!("{}", json!([w, r]));
        std::io::stdout().flush().unwrap();
        unsafe { libc::kill(libc::getpid(), libc::SIGKILL) };
    })
}

/// Runs the operation in a process that dies before its write (or message to the server) number `fuse`.
/// Returns the number of writes and the result, if it ended.
fn run_seg(lane: &Lane, mut s: Seg, fuse: i64) -> std::result::Result<(i64, Option<String>), String> {
    let proxy = (lane.backend == "pg").then(|| Proxy::new(fuse));
    if let Some(p) = &proxy {
        let dbname = s.conn_str.rsplit("dbname=").next().unwrap().to_string();
        s.conn_str = format!("host={} user=postgres dbname={dbname}", p.dir.path().display());
    }
    let mut p = std::process::Command::new(std::env::current_exe().unwrap())
        .arg("migrseg")
        .stdin(std::process::Stdio::piped())
        .stdout(std::process::Stdio::piped())
        .stderr(std::process::Stdio::null())
        .spawn()
        .unwrap();
    let mut inp = p.stdin.take().unwrap();
    let mut out = std::io::BufReader::new(p.stdout.take().unwrap());
    writeln!(inp, "{}", serde_json::to_string(&s).unwrap()).unwrap();
    let mut line = String::new();
    out.read_line(&mut line).unwrap();
    if line.trim() != "ready" {
        let st = p.wait().unwrap();
        return Err(format!("a process could not connect to the database: {st}"));
    }
    if let Some(x) = &proxy {
        x.arm(p.id());
    }
    writeln!(inp, "{}", if proxy.is_some() { -1 } else { fuse }).unwrap();
    let mut rest = String::new();
    let _ = out.read_to_string(&mut rest);
    let _ = p.wait();
    let r: Option<(i64, String)> = serde_json::from_str(rest.trim()).ok();
    Ok(match r {
        Some((w, r)) => (proxy.as_ref().map(|p| p.count()).unwrap_or(w), Some(r)),
        None => (-1, None),
    })
}

/// Stands between a process and the PostgreSQL server and kills the process before its n-th message.
struct Proxy {
    dir: tempfile::TempDir,
    pid: std::sync::Arc<AtomicUsize>,
    seen: std::sync::Arc<AtomicI64>,
}
impl Proxy {
    fn new(fuse: i64) -> Proxy {
        use std::os::unix::net::{UnixListener, UnixStream};
        let dir = tempfile::Builder::new().prefix("bh-px").tempdir().unwrap();
        let l = UnixListener::bind(dir.path().join(".s.PGSQL.5432")).unwrap();
        let real = pgbase().split_whitespace().find_map(|w| w.strip_prefix("host=").map(String::from)).unwrap();
        let pid = std::sync::Arc::new(AtomicUsize::new(0));
        let seen = std::sync::Arc::new(AtomicI64::new(0));
        let (pid2, seen2) = (pid.clone(), seen.clone());
        std::thread::spawn(move || {
            // one connection is enough for an operation; further ones are served the same way
            while let Ok((c, _)) = l.accept() {
                let Ok(s) = UnixStream::connect(Path::new(&real).join(".s.PGSQL.5432")) else { return };
                let (mut c1, mut s1) = (c.try_clone().unwrap(), s.try_clone().unwrap());
                std::thread::spawn(move || {
                    let _ = std::io::copy(&mut s1, &mut c1);
                    let _ = c1.shutdown(std::net::Shutdown::Both);
                });
                let (mut c, mut s, pid, seen) = (c, s, pid2.clone(), seen2.clone());
                std::thread::spawn(move || {
                    let mut started = false;
                    loop {
                        let mut head = vec![0u8; if started { 5 } else { 4 }];
                        if c.read_exact(&mut head).is_err() {
                            break;
                        }
                        let len = u32::from_be_bytes(head[head.len() - 4..].try_into().unwrap()) as usize - 4;
                        let mut body = vec![0u8; len];
                        if c.read_exact(&mut body).is_err() {
                            break;
                        }
                        if !started {
                            // an SSL request is answered by the server and followed by the real start
                            started = body.len() > 4;
                        } else if pid.load(Ordering::SeqCst) != 0 {
                            let n = seen.fetch_add(1, Ordering::SeqCst);
                            if n == fuse {
                                unsafe { libc::kill(pid.load(Ordering::SeqCst) as i32, libc::SIGKILL) };
                                break;
                            }
                        }
                        if s.write_all(&head).and_then(|_| s.write_all(&body)).is_err() {
                            break;
                        }
                    }
                    let _ = s.shutdown(std::net::Shutdown::Both);
                });
            }
        });
        Proxy { dir, pid, seen }
    }
    fn arm(&self, pid: u32) {
        self.pid.store(pid as usize, Ordering::SeqCst);
    }
    fn count(&self) -> i64 {
        self.seen.load(Ordering::SeqCst)
    }
}
impl Drop for Proxy {
    fn drop(&mut self) {
        // let the accepting thread end
        let _ = std::fs::remove_file(self.dir.path().join(".s.PGSQL.5432"));
    }
}

pub fn batch(lane: &Lane, walks: &[Walk], beat: &Beat, stop: &AtomicUsize, steps: &AtomicUsize) -> Vec<Mismatch> {
    set_backend(&lane.backend);
    let mut out = vec![];
    for walk in walks {
        if stop.load(Ordering::Relaxed) > 3 {
            break;
        }
        *beat.since.lock().unwrap() = Some((std::time::Instant::now(), lane.name.clone(), walk.clone()));
        let r: std::result::Result<(), (usize, String)> = drive(lane, async {
            let mut db = Db::new(&lane.backend);
            let mut w = World3::new(lane, &walk.variant, walk.seed);
            let mut conn = Some(w.open(&db.spec()).await);
            for (i, s) in walk.steps.iter().enumerate() {
                beat.at.store(i, Ordering::Relaxed);
                // each step may take long when processes are killed
                *beat.since.lock().unwrap() = Some((std::time::Instant::now(), lane.name.clone(), walk.clone()));
                let r = catch(w.step(&mut db, &mut conn, s)).await.unwrap_or_else(Err);
                steps.fetch_add(1, Ordering::Relaxed);
                r.map_err(|e| (i, e))?;
                if w.ended {
                    break;
                }
            }
            Ok(())
        });
        if let Err((i, m)) = r {
            stop.fetch_add(1, Ordering::Relaxed);
            out.push(Mismatch { lane: lane.name.clone(), walk: walk.clone(), failed_step: i, message: m });
            break;
        }
    }
    *beat.since.lock().unwrap() = None;
    out
}
