//! Names.tla: tables and columns of any name (N01).
use crate::core::*;
use crate::w_migr::{cols, leak, rows, ty, Coll};
use crate::w_txn::{drive, Conn};
use butane::db::{Column, ConnectionMethods, ConnectionMethodsAsync, ConnectionSpec, RawQueryResult};
use butane::migrations::adb::{AColumn, ARef, ARefLiteral, ATable, ADB};
use butane::migrations::{MemMigrations, MigrationsMut};
use butane::query::{BoolExpr, Column as QColumn, Expr, Join, Order, OrderDirection};
use butane::{Result, SqlType, SqlVal, SqlValRef};
use nonempty::nonempty;
use serde_json::{json, Value};
use std::sync::atomic::{AtomicUsize, Ordering};

/// One call on the connection, whichever kind it is.
macro_rules! call {
    ($c:expr, $m:ident($($a:expr),*)) => {
        match $c {
            C::S(c) => ConnectionMethods::$m(&c, $($a),*),
            C::A(c) => ConnectionMethodsAsync::$m(&c, $($a),*).await,
        }
    };
}

/// Names that databases are most likely to take for something else.
const PECULIAR: &[&str] = &[
    "rowid", "_rowid_", "oid", "true", "false", "null", "current_date", "current_time", "current_timestamp", "current_user", "user", "default", "new", "old", "excluded", "Ünïcode", "é",
    "ÄußerstLängereBezeichnungMitÜberlänge", "sixty_three_bytes_are_as_many_as_a_name_may_have_if_it_is_to_be", "order", "a_name_which_is_not_short_but_may_well_be_used",
];

pub fn all_names() -> Vec<&'static str> {
    if let Ok(n) = std::env::var("BH_NAMES") {
        return leak(&n).split(',').collect();
    }
    include_str!("../names.txt").lines().collect()
}

struct W {
    be: String,
    /// tables P and C
    p: &'static str,
    c: &'static str,
    /// key, value and further column of P; key and reference of C
    k: &'static str,
    d: &'static str,
    x: &'static str,
    ck: &'static str,
    r: &'static str,
    texts: [String; 4],
    ms: Coll,
    rng: Rng,
}

impl W {
    fn new(be: &str, seed: u64) -> W {
        let mut rng = Rng::new(seed);
        let all = if rng.below(4) == 0 { rng.pick(PECULIAR, PECULIAR.len()) } else { all_names() };
        // every name takes its turn in every role
        let mut used: Vec<String> = vec![];
        let mut names = vec![];
        for role in 0..7 {
            let mut i = (seed as usize).wrapping_mul(7).wrapping_add(role * 157) % all.len();
            let name = loop {
                let n = all[i];
                // a database which does not tell upper from lower case does not tell such names apart
                if !used.contains(&n.to_lowercase()) {
                    break n;
                }
                i = (i + 1) % all.len();
            };
            used.push(name.to_lowercase());
            // the columns of C may be called like those of P
            if role == 4 {
                used.truncate(2);
            }
            names.push(leak(&match rng.below(4) {
                0 => name.to_uppercase(),
                1 => {
                    let mut c = name.chars();
                    c.next().map(|f| f.to_uppercase().collect::<String>() + c.as_str()).unwrap()
                }
                _ => name.to_string(),
            }));
        }
        // either of the words may sort first
        let t = ["apple", "banana", "cherry"];
        let pre = ["", "Z", "a'b", "é"][rng.below(4)];
        let mut w = W {
            be: be.into(),
            p: names[0],
            c: names[1],
            k: names[2],
            d: names[3],
            x: names[4],
            ck: names[5],
            r: names[6],
            texts: [String::new(), format!("{pre}{}", t[0]), format!("{pre}{}", t[1]), format!("{pre}{}", t[2])],
            ms: Coll::Mem(MemMigrations::new()),
            rng,
        };
        w.ms = Coll::Mem(w.migrations());
        w
    }
    /// What the turso engine is known not to cope with.
    fn beyond_turso(&self) -> Option<&'static str> {
        let cols = [self.k, self.d, self.x, self.ck, self.r];
        if cols.iter().any(|c| ["rowid", "_rowid_", "oid"].contains(&c.to_lowercase().as_str())) {
            Some("turso-rowid-column")
        } else if cols.iter().any(|c| c.to_lowercase() != c.to_ascii_lowercase()) {
            Some("turso-folded-column")
        } else {
            None
        }
    }
    fn naming(&self) -> String {
        format!("{}({}, {}, {}), {}({}, {})", self.p, self.k, self.d, self.x, self.c, self.ck, self.r)
    }
    fn adb(&self, st: u64) -> ADB {
        let mut db = ADB::new();
        let pk = |n: &str| AColumn::new(n, ty(SqlType::BigInt), false, true, false, false, None, None);
        if st >= 1 {
            let mut t = ATable::new(self.p.to_string());
            t.add_column(pk(self.k));
            t.add_column(AColumn::new(self.d, ty(SqlType::Text), st >= 4, false, false, st == 3, None, None));
            if (2..=4).contains(&st) {
                t.add_column(AColumn::new(self.x, ty(SqlType::Text), false, false, false, false, Some(SqlVal::Text("def".into())), None));
            }
            db.replace_table(t);
        }
        if (1..=5).contains(&st) {
            let mut t = ATable::new(self.c.to_string());
            t.add_column(pk(self.ck));
            t.add_column(AColumn::new(self.r, ty(SqlType::BigInt), false, false, false, false, None, Some(ARef::Literal(ARefLiteral::new(self.p, self.k)))));
            db.replace_table(t);
        }
        db
    }
    fn migrations(&self) -> MemMigrations {
        use butane::migrations::Migrations;
        let mut ms = MemMigrations::new();
        let top = if self.be == "turso" { 1 } else { 6 };
        for st in 1..=top {
            let last = ms.latest();
            assert!(ms.create_migration_to(&nonempty![backend(&self.be)], &format!("m{st}"), last.as_ref(), self.adb(st)).unwrap());
        }
        ms
    }
    fn pcols(&self, st: u64) -> Vec<(&'static str, SqlType)> {
        let mut v = vec![(self.k, SqlType::BigInt), (self.d, SqlType::Text)];
        if (2..=4).contains(&st) {
            v.push((self.x, SqlType::Text));
        }
        v
    }
    fn ccols(&self) -> Vec<(&'static str, SqlType)> {
        vec![(self.ck, SqlType::BigInt), (self.r, SqlType::BigInt)]
    }
    fn val(&self, v: &Value) -> SqlVal {
        match v.as_u64().unwrap() {
            0 => SqlVal::Null,
            i => SqlVal::Text(self.texts[i as usize].clone()),
        }
    }
    fn cond(&self, k: &str, v: &Value) -> Option<BoolExpr> {
        let n = SqlVal::BigInt(v.as_i64().unwrap());
        let (t, d) = (Expr::Val(self.val(v)), self.d);
        let one = BoolExpr::Eq(self.k, Expr::Val(SqlVal::BigInt(1)));
        Some(match k {
            "all" => return None,
            "eq" => BoolExpr::Eq(d, t),
            "ne" => BoolExpr::Ne(d, t),
            "lt" => BoolExpr::Lt(d, t),
            "gt" => BoolExpr::Gt(d, t),
            "le" => BoolExpr::Le(d, t),
            "ge" => BoolExpr::Ge(d, t),
            "like" => BoolExpr::Like(d, Expr::Val(SqlVal::Text(format!("%{}", ["", "apple", "banana", "cherry"][v.as_u64().unwrap() as usize])))),
            "in" => BoolExpr::In(d, vec![self.val(v)]),
            "not" => BoolExpr::Not(Box::new(BoolExpr::Eq(d, t))),
            "and" => BoolExpr::And(Box::new(BoolExpr::Eq(d, t)), Box::new(one)),
            "or" => BoolExpr::Or(Box::new(BoolExpr::Eq(d, t)), Box::new(one)),
            "keys" => BoolExpr::AllOf(vec![BoolExpr::Eq(self.k, Expr::Val(n))]),
            "sub" => BoolExpr::Subquery { col: self.k, tbl2: self.c.into(), tbl2_col: self.r, expr: Box::new(BoolExpr::Le(self.ck, Expr::Val(n))) },
            "join" => BoolExpr::SubqueryJoin {
                col: self.k,
                tbl2: self.p.into(),
                col2: QColumn::new(self.c, self.r),
                joins: vec![Join::Inner { join_table: self.c, col1: QColumn::new(self.c, self.r), col2: QColumn::new(self.p, self.k) }],
                expr: Box::new(BoolExpr::Eq(d, t)),
            },
            o => panic!("{o}"),
        })
    }
    /// The columns of a join have to be told apart by whoever writes it.
    fn clash(&self) -> bool {
        [self.ck, self.r].iter().any(|n| n.to_lowercase() == self.d.to_lowercase())
    }
    fn take(mut r: RawQueryResult<'_>) -> Result<Vec<i64>> {
        let mut out = vec![];
        while let Some(row) = r.next()? {
            match SqlVal::from(row.get(0, SqlType::BigInt)?) {
                SqlVal::BigInt(i) => out.push(i),
                v => panic!("key {v:?}"),
            }
        }
        Ok(out)
    }
    async fn find(&self, c: C<'_>, table: &str, cs: &[Column], e: Option<BoolExpr>, limit: Option<i32>, offset: Option<i32>, order: &[Order]) -> Result<Vec<i64>> {
        match c {
            C::S(c) => Self::take(ConnectionMethods::query(&c, table, cs, e, limit, offset, Some(order).filter(|o| !o.is_empty()))?),
            C::A(c) => Self::take(ConnectionMethodsAsync::query(&c, table, cs, e, limit, offset, Some(order).filter(|o| !o.is_empty())).await?),
        }
    }
    async fn check(&self, c: C<'_>, st: &Value) -> Check {
        let s = st["st"].as_u64().unwrap();
        let p = rows(c, self.p, &self.pcols(s)).await;
        if s == 0 {
            ensure(p.is_err(), || "P can be read".into())?;
        } else {
            let mut p = p.map_err(|e| format!("reading P: {e}"))?;
            p.sort_by_key(|r| format!("{:?}", r[0]));
            let mut want = vec![];
            for (i, r) in st["p"].as_array().unwrap().iter().enumerate().filter(|(_, r)| !r.as_array().unwrap().is_empty()) {
                let mut v = vec![SqlVal::BigInt(i as i64 + 1), self.val(&r[0])];
                if r[1] != "-" {
                    v.push(SqlVal::Text(r[1].as_str().unwrap().into()));
                }
                want.push(v);
            }
            ensure(p == want, || format!("P holds {p:?}, specified {want:?}"))?;
        }
        let q = rows(c, self.c, &self.ccols()).await;
        if !(1..=5).contains(&s) {
            return ensure(q.is_err(), || "C can be read".into());
        }
        let mut q = q.map_err(|e| format!("reading C: {e}"))?;
        q.sort_by_key(|r| format!("{:?}", r[0]));
        let want: Vec<Vec<SqlVal>> = st["c"].as_array().unwrap().iter().enumerate().filter(|(_, i)| **i != 0).map(|(j, i)| vec![SqlVal::BigInt(j as i64 + 1), SqlVal::BigInt(i.as_i64().unwrap())]).collect();
        ensure(q == want, || format!("C holds {q:?}, specified {want:?}"))
    }
    async fn step(&mut self, conn: &mut Conn, step: &Step) -> Check {
        let ev = &step.ev;
        let op = ev["op"].as_str().unwrap();
        let s = step.st["st"].as_u64().unwrap();
        let r: std::result::Result<(), String> = match op {
            "up" | "down" => self.ms.run(if op == "up" { "apply" } else { "downgrade" }, conn).await.map_err(|e| e.to_string()),
            "has" => {
                let c = conn.c();
                let got = json!([call!(c, has_table(self.p)).map_err(|e| e.to_string())?, call!(c, has_table(self.c)).map_err(|e| e.to_string())?]);
                same("tables that exist", &json!([ev["p"], ev["c"]]), &got)?;
                Ok(())
            }
            "write" => {
                let c = conn.c();
                let how = ev["how"].as_str().unwrap();
                let cs = self.pcols(s);
                let key = SqlVal::BigInt(ev["i"].as_i64().unwrap());
                let mut vs = vec![key.clone(), self.val(&ev["v"])];
                let kc = Column::new(self.k, SqlType::BigInt);
                if cs.len() == 3 {
                    vs.push(SqlVal::Text("giv".into()));
                }
                let vr: Vec<SqlValRef> = vs.iter().map(|v| v.as_ref()).collect();
                let cs = cols(&cs);
                match how {
                    "replace" => call!(c, insert_or_replace(self.p, &cs, &kc, &vr)),
                    "update" => call!(c, update(self.p, kc, key.as_ref(), &cs[1..2], &vr[1..2])),
                    _ if self.rng.below(2) == 0 => match call!(c, insert_returning_pk(self.p, &cs, &kc, &vr)) {
                        Ok(k) => {
                            ensure(k == key, || format!("{k:?} was said to be the key of the row {key:?}"))?;
                            Ok(())
                        }
                        Err(e) => Err(e),
                    },
                    _ => call!(c, insert_only(self.p, &cs, &vr)),
                }
                .map_err(|e| e.to_string())
            }
            "refer" => {
                let c = conn.c();
                let cs = cols(&self.ccols());
                let vs = [SqlVal::BigInt(ev["j"].as_i64().unwrap()), SqlVal::BigInt(ev["i"].as_i64().unwrap())];
                let vr: Vec<SqlValRef> = vs.iter().map(|v| v.as_ref()).collect();
                let kc = Column::new(self.ck, SqlType::BigInt);
                if ev["new"] == true {
                    call!(c, insert_only(self.c, &cs, &vr))
                } else if self.rng.below(2) == 0 {
                    call!(c, update(self.c, kc, vr[0].clone(), &cs[1..], &vr[1..]))
                } else {
                    call!(c, insert_or_replace(self.c, &cs, &kc, &vr))
                }
                .map_err(|e| e.to_string())
            }
            "delc" => {
                let c = conn.c();
                call!(c, delete(self.c, self.ck, SqlVal::BigInt(ev["j"].as_i64().unwrap()))).map_err(|e| e.to_string())
            }
            "find" => {
                let k = ev["k"].as_str().unwrap();
                if k == "join" && self.clash() {
                    return Ok(());
                }
                let by = |c: &'static str, down: bool| Order { direction: if down { OrderDirection::Descending } else { OrderDirection::Ascending }, column: c };
                let order = match ev["o"].as_str().unwrap() {
                    "k" => vec![by(self.k, false)],
                    "kd" => vec![by(self.k, true)],
                    "d" => vec![by(self.d, false), by(self.k, false)],
                    _ => vec![by(self.d, true), by(self.k, false)],
                };
                let (limit, offset) = match ev["w"].as_str().unwrap() {
                    "all" => (None, None),
                    "first" => (Some(1), None),
                    _ => (None, Some(1)),
                };
                let got = self.find(conn.c(), self.p, &cols(&self.pcols(s)), self.cond(k, &ev["v"]), limit, offset, &order).await.map_err(|e| format!("finding rows: {e}"))?;
                same("rows of P found", &ev["val"], &json!(got))?;
                Ok(())
            }
            "findc" => {
                let e = if ev["k"] == "ref" {
                    BoolExpr::Eq(self.r, Expr::Val(SqlVal::BigInt(ev["v"].as_i64().unwrap())))
                } else {
                    BoolExpr::Subquery { col: self.r, tbl2: self.p.into(), tbl2_col: self.k, expr: Box::new(BoolExpr::Eq(self.d, Expr::Val(self.val(&ev["v"])))) }
                };
                let got = self.find(conn.c(), self.c, &cols(&self.ccols()), Some(e), None, None, &[]).await.map_err(|e| format!("finding rows: {e}"))?;
                same("rows of C found", &sorted(ev["val"].clone()), &sorted(json!(got)))?;
                Ok(())
            }
            "delete" => {
                let k = ev["k"].as_str().unwrap();
                let c = conn.c();
                let e = if k == "join" && self.clash() {
                    BoolExpr::Subquery { col: self.k, tbl2: self.c.into(), tbl2_col: self.r, expr: Box::new(self.findc_by_value(&ev["v"])) }
                } else {
                    self.cond(k, &ev["v"]).unwrap_or(BoolExpr::True)
                };
                match call!(c, delete_where(self.p, e)) {
                    Ok(n) => {
                        if self.be != "turso" {
                            same("number of rows deleted", &ev["n"], &json!(n))?;
                        }
                        Ok(())
                    }
                    Err(e) => Err(e.to_string()),
                }
            }
            o => panic!("{o}"),
        };
        ensure((ev["res"] == "ok") == r.is_ok(), || format!("{op} gave {r:?}, specified {}", ev["res"]))?;
        self.check(conn.c(), &step.st).await
    }
    fn findc_by_value(&self, v: &Value) -> BoolExpr {
        BoolExpr::Subquery { col: self.r, tbl2: self.p.into(), tbl2_col: self.k, expr: Box::new(BoolExpr::Eq(self.d, Expr::Val(self.val(v)))) }
    }
}

pub fn batch(lane: &Lane, walks: &[Walk], beat: &Beat, stop: &AtomicUsize, steps: &AtomicUsize) -> Vec<Mismatch> {
    set_backend(&lane.backend);
    let mut out = vec![];
    let pg = (lane.backend == "pg").then(|| scratch("pg", true));
    let r: std::result::Result<(), (Walk, usize, String)> = drive(lane, async {
        let fresh = || async {
            let spec = match &pg {
                Some(s) => s.spec.clone(),
                None => ConnectionSpec::new(lane.backend.clone(), ":memory:"),
            };
            Conn::open(lane, &spec).await
        };
        let mut conn = fresh().await;
        for walk in walks {
            if stop.load(Ordering::Relaxed) > 3 {
                break;
            }
            *beat.since.lock().unwrap() = Some((std::time::Instant::now(), lane.name.clone(), walk.clone()));
            if pg.is_some() {
                exec(conn.c(), "DROP SCHEMA public CASCADE; CREATE SCHEMA public;").await.unwrap();
            } else {
                conn = fresh().await;
            }
            let mut w = W::new(&lane.backend, walk.seed);
            for (i, s) in walk.steps.iter().enumerate() {
                beat.at.store(i, Ordering::Relaxed);
                let r = catch(w.step(&mut conn, s)).await.unwrap_or_else(Err);
                steps.fetch_add(1, Ordering::Relaxed);
                if let (Err(_), true, Some(f)) = (&r, on_backend() == "turso", w.beyond_turso()) {
                    known(f);
                    break;
                }
                r.map_err(|e| (walk.clone(), i, format!("{}: {e}", w.naming())))?;
            }
        }
        Ok(())
    });
    if let Err((walk, i, m)) = r {
        stop.fetch_add(1, Ordering::Relaxed);
        out.push(Mismatch { lane: lane.name.clone(), walk, failed_step: i, message: m });
    }
    *beat.since.lock().unwrap() = None;
    out
}
