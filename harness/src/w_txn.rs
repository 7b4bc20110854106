//! Txn.tla: transactions seen from two connections, with crashes (T01).
use crate::core::*;
use crate::go;
use crate::models::*;
use butane::db::{BackendConnection, BackendConnectionAsync, Connection, ConnectionAsync, ConnectionMethods, ConnectionMethodsAsync, ConnectionSpec, Transaction, TransactionAsync};
use butane::{DataObject, Result};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::io::Write;
use std::sync::atomic::{AtomicUsize, Ordering};

pub enum Conn {
    S(Connection),
    A(ConnectionAsync),
}
pub enum Tr<'c> {
    S(Transaction<'c>),
    A(TransactionAsync<'c>),
}
impl Conn {
    pub fn c(&self) -> C<'_> {
        match self {
            Conn::S(c) => C::S(DynS(c)),
            Conn::A(c) => C::A(DynA(c)),
        }
    }
    pub async fn begin(&mut self) -> Result<Tr<'_>> {
        match self {
            Conn::S(c) => BackendConnection::transaction(c).map(Tr::S),
            Conn::A(c) => BackendConnectionAsync::transaction(c).await.map(Tr::A),
        }
    }
    /// Connects as the lane says. Must be called inside `Rt::run`.
    pub async fn open(lane: &Lane, spec: &ConnectionSpec) -> Conn {
        let b = lane.backend.clone();
        let s = spec.conn_str.clone();
        match lane.style.as_str() {
            "sync" => Conn::S(backend(&b).connect(&s).unwrap()),
            "convs" => {
                let r = rt();
                let c = r.block_on(backend(&b).connect_async(&s)).unwrap();
                let c = {
                    let _g = r.enter();
                    c.into_sync().unwrap()
                };
                std::mem::forget(r);
                Conn::S(c)
            }
            "conva" => Conn::A(std::thread::spawn(move || backend(&b).connect(&s).unwrap().into_async().unwrap()).join().unwrap()),
            _ => Conn::A(backend(&b).connect_async(&s).await.unwrap()),
        }
    }
}
impl<'c> Tr<'c> {
    pub fn c(&self) -> C<'_> {
        match self {
            Tr::S(c) => C::S(DynS(c)),
            Tr::A(c) => C::A(DynA(c)),
        }
    }
    pub async fn commit(self) -> Result<()> {
        match self {
            Tr::S(t) => t.commit(),
            Tr::A(t) => t.commit().await,
        }
    }
    pub async fn rollback(self) -> Result<()> {
        match self {
            Tr::S(t) => t.rollback(),
            Tr::A(t) => t.rollback().await,
        }
    }
}
/// A connection and the transaction open on it.
pub struct Side {
    pub tr: Option<Tr<'static>>,
    conn: *mut Conn,
}
unsafe impl Send for Side {}
impl Side {
    pub fn new(c: Conn) -> Side {
        Side { tr: None, conn: Box::into_raw(Box::new(c)) }
    }
    pub fn c(&self) -> C<'_> {
        match &self.tr {
            Some(t) => t.c(),
            None => unsafe { (*self.conn).c() },
        }
    }
    pub async fn begin(&mut self) -> Result<()> {
        assert!(self.tr.is_none());
        // the transaction never outlives the connection: see Drop
        let c: &'static mut Conn = unsafe { &mut *self.conn };
        self.tr = Some(c.begin().await?);
        Ok(())
    }
}
impl Drop for Side {
    fn drop(&mut self) {
        self.tr = None;
        drop(unsafe { Box::from_raw(self.conn) });
    }
}
/// Runs a future the way the lane's connections are used.
pub fn drive<F: std::future::Future>(lane: &Lane, f: F) -> F::Output {
    match lane.style.as_str() {
        "sync" | "convs" => block_plain(f),
        "async1" => tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap().block_on(f),
        _ => {
            let r = rt();
            let v = r.block_on(f);
            r.shutdown_timeout(std::time::Duration::from_secs(2));
            v
        }
    }
}

struct World2 {
    a: Side,
    b: Side,
    locks: bool,
    bulk: bool,
    sqlite: bool,
    /// changes of the open transaction may have reached the file: SQLite lets nobody else read meanwhile
    spilt: bool,
    rng: Rng,
    keys: Vec<String>,
    vals: Vec<i32>,
}
impl World2 {
    async fn open(lane: &Lane, spec: &ConnectionSpec, locks: bool, bulk: bool) -> World2 {
        let w = World2 { a: Side::new(Conn::open(lane, spec).await), b: Side::new(Conn::open(lane, spec).await), locks, bulk, sqlite: lane.backend == "sqlite", spilt: false, rng: Rng::new(0), keys: vec![], vals: vec![] };
        if lane.backend == "sqlite" {
            for c in [w.a.c(), w.b.c()] {
                exec(c, "PRAGMA synchronous=OFF").await.unwrap();
                if bulk {
                    // changes of a transaction reach the file before its end
                    exec(c, "PRAGMA cache_size=4").await.unwrap();
                }
                if locks {
                    exec(c, "PRAGMA busy_timeout=0").await.unwrap();
                }
            }
        }
        w
    }
    fn start(&mut self, seed: u64) {
        self.rng = Rng::new(seed);
        self.keys = self.rng.pick(&crate::w_store::texts(), 3);
        self.vals = self.rng.pick(INTS32, 3);
    }
    async fn reset(&mut self) -> Check {
        self.a.tr = None;
        self.b.tr = None;
        let c = self.a.c();
        let e = |e: butane::Error| format!("clearing: {e}");
        delete_all(c, TxRow::TABLE).await.map_err(e)?;
        exec(c, "DROP TABLE IF EXISTS tx_extra").await.map_err(e)?;
        if self.bulk {
            delete_all(c, TxBulk::TABLE).await.map_err(e)?;
            let row = |i: usize| format!("({i}, 0, '{}')", format!("{i:03}").repeat(500));
            for i in 0..3 {
                let rows: Vec<String> = (i * 10..i * 10 + 10).map(row).collect();
                exec(c, &format!("INSERT INTO {} (id, v, pad) VALUES {}", TxBulk::TABLE, rows.join(", "))).await.map_err(e)?;
            }
        }
        Ok(())
    }
    async fn contents(&self, c: C<'_>, n: usize) -> Result<Value> {
        let all: Vec<TxRow> = go!(c, c => TxRow::query().load(c))?;
        let mut rows: Vec<(String, i64)> = (0..n).map(|i| (format!("k{}", i + 1), 0)).collect();
        for r in &all {
            let v = self.vals.iter().position(|v| *v == r.v).map(|i| i as i64 + 1).unwrap_or(-1);
            match self.keys.iter().position(|k| *k == r.k).filter(|k| *k < n) {
                Some(k) if rows[k].1 == 0 => rows[k].1 = v,
                _ => rows.push((format!("unexpected {r:?}"), v)),
            }
        }
        let m: serde_json::Map<String, Value> = rows.into_iter().map(|(k, v)| (k, json!(v))).collect();
        let tab = match c {
            C::S(c) => ConnectionMethods::has_table(&c, "tx_extra"),
            C::A(c) => ConnectionMethodsAsync::has_table(&c, "tx_extra").await,
        }?;
        let mut bulk = 0;
        if self.bulk {
            let all: Vec<TxBulk> = go!(c, c => TxBulk::query().load(c))?;
            bulk = all.first().map(|r| r.v).unwrap_or(-1);
            for r in &all {
                if r.v != bulk || r.pad != format!("{:03}", r.id).repeat(500) {
                    bulk = -2;
                }
            }
            if all.len() != 30 {
                bulk = -3;
            }
        }
        Ok(json!({"rows": m, "tab": tab, "bulk": bulk}))
    }
    async fn check(&self, who: &str, c: C<'_>, want: &Value) -> Check {
        let n = want["rows"].as_object().unwrap().len();
        let got = self.contents(c, n).await.map_err(|e| format!("reading through {who}: {e}"))?;
        same(&format!("database seen through {who}"), want, &got)
    }
    fn bulk_to(&self, step: &Step) -> i64 {
        let st = if step.st["a"]["w"].is_object() { &step.st["a"]["w"] } else { &step.st["d"] };
        st["bulk"].as_i64().unwrap()
    }
    async fn step(&mut self, step: &Step) -> Check {
        let ev = &step.ev;
        let op = ev["op"].as_str().unwrap();
        let outcome = |r: &Result<()>| ensure(errs(r) == ev["res"], || format!("{op}: specified {}, got {}", ev["res"], text(r)));
        let row = || TxRow { k: self.keys[tok(&ev["k"])].clone(), v: ev["v"].as_i64().map(|i| self.vals[i as usize - 1]).unwrap_or(0) };
        match op {
            "put" | "putb" => {
                let mut x = row();
                let c = if op == "put" { self.a.c() } else { self.b.c() };
                let r: Result<()> = go!(c, c => x.save(c));
                outcome(&r)?;
            }
            "del" => {
                let x = row();
                let c = self.a.c();
                let r: Result<()> = go!(c, c => x.delete(c));
                outcome(&r)?;
            }
            "delall" => {
                let c = self.a.c();
                let r: Result<usize> = go!(c, c => TxRow::query().delete(c));
                outcome(&r.map(|_| ()))?;
            }
            "mktable" => outcome(&exec(self.a.c(), "CREATE TABLE tx_extra (x INTEGER)").await)?,
            "bulk" => {
                let n = self.bulk_to(step);
                outcome(&exec(self.a.c(), &format!("UPDATE {} SET v = {n}", TxBulk::TABLE)).await)?;
            }
            "bad" => {
                let q = ["SELEC 1", "INSERT INTO tx_missing VALUES (1)", "DELETE FROM TxRow WHERE no_such_column = 1"][self.rng.below(3)];
                outcome(&exec(self.a.c(), q).await)?;
            }
            "readb" if self.spilt => {}
            "read" | "readb" => {
                let c = if op == "read" { self.a.c() } else { self.b.c() };
                let n = ev["val"]["rows"].as_object().unwrap().len();
                let r = self.contents(c, n).await;
                ensure(errs(&r) == ev["res"], || format!("{op}: specified {}, got {}", ev["res"], text(&r)))?;
                if let Ok(got) = r {
                    same(op, &ev["val"], &got)?;
                }
            }
            "begin" => outcome(&self.a.begin().await)?,
            "beginb" => outcome(&self.b.begin().await)?,
            "commit" => outcome(&self.a.tr.take().unwrap().commit().await)?,
            "rollback" => outcome(&self.a.tr.take().unwrap().rollback().await)?,
            "drop" => self.a.tr = None,
            "commitb" => outcome(&self.b.tr.take().unwrap().commit().await)?,
            "rollbackb" => outcome(&self.b.tr.take().unwrap().rollback().await)?,
            "crash" => {}
            o => return Err(format!("unknown op {o}")),
        }
        self.spilt = self.sqlite && self.bulk && step.st["a"]["dirty"] == true;
        if !self.locks && op != "crash" {
            let (want, aborted) = if step.st["a"]["w"].is_object() { (&step.st["a"]["w"], step.st["a"]["ab"] == true) } else { (&step.st["d"], false) };
            if !aborted {
                self.check("the connection", self.a.c(), want).await?;
            }
            if !self.spilt {
                self.check("the other connection", self.b.c(), &step.st["d"]).await?;
            }
        }
        Ok(())
    }
}

#[derive(Serialize, Deserialize)]
struct Segment {
    lane: String,
    conn_str: String,
    seed: u64,
    from: Value,
    steps: Vec<Step>,
    first: bool,
}

/// Runs one segment in its own process; a segment that ends in a crash does not return.
pub fn segment() {
    let s: Segment = serde_json::from_reader(std::io::stdin()).unwrap();
    let lane = Lane::parse(&s.lane);
    set_backend(&lane.backend);
    let spec = ConnectionSpec::new(lane.backend.clone(), s.conn_str.clone());
    drive(&lane, async {
        let mut w = World2::open(&lane, &spec, false, true).await;
        w.start(s.seed);
        let say = |r: (usize, Check)| {
            println!("{}", serde_json::to_string(&r).unwrap());
            std::io::stdout().flush().unwrap();
        };
        let r = if s.first { w.reset().await } else { w.check("a new connection after the crash", w.a.c(), &s.from).await };
        if r.is_err() {
            say((0, r));
            std::process::exit(0);
        }
        for (i, st) in s.steps.iter().enumerate() {
            if st.ev["op"] == "crash" {
                say((i, Ok(())));
                unsafe { libc::kill(libc::getpid(), libc::SIGKILL) };
            }
            let r = match catch(w.step(st)).await {
                Ok(r) => r,
                Err(e) => Err(e),
            };
            if r.is_err() {
                say((i, r));
                std::process::exit(0);
            }
        }
        say((s.steps.len(), Ok(())));
        std::process::exit(0);
    })
}

/// A walk with crashes, on one database.
fn crash_walk(lane: &Lane, spec: &ConnectionSpec, w: &Walk) -> std::result::Result<(), (usize, String)> {
    let mut at = 0;
    let mut from = Value::Null;
    while at < w.steps.len() {
        let end = w.steps[at..].iter().position(|s| s.ev["op"] == "crash").map(|i| at + i + 1).unwrap_or(w.steps.len());
        let s = Segment { lane: lane.name.clone(), conn_str: spec.conn_str.clone(), seed: w.seed, from, steps: w.steps[at..end].to_vec(), first: at == 0 };
        let mut p = std::process::Command::new(std::env::current_exe().unwrap())
            .arg("txnseg")
            .stdin(std::process::Stdio::piped())
            .stdout(std::process::Stdio::piped())
            .stderr(std::process::Stdio::null())
            .spawn()
            .unwrap();
        serde_json::to_writer(p.stdin.take().unwrap(), &s).unwrap();
        let out = p.wait_with_output().unwrap();
        let line = String::from_utf8_lossy(&out.stdout);
        let r: (usize, Check) = serde_json::from_str(line.trim()).map_err(|_| (at, format!("the process running these steps died: {}", out.status)))?;
        r.1.map_err(|e| (at + r.0, e))?;
        from = w.steps[end - 1].st["d"].clone();
        at = end;
    }
    // and once more after the last
    let w0 = Walk { steps: vec![], ..w.clone() };
    let s = Segment { lane: lane.name.clone(), conn_str: spec.conn_str.clone(), seed: w.seed, from, steps: w0.steps, first: false };
    let mut p = std::process::Command::new(std::env::current_exe().unwrap()).arg("txnseg").stdin(std::process::Stdio::piped()).stdout(std::process::Stdio::piped()).spawn().unwrap();
    serde_json::to_writer(p.stdin.take().unwrap(), &s).unwrap();
    let out = p.wait_with_output().unwrap();
    let r: (usize, Check) = serde_json::from_str(String::from_utf8_lossy(&out.stdout).trim()).map_err(|e| (w.steps.len() - 1, format!("no answer after the walk: {e}")))?;
    r.1.map_err(|e| (w.steps.len() - 1, e))
}

pub fn batch(lane: &Lane, walks: &[Walk], beat: &Beat, stop: &AtomicUsize, steps: &AtomicUsize) -> Vec<Mismatch> {
    set_backend(&lane.backend);
    let db = scratch(&lane.backend, true);
    let variant = walks[0].variant.clone();
    let mm = |w: &Walk, i: usize, m: String| Mismatch { lane: lane.name.clone(), walk: w.clone(), failed_step: i, message: m };
    let begin = |w: &Walk| *beat.since.lock().unwrap() = Some((std::time::Instant::now(), lane.name.clone(), w.clone()));
    let mut out = vec![];
    drive(lane, async {
        let mut migs = mem_migrations(&lane.backend);
        match Conn::open(lane, &db.spec).await {
            Conn::S(mut c) => butane::migrations::Migrations::migrate(&mut migs, &mut c).unwrap(),
            Conn::A(mut c) => butane::migrations::Migrations::migrate_async(&mut migs, &mut c).await.unwrap(),
        }
        if variant == "crash" {
            return;
        }
        let mut w = World2::open(lane, &db.spec, variant == "busy", false).await;
        for walk in walks {
            if stop.load(Ordering::Relaxed) > 3 {
                break;
            }
            begin(walk);
            beat.at.store(0, Ordering::Relaxed);
            w.start(walk.seed);
            let mut r = catch(w.reset()).await.unwrap_or_else(Err).map_err(|e| (0, e));
            for (i, s) in walk.steps.iter().enumerate() {
                if r.is_err() {
                    break;
                }
                beat.at.store(i, Ordering::Relaxed);
                r = catch(w.step(s)).await.unwrap_or_else(Err).map_err(|e| (i, e));
                steps.fetch_add(1, Ordering::Relaxed);
            }
            if let Err((i, m)) = r {
                stop.fetch_add(1, Ordering::Relaxed);
                out.push(mm(walk, i, m));
                break;
            }
        }
    });
    if variant == "crash" {
        for walk in walks {
            if stop.load(Ordering::Relaxed) > 3 {
                break;
            }
            begin(walk);
            if let Err((i, m)) = crash_walk(lane, &db.spec, walk) {
                stop.fetch_add(1, Ordering::Relaxed);
                out.push(mm(walk, i, m));
                break;
            }
            steps.fetch_add(walk.steps.len(), Ordering::Relaxed);
        }
    }
    *beat.since.lock().unwrap() = None;
    out
}
