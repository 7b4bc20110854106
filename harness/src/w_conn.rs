//! Conn.tla: one connection in either style, converted, running blocking work, concurrent and
//! abandoned operations (A01).
use crate::core::*;
use crate::go;
use crate::models::*;
use crate::w_txn::{Conn, Tr};
use butane::db::{BackendConnection, BackendConnectionAsync, Connection, ConnectionAsync, ConnectionMethods, ConnectionMethodsAsync, ConnectionSpec};
use butane::{DataObject, Error, Result};
use serde_json::{json, Value};
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::task::{Context, Poll};

/// Gives up on a future after it has been polled `n` times.
struct Abandon<F> {
    f: Pin<Box<F>>,
    n: usize,
}
impl<F: Future> Future for Abandon<F> {
    type Output = Option<F::Output>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        if self.n == 0 {
            return Poll::Ready(None);
        }
        self.n -= 1;
        match self.f.as_mut().poll(cx) {
            Poll::Ready(v) => Poll::Ready(Some(v)),
            Poll::Pending if self.n == 0 => Poll::Ready(None),
            Poll::Pending => Poll::Pending,
        }
    }
}
pub async fn abandon<F: Future>(n: usize, f: F) -> Option<F::Output> {
    Abandon { f: Box::pin(f), n }.await
}

#[derive(Clone, Debug)]
struct W {
    row: TxRow,
    delete: bool,
}
type Work = Vec<W>;

async fn write(c: C<'_>, w: &W) -> Result<()> {
    let mut row = w.row.clone();
    if w.delete {
        go!(c, c => row.delete(c))
    } else {
        go!(c, c => row.save(c))
    }
}
async fn all(c: C<'_>, b: &Work) -> Result<()> {
    for w in b {
        write(c, w).await?;
    }
    Ok(())
}
async fn finish(t: Tr<'_>, tx: &str) -> Result<()> {
    match tx {
        "commit" => t.commit().await,
        "rollback" => t.rollback().await,
        _ => {
            drop(t);
            Ok(())
        }
    }
}
/// The work, inside the transaction if there is one.
async fn run(conn: &mut Conn, b: &Work, tx: &str) -> Result<()> {
    if tx == "none" {
        if b.is_empty() {
            return match conn.c() {
                C::S(c) => ConnectionMethods::has_table(&c, TxRow::TABLE),
                C::A(c) => ConnectionMethodsAsync::has_table(&c, TxRow::TABLE).await,
            }
            .map(|_| ());
        }
        return all(conn.c(), b).await;
    }
    let t = conn.begin().await?;
    all(t.c(), b).await?;
    finish(t, tx).await
}
async fn par(conn: &mut Conn, b: &Work, tx: &str) -> Result<()> {
    async fn both(c: C<'_>, b: &Work) -> Result<()> {
        let (x, y) = tokio::join!(write(c, &b[0]), write(c, &b[1]));
        x.and(y)
    }
    if tx == "none" {
        return both(conn.c(), b).await;
    }
    let t = conn.begin().await?;
    both(t.c(), b).await?;
    finish(t, tx).await
}
/// Work done by `with_sync`.
fn blocking(c: &mut impl BackendConnection, b: &Work, tx: &str, end: &str, token: u64) -> Result<u64> {
    fn writes(c: &dyn ConnectionMethods, b: &Work) -> Result<()> {
        block_plain(all(C::S(DynS(c)), b))
    }
    let ending = || match end {
        "panic" => panic!("asked to panic"),
        "err" => Err(Error::Internal(format!("asked to fail {token}"))),
        _ => Ok(token),
    };
    match tx {
        "none" => writes(&*c, b)?,
        _ => {
            let t = c.transaction()?;
            writes(&t, b)?;
            match tx {
                "commit" => t.commit()?,
                "rollback" => t.rollback()?,
                // the work ends with the transaction open
                _ => return ending(),
            }
        }
    }
    ending()
}

/// Overwrites memory that has just been freed.
fn litter() {
    let junk: Vec<Vec<u8>> = (0..400).map(|i| vec![b'#'; 16 + (i % 40) * 16]).collect();
    std::hint::black_box(&junk);
}

/// Three objects with automatic keys, saved at once.
async fn autos(c: C<'_>) -> Check {
    let new = |i: usize| AutoS { ident: Default::default(), name: format!("at once {i}"), num: Some(i as i32) };
    let mut o = [new(1), new(2), new(3)];
    let [x, y, z] = &mut o;
    async fn save(c: C<'_>, o: &mut AutoS) -> Result<()> {
        go!(c, c => o.save(c))
    }
    let (a, b, d) = tokio::join!(save(c, x), save(c, y), save(c, z));
    a.and(b).and(d).map_err(|e| format!("saving at once: {e}"))?;
    for o in &o {
        let got: Vec<AutoS> = go!(c, c => butane::query!(AutoS, ident == { o.ident.clone() }).load(c)).map_err(|e| format!("reading what was saved at once: {e}"))?;
        ensure(got.len() == 1 && got[0] == *o, || format!("saved at once {o:?}, stored under its key: {got:?}"))?;
    }
    let n = delete_all(c, AutoS::TABLE).await.map_err(|e| e.to_string())?;
    ensure(n == 3, || format!("three objects saved at once, {n} stored"))
}
/// A value the table cannot hold.
async fn burst(c: C<'_>, k: &str) -> Result<()> {
    let v = butane::SqlVal::Custom(Box::new(butane::custom::SqlValCustom::Pg { ty: tokio_postgres::types::Type::POINT, data: vec![1, 2, 3] }));
    let k = butane::SqlVal::Text(k.into());
    let cols = [butane::db::Column::new("k", butane::SqlType::Text), butane::db::Column::new("v", butane::SqlType::Int)];
    let vals = [k.as_ref(), v.as_ref()];
    match c {
        C::S(c) => ConnectionMethods::insert_only(&c, TxRow::TABLE, &cols, &vals),
        C::A(c) => ConnectionMethodsAsync::insert_only(&c, TxRow::TABLE, &cols, &vals).await,
    }
}

/// The outcome of a call that must not panic.
type R<T> = std::result::Result<T, String>;

struct W1 {
    lane: Lane,
    spec: ConnectionSpec,
    rt: tokio::runtime::Runtime,
    conn: Option<Conn>,
    observer: Option<Connection>,
    rng: Rng,
    keys: Vec<String>,
    vals: Vec<i32>,
}

fn is_current(lane: &Lane) -> bool {
    lane.style == "current"
}

/// A blocking connection on any backend.
pub fn observer(b: &str, s: &str) -> Connection {
    let observer = if b == "turso" {
        let r = rt_one();
        let c = r.block_on(backend(b).connect_async(s)).unwrap();
        let _g = r.enter();
        let c = c.into_sync().unwrap();
        drop(_g);
        std::mem::forget(r);
        c
    } else {
        backend(b).connect(s).unwrap()
    };
    if b == "sqlite" {
        observer.execute("PRAGMA synchronous=OFF").unwrap();
    }
    observer
}

impl W1 {
    fn new(lane: &Lane, spec: &ConnectionSpec) -> W1 {
        let rt = if is_current(lane) { tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap() } else { rt() };
        let observer = observer(&lane.backend, &spec.conn_str);
        W1 { lane: lane.clone(), spec: spec.clone(), rt, conn: None, observer: Some(observer), rng: Rng::new(0), keys: vec![], vals: vec![] }
    }
    /// Does something with the connection where its style allows it.
    fn on<T: Send + 'static>(&mut self, f: impl FnOnce(&mut Conn) -> T + Send + 'static) -> R<T> {
        // only for blocking connections
        let mut conn = self.conn.take().unwrap();
        let job = move || {
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut conn))).map_err(panic_msg);
            (conn, r)
        };
        let (conn, r) = if is_current(&self.lane) { self.rt.block_on(async { tokio::task::spawn_blocking(job).await.unwrap() }) } else { job() };
        self.conn = Some(conn);
        r
    }
    fn blocks(&self) -> bool {
        matches!(self.conn, Some(Conn::S(_)))
    }
    /// Something done by the observer, while a runtime which only runs when asked to does.
    fn observe<T: Send + 'static>(&mut self, f: impl FnOnce(&Connection) -> T + Send + 'static) -> T {
        let o = self.observer.take().unwrap();
        let job = move || {
            let r = f(&o);
            (o, r)
        };
        let (o, r) = if is_current(&self.lane) { self.rt.block_on(async { tokio::task::spawn_blocking(job).await.unwrap() }) } else { job() };
        self.observer = Some(o);
        r
    }
    /// An asynchronous call.
    fn go<'a, T, F: Future<Output = T>>(&'a mut self, f: impl FnOnce(&'a mut Conn) -> F) -> R<T> {
        let W1 { rt, conn, .. } = self;
        let f = f(conn.as_mut().unwrap());
        rt.block_on(catch(f))
    }
    fn run(&mut self, b: &Work, tx: &str) -> R<Result<()>> {
        let (b, tx) = (b.clone(), tx.to_string());
        if self.blocks() {
            self.on(move |c| block_plain(run(c, &b, &tx)))
        } else {
            self.go(move |c| async move { run(c, &b, &tx).await })
        }
    }
    fn exec(&mut self, sql: &'static str) -> R<Result<()>> {
        if self.blocks() {
            self.on(move |c| block_plain(exec(c.c(), sql)))
        } else {
            self.go(move |c| async move { exec(c.c(), sql).await })
        }
    }
    fn open(&mut self, how: &str) -> Check {
        let (b, s) = (self.lane.backend.clone(), self.spec.conn_str.clone());
        let c = if how == "S" {
            let f = move || backend(&b).connect(&s).map(Conn::S);
            if is_current(&self.lane) && self.rng.below(2) == 0 {
                self.rt.block_on(async { tokio::task::spawn_blocking(f).await.unwrap() })
            } else {
                f()
            }
        } else {
            self.rt.block_on(async { backend(&b).connect_async(&s).await.map(Conn::A) })
        };
        self.conn = Some(c.map_err(|e| format!("connecting: {e}"))?);
        if self.lane.backend == "sqlite" {
            self.exec("PRAGMA synchronous=OFF")?.unwrap();
        }
        Ok(())
    }
    fn close(&mut self) -> Check {
        let Some(c) = self.conn.take() else { return Ok(()) };
        let inside = matches!(c, Conn::A(_)) && self.rng.below(2) == 0;
        let rt = &self.rt;
        std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            if inside {
                rt.block_on(async { drop(c) })
            } else {
                drop(c)
            }
        }))
        .map_err(|e| format!("closing the connection: {}", panic_msg(e)))
    }
    fn convert(&mut self) -> Check {
        let c = self.conn.take().unwrap();
        let inside = self.rng.below(2) == 0;
        let rt = &self.rt;
        let f = || match c {
            Conn::S(c) => c.into_async().map(Conn::A),
            Conn::A(c) => c.into_sync().map(Conn::S),
        };
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            if inside {
                let _g = rt.enter();
                f()
            } else {
                f()
            }
        }))
        .map_err(panic_msg)?;
        self.conn = Some(r.map_err(|e| format!("converting: {e}"))?);
        Ok(())
    }
    fn start(&mut self, seed: u64) {
        self.rng = Rng::new(seed);
        self.keys = self.rng.pick(&crate::w_store::texts(), 3);
        self.vals = self.rng.pick(INTS32, 3);
    }
    fn reset(&mut self) -> Check {
        self.close()?;
        self.observe(|o| {
            ConnectionMethods::delete_where(o, AutoS::TABLE, butane::query::BoolExpr::True)?;
            ConnectionMethods::delete_where(o, TxRow::TABLE, butane::query::BoolExpr::True)
        })
        .map(|_| ())
        .map_err(|e| format!("clearing: {e}"))
    }
    fn work(&self, b: &Value) -> Work {
        b.as_array()
            .unwrap()
            .iter()
            .map(|w| {
                let v = w["v"].as_u64().unwrap() as usize;
                W { row: TxRow { k: self.keys[tok(&w["k"])].clone(), v: if v == 0 { 0 } else { self.vals[v - 1] } }, delete: v == 0 }
            })
            .collect()
    }
    fn tokens(&self, all: &[TxRow], n: usize) -> Value {
        let mut rows: std::collections::BTreeMap<String, i64> = (0..n).map(|i| (format!("k{}", i + 1), 0)).collect();
        for r in all {
            let k = self.keys.iter().position(|k| *k == r.k).filter(|k| *k < n).map(|k| format!("k{}", k + 1)).unwrap_or_else(|| format!("unexpected {r:?}"));
            let v = self.vals.iter().position(|v| *v == r.v).map(|i| i as i64 + 1).unwrap_or(-1);
            rows.insert(k, v);
        }
        json!(rows)
    }
    fn check(&mut self, st: &Value) -> Check {
        let n = st["d"].as_object().unwrap().len();
        let seen: Result<Vec<TxRow>> = self.observe(|o| {
            use butane::prelude::*;
            TxRow::query().load(o)
        });
        let seen = seen.map_err(|e| format!("the observer cannot read: {e}"))?;
        same("database seen by the observer", &st["d"], &self.tokens(&seen, n))?;
        if st["c"] == json!([]) {
            return Ok(());
        }
        let ok = st["c"]["ok"] == true;
        let r: R<Result<Vec<TxRow>>> = if self.blocks() {
            self.on(|c| block_plain(async { go!(c.c(), c => TxRow::query().load(c)) }))
        } else {
            self.go(|c| async { go!(c.c(), c => TxRow::query().load(c)) })
        };
        match (r?, ok) {
            (Ok(v), true) => same("database seen through the connection", &st["d"], &self.tokens(&v, n))?,
            (Err(_), false) => {}
            (r, _) => return Err(format!("reading through the connection: specified {}, got {}", if ok { "ok" } else { "err" }, text(&r))),
        }
        if ok && !self.blocks() && n == 2 {
            let (k, l) = (self.keys[0].clone(), self.keys[1].clone());
            async fn get(c: C<'_>, k: String) -> Result<Option<TxRow>> {
                go!(c, c => TxRow::try_get(c, k.clone()))
            }
            let (x, y) = self.go(|c| async { tokio::join!(get(c.c(), k), get(c.c(), l)) })?;
            for (i, r) in [x, y].into_iter().enumerate() {
                let r = r.map_err(|e| format!("reading two objects at once: {e}"))?;
                let seen = r.map(|r| self.tokens(&[r], 2)).unwrap_or_else(|| self.tokens(&[], 2));
                same("one of two objects read at once", &st["d"][format!("k{}", i + 1)], &seen[format!("k{}", i + 1)])?;
            }
        }
        if self.lane.backend != "turso" {
            let r = self.exec("DELETE FROM conn_mark")?;
            let want = st["c"]["mark"] == true;
            ensure(r.is_ok() == want, || format!("session state: specified {want}, using it gave {}", text(&r)))?;
        }
        let facts = |c: &Conn| match c {
            Conn::S(c) => (BackendConnection::is_closed(c), BackendConnection::backend_name(c), BackendConnection::backend(c).name()),
            Conn::A(c) => (BackendConnectionAsync::is_closed(c), BackendConnectionAsync::backend_name(c), BackendConnectionAsync::backend(c).name()),
        };
        let (closed, name, bname) = if self.blocks() { self.on(move |c| facts(c)) } else { self.go(|c| async { facts(c) }) }?;
        ensure(closed != ok, || format!("is_closed gives {closed} for a connection that is {}usable", if ok { "" } else { "not " }))?;
        if ok {
            ensure(name == self.lane.backend && bname == name, || format!("the connection says it is of backend {name} {bname}"))?;
        }
        Ok(())
    }
    /// Makes writes of other connections wait until the returned thread lets go.
    fn lock(&mut self) -> Option<std::thread::JoinHandle<Connection>> {
        if self.lane.backend == "turso" {
            return None;
        }
        let sql = if self.lane.backend == "pg" { "BEGIN; LOCK TABLE TxRow IN EXCLUSIVE MODE" } else { "BEGIN IMMEDIATE" };
        self.observe(move |o| o.execute(sql).unwrap());
        let o = self.observer.take().unwrap();
        let ms = 3 + self.rng.below(6) as u64;
        Some(std::thread::spawn(move || {
            std::thread::sleep(std::time::Duration::from_millis(ms));
            o.execute("ROLLBACK").unwrap();
            o
        }))
    }
    fn step(&mut self, step: &Step) -> Check {
        let ev = &step.ev;
        let op = ev["op"].as_str().unwrap();
        let tx = ev["tx"].as_str().unwrap_or("none").to_string();
        let outcome = |r: &Result<()>| ensure(errs(r) == ev["res"], || format!("{op}: specified {}, got {}", ev["res"], text(r)));
        // A worker thread whose connection needs this thread's runtime must not be waited for, which
        // abandoning its work does. (SyncAdapter documents that it doesn't support such runtimes.)
        let patient = is_current(&self.lane) && self.lane.backend == "pg" && step.st["c"]["n"] != 0;
        let b = if ev["b"].is_array() { self.work(&ev["b"]) } else { vec![] };
        match op {
            "open" => self.open(ev["how"].as_str().unwrap())?,
            "close" => self.close()?,
            "convert" => self.convert()?,
            "mark" => {
                if self.lane.backend != "turso" {
                    self.exec("CREATE TEMP TABLE conn_mark (x INTEGER)")?.map_err(|e| format!("mark: {e}"))?
                }
            }
            "run" => outcome(&self.run(&b, &tx)?)?,
            "par" => outcome(&self.go(|c| async move { par(c, &b, &tx).await })?)?,
            "race" => {
                let v = self.vals[ev["v"].as_u64().unwrap() as usize - 1];
                let w: Vec<W> = ["k", "l"].iter().map(|k| W { row: TxRow { k: self.keys[tok(&ev[k])].clone(), v }, delete: false }).collect();
                let (x, y) = self.go(|c| async {
                    let r = tokio::join!(write(c.c(), &w[0]), write(c.c(), &w[1]));
                    let del: Work = w.iter().map(|w| W { delete: true, ..w.clone() }).collect();
                    all(c.c(), &del).await.unwrap();
                    r
                })?;
                ensure(x.is_ok() != y.is_ok(), || format!("of two simultaneous saves of one unique value one must succeed; got {} and {}", text(&x), text(&y)))?;
            }
            "with" => {
                let token = self.rng.next();
                let end = ev["end"].as_str().unwrap().to_string();
                let r = self.go(|c| {
                    let Conn::A(c) = c else { panic!("not asynchronous") };
                    c.with_sync(move |s| blocking(s, &b, &tx, &end, token))
                })?;
                let want = ev["res"].as_str().unwrap();
                match (&r, want) {
                    (Ok(v), "ok") => ensure(*v == token, || format!("with_sync returned {v}, its work returned {token}"))?,
                    (Err(e), "err") => {
                        let asked = e.to_string().contains(&format!("asked to fail {token}"));
                        let must = ev["end"] == "err" && step.st["c"]["ok"] == true && !ev["b"].is_array();
                        ensure(asked || !must, || format!("with_sync returned {e} for the error of its work"))?;
                    }
                    (Err(_), "panic") => {}
                    _ => return Err(format!("with_sync: specified {want}, got {}", text(&r))),
                }
            }
            "autos" => self.go(|c| async { autos(c.c()).await })??,
            "burst" => {
                let k = self.keys[0].clone();
                // panicking is one way of failing
                let r = if self.blocks() { self.on(move |c| block_plain(burst(c.c(), &k))) } else { self.go(|c| async move { burst(c.c(), &k).await }) };
                ensure(!matches!(r, Ok(Ok(()))), || "storing a value of a wrong type succeeded".into())?;
            }
            "cancelwith" => {
                let (gate, wait) = std::sync::mpsc::channel::<()>();
                let (done, finished) = tokio::sync::oneshot::channel::<Result<u64>>();
                let polls = 1 + self.rng.below(3);
                let r = self.go(|c| async move {
                    let Conn::A(c) = c else { panic!("not asynchronous") };
                    let r = abandon(polls, c.with_sync(move |s| {
                        let _ = wait.recv();
                        let r = blocking(s, &b, "none", "ok", 0);
                        let _ = done.send(r);
                        Ok(())
                    }));
                    // the work does not finish before it has been abandoned
                    let r = tokio::time::timeout(std::time::Duration::from_millis(2), r).await.ok().flatten();
                    drop(gate);
                    let _ = tokio::time::timeout(std::time::Duration::from_secs(10), finished).await;
                    r.is_some()
                })?;
                ensure(!r, || "with_sync returned before its work was done".into())?;
            }
            "cancel" => {
                let polls = if patient { usize::MAX } else { self.rng.below(8) };
                let (b2, tx2) = (b.clone(), tx.clone());
                let r = self.go(|c| async move {
                    // what the abandoned call borrowed goes away
                    let (b2, tx2) = (b2, tx2);
                    let r = abandon(polls, run(c, &b2, &tx2)).await;
                    drop((b2, tx2));
                    litter();
                    r
                })?;
                if let Some(r) = r {
                    outcome(&r)?;
                }
                outcome(&self.run(&b, &tx)?).map_err(|e| format!("again after abandoning it at its poll {polls}: {e}"))?;
            }
            "cancelqueued" => {
                let w = ev["w"].as_u64().unwrap() as usize - 1;
                let polls = if patient { usize::MAX } else { 1 + self.rng.below(3) };
                let lock = self.lock();
                let (gone, kept) = (b[w].clone(), b[1 - w].clone());
                let r = self.go(|c| async move {
                    let c = c.c();
                    let lost = async {
                        let r = abandon(polls, async {
                            let gone = gone;
                            write(c, &gone).await
                        })
                        .await;
                        litter();
                        r
                    };
                    if w == 0 { tokio::join!(lost, write(c, &kept)) } else { let (k, l) = tokio::join!(write(c, &kept), lost); (l, k) }
                });
                if let Some(l) = lock {
                    self.observer = Some(l.join().unwrap());
                }
                let (lost, kept) = r?;
                outcome(&kept).map_err(|e| format!("the write that was not abandoned: {e}"))?;
                if let Some(r) = lost {
                    outcome(&r)?;
                }
                let again = vec![b[w].clone()];
                outcome(&self.run(&again, "none")?).map_err(|e| format!("again after abandoning it: {e}"))?;
            }
            o => return Err(format!("unknown op {o}")),
        }
        self.check(&step.st)
    }
}

fn rt_one() -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_multi_thread().worker_threads(1).enable_all().build().unwrap()
}

pub fn batch(lane: &Lane, walks: &[Walk], beat: &Beat, stop: &AtomicUsize, steps: &AtomicUsize) -> Vec<Mismatch> {
    set_backend(&lane.backend);
    let db = scratch(&lane.backend, true);
    let mut out = vec![];
    let mut migs = mem_migrations(&lane.backend);
    let mut w = W1::new(lane, &db.spec);
    butane::migrations::Migrations::migrate(&mut migs, w.observer.as_mut().unwrap()).unwrap();
    for walk in walks {
        if stop.load(Ordering::Relaxed) > 3 {
            break;
        }
        *beat.since.lock().unwrap() = Some((std::time::Instant::now(), lane.name.clone(), walk.clone()));
        beat.at.store(0, Ordering::Relaxed);
        w.start(walk.seed);
        let mut r = w.reset().map_err(|e| (0, e));
        for (i, s) in walk.steps.iter().enumerate() {
            if r.is_err() {
                break;
            }
            beat.at.store(i, Ordering::Relaxed);
            r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| w.step(s))).unwrap_or_else(|e| Err(panic_msg(e))).map_err(|e| (i, e));
            steps.fetch_add(1, Ordering::Relaxed);
        }
        if let Err((i, m)) = r {
            stop.fetch_add(1, Ordering::Relaxed);
            out.push(Mismatch { lane: lane.name.clone(), walk: walk.clone(), failed_step: i, message: m });
            break;
        }
    }
    *beat.since.lock().unwrap() = None;
    let _ = w.close();
    drop(w.observer.take());
    w.rt.shutdown_timeout(std::time::Duration::from_secs(2));
    out
}
