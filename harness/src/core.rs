//! Shared machinery: connections, lanes, walks and the runner that replays behaviours of the
//! specifications through the real library.
use std::future::Future;
use std::panic::AssertUnwindSafe;
use std::pin::Pin;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll};

use async_trait::async_trait;
use butane::db::{
    Column, Connection, ConnectionAsync,
    ConnectionMethods, ConnectionMethodsAsync, ConnectionSpec, RawQueryResult,
};
use butane::query::{BoolExpr, Order};
use butane::{Result, SqlVal, SqlValRef};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};

/// A connection or transaction used synchronously, by reference.
#[derive(Clone, Copy)]
pub struct DynS<'a>(pub &'a dyn ConnectionMethods);
/// A connection or transaction used asynchronously, by reference.
#[derive(Clone, Copy)]
pub struct DynA<'a>(pub &'a dyn ConnectionMethodsAsync);

impl ConnectionMethods for DynS<'_> {
    fn execute(&self, sql: &str) -> Result<()> {
        self.0.execute(sql)
    }
    fn query<'c>(
        &'c self,
        table: &str,
        columns: &[Column],
        expr: Option<BoolExpr>,
        limit: Option<i32>,
        offset: Option<i32>,
        sort: Option<&[Order]>,
    ) -> Result<RawQueryResult<'c>> {
        self.0.query(table, columns, expr, limit, offset, sort)
    }
    fn insert_returning_pk(&self, table: &str, columns: &[Column], pkcol: &Column, values: &[SqlValRef<'_>]) -> Result<SqlVal> {
        self.0.insert_returning_pk(table, columns, pkcol, values)
    }
    fn insert_only(&self, table: &str, columns: &[Column], values: &[SqlValRef<'_>]) -> Result<()> {
        self.0.insert_only(table, columns, values)
    }
    fn insert_or_replace(&self, table: &str, columns: &[Column], pkcol: &Column, values: &[SqlValRef<'_>]) -> Result<()> {
        self.0.insert_or_replace(table, columns, pkcol, values)
    }
    fn update(&self, table: &str, pkcol: Column, pk: SqlValRef<'_>, columns: &[Column], values: &[SqlValRef<'_>]) -> Result<()> {
        self.0.update(table, pkcol, pk, columns, values)
    }
    fn delete(&self, table: &str, pkcol: &'static str, pk: SqlVal) -> Result<()> {
        self.0.delete(table, pkcol, pk)
    }
    fn delete_where(&self, table: &str, expr: BoolExpr) -> Result<usize> {
        self.0.delete_where(table, expr)
    }
    fn has_table(&self, table: &str) -> Result<bool> {
        self.0.has_table(table)
    }
}

#[async_trait]
impl ConnectionMethodsAsync for DynA<'_> {
    async fn execute(&self, sql: &str) -> Result<()> {
        self.0.execute(sql).await
    }
    async fn query<'c>(
        &'c self,
        table: &str,
        columns: &[Column],
        expr: Option<BoolExpr>,
        limit: Option<i32>,
        offset: Option<i32>,
        sort: Option<&[Order]>,
    ) -> Result<RawQueryResult<'c>> {
        self.0.query(table, columns, expr, limit, offset, sort).await
    }
    async fn insert_returning_pk(&self, table: &str, columns: &[Column], pkcol: &Column, values: &[SqlValRef<'_>]) -> Result<SqlVal> {
        self.0.insert_returning_pk(table, columns, pkcol, values).await
    }
    async fn insert_only(&self, table: &str, columns: &[Column], values: &[SqlValRef<'_>]) -> Result<()> {
        self.0.insert_only(table, columns, values).await
    }
    async fn insert_or_replace(&self, table: &str, columns: &[Column], pkcol: &Column, values: &[SqlValRef<'_>]) -> Result<()> {
        self.0.insert_or_replace(table, columns, pkcol, values).await
    }
    async fn update(&self, table: &str, pkcol: Column, pk: SqlValRef<'_>, columns: &[Column], values: &[SqlValRef<'_>]) -> Result<()> {
        self.0.update(table, pkcol, pk, columns, values).await
    }
    async fn delete(&self, table: &str, pkcol: &'static str, pk: SqlVal) -> Result<()> {
        self.0.delete(table, pkcol, pk).await
    }
    async fn delete_where(&self, table: &str, expr: BoolExpr) -> Result<usize> {
        self.0.delete_where(table, expr).await
    }
    async fn has_table(&self, table: &str) -> Result<bool> {
        self.0.has_table(table).await
    }
}

/// Either way of using a connection. `go!` dispatches one library call on it.
#[derive(Clone, Copy)]
pub enum C<'a> {
    S(DynS<'a>),
    A(DynA<'a>),
}

/// `go!(conn, c => obj.save(c))`: make one library call, sync or async as the connection demands.
#[macro_export]
macro_rules! go {
    ($conn:expr, $c:ident => $body:expr) => {
        match &$conn {
            $crate::core::C::S($c) => {
                #[allow(unused_imports)]
                use butane::prelude::*;
                $body
            }
            $crate::core::C::A($c) => {
                #[allow(unused_imports)]
                use butane::prelude_async::*;
                ($body).await
            }
        }
    };
}

/// Like `go!`, for two calls whose execution overlaps: the second is under way before the first has
/// finished (one after the other on synchronous connections).
#[macro_export]
macro_rules! go_both {
    ($conn:expr, $c:ident => $body:expr, $v:ident => $then:expr) => {
        match &$conn {
            $crate::core::C::S($c) => {
                #[allow(unused_imports)]
                use butane::prelude::*;
                let first = $body.map(|$v| $then);
                (first, $body.map(|$v| $then))
            }
            $crate::core::C::A($c) => {
                #[allow(unused_imports)]
                use butane::prelude_async::*;
                let (a, b) = tokio::join!($body, $body);
                (a.map(|$v| $then), b.map(|$v| $then))
            }
        }
    };
}

/// Like `go!`, for calls that return iterators over references.
#[macro_export]
macro_rules! go_refs {
    ($conn:expr, $c:ident => $body:expr) => {
        match &$conn {
            $crate::core::C::S($c) => {
                #[allow(unused_imports)]
                use butane::prelude::*;
                $body.map(|v| v.collect::<Vec<_>>())
            }
            $crate::core::C::A($c) => {
                #[allow(unused_imports)]
                use butane::prelude_async::*;
                ($body).await.map(|v| v.collect::<Vec<_>>())
            }
        }
    };
}

/// Raw SQL.
pub async fn exec(c: C<'_>, sql: &str) -> Result<()> {
    match c {
        C::S(c) => ConnectionMethods::execute(&c, sql),
        C::A(c) => ConnectionMethodsAsync::execute(&c, sql).await,
    }
}

/// Empties a table.
pub async fn delete_all(c: C<'_>, table: &str) -> Result<usize> {
    match c {
        C::S(c) => ConnectionMethods::delete_where(&c, table, BoolExpr::True),
        C::A(c) => ConnectionMethodsAsync::delete_where(&c, table, BoolExpr::True).await,
    }
}

/// A future whose polls are protected against panics.
pub struct Catch<F>(pub Pin<Box<F>>);
impl<F: Future> Future for Catch<F> {
    type Output = std::result::Result<F::Output, String>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let inner = self.0.as_mut();
        match std::panic::catch_unwind(AssertUnwindSafe(|| inner.poll(cx))) {
            Ok(Poll::Pending) => Poll::Pending,
            Ok(Poll::Ready(v)) => Poll::Ready(Ok(v)),
            Err(e) => Poll::Ready(Err(panic_msg(e))),
        }
    }
}
pub fn catch<F: Future>(f: F) -> Catch<F> {
    Catch(Box::pin(f))
}
pub fn panic_msg(e: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        format!("panic: {s}")
    } else if let Some(s) = e.downcast_ref::<String>() {
        format!("panic: {s}")
    } else {
        "panic".to_string()
    }
}

/// Drives a future that only makes blocking calls.
pub fn block_plain<F: Future>(f: F) -> F::Output {
    let mut f = Box::pin(f);
    let mut cx = Context::from_waker(std::task::Waker::noop());
    loop {
        if let Poll::Ready(v) = f.as_mut().poll(&mut cx) {
            return v;
        }
        std::thread::sleep(std::time::Duration::from_millis(1));
    }
}

/// One step of a behaviour: what was done (with the specified result) and the state it leads to.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Step {
    pub ev: Value,
    pub st: Value,
}
/// A behaviour of the specification.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Walk {
    #[serde(default)]
    pub variant: String,
    #[serde(default)]
    pub seed: u64,
    pub steps: Vec<Step>,
}

/// What a step did wrong.
pub type Check = std::result::Result<(), String>;

/// Interprets the steps of one walk against the real library.
pub trait World: Sized {
    fn new(variant: &str, seed: u64) -> Self;
    /// Empties the tables the walk uses.
    async fn reset(&mut self, c: C<'_>) -> Check;
    /// Performs the step, and checks its result and the state it leads to.
    async fn step(&mut self, c: C<'_>, step: &Step) -> Check;
    /// The rest of the walk is outside the property.
    fn over(&self) -> bool {
        false
    }
}

/// How to reach a database. `style`: sync, async, with (with_sync on an async connection),
/// conv (a connection converted to the other style).
#[derive(Clone, Debug)]
pub struct Lane {
    pub name: String,
    pub backend: String,
    pub style: String,
}
impl Lane {
    pub fn parse(s: &str) -> Lane {
        let (b, st) = s.split_once('-').unwrap();
        Lane { name: s.into(), backend: b.into(), style: st.into() }
    }
    pub fn is_async(&self) -> bool {
        self.style != "sync" && self.style != "convs"
    }
}

pub fn backend(name: &str) -> Box<dyn butane::db::Backend> {
    butane::db::get_backend(name).unwrap()
}

static DBNO: AtomicUsize = AtomicUsize::new(0);

/// A scratch database.
pub struct Scratch {
    pub spec: ConnectionSpec,
    _dir: Option<tempfile::TempDir>,
    pgname: Option<String>,
}
impl Drop for Scratch {
    fn drop(&mut self) {
        if let Some(n) = &self.pgname {
            let n = n.clone();
            // a separate thread: we may be inside a runtime
            let _ = std::thread::spawn(move || {
                let base = std::env::var("BH_PG").unwrap();
                if let Ok(c) = backend("pg").connect(&format!("{base} dbname=postgres")) {
                    let _ = c.execute(format!("DROP DATABASE IF EXISTS {n} WITH (FORCE)"));
                }
            })
            .join();
        }
    }
}
/// Creates an empty database. File databases when `file`, else in memory where possible.
pub fn scratch(backend_name: &str, file: bool) -> Scratch {
    let n = DBNO.fetch_add(1, Ordering::SeqCst);
    match backend_name {
        "pg" => {
            let name = format!("bh_{}_{}", std::process::id(), n);
            let nm = name.clone();
            std::thread::spawn(move || {
                let base = std::env::var("BH_PG").expect("BH_PG");
                let c = backend("pg").connect(&format!("{base} dbname=postgres")).expect("pg connect");
                c.execute(format!("CREATE DATABASE {nm}")).expect("create database");
            })
            .join()
            .expect("scratch pg database");
            let base = std::env::var("BH_PG").unwrap();
            Scratch { spec: ConnectionSpec::new("pg", format!("{base} dbname={name}")), _dir: None, pgname: Some(name) }
        }
        b => {
            if file {
                let dir = tempfile::Builder::new().prefix("bh-db").tempdir().unwrap();
                let p = dir.path().join("x.db").to_str().unwrap().to_string();
                Scratch { spec: ConnectionSpec::new(b, p), _dir: Some(dir), pgname: None }
            } else {
                Scratch { spec: ConnectionSpec::new(b, ":memory:"), _dir: None, pgname: None }
            }
        }
    }
}

/// A copy of a PostgreSQL database nobody is connected to.
pub fn scratch_from(template: &str) -> Scratch {
    let name = format!("bh_{}_{}", std::process::id(), DBNO.fetch_add(1, Ordering::SeqCst));
    let base = std::env::var("BH_PG").expect("BH_PG");
    let (nm, b, t) = (name.clone(), base.clone(), template.to_string());
    std::thread::spawn(move || {
        let c = backend("pg").connect(&format!("{b} dbname=postgres")).expect("pg connect");
        for i in 0.. {
            // a connection which has just been closed may still be there
            match c.execute(format!("CREATE DATABASE {nm} TEMPLATE {t}")) {
                Ok(()) => return,
                Err(e) if i == 500 => panic!("copying a database: {e}"),
                Err(_) => std::thread::sleep(std::time::Duration::from_millis(10)),
            }
        }
    })
    .join()
    .expect("copy of a pg database");
    Scratch { spec: ConnectionSpec::new("pg", format!("{base} dbname={name}")), _dir: None, pgname: Some(name) }
}

/// The schema the `#[model]` macro recorded for this crate.
pub fn disk_adb() -> butane::migrations::adb::ADB {
    use butane::migrations::{Migration, MigrationsMut};
    let root = std::path::Path::new(env!("CARGO_MANIFEST_DIR")).join(".butane/migrations");
    let mut disk = butane::migrations::from_root(root);
    disk.current().db().unwrap()
}
pub fn mem_migrations(backend_name: &str) -> butane::migrations::MemMigrations {
    use butane::migrations::{MemMigrations, MigrationsMut};
    let mut mem = MemMigrations::new();
    assert!(mem
        .create_migration_to(&nonempty::nonempty![backend(backend_name)], "init", None, disk_adb())
        .unwrap());
    mem
}

#[derive(Debug, Serialize, Deserialize, Clone)]
pub struct Mismatch {
    pub lane: String,
    pub walk: Walk,
    pub failed_step: usize,
    pub message: String,
}
#[derive(Debug, Serialize, Deserialize, Default)]
pub struct Report {
    pub walks: usize,
    pub steps: usize,
    pub lanes: std::collections::BTreeMap<String, usize>,
    pub mismatches: Vec<Mismatch>,
    pub known: std::collections::BTreeMap<String, usize>,
}

async fn one_walk<W: World>(c: C<'_>, walk: &Walk, done: &AtomicUsize, at: &AtomicUsize) -> std::result::Result<(), (usize, String)> {
    let mut w = W::new(&walk.variant, walk.seed);
    match catch(w.reset(c)).await {
        Ok(Ok(())) => {}
        Ok(Err(e)) | Err(e) => return Err((0, format!("reset: {e}"))),
    }
    for (i, s) in walk.steps.iter().enumerate() {
        at.store(i, Ordering::Relaxed);
        match catch(w.step(c, s)).await {
            Ok(Ok(())) => {}
            Ok(Err(e)) | Err(e) => return Err((i, e)),
        }
        done.fetch_add(1, Ordering::Relaxed);
        if w.over() {
            break;
        }
    }
    Ok(())
}

thread_local! {
    static BACKEND: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}
/// The backend the current walk runs on (known on the thread that runs the batch).
pub fn on_backend() -> String {
    BACKEND.with(|b| b.borrow().clone())
}
pub fn set_backend(b: &str) {
    BACKEND.with(|x| *x.borrow_mut() = b.to_string())
}

/// What is being worked on, for the watchdog and for crashes.
pub struct Beat {
    pub at: Arc<AtomicUsize>,
    pub since: Mutex<Option<(std::time::Instant, String, Walk)>>,
}

pub fn rt() -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap()
}

/// Runs every walk of one batch on one lane with one database.
pub fn run_batch<W: World + Send + 'static>(lane: &Lane, walks: &[Walk], beat: &Beat, stop: &AtomicUsize, steps: &AtomicUsize) -> Vec<Mismatch>
where
{
    set_backend(&lane.backend);
    let db = scratch(&lane.backend, false);
    let mut out = Vec::new();
    let mut migs = mem_migrations(&lane.backend);
    let begin = |w: &Walk| {
        *beat.since.lock().unwrap() = Some((std::time::Instant::now(), lane.name.clone(), w.clone()))
    };
    let mm = |w: &Walk, i: usize, m: String| Mismatch { lane: lane.name.clone(), walk: w.clone(), failed_step: i, message: m };
    if !lane.is_async() {
        let mut conn: Connection = if lane.style == "convs" {
            // an asynchronous connection converted to a blocking one
            let r = rt();
            let c = r.block_on(backend(&lane.backend).connect_async(&db.spec.conn_str)).unwrap();
            let c = { let _g = r.enter(); c.into_sync().unwrap() };
            std::mem::forget(r); // the connection lives in this runtime
            c
        } else {
            backend(&lane.backend).connect(&db.spec.conn_str).unwrap()
        };
        butane::migrations::Migrations::migrate(&mut migs, &mut conn).unwrap();
        for w in walks {
            if stop.load(Ordering::Relaxed) > 3 {
                break;
            }
            begin(w);
            let r = block_plain(one_walk::<W>(C::S(DynS(&conn)), w, steps, &beat.at));
            if let Err((i, m)) = r {
                stop.fetch_add(1, Ordering::Relaxed);
                out.push(mm(w, i, m));
                break;
            }
        }
    } else {
        let r = rt();
        let style = lane.style.clone();
        r.block_on(async {
            let mut conn: ConnectionAsync = if style == "conva" {
                let spec = db.spec.clone();
                std::thread::spawn(move || backend(&spec.backend_name).connect(&spec.conn_str).unwrap().into_async().unwrap()).join().unwrap()
            } else {
                backend(&lane.backend).connect_async(&db.spec.conn_str).await.unwrap()
            };
            butane::migrations::Migrations::migrate_async(&mut migs, &mut conn).await.unwrap();
            for w in walks {
                if stop.load(Ordering::Relaxed) > 3 {
                    break;
                }
                begin(w);
                let r = if style == "with" {
                    let w2 = w.clone();
                    let cnt = Arc::new(AtomicUsize::new(0));
                    let cnt2 = cnt.clone();
                    let be = lane.backend.clone();
                    let at2 = beat.at.clone();
                    let res = conn
                        .with_sync(move |sc| { set_backend(&be); Ok(block_plain(one_walk::<W>(C::S(DynS(sc)), &w2, &cnt2, &at2)))})
                        .await;
                    steps.fetch_add(cnt.load(Ordering::Relaxed), Ordering::Relaxed);
                    match res {
                        Ok(r) => r,
                        Err(e) => Err((0, format!("with_sync failed: {e}"))),
                    }
                } else {
                    one_walk::<W>(C::A(DynA(&conn)), w, steps, &beat.at).await
                };
                if let Err((i, m)) = r {
                    stop.fetch_add(1, Ordering::Relaxed);
                    out.push(mm(w, i, m));
                    break;
                }
            }
        });
        r.shutdown_timeout(std::time::Duration::from_secs(2));
    }
    *beat.since.lock().unwrap() = None;
    out
}

/// Replays all jobs (lane, walks) on several threads.
pub fn run_all<W: World + Send + 'static>(jobs: Vec<(Lane, Vec<Walk>)>) -> Report {
    run_jobs(jobs, run_batch::<W>)
}

pub type BatchFn = fn(&Lane, &[Walk], &Beat, &AtomicUsize, &AtomicUsize) -> Vec<Mismatch>;

/// A walk that makes no progress for this long is a hang.
pub const HANG: u64 = 30;

pub fn run_jobs(jobs: Vec<(Lane, Vec<Walk>)>, f: BatchFn) -> Report {
    let mut rep = Report::default();
    let queue = Arc::new(Mutex::new(jobs.clone()));
    let stop = Arc::new(AtomicUsize::new(0));
    let steps = Arc::new(AtomicUsize::new(0));
    let out = Arc::new(Mutex::new(Vec::new()));
    let n = std::env::var("BH_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    let mut beats = Vec::new();
    let mut hs = Vec::new();
    for _ in 0..n {
        let (queue, stop, out, steps) = (queue.clone(), stop.clone(), out.clone(), steps.clone());
        let beat = Arc::new(Beat { since: Mutex::new(None), at: Arc::new(AtomicUsize::new(0)) });
        beats.push(beat.clone());
        hs.push(std::thread::spawn(move || loop {
            let Some((lane, walks)) = queue.lock().unwrap().pop() else { break };
            if stop.load(Ordering::Relaxed) > 3 {
                break;
            }
            let r = std::panic::catch_unwind(AssertUnwindSafe(|| f(&lane, &walks, &beat, &stop, &steps)));
            let ms = match r {
                Ok(ms) => ms,
                Err(e) => {
                    let w = beat.since.lock().unwrap().take().map(|x| x.2).unwrap_or(Walk { variant: "setup".into(), seed: 0, steps: vec![] });
                    vec![Mismatch { lane: lane.name.clone(), walk: w, failed_step: 0, message: format!("outside a step: {}", panic_msg(e)) }]
                }
            };
            out.lock().unwrap().extend(ms);
        }));
    }
    loop {
        if hs.iter().all(|h| h.is_finished()) {
            break;
        }
        std::thread::sleep(std::time::Duration::from_millis(20));
        for b in &beats {
            let hung = match &*b.since.lock().unwrap() {
                Some((t, lane, w)) if t.elapsed().as_secs() > HANG => Some((lane.clone(), w.clone(), b.at.load(Ordering::Relaxed))),
                _ => None,
            };
            if let Some((lane, w, n)) = hung {
                rep.mismatches.push(Mismatch { lane, walk: w, failed_step: n, message: format!("no progress for {HANG} s: an operation of this walk did not return") });
                rep.steps = steps.load(Ordering::Relaxed);
                return rep;
            }
        }
    }
    for (l, w) in &jobs {
        *rep.lanes.entry(l.name.clone()).or_default() += w.len();
        rep.walks += w.len();
    }
    rep.steps = steps.load(Ordering::Relaxed);
    rep.mismatches = std::mem::take(&mut *out.lock().unwrap());
    rep.known = KNOWN.lock().unwrap().clone();
    rep
}

/// Deviations listed in known_findings.txt that were met, by finding name.
pub static KNOWN: Mutex<std::collections::BTreeMap<String, usize>> = Mutex::new(std::collections::BTreeMap::new());
pub fn known(name: &str) {
    *KNOWN.lock().unwrap().entry(name.to_string()).or_default() += 1;
}

pub fn ensure(cond: bool, msg: impl FnOnce() -> String) -> Check {
    if cond {
        Ok(())
    } else {
        Err(msg())
    }
}
pub fn same(what: &str, want: &Value, got: &Value) -> Check {
    ensure(want == got, || format!("{what}: specification says {want}, implementation gave {got}"))
}
/// Compares as sets/bags: sorts arrays of values by their text.
pub fn sorted(v: Value) -> Value {
    match v {
        Value::Array(mut a) => {
            a.sort_by_key(|x| x.to_string());
            Value::Array(a)
        }
        v => v,
    }
}
pub fn errs<T>(r: &butane::Result<T>) -> Value {
    match r {
        Ok(_) => json!("ok"),
        Err(_) => json!("err"),
    }
}
pub fn text<T>(r: &butane::Result<T>) -> String {
    match r {
        Ok(_) => "ok".into(),
        Err(e) => format!("err ({e})"),
    }
}

/// Small deterministic generator for choosing concrete values.
pub struct Rng(pub u64);
impl Rng {
    pub fn new(s: u64) -> Self {
        Rng(s.wrapping_mul(0x9E3779B97F4A7C15) ^ 0x1234_5678_9ABC_DEF1)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
    /// `n` distinct members of `pool`, in random order.
    pub fn pick<T: Clone>(&mut self, pool: &[T], n: usize) -> Vec<T> {
        let mut v: Vec<T> = pool.to_vec();
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
        v.truncate(n);
        v
    }
}
/// Index of a token such as "k2" (1-based).
pub fn tok(v: &Value) -> usize {
    let s = v.as_str().unwrap_or_else(|| panic!("token expected, got {v}"));
    s.trim_start_matches(|c: char| !c.is_ascii_digit()).parse::<usize>().unwrap_or_else(|_| panic!("token {s}")) - 1
}

pub const TEXTS: &[&str] = &[
    "", "a", "A", "it's", "\"q\"", "100%", "_x", "naïve", "日本語", "🦀 crab", " lead", "trail ", "a;b", "--", "$1", "?1", "\\", "null", "NULL", "tab\there", "line\nbreak", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa", "0", "-1", "true", "z'; DROP TABLE x; --",
];
pub const INTS64: &[i64] = &[0, 1, -1, 2, 7, 255, 256, 32767, 32768, -32769, 2147483647, 2147483648, -2147483649, i64::MAX, i64::MIN, 1 << 53, (1 << 53) + 1];
pub const INTS32: &[i32] = &[0, 1, -1, 2, 42, 127, 128, 255, 256, 32767, 32768, i32::MAX, i32::MIN, -7];

#[derive(Deserialize)]
struct JobFile {
    world: String,
    states: Vec<Value>,
    edges: Vec<(Value, usize)>,
    jobs: Vec<Job>,
}
#[derive(Deserialize)]
struct Job {
    lane: String,
    variant: String,
    seed: u64,
    walks: Vec<Vec<usize>>,
}

/// Replays the walks of a job file, and writes what came of it.
pub fn replay(path: &str, select: fn(&str) -> BatchFn) {
    let f: JobFile = serde_json::from_reader(std::io::BufReader::new(std::fs::File::open(path).unwrap())).unwrap();
    let mut jobs = Vec::new();
    for j in &f.jobs {
        let ws = j
            .walks
            .iter()
            .enumerate()
            .map(|(i, w)| Walk {
                variant: j.variant.clone(),
                seed: j.seed.wrapping_add(i as u64),
                steps: w.iter().map(|e| Step { ev: f.edges[*e].0.clone(), st: f.states[f.edges[*e].1].clone() }).collect(),
            })
            .collect();
        jobs.push((Lane::parse(&j.lane), ws));
    }
    let batch = select(&f.world);
    let mut rep = run_jobs(jobs, batch);
    for m in rep.mismatches.iter_mut() {
        m.walk.steps.truncate(m.failed_step + 1);
    }
    println!("{}", serde_json::to_string(&rep).unwrap());
    use std::io::Write;
    std::io::stdout().flush().unwrap();
    std::process::exit(0);
}

