//! Pool.tla: several users of a connection pool (P01).
use crate::core::*;
use crate::go;
use crate::models::*;
use crate::w_txn::Tr;
use butane::db::{BackendConnection, BackendConnectionAsync, Connection, ConnectionManager, ConnectionMethods, ConnectionSpec};
use butane::{DataObject, Result};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;
use std::time::{Duration, Instant};
use tokio::sync::mpsc::{unbounded_channel, UnboundedReceiver, UnboundedSender};

const LONG: Duration = Duration::from_secs(20);
const SHORT: Duration = Duration::from_millis(12);

/// The future of a user of an asynchronous pool. What is not `Send` in it is of the other kind of pool.
struct Sendable<F>(Pin<Box<F>>);
unsafe impl<F> Send for Sendable<F> {}
impl<F: Future> Future for Sendable<F> {
    type Output = F::Output;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<F::Output> {
        self.0.as_mut().poll(cx)
    }
}

#[derive(Clone)]
enum Pool {
    R(r2d2::Pool<ConnectionManager>),
    D(deadpool::managed::Pool<ConnectionManager>),
}
enum Obj {
    R(r2d2::PooledConnection<ConnectionManager>),
    D(deadpool::managed::Object<ConnectionManager>),
}
impl Pool {
    async fn get(&self, d: Duration) -> std::result::Result<Obj, String> {
        match self {
            Pool::R(p) => p.get_timeout(d).map(Obj::R).map_err(|e| e.to_string()),
            Pool::D(p) => match tokio::time::timeout(d, p.get()).await {
                Err(_) => Err("timed out waiting for connection".into()),
                Ok(r) => r.map(Obj::D).map_err(|e| e.to_string()),
            },
        }
    }
    fn size(&self) -> usize {
        match self {
            Pool::R(p) => p.state().connections as usize,
            Pool::D(p) => p.status().size,
        }
    }
}
impl Obj {
    fn c(&self) -> C<'_> {
        match self {
            Obj::R(c) => C::S(DynS(&**c)),
            Obj::D(c) => C::A(DynA(&**c)),
        }
    }
    async fn begin(&mut self) -> Result<Tr<'_>> {
        match self {
            Obj::R(c) => BackendConnection::transaction(&mut **c).map(Tr::S),
            Obj::D(c) => BackendConnectionAsync::transaction(&mut **c).await.map(Tr::A),
        }
    }
    fn closed(&self) -> bool {
        match self {
            Obj::R(c) => BackendConnection::is_closed(&**c),
            Obj::D(c) => BackendConnectionAsync::is_closed(&**c),
        }
    }
    /// Uses a broken connection until it says that it is.
    async fn notice(&self) {
        let end = Instant::now() + Duration::from_secs(3);
        while !self.closed() && Instant::now() < end {
            let _ = exec(self.c(), "SELECT 1").await;
            if let Obj::D(_) = self {
                tokio::time::sleep(Duration::from_millis(1)).await;
            }
        }
    }
}

#[derive(Debug)]
enum Cmd {
    Take(Duration, u64),
    Put(TxRow, bool),
    Read,
    Begin,
    Fail(usize),
    End(String),
    Break(bool),
    Release(bool),
    Abandon(TxRow, bool, bool, usize),
}
#[derive(Debug)]
enum Reply {
    Done(Result<()>),
    Rows(Result<Vec<TxRow>>),
    Refused(String),
    /// a panic or something else that must not happen
    Wrong(String),
}
async fn put(c: C<'_>, row: &TxRow, delete: bool) -> Result<()> {
    let mut row = row.clone();
    if delete { go!(c, c => row.delete(c)) } else { go!(c, c => row.save(c)) }
}
async fn rows(c: C<'_>) -> Result<Vec<TxRow>> {
    go!(c, c => TxRow::query().load(c))
}
async fn fail(c: C<'_>, how: usize) -> Result<()> {
    match how {
        0 => exec(c, "INSERT INTO pool_missing VALUES (1)").await,
        _ => put(c, &TxRow { k: "another".into(), v: KEPT.v }, false).await,
    }
}
struct Kept {
    k: &'static str,
    v: i32,
}
/// A row that is always there.
const KEPT: Kept = Kept { k: "the kept row", v: -77 };

/// A user of the pool.
struct Holder {
    backend: String,
    pool: Pool,
    cmds: UnboundedReceiver<Cmd>,
    out: UnboundedSender<Reply>,
}
enum After {
    Released,
    Abandon(TxRow, bool, bool, usize),
    Over,
}
impl Holder {
    async fn next(&mut self) -> Option<Cmd> {
        match self.pool {
            Pool::R(_) => self.cmds.blocking_recv(),
            Pool::D(_) => self.cmds.recv().await,
        }
    }
    fn say(&self, r: Reply) {
        let _ = self.out.send(r);
    }
    async fn run(mut self) {
        while let Some(c) = self.next().await {
            let Cmd::Take(d, id) = c else {
                self.say(Reply::Wrong(format!("{c:?} without a connection")));
                continue;
            };
            let mut obj = match self.pool.get(d).await {
                Ok(o) => o,
                Err(e) => {
                    self.say(Reply::Refused(e));
                    continue;
                }
            };
            let r = match self.backend.as_str() {
                "pg" => exec(obj.c(), &format!("SET application_name = 't{id}'")).await,
                "sqlite" => exec(obj.c(), "PRAGMA synchronous=OFF").await,
                _ => Ok(()),
            };
            self.say(Reply::Done(r));
            let me = &mut self;
            let r = catch(async move {
                let a = me.hold(&mut obj).await;
                (a, obj)
            })
            .await;
            match r {
                Ok((After::Abandon(row, delete, tx, n), mut obj)) => {
                    // the whole of what the user was doing goes away
                    let job = async move {
                        if tx {
                            let t = obj.begin().await?;
                            put(t.c(), &row, delete).await?;
                            t.commit().await
                        } else {
                            put(obj.c(), &row, delete).await
                        }
                    };
                    let r = match self.pool {
                        Pool::R(_) => catch(job).await.map(|_| ()),
                        Pool::D(_) => catch(crate::w_conn::abandon(n, job)).await.map(|_| ()),
                    };
                    self.say(match r {
                        Ok(()) => Reply::Done(Ok(())),
                        Err(e) => Reply::Wrong(e),
                    });
                }
                Ok((After::Released, obj)) => {
                    drop(obj);
                    self.say(Reply::Done(Ok(())));
                }
                Ok((After::Over, _)) => return,
                Err(e) if e == "panic: the user panics" => self.say(Reply::Done(Ok(()))),
                Err(e) => self.say(Reply::Wrong(e)),
            }
        }
    }
    async fn hold(&mut self, obj: &mut Obj) -> After {
        let mut broken = false;
        while let Some(c) = self.next().await {
            match c {
                Cmd::Put(row, delete) => self.say(Reply::Done(put(obj.c(), &row, delete).await)),
                Cmd::Read => self.say(Reply::Rows(rows(obj.c()).await)),
                Cmd::Break(kill) => {
                    broken = true;
                    if kill {
                        let _ = exec(obj.c(), "SELECT pg_terminate_backend(pg_backend_pid())").await;
                    } else if let Obj::D(c) = obj {
                        let _ = c.with_sync(|_| -> Result<()> { panic!("asked to panic") }).await;
                    }
                    obj.notice().await;
                    self.say(Reply::Done(Ok(())));
                }
                Cmd::Release(false) => return After::Released,
                Cmd::Release(true) => panic!("the user panics"),
                Cmd::Abandon(row, delete, tx, n) => return After::Abandon(row, delete, tx, n),
                Cmd::Begin => {
                    let end = match obj.begin().await {
                        Err(e) => {
                            self.say(Reply::Done(Err(e)));
                            continue;
                        }
                        Ok(t) => {
                            self.say(Reply::Done(Ok(())));
                            self.transaction(t, &mut broken).await
                        }
                    };
                    if broken {
                        obj.notice().await;
                    }
                    match end {
                        End::Replied(r) => self.say(r),
                        End::Release => return After::Released,
                        End::Over => return After::Over,
                    }
                }
                c => self.say(Reply::Wrong(format!("{c:?} outside a transaction"))),
            }
        }
        After::Over
    }
    async fn transaction(&mut self, t: Tr<'_>, broken: &mut bool) -> End {
        while let Some(c) = self.next().await {
            match c {
                Cmd::Put(row, delete) => self.say(Reply::Done(put(t.c(), &row, delete).await)),
                Cmd::Read => self.say(Reply::Rows(rows(t.c()).await)),
                Cmd::Fail(how) => self.say(Reply::Done(fail(t.c(), how).await)),
                Cmd::Break(_) => {
                    *broken = true;
                    let _ = exec(t.c(), "SELECT pg_terminate_backend(pg_backend_pid())").await;
                    self.say(Reply::Done(Ok(())));
                }
                Cmd::End(how) => {
                    let r = match how.as_str() {
                        "commit" => t.commit().await,
                        "rollback" => t.rollback().await,
                        _ => {
                            drop(t);
                            Ok(())
                        }
                    };
                    return End::Replied(Reply::Done(r));
                }
                Cmd::Release(false) => return End::Release,
                Cmd::Release(true) => panic!("the user panics"),
                c => self.say(Reply::Wrong(format!("{c:?} in a transaction"))),
            }
        }
        End::Over
    }
}
enum End {
    Replied(Reply),
    Release,
    Over,
}

struct User {
    cmds: UnboundedSender<Cmd>,
    replies: UnboundedReceiver<Reply>,
    token: u64,
    waits: bool,
    has: bool,
}

struct W1 {
    lane: Lane,
    spec: ConnectionSpec,
    rt: tokio::runtime::Runtime,
    pool: Option<Pool>,
    tests: bool,
    users: BTreeMap<String, User>,
    observer: Connection,
    rng: Rng,
    keys: Vec<String>,
    vals: Vec<i32>,
    max: usize,
}

impl W1 {
    fn new(lane: &Lane, spec: &ConnectionSpec) -> W1 {
        let rt = if lane.style == "deadc" { tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap() } else { rt() };
        let observer = crate::w_conn::observer(&lane.backend, &spec.conn_str);
        if lane.backend == "pg" {
            observer
                .execute("CREATE VIEW pool_users AS SELECT pid, application_name AS app FROM pg_stat_activity WHERE datname = current_database() AND pid <> pg_backend_pid() AND backend_type = 'client backend'")
                .unwrap();
            observer.execute("SET lock_timeout = '30ms'").unwrap();
        }
        W1 { lane: lane.clone(), spec: spec.clone(), rt, pool: None, tests: true, users: BTreeMap::new(), observer, rng: Rng::new(0), keys: vec![], vals: vec![], max: 2 }
    }
    fn start(&mut self, walk: &Walk) -> Check {
        self.stop()?;
        self.rng = Rng::new(walk.seed);
        self.max = walk.steps[0].st["h"].as_object().unwrap().len() - 1;
        self.keys = self.rng.pick(&crate::w_store::texts(), 1);
        self.vals = self.rng.pick(INTS32, 3).into_iter().map(|v| if v == KEPT.v { 5 } else { v }).collect();
        ConnectionMethods::delete_where(&self.observer, TxRow::TABLE, butane::query::BoolExpr::True)
            .and_then(|_| block_plain(put(C::S(DynS(&self.observer)), &TxRow { k: KEPT.k.into(), v: KEPT.v }, false)))
            .map_err(|e| format!("clearing: {e}"))?;
        let m = ConnectionManager::new(self.spec.clone());
        self.tests = true;
        self.pool = Some(if self.lane.style == "r2d2" {
            self.tests = self.rng.below(3) > 0;
            let b = r2d2::Pool::builder().max_size(self.max as u32).test_on_check_out(self.tests);
            // (r2d2 does not tell who waits that a broken connection has made room for a new one)
            let waits = walk.steps.iter().any(|s| s.ev["op"] == "wait");
            let b = if self.rng.below(2) == 0 && !waits { b.min_idle(Some(0)) } else { b };
            Pool::R(b.build(m).map_err(|e| format!("building the pool: {e}"))?)
        } else {
            Pool::D(deadpool::managed::Pool::builder(m).max_size(self.max).build().map_err(|e| format!("building the pool: {e}"))?)
        });
        Ok(())
    }
    /// Everybody gives back what they have and the pool is closed.
    fn stop(&mut self) -> Check {
        self.users.clear();
        if let Some(Pool::D(p)) = &self.pool {
            // so that tasks of a runtime that only runs when asked to end
            let p = p.clone();
            self.rt.block_on(async {
                let end = Instant::now() + Duration::from_secs(5);
                while p.status().available != p.status().size && Instant::now() < end {
                    tokio::time::sleep(Duration::from_micros(200)).await;
                }
            });
        }
        let pool = self.pool.take();
        let rt = &self.rt;
        std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match pool {
            Some(Pool::D(_)) => rt.block_on(async { drop(pool) }),
            _ => drop(pool),
        })).map_err(|e| format!("closing the pool: {}", panic_msg(e)))
    }
    fn user(&mut self, i: &str) -> &mut User {
        if !self.users.contains_key(i) {
            let (cmds, rx) = unbounded_channel();
            let (out, replies) = unbounded_channel();
            let h = Holder { backend: self.lane.backend.clone(), pool: self.pool.clone().unwrap(), cmds: rx, out };
            match h.pool {
                Pool::R(_) => drop(std::thread::spawn(move || block_plain(h.run()))),
                Pool::D(_) => drop(self.rt.spawn(Sendable(Box::pin(h.run())))),
            }
            self.users.insert(i.to_string(), User { cmds, replies, token: 0, waits: false, has: false });
        }
        self.users.get_mut(i).unwrap()
    }
    fn tell(&mut self, i: &str, c: Cmd) {
        let _ = self.user(i).cmds.send(c);
    }
    fn hear(&mut self, i: &str) -> std::result::Result<Reply, String> {
        let W1 { rt, users, .. } = self;
        let u = users.get_mut(i).unwrap();
        let r = rt.block_on(async { tokio::time::timeout(LONG + Duration::from_secs(5), u.replies.recv()).await });
        match r {
            Err(_) => Err(format!("{i} hears nothing")),
            Ok(None) => Err(format!("{i} is gone")),
            Ok(Some(Reply::Wrong(e))) => Err(format!("{i}: {e}")),
            Ok(Some(r)) => Ok(r),
        }
    }
    fn ask(&mut self, i: &str, c: Cmd) -> std::result::Result<Reply, String> {
        self.tell(i, c);
        self.hear(i)
    }
    fn row(&self, v: &Value) -> (TxRow, bool) {
        let v = v.as_u64().unwrap() as usize;
        (TxRow { k: self.keys[0].clone(), v: if v == 0 { 0 } else { self.vals[v - 1] } }, v == 0)
    }
    fn token(&self, rows: &[TxRow]) -> Value {
        let mut x = json!(0);
        let mut kept = false;
        for r in rows {
            if r.k == KEPT.k && r.v == KEPT.v && !kept {
                kept = true;
            } else if r.k == self.keys[0] && x == 0 {
                x = self.vals.iter().position(|v| *v == r.v).map(|p| json!(p + 1)).unwrap_or(json!(format!("{r:?}")));
            } else {
                x = json!(format!("unexpected {r:?}"));
            }
        }
        if kept { x } else { json!("nothing") }
    }
    fn took(&mut self, i: &str) {
        self.users.get_mut(i).unwrap().has = true;
    }
    fn check(&mut self, st: &Value) -> Check {
        let seen = block_plain(rows(C::S(DynS(&self.observer)))).map_err(|e| format!("the observer cannot read: {e}"))?;
        same("database seen by the observer", &st["d"], &self.token(&seen))?;
        let hs = st["h"].as_object().unwrap();
        for (i, h) in hs {
            if *h == json!([]) || h["bad"] == true {
                continue;
            }
            match (self.ask(i, Cmd::Read)?, h["ok"] == true) {
                (Reply::Rows(Ok(v)), true) => same(&format!("database seen by {i}"), &h["x"], &self.token(&v))?,
                (Reply::Rows(Err(_)), false) => {}
                (r, ok) => return Err(format!("{i} reads through a connection that is {}usable: {r:?}", if ok { "" } else { "not " }))?,
            }
        }
        let size = self.pool.as_ref().unwrap().size();
        ensure(size <= self.max, || format!("the pool says it has {size} connections of at most {}", self.max))?;
        if self.lane.backend == "pg" {
            let end = Instant::now() + Duration::from_secs(2);
            loop {
                let n = self.users_of_pg()?;
                if n <= self.max {
                    break;
                }
                ensure(Instant::now() < end, || format!("{n} connections to the server from a pool of at most {}", self.max))?;
                std::thread::sleep(Duration::from_millis(2));
            }
        }
        Ok(())
    }
    fn users_of_pg(&self) -> std::result::Result<usize, String> {
        let r = block_plain(crate::w_migr::rows(C::S(DynS(&self.observer)), "pool_users", &[("pid", butane::SqlType::Int)]));
        r.map(|r| r.len()).map_err(|e| e.to_string())
    }
    /// What many users do at the same time.
    fn storm(&mut self, have: usize) -> Check {
        let free = self.max - have;
        let now = Arc::new(AtomicUsize::new(0));
        let jobs: Vec<_> = (0..5)
            .map(|i| {
                let pool = self.pool.clone().unwrap();
                let now = now.clone();
                let how = self.rng.below(4);
                let sqlite = self.lane.backend == "sqlite";
                let turso = self.lane.backend == "turso";
                async move {
                    let mut obj = pool.get(LONG).await?;
                    let n = now.fetch_add(1, Ordering::SeqCst) + 1;
                    if n > free {
                        return Err(format!("{n} users have a connection, {free} were left"));
                    }
                    let say = |e: butane::Error| format!("user {i} ({how}): {e}");
                    if sqlite {
                        exec(obj.c(), "PRAGMA synchronous=OFF").await.map_err(say)?;
                    }
                    let row = TxRow { k: format!("storm {i}"), v: -1000 - i };
                    let r: Result<bool> = async {
                        Ok(match how {
                            0 => {
                                put(obj.c(), &row, false).await?;
                                true
                            }
                            1 => {
                                let t = obj.begin().await?;
                                put(t.c(), &row, false).await?;
                                t.commit().await?;
                                true
                            }
                            2 => {
                                let t = obj.begin().await?;
                                put(t.c(), &row, false).await?;
                                false
                            }
                            _ => {
                                let t = obj.begin().await?;
                                put(t.c(), &row, false).await?;
                                let _ = fail(t.c(), 0).await;
                                false
                            }
                        })
                    }
                    .await;
                    // turso does not wait for other writers
                    let stored = match r {
                        Err(e) if !turso => return Err(say(e)),
                        r => r.unwrap_or(false),
                    };
                    now.fetch_sub(1, Ordering::SeqCst);
                    drop(obj);
                    Ok(if stored { Some(row) } else { None })
                }
            })
            .collect();
        let mut want = vec![];
        if self.lane.style == "r2d2" {
            let hs: Vec<_> = jobs.into_iter().map(|j| {
                let j = Sendable(Box::pin(j));
                std::thread::spawn(move || block_plain(j))
            }).collect();
            for h in hs {
                want.extend(h.join().map_err(panic_msg)??);
            }
        } else {
            let hs: Vec<_> = jobs.into_iter().map(|j| self.rt.spawn(Sendable(Box::pin(j)))).collect();
            for h in hs {
                want.extend(self.rt.block_on(h).map_err(|e| e.to_string())??);
            }
        }
        let mut got: Vec<TxRow> = block_plain(rows(C::S(DynS(&self.observer)))).map_err(|e| e.to_string())?;
        got.retain(|r| r.k.starts_with("storm "));
        got.sort_by(|a, b| a.k.cmp(&b.k));
        ensure(got == want, || format!("stored by many users at once: specified {want:?}, got {got:?}"))?;
        for r in &got {
            block_plain(put(C::S(DynS(&self.observer)), r, true)).map_err(|e| format!("clearing: {e}"))?;
        }
        Ok(())
    }
    fn kill_idle(&mut self) -> Check {
        if self.lane.backend != "pg" || !self.tests {
            return Ok(());
        }
        let have: Vec<String> = self.users.values().filter(|u| u.has).map(|u| format!("'t{}'", u.token)).collect();
        let sql = format!("SELECT pg_terminate_backend(pid) FROM pool_users WHERE app NOT IN ('', {})", if have.is_empty() { "''".into() } else { have.join(",") });
        self.observer.execute(&sql).map_err(|e| format!("killing: {e}"))?;
        if let Some(Pool::D(p)) = &self.pool {
            let p = p.clone();
            self.rt.block_on(async {
                let end = Instant::now() + Duration::from_secs(3);
                loop {
                    let mut open = 0;
                    p.retain(|c, _| {
                        open += !BackendConnectionAsync::is_closed(c) as usize;
                        true
                    });
                    if open == 0 || Instant::now() > end {
                        break;
                    }
                    tokio::time::sleep(Duration::from_millis(1)).await;
                }
            });
        }
        Ok(())
    }
    fn step(&mut self, step: &Step) -> Check {
        let ev = &step.ev;
        let op = ev["op"].as_str().unwrap();
        let i = ev["i"].as_str().unwrap_or("").to_string();
        let outcome = |r: Reply| match (&r, ev["res"].as_str().unwrap()) {
            (Reply::Done(_), "any") => Ok(()),
            (Reply::Done(r), want) => ensure(errs(r) == want, || format!("{op}: specified {want}, got {}", text(r))),
            (Reply::Refused(_), "timeout") => Ok(()),
            (r, want) => Err(format!("{op}: specified {want}, got {r:?}")),
        };
        let waiting = self.users.iter().find(|(_, u)| u.waits).map(|(i, _)| i.clone());
        match op {
            "take" | "wait" => {
                let t = self.rng.next() % 1_000_000_000;
                let wait = op == "wait";
                let d = if wait || ev["res"] == "ok" { LONG } else { SHORT };
                self.tell(&i, Cmd::Take(d, t));
                let u = self.users.get_mut(&i).unwrap();
                u.token = t;
                u.waits = wait;
                if wait {
                    // until it has begun to
                    self.rt.block_on(async { tokio::time::sleep(Duration::from_millis(1)).await });
                } else {
                    let r = self.hear(&i)?;
                    if let Reply::Done(_) = r {
                        self.took(&i);
                    }
                    outcome(r)?;
                }
            }
            "release" | "abandon" => {
                let mut polls = 0;
                if op == "release" {
                    let r = self.ask(&i, Cmd::Release(ev["how"] == "panic"))?;
                    self.users.get_mut(&i).unwrap().has = false;
                    outcome(r)?;
                } else {
                    let (row, delete) = self.row(&ev["v"]);
                    polls = self.rng.below(8);
                    let r = self.ask(&i, Cmd::Abandon(row, delete, ev["tx"] == true, polls))?;
                    self.users.get_mut(&i).unwrap().has = false;
                    outcome(r)?;
                }
                if let Some(w) = waiting {
                    let r = self.hear(&w)?;
                    let u = self.users.get_mut(&w).unwrap();
                    u.has = true;
                    u.waits = false;
                    outcome(r)?;
                }
                if op == "abandon" {
                    let (row, delete) = self.row(&ev["v"]);
                    // not while what has been abandoned may still be going on
                    let end = Instant::now() + Duration::from_secs(10);
                    loop {
                        match block_plain(put(C::S(DynS(&self.observer)), &row, delete)) {
                            Ok(()) => break,
                            Err(e) if Instant::now() > end => return Err(format!("after something was abandoned at its poll {polls} and the connection given back, the observer cannot write: {e}")),
                            Err(_) => self.rt.block_on(async { tokio::time::sleep(Duration::from_millis(1)).await }),
                        }
                    }
                }
            }
            "put" | "tput" => {
                let (row, delete) = self.row(&ev["v"]);
                outcome(self.ask(&i, Cmd::Put(row, delete))?)?
            }
            "begin" => outcome(self.ask(&i, Cmd::Begin)?)?,
            "tfail" => {
                let how = self.rng.below(2);
                outcome(self.ask(&i, Cmd::Fail(how))?)?
            }
            "end" => outcome(self.ask(&i, Cmd::End(ev["how"].as_str().unwrap().into()))?)?,
            "break" => {
                let kill = self.lane.backend == "pg" && (self.lane.style == "r2d2" || step.st["h"][&i]["tx"] == true || self.rng.below(2) == 0);
                outcome(self.ask(&i, Cmd::Break(kill))?)?
            }
            "killidle" => self.kill_idle()?,
            "storm" => {
                let have = step.st["h"].as_object().unwrap().values().filter(|h| **h != json!([])).count();
                self.storm(have)?
            }
            o => return Err(format!("unknown op {o}")),
        }
        self.check(&step.st)
    }
}

pub fn batch(lane: &Lane, walks: &[Walk], beat: &Beat, stop: &AtomicUsize, steps: &AtomicUsize) -> Vec<Mismatch> {
    set_backend(&lane.backend);
    let db = scratch(&lane.backend, true);
    let mut out = vec![];
    let mut migs = mem_migrations(&lane.backend);
    let mut w = W1::new(lane, &db.spec);
    butane::migrations::Migrations::migrate(&mut migs, &mut w.observer).unwrap();
    for walk in walks {
        if stop.load(Ordering::Relaxed) > 3 {
            break;
        }
        *beat.since.lock().unwrap() = Some((Instant::now(), lane.name.clone(), walk.clone()));
        beat.at.store(0, Ordering::Relaxed);
        let mut r = w.start(walk).map_err(|e| (0, e));
        for (i, s) in walk.steps.iter().enumerate() {
            if r.is_err() {
                break;
            }
            beat.at.store(i, Ordering::Relaxed);
            r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| w.step(s))).unwrap_or_else(|e| Err(panic_msg(e))).map_err(|e| (i, e));
            steps.fetch_add(1, Ordering::Relaxed);
        }
        if let Err((i, m)) = r {
            stop.fetch_add(1, Ordering::Relaxed);
            out.push(Mismatch { lane: lane.name.clone(), walk: walk.clone(), failed_step: i, message: m });
            break;
        }
    }
    *beat.since.lock().unwrap() = None;
    let _ = w.stop();
    let W1 { rt, observer, .. } = w;
    drop(observer);
    rt.shutdown_timeout(Duration::from_secs(2));
    out
}
