//! Store.tla: objects with keys supplied by the user (S01), over several key and column types.
use crate::core::*;
use crate::go;
use crate::models::*;
use butane::{DataObject, Error, ToSql};
use serde_json::{json, Value};
use std::collections::HashMap;
use std::fmt::Debug;

/// A model with a key, a unique column and an optional column.
pub trait Rec: DataObject + Clone + Debug + PartialEq {
    type K: Clone + PartialEq + Debug + butane::ToSql;
    type U: Clone + PartialEq + Debug;
    type N: Clone + PartialEq + Debug;
    fn ks() -> Vec<Self::K>;
    fn us() -> Vec<Self::U>;
    fn ns() -> Vec<Self::N>;
    fn make(k: &Self::K, u: &Self::U, n: Option<Self::N>) -> Self;
    fn parts(&self) -> (&Self::K, &Self::U, &Option<Self::N>);
    fn set(&mut self, u: &Self::U, n: Option<Self::N>);
    #[allow(dead_code)]
    fn by_key(k: &Self::K) -> butane::query::BoolExpr {
        butane::query::BoolExpr::Eq(Self::PKCOL, butane::query::Expr::Val(k.to_sql()))
    }
}
macro_rules! rec {
    ($t:ty, $k:ident: $kt:ty = $kp:expr, $u:ident: $ut:ty = $up:expr, $n:ident: $nt:ty = $np:expr) => {
        impl Rec for $t {
            type K = $kt;
            type U = $ut;
            type N = $nt;
            fn ks() -> Vec<$kt> {
                $kp
            }
            fn us() -> Vec<$ut> {
                $up
            }
            fn ns() -> Vec<$nt> {
                $np
            }
            fn make(k: &$kt, u: &$ut, n: Option<$nt>) -> Self {
                Self { $k: k.clone(), $u: u.clone(), $n: n }
            }
            fn parts(&self) -> (&$kt, &$ut, &Option<$nt>) {
                (&self.$k, &self.$u, &self.$n)
            }
            fn set(&mut self, u: &$ut, n: Option<$nt>) {
                self.$u = u.clone();
                self.$n = n;
            }
        }
    };
}
pub fn texts() -> Vec<String> {
    TEXTS.iter().map(|s| s.to_string()).collect()
}
pub fn blobs() -> Vec<Vec<u8>> {
    vec![vec![], vec![0], vec![0, 0], vec![255], b"abc".to_vec(), b"it's".to_vec(), (0..=255).collect(), vec![0x80, 0xfe], b"\\x41".to_vec()]
}
pub fn dates() -> Vec<chrono::NaiveDate> {
    [(1970, 1, 1), (1969, 12, 31), (2000, 2, 29), (1, 1, 1), (9999, 12, 31), (2024, 10, 9), (1900, 3, 1)]
        .iter()
        .map(|(y, m, d)| chrono::NaiveDate::from_ymd_opt(*y, *m, *d).unwrap())
        .collect()
}
pub fn times() -> Vec<chrono::NaiveDateTime> {
    let mut v = Vec::new();
    for d in dates() {
        for (h, m, s, us) in [(0, 0, 0, 0), (23, 59, 59, 999_999), (12, 30, 1, 500_000)] {
            v.push(d.and_hms_micro_opt(h, m, s, us).unwrap());
        }
    }
    v
}
pub fn uuids() -> Vec<uuid::Uuid> {
    vec![uuid::Uuid::nil(), uuid::Uuid::max(), uuid::Uuid::from_u128(1), uuid::Uuid::from_u128(0x0123456789abcdef0123456789abcdef), uuid::Uuid::from_u128(0x80 << 120)]
}
pub fn floats() -> Vec<f64> {
    vec![0.5, -1.25, 1e300, -1e-300, f64::MAX, f64::MIN_POSITIVE, 1.0 / 3.0, 3.0]
}
rec!(RecI, id: i64 = INTS64.to_vec(), u: String = texts(), n: i32 = INTS32.to_vec());
rec!(RecT, key: String = texts(), u: i64 = INTS64.to_vec(), n: String = texts());
rec!(RecB, key: Vec<u8> = blobs(), u: Vec<u8> = blobs(), n: bool = vec![true, false]);
rec!(RecU, key: uuid::Uuid = uuids(), u: chrono::NaiveDate = dates(), n: f64 = floats());
rec!(RecD, key: chrono::NaiveDate = dates(), u: i32 = INTS32.to_vec(), n: chrono::NaiveDateTime = times());
rec!(RecKw, r#where: i32 = INTS32.to_vec(), group: String = texts(), order: i64 = INTS64.to_vec());

pub struct StoreW<T: Rec> {
    ks: Vec<T::K>,
    us: Vec<T::U>,
    ns: Vec<T::N>,
    mem: HashMap<String, T>,
}
impl<T: Rec> StoreW<T> {
    fn n(&self, v: &Value) -> Option<T::N> {
        match v.as_str().unwrap() {
            "n0" => None,
            _ => Some(self.ns[tok(v)].clone()),
        }
    }
    fn mk(&self, ev: &Value) -> T {
        T::make(&self.ks[tok(&ev["k"])], &self.us[tok(&ev["u"])], self.n(&ev["n"]))
    }
    fn u_tok(&self, u: &T::U) -> Value {
        match self.us.iter().position(|x| x == u) {
            Some(i) => json!(format!("u{}", i + 1)),
            None => json!(format!("unknown value {u:?}")),
        }
    }
    fn n_tok(&self, n: &Option<T::N>) -> Value {
        match n {
            None => json!("n0"),
            Some(n) => match self.ns.iter().position(|x| x == n) {
                Some(i) => json!(format!("n{}", i + 1)),
                None => json!(format!("unknown value {n:?}")),
            },
        }
    }
    fn row(&self, t: &T) -> Value {
        let (_, u, n) = t.parts();
        json!([self.u_tok(u), self.n_tok(n)])
    }
    fn k_tok(&self, k: &T::K) -> String {
        match self.ks.iter().position(|x| x == k) {
            Some(i) => format!("k{}", i + 1),
            None => format!("unknown key {k:?}"),
        }
    }
    fn obj(&self, t: &T) -> Value {
        let (k, u, n) = t.parts();
        json!([self.k_tok(k), self.u_tok(u), self.n_tok(n)])
    }
    /// The table must be exactly the specified one.
    async fn check_db(&self, c: C<'_>, want: &Value) -> Check {
        let all: butane::Result<Vec<T>> = go!(c, c => T::query().load(c));
        let all = all.map_err(|e| format!("loading all objects failed: {e}"))?;
        let mut got = serde_json::Map::new();
        for k in want.as_object().unwrap().keys() {
            got.insert(k.clone(), json!([]));
        }
        for t in &all {
            let k = self.k_tok(t.parts().0);
            let old = got.insert(k.clone(), self.row(t));
            ensure(old == Some(json!([])), || format!("object {k} loaded twice or unexpectedly: {all:?}"))?;
        }
        same("table", want, &Value::Object(got))
    }
}
impl<T: Rec + Send> World for StoreW<T>
where
    T::PKType: Sync,
{
    fn new(_variant: &str, seed: u64) -> Self {
        let mut r = Rng::new(seed);
        StoreW { ks: r.pick(&T::ks(), 4), us: r.pick(&T::us(), 4), ns: r.pick(&T::ns(), 3), mem: HashMap::new() }
    }
    async fn reset(&mut self, c: C<'_>) -> Check {
        let r: butane::Result<usize> = go!(c, c => T::query().delete(c));
        r.map(|_| ()).map_err(|e| e.to_string())
    }
    async fn step(&mut self, c: C<'_>, step: &Step) -> Check {
        let ev = &step.ev;
        let op = ev["op"].as_str().unwrap();
        let slot = ev["s"].as_str().unwrap_or("").to_string();
        match op {
            "savenew" => {
                let mut t = self.mk(ev);
                let before = t.clone();
                let r: butane::Result<()> = go!(c, c => t.save(c));
                ensure(errs(&r) == ev["res"], || format!("save: specified {}, got {}", ev["res"], text(&r)))?;
                ensure(t == before, || format!("save changed the object from {before:?} to {t:?}"))?;
            }
            "save" => {
                let mut t = self.mem[&slot].clone();
                let r: butane::Result<()> = go!(c, c => t.save(c));
                ensure(errs(&r) == ev["res"], || format!("save: specified {}, got {}", ev["res"], text(&r)))?;
            }
            "get" => {
                let k = self.ks[tok(&ev["k"])].clone();
                let r: butane::Result<T> = go!(c, c => T::get(c, k.clone()));
                let got = match &r {
                    Ok(_) => json!("ok"),
                    Err(Error::NoSuchObject) => json!("nosuch"),
                    Err(e) => json!(format!("error {e}")),
                };
                same("get", &ev["res"], &got)?;
                if let Ok(t) = r {
                    self.mem.insert(slot, t);
                }
            }
            "tryget" => {
                let k = self.ks[tok(&ev["k"])].clone();
                let r: butane::Result<Option<T>> = go!(c, c => T::try_get(c, k.clone()));
                let r = r.map_err(|e| format!("try_get failed: {e}"))?;
                same("try_get", &ev["val"], &r.map(|t| self.row(&t)).unwrap_or(json!([])))?;
            }
            "set" => {
                let (u, n) = (self.us[tok(&ev["u"])].clone(), self.n(&ev["n"]));
                self.mem.get_mut(&slot).unwrap().set(&u, n);
            }
            "delete" => {
                let t = self.mem[&slot].clone();
                let r: butane::Result<()> = go!(c, c => t.delete(c));
                ensure(errs(&r) == ev["res"], || format!("delete: specified {}, got {}", ev["res"], text(&r)))?;
            }
            "load" => {}
            o => return Err(format!("unknown op {o}")),
        }
        for (s, want) in step.st["mem"].as_object().unwrap() {
            let got = self.mem.get(s).map(|t| self.obj(t)).unwrap_or(json!([]));
            same("held object", want, &got)?;
        }
        self.check_db(c, &step.st["db"]).await
    }
}

pub fn batch(l: &Lane, w: &[Walk], b: &Beat, s: &std::sync::atomic::AtomicUsize, n: &std::sync::atomic::AtomicUsize) -> Vec<Mismatch> {
    match w[0].variant.as_str() {
        "i64" => run_batch::<StoreW<RecI>>(l, w, b, s, n),
        "text" => run_batch::<StoreW<RecT>>(l, w, b, s, n),
        "blob" => run_batch::<StoreW<RecB>>(l, w, b, s, n),
        "uuid" => run_batch::<StoreW<RecU>>(l, w, b, s, n),
        "date" => run_batch::<StoreW<RecD>>(l, w, b, s, n),
        "kw" => run_batch::<StoreW<RecKw>>(l, w, b, s, n),
        v => panic!("unknown variant {v}"),
    }
}
