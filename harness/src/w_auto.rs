//! AutoKey.tla: objects with automatic keys (S02).
use crate::core::*;
use crate::go;
use crate::models::*;
use butane::{AutoPk, DataObject, Error, SqlVal, SqlValRef};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap};
use std::fmt::Debug;

pub trait ARec: DataObject + Clone + Debug + Send {
    const HAS_COLS: bool;
    fn make(u: &str, n: Option<i32>) -> Self;
    fn key(&self) -> Option<i64>;
    fn cols(&self) -> (String, Option<i32>);
    fn set(&mut self, u: &str, n: Option<i32>);
    /// Keys a row stored by other means may have, far from those a database hands out.
    const FAR: &'static [i64] = &[i64::MAX, i64::MAX - 1, i64::MIN, -5, -1, 0, 1 << 40, i32::MAX as i64 + 7];
    fn key_val(k: i64) -> SqlVal {
        SqlVal::BigInt(k)
    }
}
macro_rules! arec {
    ($t:ty, $k:ident: $kt:ty, $u:ident, $n:ident $(; $($more:tt)*)?) => {
        impl ARec for $t {
            const HAS_COLS: bool = true;
            fn make(u: &str, n: Option<i32>) -> Self {
                Self { $k: AutoPk::uninitialized(), $u: u.to_string(), $n: n }
            }
            fn key(&self) -> Option<i64> {
                self.$k.map(|k| k as i64)
            }
            fn cols(&self) -> (String, Option<i32>) {
                (self.$u.clone(), self.$n)
            }
            fn set(&mut self, u: &str, n: Option<i32>) {
                self.$u = u.to_string();
                self.$n = n;
            }
            $($($more)*)?
        }
    };
}
arec!(Auto, id: i64, name, num);
arec!(AutoS, ident: i32, name, num;
    const FAR: &'static [i64] = &[i32::MIN as i64, -5, -1, 0];
    fn key_val(k: i64) -> SqlVal { SqlVal::Int(k as i32) });
arec!(Table, user: i64, r#type, limit);
impl ARec for OnlyPk {
    const HAS_COLS: bool = false;
    fn make(_: &str, _: Option<i32>) -> Self {
        OnlyPk { id: AutoPk::uninitialized() }
    }
    fn key(&self) -> Option<i64> {
        *self.id
    }
    fn cols(&self) -> (String, Option<i32>) {
        (String::new(), None)
    }
    fn set(&mut self, _: &str, _: Option<i32>) {}
}

pub struct AutoW<T: ARec> {
    us: Vec<(String, Option<i32>)>,
    /// real key of each token (1-based)
    keys: Vec<i64>,
    mem: HashMap<String, T>,
    over: bool,
    rng: Rng,
}
impl<T: ARec> AutoW<T> {
    fn u_of(&self, cols: &(String, Option<i32>)) -> String {
        if !T::HAS_COLS {
            return "u1".into();
        }
        match self.us.iter().position(|x| x == cols) {
            Some(i) => format!("u{}", i + 1),
            None => format!("unknown columns {cols:?}"),
        }
    }
    async fn rows(&self, c: C<'_>) -> Result<BTreeMap<i64, String>, String> {
        let all: butane::Result<Vec<T>> = go!(c, c => T::query().load(c));
        let all = all.map_err(|e| format!("loading all objects failed: {e}"))?;
        let mut m = BTreeMap::new();
        for t in &all {
            let k = t.key().ok_or("a loaded object has no key")?;
            ensure(m.insert(k, self.u_of(&t.cols())).is_none(), || format!("key {k} stored twice"))?;
        }
        Ok(m)
    }
    fn tok_of(&self, real: i64) -> i64 {
        // the latest binding counts
        self.keys.iter().rposition(|k| *k == real).map(|i| i as i64 + 1).unwrap_or_else(|| real.wrapping_neg())
    }
}
impl<T: ARec> World for AutoW<T>
where
    T::PKType: Sync,
{
    fn new(_variant: &str, seed: u64) -> Self {
        let mut r = Rng::new(seed);
        let names = r.pick(TEXTS, 4);
        let nums: Vec<Option<i32>> = r.pick(INTS32, 3).into_iter().map(Some).chain([None]).collect();
        let nums = r.pick(&nums, 4);
        AutoW { us: names.iter().map(|s| s.to_string()).zip(nums).collect(), keys: vec![], mem: HashMap::new(), over: false, rng: r }
    }
    fn over(&self) -> bool {
        self.over
    }
    async fn reset(&mut self, c: C<'_>) -> Check {
        let r: butane::Result<usize> = go!(c, c => T::query().delete(c));
        r.map(|_| ()).map_err(|e| e.to_string())
    }
    async fn step(&mut self, c: C<'_>, step: &Step) -> Check {
        let ev = &step.ev;
        let op = ev["op"].as_str().unwrap();
        let slot = ev["s"].as_str().unwrap_or("").to_string();
        match op {
            "new" => {
                let u = &self.us[tok(&ev["u"])];
                self.mem.insert(slot, T::make(&u.0, u.1));
            }
            "set" => {
                let u = self.us[tok(&ev["u"])].clone();
                self.mem.get_mut(&slot).unwrap().set(&u.0, u.1);
            }
            "copy" => {
                let t = self.mem[&slot].clone();
                self.mem.insert(ev["s2"].as_str().unwrap().into(), t);
            }
            "import" => {
                let before = self.rows(c).await?;
                let free: Vec<i64> = T::FAR.iter().copied().filter(|k| !before.contains_key(k) && !self.keys.contains(k)).collect();
                let Some(k) = free.get(self.rng.below(free.len().max(1))).copied() else {
                    self.over = true;
                    return Ok(());
                };
                let u = &self.us[tok(&ev["u"])];
                let mut vals = vec![T::key_val(k)];
                if T::HAS_COLS {
                    vals.push(SqlVal::Text(u.0.clone()));
                    vals.push(u.1.map(SqlVal::Int).unwrap_or(SqlVal::Null));
                }
                let vals: Vec<SqlValRef> = vals.iter().map(|v| v.as_ref()).collect();
                crate::w_many::insert(c, T::TABLE, T::COLUMNS, &vals).await.map_err(|e| format!("storing a row with key {k} failed: {e}"))?;
                self.keys.push(k);
            }
            "insert" => {
                let before = self.rows(c).await?;
                let mut t = self.mem[&slot].clone();
                let r: butane::Result<()> = go!(c, c => t.save(c));
                ensure(errs(&r) == ev["res"], || format!("first save: specified {}, got {}", ev["res"], text(&r)))?;
                if r.is_ok() {
                    let k = t.key().ok_or("no key after a successful first save")?;
                    ensure(!before.contains_key(&k), || format!("the new object was given the key {k} of a stored object"))?;
                    let stale = self.mem.iter().any(|(s, o)| *s != slot && o.key() == Some(k));
                    self.keys.push(k);
                    if stale {
                        // the database reused the key of a deleted row that a stale copy still names:
                        // outside the property (see DESIGN.md)
                        self.over = true;
                    }
                } else {
                    ensure(t.key().is_none(), || "a failed first save left a key".into())?;
                }
                self.mem.insert(slot, t);
                if self.over {
                    return Ok(());
                }
            }
            "update" | "delete" => {
                let t = self.mem.get_mut(&slot).unwrap();
                let r: butane::Result<()> = if op == "update" { go!(c, c => t.save(c)) } else { go!(c, c => t.delete(c)) };
                ensure(errs(&r) == ev["res"], || format!("{op}: specified {}, got {}", ev["res"], text(&r)))?;
            }
            "savegone" => {
                let t = self.mem.get_mut(&slot).unwrap();
                let k = t.key().unwrap();
                let r: butane::Result<()> = go!(c, c => t.save(c));
                ensure(t.key() == Some(k), || "saving changed the key".into())?;
                let t = t.clone();
                let stored = self.rows(c).await?.contains_key(&k);
                match (&r, stored) {
                    (Ok(()), false) => {
                        if T::HAS_COLS {
                            known("ghost-save")
                        } else {
                            known("ghost-save-onlypk")
                        }
                    }
                    (Ok(()), true) => {
                        // stored again: take it out to stay with the specification
                        let r: butane::Result<()> = go!(c, c => t.delete(c));
                        r.map_err(|e| e.to_string())?;
                    }
                    (Err(_), false) => {}
                    (Err(e), true) => return Err(format!("save failed ({e}) but stored a row")),
                }
            }
            "get" => {
                let k = self.keys[ev["t"].as_u64().unwrap() as usize - 1];
                if self.keys.iter().filter(|x| **x == k).count() > 1 && ev["res"] == json!("nosuch") {
                    // the key was reused since; nothing to check here
                } else {
                    let r: butane::Result<T> = go!(c, c => T::get(c, k));
                    let got = match &r {
                        Ok(_) => json!("ok"),
                        Err(Error::NoSuchObject) => json!("nosuch"),
                        Err(e) => json!(format!("error {e}")),
                    };
                    same("get", &ev["res"], &got)?;
                    if let Ok(t) = r {
                        self.mem.insert(slot, t);
                    }
                }
            }
            o => return Err(format!("unknown op {o}")),
        }
        for (s, want) in step.st["mem"].as_object().unwrap() {
            let got = match self.mem.get(s) {
                None => json!([]),
                Some(t) => json!([t.key().map(|k| self.tok_of(k)).unwrap_or(0), self.u_of(&t.cols())]),
            };
            // a token whose key was reused by a later row: compare by real key
            let want = match want.as_array().unwrap().first().and_then(Value::as_u64) {
                Some(t) if t > 0 => json!([self.tok_of(self.keys[t as usize - 1]), want[1]]),
                _ => want.clone(),
            };
            same("held object", &want, &got)?;
        }
        let mut want = BTreeMap::new();
        for (i, u) in step.st["db"].as_array().unwrap().iter().enumerate() {
            if u != "-" {
                want.insert(self.keys[i], u.as_str().unwrap().to_string());
            }
        }
        let got = self.rows(c).await?;
        ensure(want == got, || format!("table: specification says {want:?}, implementation has {got:?}"))
    }
}
pub fn batch(l: &Lane, w: &[Walk], b: &Beat, s: &std::sync::atomic::AtomicUsize, n: &std::sync::atomic::AtomicUsize) -> Vec<Mismatch> {
    match w[0].variant.as_str() {
        "i64" => run_batch::<AutoW<Auto>>(l, w, b, s, n),
        "i32" => run_batch::<AutoW<AutoS>>(l, w, b, s, n),
        "kw" => run_batch::<AutoW<Table>>(l, w, b, s, n),
        "only" => run_batch::<AutoW<OnlyPk>>(l, w, b, s, n),
        v => panic!("unknown variant {v}"),
    }
}
