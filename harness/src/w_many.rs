//! Many.tla: many-to-many fields (M01).
use crate::core::*;
use crate::{go, go_both, go_refs};
use crate::models::*;
use crate::w_store::{texts, uuids};
use butane::db::{Column, ConnectionMethods, ConnectionMethodsAsync};
use butane::query::OrderDirection;
use butane::{AutoPk, DataObject, Many, SqlVal, SqlValRef, ToSql};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};

fn nums(v: &Value) -> Vec<usize> {
    let mut r: Vec<usize> = v.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect();
    r.sort();
    r
}

/// A key chosen by the user, or assigned when first saved.
pub trait Key: Clone + PartialOrd + std::fmt::Debug {
    fn fresh(pool: &mut Vec<Self>) -> Self;
    fn pool() -> Vec<Self>;
}
macro_rules! natural {
    ($t:ty, $p:expr) => {
        impl Key for $t {
            fn fresh(pool: &mut Vec<Self>) -> Self {
                pool.remove(0)
            }
            fn pool() -> Vec<Self> {
                $p
            }
        }
    };
}
natural!(i64, INTS64.to_vec());
natural!(i32, INTS32.to_vec());
natural!(String, texts());
natural!(uuid::Uuid, uuids());
macro_rules! auto {
    ($t:ty) => {
        impl Key for AutoPk<$t> {
            fn fresh(_: &mut Vec<Self>) -> Self {
                AutoPk::uninitialized()
            }
            fn pool() -> Vec<Self> {
                vec![]
            }
        }
    };
}
auto!(i64);
auto!(i32);
pub async fn insert(c: C<'_>, t: &str, cols: &[Column], vals: &[SqlValRef<'_>]) -> butane::Result<()> {
    match c {
        C::S(c) => ConnectionMethods::insert_only(&c, t, cols, vals),
        C::A(c) => ConnectionMethodsAsync::insert_only(&c, t, cols, vals).await,
    }
}

macro_rules! many_world {
    ($w:ident, $item:ident($ik:ident: $ikt:ty, $n:ident, $auto:expr), $owner:ident($ok:ident: $okt:ty, $f:ident $fl:literal, $g:ident $gl:literal, $x:ident)) => {
        pub struct $w {
            seed: u64,
            items: Vec<$item>,
            ikeys: Vec<SqlVal>,
            okeys: BTreeMap<String, $okt>,
            h: BTreeMap<String, $owner>,
            owner_of: BTreeMap<String, String>,
        }
        impl $w {
            fn field<'a>(&'a mut self, ev: &Value) -> &'a mut Many<$item> {
                let h = self.h.get_mut(ev["h"].as_str().unwrap()).unwrap();
                if ev["f"] == "f" {
                    &mut h.$f
                } else {
                    &mut h.$g
                }
            }
            fn no(&self, x: &$item) -> usize {
                let k = x.$ik.to_sql();
                self.ikeys.iter().position(|y| *y == k).map(|i| i + 1).unwrap_or(0)
            }
            async fn fill(&mut self, c: C<'_>, ev: &Value) -> Check {
                let e = |e: butane::Error| format!("setting up failed: {e}");
                let n = ev["n"].as_u64().unwrap() as usize;
                let mut rng = Rng::new(self.seed);
                let mut pool = rng.pick(&<$ikt as Key>::pool(), n);
                pool.sort_by(|a, b| a.partial_cmp(b).unwrap());
                for i in 0..n {
                    let mut x = $item { $ik: <$ikt as Key>::fresh(&mut pool), $n: i as i32 };
                    let r: butane::Result<()> = go!(c, c => x.save(c));
                    r.map_err(e)?;
                    self.ikeys.push(x.$ik.to_sql());
                    self.items.push(x);
                }
                let mut pool = rng.pick(&<$okt as Key>::pool(), 4);
                for (o, fs) in ev["rel"].as_object().unwrap() {
                    let mut x = $owner { $ok: <$okt as Key>::fresh(&mut pool), $f: Many::new(), $g: Many::new(), $x: 7 };
                    for i in nums(&fs["f"]) {
                        x.$f.add(&self.items[i - 1]).map_err(e)?;
                    }
                    for i in nums(&fs["g"]) {
                        x.$g.add(&self.items[i - 1]).map_err(e)?;
                    }
                    if ev["saved"].as_array().unwrap().contains(&json!(o)) {
                        let r: butane::Result<()> = go!(c, c => x.save(c));
                        r.map_err(e)?;
                    }
                    self.okeys.insert(o.clone(), x.$ok.clone());
                }
                for (h, o) in ev["owner"].as_object().unwrap() {
                    let o = o.as_str().unwrap().to_string();
                    let k = self.okeys[&o].clone();
                    let x = if ev["saved"].as_array().unwrap().contains(&json!(o)) {
                        let r: butane::Result<$owner> = go!(c, c => $owner::get(c, k.clone()));
                        r.map_err(e)?
                    } else {
                        $owner { $ok: k, $f: Many::new(), $g: Many::new(), $x: 7 }
                    };
                    self.h.insert(h.clone(), x);
                    self.owner_of.insert(h.clone(), o);
                }
                Ok(())
            }
            fn list(&self, v: &[&$item], want: &Value, ord: &str, what: &str) -> Result<bool, String> {
                let got: Vec<usize> = v.iter().map(|x| self.no(x)).collect();
                let mut sorted = got.clone();
                sorted.sort();
                same(what, &json!(nums(want)), &json!(sorted))?;
                for x in v {
                    let i = self.no(x);
                    ensure(i > 0 && x.$n == i as i32 - 1, || format!("{what}: loaded {x:?}"))?;
                }
                if ord == "desc" {
                    sorted.reverse();
                }
                Ok(ord == "none" || got == sorted)
            }
            async fn check_db(&self, c: C<'_>, st: &Value) -> Check {
                let saved: BTreeSet<String> = st["saved"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect();
                let all: butane::Result<Vec<$owner>> = go!(c, c => $owner::query().load(c));
                let all = all.map_err(|e| format!("loading owners: {e}"))?;
                ensure(all.len() == saved.len(), || format!("{} owners are stored, specified {saved:?}", all.len()))?;
                for o in &saved {
                    let k = self.okeys[o].clone();
                    let r: butane::Result<$owner> = go!(c, c => $owner::get(c, k.clone()));
                    let x = r.map_err(|e| format!("owner {o}: {e}"))?;
                    for (n, f) in [("f", &x.$f), ("g", &x.$g)] {
                        let r: butane::Result<Vec<&$item>> = go_refs!(c, c => f.load(c));
                        let r = r.map_err(|e| format!("loading {o}.{n} of a fresh object: {e}"))?;
                        self.list(&r, &st["rel"][o][n], "none", &format!("stored relations {o}.{n}"))?;
                    }
                }
                Ok(())
            }
        }
        impl World for $w {
            fn new(_variant: &str, seed: u64) -> Self {
                $w { seed, items: vec![], ikeys: vec![], okeys: BTreeMap::new(), h: BTreeMap::new(), owner_of: BTreeMap::new() }
            }
            async fn reset(&mut self, c: C<'_>) -> Check {
                let o = $owner::TABLE;
                for t in [format!("{o}_{}_Many", $fl), format!("{o}_{}_Many", $gl), o.to_string(), $item::TABLE.to_string()] {
                    delete_all(c, &t).await.map_err(|e| format!("clearing {t}: {e}"))?;
                }
                Ok(())
            }
            async fn step(&mut self, c: C<'_>, step: &Step) -> Check {
                let ev = &step.ev;
                let op = ev["op"].as_str().unwrap();
                let h = ev["h"].as_str().unwrap_or("").to_string();
                let outcome = |r: &butane::Result<()>| ensure(errs(r) == ev["res"], || format!("{op}: specified {}, got {}", ev["res"], text(r)));
                let mut touched = true;
                match op {
                    "fill" => self.fill(c, ev).await?,
                    "add" => {
                        let x = self.items[ev["i"].as_u64().unwrap() as usize - 1].clone();
                        outcome(&self.field(ev).add(&x))?;
                    }
                    "addnew" => {
                        if $auto {
                            let x = $item { $ik: <$ikt as Key>::fresh(&mut <$ikt as Key>::pool()), $n: 0 };
                            outcome(&self.field(ev).add(&x))?;
                        }
                    }
                    "remove" => {
                        let x = self.items[ev["i"].as_u64().unwrap() as usize - 1].clone();
                        self.field(ev).remove(&x);
                    }
                    "save" => {
                        let o = self.h.get_mut(&h).unwrap();
                        let r: butane::Result<()> = go!(c, c => o.save(c));
                        let k = o.$ok.clone();
                        outcome(&r)?;
                        self.okeys.insert(self.owner_of[&h].clone(), k);
                    }
                    "savefield" => {
                        let f = self.field(&json!({"h": h, "f": ev["fs"][0]}));
                        let r: butane::Result<()> = go!(c, c => f.save(c));
                        outcome(&r)?;
                    }
                    "delete" => {
                        let f = self.field(ev);
                        let r: butane::Result<()> = go!(c, c => f.delete(c));
                        outcome(&r)?;
                    }
                    "set" => {
                        let v: Vec<$item> = nums(&ev["val"]).iter().map(|i| self.items[i - 1].clone()).collect();
                        let f = self.field(ev);
                        let r: butane::Result<()> = go!(c, c => f.set(c, v));
                        outcome(&r)?;
                    }
                    "load" | "loads" => {
                        touched = false;
                        let ord = ev["ord"].as_str().unwrap();
                        let f = self.field(ev);
                        let asc = ord == "asc";
                        let d = || if asc { OrderDirection::Ascending } else { OrderDirection::Descending };
                        if op == "loads" {
                            let (a, b) = if ord == "none" {
                                go_both!(c, c => f.load(c), v => v.cloned().collect::<Vec<$item>>())
                            } else {
                                go_both!(c, c => f.load_ordered(c, d()), v => v.cloned().collect::<Vec<$item>>())
                            };
                            for r in [a, b] {
                                let r = r.map_err(|e| format!("overlapping load: {e}"))?;
                                if !self.list(&r.iter().collect::<Vec<_>>(), &ev["val"], ord, "overlapping load")? {
                                    ensure(ev["cached"] == true, || format!("load_ordered {ord}: wrong order {r:?}"))?;
                                    known("load-ordered-cached");
                                }
                            }
                        } else {
                        let r: butane::Result<Vec<$item>> = if ord == "none" {
                            go_refs!(c, c => f.load(c)).map(|v| v.into_iter().cloned().collect())
                        } else {
                            go_refs!(c, c => f.load_ordered(c, d())).map(|v| v.into_iter().cloned().collect())
                        };
                        let r = r.map_err(|e| format!("load: {e}"))?;
                        let r: Vec<&$item> = r.iter().collect();
                        if !self.list(&r, &ev["val"], ord, "load")? {
                            ensure(ev["cached"] == true, || format!("load_ordered {ord}: wrong order {r:?}"))?;
                            known("load-ordered-cached");
                        }
                        }
                    }
                    "get" => {
                        touched = false;
                        let r: butane::Result<Vec<$item>> = self.field(ev).get().map(|v| v.cloned().collect());
                        ensure(errs(&r) == ev["res"], || format!("get: specified {}, got {}", ev["res"], text(&r)))?;
                        match r {
                            Ok(v) => {
                                self.list(&v.iter().collect::<Vec<_>>(), &ev["val"], "none", "get")?;
                            }
                            Err(butane::Error::ValueNotLoaded) => {}
                            Err(e) => return Err(format!("get: {e}")),
                        }
                    }
                    "reload" => {
                        let k = self.okeys[&self.owner_of[&h]].clone();
                        let r: butane::Result<$owner> = go!(c, c => $owner::get(c, k.clone()));
                        self.h.insert(h, r.map_err(|e| format!("get: {e}"))?);
                    }
                    "dropitem" => {
                        let x = self.items[ev["i"].as_u64().unwrap() as usize - 1].clone();
                        let r: butane::Result<()> = go!(c, c => x.delete(c));
                        outcome(&r)?;
                    }
                    "dropowner" => {
                        let x = $owner { $ok: self.okeys[ev["o"].as_str().unwrap()].clone(), $f: Many::new(), $g: Many::new(), $x: 7 };
                        let r: butane::Result<()> = go!(c, c => x.delete(c));
                        outcome(&r)?;
                    }
                    "putitem" => {
                        let x = &self.items[ev["i"].as_u64().unwrap() as usize - 1];
                        let (k, n) = (x.$ik.to_sql(), x.$n.to_sql());
                        let vals = [k.as_ref(), n.as_ref()];
                        let r = insert(c, $item::TABLE, <$item as butane::DataResult>::COLUMNS, &vals).await;
                        outcome(&r)?;
                    }
                    o => return Err(format!("unknown op {o}")),
                }
                if touched {
                    self.check_db(c, &step.st["s"]).await?;
                }
                Ok(())
            }
        }
    };
}
many_world!(W1, MItem(id: AutoPk<i64>, n, true), MOwnI(id: i64, f "f", g "g", x));
many_world!(W2, MText(key: String, n, false), MOwnA(id: AutoPk<i64>, f "f", g "g", x));
many_world!(W3, MUuid(id: uuid::Uuid, n, false), MOwnS(name: String, f "f", g "g", x));
many_world!(W4, MKw(r#for: i32, end, false), MOwnK(begin: AutoPk<i32>, r#where "where", group "group", select));

pub fn batch(l: &Lane, w: &[Walk], b: &Beat, s: &std::sync::atomic::AtomicUsize, n: &std::sync::atomic::AtomicUsize) -> Vec<Mismatch> {
    match w[0].variant.as_str() {
        "int" => run_batch::<W1>(l, w, b, s, n),
        "auto" => run_batch::<W2>(l, w, b, s, n),
        "text" => run_batch::<W3>(l, w, b, s, n),
        "kw" => run_batch::<W4>(l, w, b, s, n),
        v => panic!("unknown variant {v}"),
    }
}
