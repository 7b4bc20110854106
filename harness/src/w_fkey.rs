//! Fkey.tla: foreign keys (F01).
use crate::core::*;
use crate::models::*;
use crate::w_many::{insert, Key};
use crate::{go, go_both};
use butane::{DataObject, Error, ForeignKey, ToSql};
use serde_json::{json, Value};
use std::collections::BTreeMap;

fn s<'a>(ev: &'a Value, k: &str) -> &'a str {
    ev[k].as_str().unwrap()
}
fn vn(v: &Value) -> i32 {
    tok(v) as i32 + 1
}

macro_rules! fkey_world {
    ($w:ident, $t:ident($tk:ident: $tkt:ty, $v:ident), $r:ident($rk:ident: $rkt:ty, $p:ident $pl:literal, $o:ident, $b:ident)) => {
        pub struct $w {
            seed: u64,
            tk: Vec<$tkt>,
            rk: Vec<$rkt>,
            h: Option<ForeignKey<$t>>,
            bosses: bool,
            over: bool,
        }
        impl $w {
            fn t(&self, ev: &Value) -> $tkt {
                self.tk[tok(ev)].clone()
            }
            fn r(&self, ev: &Value) -> $rkt {
                self.rk[tok(ev)].clone()
            }
            fn tname(&self, k: &$tkt) -> String {
                self.tk.iter().position(|x| x == k).map(|i| format!("k{}", i + 1)).unwrap_or(format!("unknown {k:?}"))
            }
            fn rname(&self, k: &$rkt) -> String {
                self.rk.iter().position(|x| x == k).map(|i| format!("r{}", i + 1)).unwrap_or(format!("unknown {k:?}"))
            }
            fn obj(&self, k: &Value, v: &Value) -> $t {
                $t { $tk: self.t(k), $v: vn(v) }
            }
            fn show(&self, x: &$t) -> Value {
                json!([format!("v{}", x.$v)])
            }
            fn opt<T: DataObject>(&self, n: &Value, k: impl FnOnce() -> T::PKType) -> Option<ForeignKey<T>> {
                if n == "none" {
                    None
                } else {
                    Some(ForeignKey::from_pk(k()))
                }
            }
            async fn check_db(&self, c: C<'_>, st: &Value) -> Check {
                let all: butane::Result<Vec<$t>> = go!(c, c => $t::query().load(c));
                let all = all.map_err(|e| format!("loading referred objects: {e}"))?;
                let mut got: BTreeMap<String, Value> = st["t"].as_object().unwrap().keys().map(|k| (k.clone(), json!([]))).collect();
                for x in &all {
                    let old = got.insert(self.tname(&x.$tk), self.show(x));
                    ensure(old == Some(json!([])), || format!("unexpected referred object {x:?}"))?;
                }
                same("referred objects", &st["t"], &json!(got))?;
                let all: butane::Result<Vec<$r>> = go!(c, c => $r::query().load(c));
                let all = all.map_err(|e| format!("loading referring objects: {e}"))?;
                let mut got: BTreeMap<String, Value> = st["r"].as_object().unwrap().keys().map(|k| (k.clone(), json!([]))).collect();
                for x in &all {
                    let o = x.$o.as_ref().map(|f| self.tname(&f.pk())).unwrap_or("none".into());
                    let b = x.$b.as_ref().map(|f| self.rname(&f.pk())).unwrap_or("none".into());
                    let old = got.insert(self.rname(&x.$rk), json!([self.tname(&x.$p.pk()), o, b]));
                    ensure(old == Some(json!([])), || format!("unexpected referring object {x:?}"))?;
                }
                same("referring objects", &st["r"], &json!(got))
            }
            async fn get_r(&self, c: C<'_>, ev: &Value) -> Result<$r, String> {
                let k = self.r(&ev["x"]);
                let r: butane::Result<$r> = go!(c, c => $r::get(c, k.clone()));
                r.map_err(|e| format!("get: {e}"))
            }
        }
        impl World for $w {
            fn new(_variant: &str, seed: u64) -> Self {
                $w { seed, tk: vec![], rk: vec![], h: None, bosses: false, over: false }
            }
            async fn reset(&mut self, c: C<'_>) -> Check {
                let e = |e: Error| format!("clearing: {e}");
                let r: butane::Result<Vec<$r>> = go!(c, c => $r::query().load(c));
                for mut x in r.map_err(e)? {
                    if x.$b.is_some() {
                        x.$b = None;
                        let r: butane::Result<()> = go!(c, c => x.save(c));
                        r.map_err(e)?;
                    }
                }
                for t in [$r::TABLE, $t::TABLE] {
                    delete_all(c, &t).await.map_err(e)?;
                }
                let mut rng = Rng::new(self.seed);
                let mut pool = rng.pick(&<$tkt as Key>::pool(), 4);
                // automatic keys are assigned by saving the objects once
                for i in 0..4 {
                    let mut x = $t { $tk: <$tkt as Key>::fresh(&mut pool), $v: i };
                    let r: butane::Result<()> = go!(c, c => x.save(c));
                    r.map_err(e)?;
                    self.tk.push(x.$tk.clone());
                }
                delete_all(c, $t::TABLE).await.map_err(e)?;
                self.rk = rng.pick(&<$rkt as Key>::pool(), 4);
                Ok(())
            }
            async fn step(&mut self, c: C<'_>, step: &Step) -> Check {
                let ev = &step.ev;
                let op = s(ev, "op");
                let outcome = |what: Value, detail: String| ensure(what == ev["res"], || format!("{op}: specified {}, got {detail}", ev["res"]));
                match op {
                    "putt" => {
                        let mut x = self.obj(&ev["k"], &ev["v"]);
                        let k = x.$tk.clone();
                        let there: butane::Result<Option<$t>> = go!(c, c => $t::try_get(c, k.clone()));
                        let there = there.map_err(|e| format!("try_get: {e}"))?.is_some();
                        let r: butane::Result<()> = if there || !$t::AUTO_PK {
                            go!(c, c => x.save(c))
                        } else {
                            let (k, v) = (x.$tk.to_sql(), x.$v.to_sql());
                            insert(c, $t::TABLE, <$t as butane::DataResult>::COLUMNS, &[k.as_ref(), v.as_ref()]).await
                        };
                        outcome(errs(&r), text(&r))?;
                    }
                    "delt" => {
                        let x = $t { $tk: self.t(&ev["k"]), $v: 0 };
                        let r: butane::Result<()> = go!(c, c => x.delete(c));
                        outcome(errs(&r), text(&r))?;
                    }
                    "delq" => {
                        let v = vn(&ev["v"]);
                        let r: butane::Result<usize> = go!(c, c => $t::query().filter(<$t as DataObject>::Fields::default().$v().eq(&v)).delete(c));
                        outcome(errs(&r), text(&r))?;
                        if let Ok(n) = r {
                            same("deleted", &ev["val"], &json!(n))?;
                        }
                    }
                    "saver" => {
                        let mut x = $r {
                            $rk: self.r(&ev["x"]),
                            $p: ForeignKey::from_pk(self.t(&ev["p"])),
                            $o: self.opt(&ev["o"], || self.t(&ev["o"])),
                            $b: self.opt(&ev["b"], || self.r(&ev["b"])),
                        };
                        let r: butane::Result<()> = go!(c, c => x.save(c));
                        outcome(errs(&r), text(&r))?;
                    }
                    "repoint" => {
                        let mut x = self.get_r(c, ev).await?;
                        match s(ev, "f") {
                            "p" => x.$p = ForeignKey::from_pk(self.t(&ev["to"])),
                            "o" => x.$o = self.opt(&ev["to"], || self.t(&ev["to"])),
                            _ => x.$b = self.opt(&ev["to"], || self.r(&ev["to"])),
                        }
                        let r: butane::Result<()> = go!(c, c => x.save(c));
                        outcome(errs(&r), text(&r))?;
                    }
                    "delr" => {
                        let x = $r { $rk: self.r(&ev["x"]), $p: ForeignKey::from_pk(self.tk[0].clone()), $o: None, $b: None };
                        let r: butane::Result<()> = go!(c, c => x.delete(c));
                        outcome(errs(&r), text(&r))?;
                    }
                    "delallr" => {
                        let r: butane::Result<usize> = go!(c, c => $r::query().delete(c));
                        if r.is_err() && on_backend() == "turso" && self.bosses {
                            known("turso-delete-self-referring");
                            self.over = true;
                            return Ok(());
                        }
                        outcome(errs(&r), text(&r))?;
                        same("deleted", &ev["val"], &json!(r.unwrap()))?;
                    }
                    "follow" => {
                        let x = self.get_r(c, ev).await?;
                        same("key of the reference", &ev["p"], &json!(self.tname(&x.$p.pk())))?;
                        ensure(matches!(x.$p.get(), Err(Error::ValueNotLoaded)), || "the reference is loaded already".into())?;
                        let r: butane::Result<&$t> = go!(c, c => x.$p.load(c));
                        let r = r.map_err(|e| format!("load: {e}"))?;
                        same("key of the loaded object", &ev["p"], &json!(self.tname(&r.$tk)))?;
                        same("loaded object", &ev["pv"], &self.show(r))?;
                        same("key of the reference", &ev["p"], &json!(self.tname(&x.$p.pk())))?;
                        ensure(x.$p.get().is_ok(), || "the reference is not loaded after loading it".into())?;
                        match &x.$o {
                            None => same("optional reference", &ev["o"], &json!("none"))?,
                            Some(f) => {
                                let r: butane::Result<&$t> = go!(c, c => f.load(c));
                                let r = r.map_err(|e| format!("load: {e}"))?;
                                same("key of the loaded object", &ev["o"], &json!(self.tname(&r.$tk)))?;
                                same("loaded object", &ev["ov"], &self.show(r))?;
                            }
                        }
                        match &x.$b {
                            None => same("self reference", &ev["b"], &json!("none"))?,
                            Some(f) => {
                                let r: butane::Result<&$r> = go!(c, c => f.load(c));
                                let r = r.map_err(|e| format!("load: {e}"))?;
                                same("key of the loaded object", &ev["b"], &json!(self.rname(&r.$rk)))?;
                                same("reference of the loaded object", &ev["bp"], &json!(self.tname(&r.$p.pk())))?;
                            }
                        }
                    }
                    "frompk" => self.h = Some(ForeignKey::from_pk(self.t(&ev["k"]))),
                    "fromobj" => self.h = Some(ForeignKey::from(self.obj(&ev["k"], &ev["v"]))),
                    "fromref" => self.h = Some(ForeignKey::from(&self.obj(&ev["k"], &ev["v"]))),
                    "take" => self.h = Some(self.get_r(c, ev).await?.$p),
                    "load" | "loads" => {
                        let f = self.h.as_ref().unwrap();
                        let mut rs: Vec<butane::Result<&$t>> = vec![];
                        if op == "load" {
                            rs.push(go!(c, c => f.load(c)));
                        } else {
                            let (a, b) = go_both!(c, c => f.load(c), x => x);
                            rs = vec![a, b];
                        }
                        for r in rs {
                        let got = match &r {
                            Ok(_) => json!("ok"),
                            Err(Error::NoSuchObject) => json!("nosuch"),
                            Err(e) => json!(format!("error {e}")),
                        };
                        outcome(got.clone(), got.to_string())?;
                        if let Ok(x) = r {
                            same("loaded object", &ev["val"], &self.show(x))?;
                            same("key of the loaded object", &ev["k"], &json!(self.tname(&x.$tk)))?;
                        }
                        }
                    }
                    "get" => {
                        let r = self.h.as_ref().unwrap().get();
                        outcome(errs(&r), text(&r))?;
                        match r {
                            Ok(x) => {
                                same("object", &ev["val"], &self.show(x))?;
                                same("key of the object", &ev["k"], &json!(self.tname(&x.$tk)))?;
                            }
                            Err(e) => ensure(matches!(e, Error::ValueNotLoaded), || format!("get: {e}"))?,
                        }
                    }
                    "compare" => {
                        let h = self.h.as_ref().unwrap();
                        let k = self.t(&ev["k"]);
                        let a = ForeignKey::<$t>::from_pk(k.clone());
                        let b = ForeignKey::from(self.obj(&ev["k"], &json!("v1")));
                        let got = [*h == a, a == *h, *h == b, b == *h, *h == k];
                        for (i, g) in got.iter().enumerate() {
                            outcome(json!(if *g { "equal" } else { "different" }), format!("{g} (comparison {i}: references, either way round, to an unloaded and a loaded one, and to a key)"))?;
                        }
                        same("own key", &ev["own"], &json!(self.tname(&h.pk())))?;
                    }
                    "serde" => {
                        let t = serde_json::to_string(self.h.as_ref().unwrap()).map_err(|e| e.to_string())?;
                        self.h = Some(serde_json::from_str(&t).map_err(|e| format!("{e} in {t}"))?);
                    }
                    "clone" => self.h = self.h.clone(),
                    "use" => {
                        let mut x = $r { $rk: self.r(&ev["x"]), $p: self.h.clone().unwrap(), $o: None, $b: None };
                        let r: butane::Result<()> = go!(c, c => x.save(c));
                        outcome(errs(&r), text(&r))?;
                    }
                    "find" => {
                        let h = self.h.as_ref().unwrap();
                        let r: butane::Result<Vec<$r>> = go!(c, c => $r::query().filter(<$r as DataObject>::Fields::default().$p().eq(h)).load(c));
                        let r = r.map_err(|e| format!("query: {e}"))?;
                        let mut got: Vec<String> = r.iter().map(|x| self.rname(&x.$rk)).collect();
                        got.sort();
                        same("found", &sorted(ev["val"].clone()), &json!(got))?;
                    }
                    o => return Err(format!("unknown op {o}")),
                }
                if let (Some(h), Some(k)) = (&self.h, step.st["h"]["k"].as_str()) {
                    same("key of the held reference", &json!(k), &json!(self.tname(&h.pk())))?;
                }
                self.bosses = step.st["s"]["r"].as_object().unwrap().values().any(|x| x.as_array().is_some_and(|x| !x.is_empty() && x[2] != "none"));
                self.check_db(c, &step.st["s"]).await
            }
            fn over(&self) -> bool {
                self.over
            }
        }
    };
}
fkey_world!(W1, FInt(id: i64, v), FIntR(name: String, parent "parent", opt, boss));
fkey_world!(W2, FText(key: String, v), FTextR(id: i64, parent "parent", opt, boss));
fkey_world!(W3, FAuto(id: butane::AutoPk<i32>, v), FAutoR(key: uuid::Uuid, parent "parent", opt, boss));
fkey_world!(W4, FKw(offset: uuid::Uuid, r#type), FKwR(r#where: i32, r#match "match", order, references));

pub fn batch(l: &Lane, w: &[Walk], b: &Beat, s: &std::sync::atomic::AtomicUsize, n: &std::sync::atomic::AtomicUsize) -> Vec<Mismatch> {
    match w[0].variant.as_str() {
        "int" => run_batch::<W1>(l, w, b, s, n),
        "text" => run_batch::<W2>(l, w, b, s, n),
        "auto" => run_batch::<W3>(l, w, b, s, n),
        "kw" => run_batch::<W4>(l, w, b, s, n),
        v => panic!("unknown variant {v}"),
    }
}
