//! Names.tla over models whose names are Rust's keywords, or words that generated code may well use itself (N01).
//! That this crate can be compiled is part of the property.
#![allow(dead_code, non_camel_case_types)]
#[path = "../../harness/src/core.rs"]
mod core;
use crate::core::*;
use butane::query::{BoolExpr, Query};
use butane::{colname, dataresult, filter, find, find_async, model, query, DataObject, ForeignKey, Many};
use serde_json::{json, Value};
use std::collections::BTreeMap;

macro_rules! worlds {
    ($($w:ident $part:ident: $p:ident($k:ident, $d:ident), $c:ident($ck:ident, $r:ident, $m:ident);)*) => {
        $(
            mod $w {
                use super::*;
                #[model]
                #[derive(Clone, Debug, PartialEq)]
                pub struct $p {
                    #[pk]
                    pub $k: i64,
                    pub $d: String,
                }
                #[model]
                #[derive(Clone, Debug)]
                pub struct $c {
                    #[pk]
                    pub $ck: i64,
                    pub $r: ForeignKey<$p>,
                    pub $m: Many<$p>,
                }
                #[dataresult($p)]
                pub struct $part {
                    pub $d: String,
                    pub $k: i64,
                }
                pub struct W {
                    texts: [String; 4],
                    rng: Rng,
                }
                impl W {
                    fn text(&self, v: &Value) -> String {
                        self.texts[v.as_u64().unwrap() as usize].clone()
                    }
                    fn cond(&self, k: &str, v: &Value) -> BoolExpr {
                        let (t, n) = (self.text(v), v.as_i64().unwrap());
                        let referring = |expr: BoolExpr| BoolExpr::Subquery {
                            col: colname!($p, $k),
                            tbl2: $c::TABLE.into(),
                            tbl2_col: colname!($c, $r),
                            expr: Box::new(expr),
                        };
                        match k {
                            "all" => BoolExpr::True,
                            "eq" => filter!($p, $d == { t }),
                            "ne" => filter!($p, $d != { t }),
                            "lt" => filter!($p, $d < { t }),
                            "gt" => filter!($p, $d > { t }),
                            "le" => filter!($p, $d <= { t }),
                            "ge" => filter!($p, $d >= { t }),
                            "like" => filter!($p, $d.like({ t })),
                            "in" => filter!($p, $d.is_in({ vec![t] })),
                            "not" => BoolExpr::Not(Box::new(filter!($p, $d == { t }))),
                            "and" => filter!($p, $d == { t } && $k == 1),
                            "or" => filter!($p, $d == { t } || $k == 1),
                            "keys" => filter!($p, $k == { n }),
                            "sub" => referring(filter!($c, $ck <= { n })),
                            "join" => referring(filter!($c, $r.matches($d == { t }))),
                            o => panic!("{o}"),
                        }
                    }
                    async fn objects(&self, c: C<'_>) -> butane::Result<BTreeMap<i64, $c>> {
                        let v: Vec<$c> = go!(c, c => $c::query().load(c))?;
                        Ok(v.into_iter().map(|x| (x.$ck, x)).collect())
                    }
                    async fn check(&self, c: C<'_>, st: &Value) -> Check {
                        let e = |e: butane::Error| format!("reading failed: {e}");
                        let v: butane::Result<Vec<$p>> = go!(c, c => $p::query().order_asc(colname!($p, $k)).load(c));
                        let rows: Vec<(i64, String)> = v.map_err(e)?.into_iter().map(|x| (x.$k, x.$d)).collect();
                        let v: butane::Result<Vec<$part>> = go!(c, c => <$part as DataResult>::query().order_asc(colname!($p, $k)).load(c));
                        let parts: Vec<(i64, String)> = v.map_err(e)?.into_iter().map(|x| (x.$k, x.$d)).collect();
                        let want: Vec<(i64, String)> = (st["p"].as_array().unwrap().iter().enumerate())
                            .filter(|(_, r)| !r.as_array().unwrap().is_empty())
                            .map(|(i, r)| (i as i64 + 1, self.text(&r[0])))
                            .collect();
                        ensure(rows == want, || format!("P holds {rows:?}, specified {want:?}"))?;
                        ensure(parts == want, || format!("P holds {parts:?} by a partial result, specified {want:?}"))?;
                        let mut got = BTreeMap::new();
                        for (ck, x) in self.objects(c).await.map_err(e)? {
                            let p: butane::Result<$p> = go!(c, c => x.$r.load(c)).map(|p| p.clone());
                            let p = p.map_err(e)?;
                            let m: butane::Result<Vec<$p>> = go_refs!(c, c => x.$m.load(c)).map(|v| v.into_iter().cloned().collect());
                            let m = m.map_err(e)?;
                            ensure(m == [p.clone()], || format!("C {ck} refers to {p:?}, and its many to {m:?}"))?;
                            got.insert(ck, p.$k);
                        }
                        let want: BTreeMap<i64, i64> = (st["c"].as_array().unwrap().iter().enumerate())
                            .filter(|(_, i)| **i != 0)
                            .map(|(j, i)| (j as i64 + 1, i.as_i64().unwrap()))
                            .collect();
                        ensure(got == want, || format!("C refers to {got:?}, specified {want:?}"))
                    }
                    async fn refer(&mut self, c: C<'_>, j: i64, i: i64) -> butane::Result<()> {
                        let mut x = match self.objects(c).await?.remove(&j) {
                            Some(x) => x,
                            None => $c { $ck: j, $r: ForeignKey::from_pk(i), $m: Many::new() },
                        };
                        let old: Vec<$p> = if x.$r.pk() == i { vec![] } else { go_refs!(c, c => x.$m.load(c))?.into_iter().cloned().collect() };
                        x.$r = ForeignKey::from_pk(i);
                        // what does not exist is not to be referred to
                        for p in &old {
                            x.$m.remove(p);
                        }
                        x.$m.add(&$p { $k: i, $d: String::new() })?;
                        go!(c, c => x.save(c))
                    }
                }
                impl World for W {
                    fn new(_variant: &str, seed: u64) -> W {
                        let mut rng = Rng::new(seed);
                        let pre = ["", "Z", "a'b", "é"][rng.below(4)];
                        W { texts: [String::new(), format!("{pre}apple"), format!("{pre}banana"), format!("{pre}cherry")], rng }
                    }
                    async fn reset(&mut self, c: C<'_>) -> Check {
                        for t in [format!("{}_{}_Many", $c::TABLE, colname_of(stringify!($m))), $c::TABLE.to_string(), $p::TABLE.to_string()] {
                            delete_all(c, &t).await.map_err(|e| format!("clearing {t}: {e}"))?;
                        }
                        Ok(())
                    }
                    async fn step(&mut self, c: C<'_>, step: &Step) -> Check {
                        let ev = &step.ev;
                        let r: butane::Result<()> = match ev["op"].as_str().unwrap() {
                            "has" => Ok(()),
                            // an object is saved whether or not its row exists
                            "write" if ev["res"] != "ok" => return Ok(()),
                            "write" => {
                                let mut x = $p { $k: ev["i"].as_i64().unwrap(), $d: self.text(&ev["v"]) };
                                if ev["how"] == "update" {
                                    let d = x.$d.clone();
                                    let old: butane::Result<$p> = go!(c, c => $p::get(c, x.$k));
                                    x = old.map_err(|e| format!("loading failed: {e}"))?;
                                    x.$d = d;
                                }
                                go!(c, c => x.save(c))
                            }
                            "refer" => {
                                let (j, i) = (ev["j"].as_i64().unwrap(), ev["i"].as_i64().unwrap());
                                if ev["res"] != "ok" {
                                    // no object to refer to
                                    let r: butane::Result<$p> = match c {
                                        C::S(c) => find!($p, $k == { i }, &c),
                                        C::A(c) => find_async!($p, $k == { i }, &c),
                                    };
                                    return ensure(matches!(r, Err(butane::Error::NoSuchObject)), || format!("find! gave {r:?}"));
                                }
                                self.refer(c, j, i).await
                            }
                            "delc" => {
                                let j = ev["j"].as_i64().unwrap();
                                match self.objects(c).await.map_err(|e| format!("loading failed: {e}"))?.remove(&j) {
                                    None => Ok(()),
                                    Some(mut x) => {
                                        let p: butane::Result<$p> = go!(c, c => x.$r.load(c)).map(|p| p.clone());
                                        x.$m.remove(&p.map_err(|e| format!("loading failed: {e}"))?);
                                        let r: butane::Result<()> = go!(c, c => x.save(c));
                                        r.map_err(|e| format!("saving: {e}"))?;
                                        go!(c, c => x.delete(c))
                                    }
                                }
                            }
                            "find" => {
                                let e = self.cond(ev["k"].as_str().unwrap(), &ev["v"]);
                                let q: Query<$p> = query!($p, { e });
                                let (k, d) = (colname!($p, $k), colname!($p, $d));
                                let q = match ev["o"].as_str().unwrap() {
                                    "k" => q.order_asc(k),
                                    "kd" => q.order_desc(k),
                                    "d" => q.order_asc(d).order_asc(k),
                                    _ => q.order_desc(d).order_asc(k),
                                };
                                let q = match ev["w"].as_str().unwrap() {
                                    "all" => q,
                                    "first" => q.limit(1),
                                    _ => q.offset(1),
                                };
                                let v: butane::Result<Vec<$p>> = go!(c, c => q.load(c));
                                let v = v.map_err(|e| format!("finding failed: {e}"))?;
                                same("rows of P found", &ev["val"], &json!(v.iter().map(|x| x.$k).collect::<Vec<_>>()))?;
                                Ok(())
                            }
                            "findc" => {
                                let (t, n) = (self.text(&ev["v"]), ev["v"].as_i64().unwrap());
                                let e = match (ev["k"].as_str().unwrap(), self.rng.below(2)) {
                                    ("ref", 0) => filter!($c, $r == { ForeignKey::<$p>::from_pk(n) }),
                                    ("ref", _) => filter!($c, $m.contains($k == { n })),
                                    (_, 0) => filter!($c, $r.matches($d == { t })),
                                    _ => filter!($c, $m.contains($d == { t })),
                                };
                                let v: butane::Result<Vec<$c>> = go!(c, c => $c::query().filter(e.clone()).load(c));
                                let v = v.map_err(|e| format!("finding failed: {e}"))?;
                                same("rows of C found", &sorted(ev["val"].clone()), &sorted(json!(v.iter().map(|x| x.$ck).collect::<Vec<_>>())))?;
                                Ok(())
                            }
                            "delete" => {
                                let q: Query<$p> = query!($p, { self.cond(ev["k"].as_str().unwrap(), &ev["v"]) });
                                let r: butane::Result<usize> = go!(c, c => q.clone().delete(c));
                                match r {
                                    Ok(n) => {
                                        if on_backend() != "turso" {
                                            same("number of rows deleted", &ev["n"], &json!(n))?;
                                        }
                                        Ok(())
                                    }
                                    Err(e) => Err(e),
                                }
                            }
                            o => panic!("{o}"),
                        };
                        ensure((ev["res"] == "ok") == r.is_ok(), || format!("{} gave {r:?}, specified {}", ev["op"], ev["res"]))?;
                        self.check(c, &step.st).await
                    }
                }
            }
        )*
        fn batch(lane: &Lane, walks: &[Walk], beat: &Beat, stop: &std::sync::atomic::AtomicUsize, steps: &std::sync::atomic::AtomicUsize) -> Vec<Mismatch> {
            match walks.first().map(|w| w.variant.as_str()) {
                $(Some(stringify!($w)) => run_batch::<$w::W>(lane, walks, beat, stop, steps),)*
                v => panic!("variant {v:?}"),
            }
        }
    };
}
fn colname_of(ident: &str) -> &str {
    ident.trim_start_matches("r#")
}
async fn delete_all(c: C<'_>, table: &str) -> butane::Result<usize> {
    use butane::db::{ConnectionMethods, ConnectionMethodsAsync};
    match c {
        C::S(c) => c.delete_where(table, BoolExpr::True),
        C::A(c) => c.delete_where(table, BoolExpr::True).await,
    }
}
worlds! {
    a PartA: r#as(r#break, r#const), r#continue(r#else, r#enum, r#extern);
    b PartB: r#fn(r#false, r#for), r#if(r#impl, r#in, r#let);
    c PartC: r#loop(r#match, r#mod), r#move(r#mut, r#pub, r#ref);
    d PartD: r#return(r#static, r#struct), r#trait(r#true, r#type, r#unsafe);
    e PartE: r#use(r#where, r#while), r#async(r#await, r#dyn, r#abstract);
    f PartF: r#become(r#box, r#do), r#final(r#macro, r#override, r#priv);
    g PartG: r#typeof(r#unsized, r#virtual), r#yield(r#try, r#type, r#match);
    h PartH: Rows(conn, values), Rest(columns, pk, state);
    i PartI: r#type(it, row), r#match(query, fields, load);
    j PartJ: Table(save, delete), Tables(name, butane, table);
    k PartK: Lists(r#move, list), Listed(saved, obj, many);
}

fn main() {
    std::env::set_var("SSL_CERT_FILE", "/dev/null");
    std::env::set_var("SSL_CERT_DIR", "/nonexistent");
    if std::env::var("BH_PANIC").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let args: Vec<String> = std::env::args().skip(1).collect();
    replay(&args[1], |_| batch);
}
