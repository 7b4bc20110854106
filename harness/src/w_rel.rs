//! Rel.tla: filters that follow relations (Q03).
use crate::core::*;
use crate::go;
use crate::models::*;
use crate::w_store::uuids;
use butane::query::{BoolExpr, Expr};
use butane::{filter, AutoPk, DataObject, DataResult, ForeignKey, Many, SqlVal, ToSql};
use serde_json::Value;
use std::collections::BTreeMap;

fn list(v: &Value) -> Vec<Value> {
    v.as_array().cloned().unwrap_or_default()
}
fn num(v: &Value) -> usize {
    v.as_u64().unwrap() as usize
}
fn ids_of(v: &Value) -> Vec<usize> {
    let mut r: Vec<usize> = list(v).iter().map(num).collect();
    r.sort();
    r
}
fn cmp(o: &str, col: &'static str, v: SqlVal) -> BoolExpr {
    let e = Expr::Val(v);
    match o {
        "eq" => BoolExpr::Eq(col, e),
        "ne" => BoolExpr::Ne(col, e),
        "lt" => BoolExpr::Lt(col, e),
        "gt" => BoolExpr::Gt(col, e),
        "le" => BoolExpr::Le(col, e),
        "ge" => BoolExpr::Ge(col, e),
        o => panic!("operator {o}"),
    }
}

/// The same through the macros.  `filter!` with raw identifiers is left to N01.
macro_rules! by_macro {
    (off, $($x:tt)*) => {
            fn atom_by_macro(&self, _ty: &str, _col: &str, _o: &str, _v: usize) -> Option<BoolExpr> {
                None
            }
            fn nested(&mut self, _r: &str, _t: &Value) -> Option<BoolExpr> {
                None
            }
            fn rel_by_macro(&self, _r: &str, _e: &BoolExpr) -> Option<BoolExpr> {
                None
            }
    };
    (on, $item:ident $ik:ident $n:ident, $tag:ident $tk:ident $val:ident, $child:ident $parent:ident, $owner:ident $ok:ident $things:ident $tags:ident $kids:ident $friends:ident) => {
            fn atom_by_macro(&self, ty: &str, col: &str, o: &str, v: usize) -> Option<BoolExpr> {
                let n = v as i32;
                Some(match (ty, col, o) {
                        ("I", "n", "eq") => filter!($item, $n == { Some(n) }),
                        ("I", "n", "lt") => filter!($item, $n < { n }),
                        ("I", "n", "ge") => filter!($item, $n >= { n }),
                        ("T", "val", "eq") => filter!($tag, $val == { n }),
                        ("T", "val", "ne") => filter!($tag, $val != { n }),
                        ("T", "val", "ge") => filter!($tag, $val >= { n }),
                        ("O", "key", "le") => filter!($owner, $ok <= { self.okey[v - 1].clone() }),
                        ("T", "key", "eq") => filter!($tag, $tk == { self.tkey[v - 1].clone() }),
                        ("I", "key", "eq") => filter!($item, $ik == { self.ikey[v - 1].clone() }),
                        ("O", "key", "ne") => filter!($owner, $ok != { self.okey[v - 1].clone() }),
                        ("C", "parent", "eq") => filter!($child, $parent == { ForeignKey::<$item>::from_pk(self.ikey[v - 1].clone()) }),
                    _ => return None,
                })
            }
            /// A relation and what is to hold of the other side, in one macro.
            fn nested(&mut self, r: &str, t: &Value) -> Option<BoolExpr> {
                if t["t"] != "cmp" || self.rng.below(2) == 0 {
                    return None;
                }
                let (n, i) = (num(&t["v"]) as i32, num(&t["v"]) - 1);
                Some(match (r, t["c"].as_str().unwrap(), t["o"].as_str().unwrap()) {
                    ("parent", "n", "eq") => filter!($child, $parent.matches($n == { Some(n) })),
                    ("parent", "n", "lt") => filter!($child, $parent.matches($n < { n })),
                    ("parent", "n", "ge") => filter!($child, $parent.matches($n >= { n })),
                    ("parent", "key", "eq") => filter!($child, $parent.matches($ik == { self.ikey[i].clone() })),
                    ("things", "n", "eq") => filter!($owner, $things.contains($n == { Some(n) })),
                    ("things", "n", "lt") => filter!($owner, $things.contains($n < { n })),
                    ("things", "n", "ge") => filter!($owner, $things.contains($n >= { n })),
                    ("things", "key", "eq") => filter!($owner, $things.contains($ik == { self.ikey[i].clone() })),
                    ("tags", "val", "eq") => filter!($owner, $tags.contains($val == { n })),
                    ("tags", "val", "ne") => filter!($owner, $tags.contains($val != { n })),
                    ("tags", "val", "ge") => filter!($owner, $tags.contains($val >= { n })),
                    ("tags", "key", "eq") => filter!($owner, $tags.contains($tk == { self.tkey[i].clone() })),
                    ("friends", "key", "eq") => filter!($owner, $friends.contains($ok == { self.okey[i].clone() })),
                    ("kids", "parent", "eq") => filter!($owner, $kids.contains($parent == { ForeignKey::<$item>::from_pk(self.ikey[i].clone()) })),
                    _ => return None,
                })
            }
            fn rel_by_macro(&self, r: &str, e: &BoolExpr) -> Option<BoolExpr> {
                Some(match r {
                        "parent" => filter!($child, $parent.matches({ e.clone() })),
                        "things" => filter!($owner, $things.contains({ e.clone() })),
                        "tags" => filter!($owner, $tags.contains({ e.clone() })),
                        "kids" => filter!($owner, $kids.contains({ e.clone() })),
                        "friends" => filter!($owner, $friends.contains({ e.clone() })),
                    _ => return None,
                })
            }
    };
}

/// Implements the world for one set of models.
macro_rules! rel_world {
    ($w:ident, $macros:ident,
     $item:ident($ik:ident $ikl:literal: $ikt:ty, $n:ident $nl:literal),
     $tag:ident($tk:ident $tkl:literal: $tkt:ty, $val:ident $vall:literal),
     $child:ident($ck:ident $ckl:literal: $ckt:ty, $parent:ident $parentl:literal, $opt:ident $optl:literal),
     $owner:ident($ok:ident $okl:literal: $okt:ty, $boss:ident $bossl:literal, $lead:ident $leadl:literal, $things:ident $thl:literal, $tags:ident $tgl:literal, $kids:ident $kdl:literal, $friends:ident $frl:literal),
     $ipool:expr, $tpool:expr, $opool:expr) => {
        pub struct $w {
            rng: Rng,
            ikey: Vec<$ikt>,
            tkey: Vec<$tkt>,
            okey: Vec<$okt>,
            ckey: BTreeMap<usize, AutoPk<$ckt>>,
        }
        impl $w {
            async fn clear(&mut self, c: C<'_>) -> Check {
                let o = $owner::TABLE;
                let r: butane::Result<Vec<$owner>> = go!(c, c => $owner::query().load(c));
                for mut x in r.map_err(|e| format!("clearing: {e}"))? {
                    if x.$boss.is_some() {
                        x.$boss = None;
                        let r: butane::Result<()> = go!(c, c => x.save(c));
                        r.map_err(|e| format!("clearing: {e}"))?;
                    }
                }
                let mut ts: Vec<String> = [$thl, $tgl, $kdl, $frl].iter().map(|m| format!("{o}_{m}_Many")).collect();
                ts.extend([o, $child::TABLE, $tag::TABLE, $item::TABLE].iter().map(|s| s.to_string()));
                for t in ts {
                    delete_all(c, &t).await.map_err(|e| format!("clearing {t}: {e}"))?;
                }
                Ok(())
            }
            async fn fill(&mut self, c: C<'_>, db: &Value) -> Check {
                self.clear(c).await?;
                self.ckey.clear();
                let e = |e: butane::Error| format!("filling failed: {e}");
                for (i, r) in list(&db["I"]).iter().enumerate() {
                    let n = num(&r["n"]);
                    let mut x = $item { $ik: self.ikey[i].clone(), $n: if n == 0 { None } else { Some(n as i32) } };
                    let r: butane::Result<()> = go!(c, c => x.save(c));
                    r.map_err(e)?;
                }
                for (i, r) in list(&db["T"]).iter().enumerate() {
                    let mut x = $tag { $tk: self.tkey[i].clone(), $val: num(&r["val"]) as i32 };
                    let r: butane::Result<()> = go!(c, c => x.save(c));
                    r.map_err(e)?;
                }
                for (i, r) in list(&db["C"]).iter().enumerate() {
                    let opt = num(&r["opt"]);
                    let mut x = $child {
                        $ck: AutoPk::uninitialized(),
                        $parent: ForeignKey::from_pk(self.ikey[num(&r["parent"]) - 1].clone()),
                        $opt: if opt == 0 { None } else { Some(ForeignKey::from_pk(self.tkey[opt - 1].clone())) },
                    };
                    let r: butane::Result<()> = go!(c, c => x.save(c));
                    r.map_err(e)?;
                    self.ckey.insert(i + 1, x.$ck.clone());
                }
                let rows = list(&db["O"]);
                let mut os: Vec<$owner> = vec![];
                for (i, r) in rows.iter().enumerate() {
                    let (boss, lead) = (num(&r["boss"]), num(&r["lead"]));
                    let mut x = $owner {
                        $ok: self.okey[i].clone(),
                        $boss: if boss == 0 { None } else { Some(ForeignKey::from_pk(self.okey[boss - 1].clone())) },
                        $lead: if lead == 0 { None } else { Some(ForeignKey::from_pk(self.ckey[&lead].clone())) },
                        $things: Many::new(),
                        $tags: Many::new(),
                        $kids: Many::new(),
                        $friends: Many::new(),
                    };
                    let r: butane::Result<()> = go!(c, c => x.save(c));
                    r.map_err(e)?;
                    os.push(x);
                }
                let others = os.clone();
                for (x, r) in os.iter_mut().zip(&rows) {
                    for k in ids_of(&r["things"]) {
                        x.$things.add(&$item { $ik: self.ikey[k - 1].clone(), $n: None }).map_err(e)?;
                    }
                    for k in ids_of(&r["tags"]) {
                        x.$tags.add(&$tag { $tk: self.tkey[k - 1].clone(), $val: 0 }).map_err(e)?;
                    }
                    for k in ids_of(&r["kids"]) {
                        let y = $child { $ck: self.ckey[&k].clone(), $parent: ForeignKey::from_pk(self.ikey[0].clone()), $opt: None };
                        x.$kids.add(&y).map_err(e)?;
                    }
                    for k in ids_of(&r["friends"]) {
                        x.$friends.add(&others[k - 1]).map_err(e)?;
                    }
                    let r: butane::Result<()> = go!(c, c => x.save(c));
                    r.map_err(e)?;
                }
                Ok(())
            }
            fn key_val(&self, ty: &str, i: usize) -> SqlVal {
                match ty {
                    "I" => self.ikey[i - 1].to_sql(),
                    "T" => self.tkey[i - 1].to_sql(),
                    "C" => self.ckey.get(&i).map(|k| k.to_sql()).unwrap_or((-5 as $ckt).to_sql()),
                    _ => self.okey[i - 1].to_sql(),
                }
            }
            fn atom(&mut self, t: &Value) -> BoolExpr {
                let (ty, col) = (t["ty"].as_str().unwrap(), t["c"].as_str().unwrap());
                let name: &'static str = match (ty, col) {
                    ("I", "key") => $ikl,
                    ("I", "n") => $nl,
                    ("T", "key") => $tkl,
                    ("T", "val") => $vall,
                    ("C", "key") => $ckl,
                    ("C", "parent") => $parentl,
                    ("C", "opt") => $optl,
                    ("O", "key") => $okl,
                    ("O", "boss") => $bossl,
                    (_, c) => panic!("column {c}"),
                };
                let typed = self.rng.below(2) == 0;
                if t["t"] == "null" {
                    return match (typed, ty) {
                        (true, "I") => $item::fields().$n().eq(&None),
                        (true, "C") => $child::fields().$opt().eq(&None::<ForeignKey<$tag>>),
                        _ => BoolExpr::Eq(name, Expr::Val(SqlVal::Null)),
                    };
                }
                let v = num(&t["v"]);
                let o = t["o"].as_str().unwrap();
                if self.rng.below(2) == 0 {
                    if let Some(e) = self.atom_by_macro(ty, col, o, v) {
                        return e;
                    }
                }
                match (ty, col) {
                    ("C", "parent") => {
                        let k = ForeignKey::<$item>::from_pk(self.ikey[v - 1].clone());
                        match (typed, o) {
                            (true, "eq") => $child::fields().$parent().eq(&k),
                            (true, "ne") => $child::fields().$parent().ne(&k),
                            _ => cmp(o, name, k.to_sql()),
                        }
                    }
                    ("C", "opt") => cmp(o, name, self.key_val("T", v)),
                    ("O", "boss") => cmp(o, name, self.key_val("O", v)),
                    (_, "key") => cmp(o, name, self.key_val(ty, v)),
                    _ => cmp(o, name, SqlVal::Int(v as i32)),
                }
            }
            by_macro!($macros, $item $ik $n, $tag $tk $val, $child $parent, $owner $ok $things $tags $kids $friends);
            fn rel(&mut self, r: &str, e: BoolExpr, pk: Option<usize>, last: &Value) -> BoolExpr {
                if let Some(e) = self.nested(r, last) {
                    return e;
                }
                if self.rng.below(3) == 0 {
                    if let Some(e) = self.rel_by_macro(r, &e) {
                        return e;
                    }
                }
                let pk = if self.rng.below(2) == 0 { pk } else { None };
                match (r, pk) {
                    ("parent", None) => $child::fields().$parent().subfilter(e),
                    ("parent", Some(k)) => $child::fields().$parent().subfilterpk(self.ikey[k - 1].clone()),
                    // the typed interface has no filters through optional references
                    ("opt", _) => BoolExpr::Subquery { col: $optl, tbl2: $tag::TABLE.into(), tbl2_col: $tkl, expr: Box::new(e) },
                    ("boss", _) => BoolExpr::Subquery { col: $bossl, tbl2: $owner::TABLE.into(), tbl2_col: $okl, expr: Box::new(e) },
                    ("lead", _) => BoolExpr::Subquery { col: $leadl, tbl2: $child::TABLE.into(), tbl2_col: $ckl, expr: Box::new(e) },
                    ("things", None) => $owner::fields().$things().contains(e),
                    ("things", Some(k)) => $owner::fields().$things().containspk(self.ikey[k - 1].clone()),
                    ("tags", _) => $owner::fields().$tags().contains(e),
                    ("kids", _) => $owner::fields().$kids().contains(e),
                    ("friends", _) => $owner::fields().$friends().contains(e),
                    (r, _) => panic!("relation {r}"),
                }
            }
            fn expr(&mut self, prog: &Value) -> BoolExpr {
                let mut st: Vec<(BoolExpr, Option<usize>)> = vec![];
                let mut last = &Value::Null;
                for t in prog.as_array().unwrap() {
                    let before = std::mem::replace(&mut last, t);
                    let e = match t["t"].as_str().unwrap() {
                        "not" => (BoolExpr::Not(Box::new(st.pop().unwrap().0)), None),
                        o @ ("and" | "or") => {
                            let (b, a) = (st.pop().unwrap().0, st.pop().unwrap().0);
                            if o == "or" {
                                (BoolExpr::Or(Box::new(a), Box::new(b)), None)
                            } else if self.rng.below(3) == 0 {
                                (BoolExpr::AllOf(vec![a, b]), None)
                            } else {
                                (BoolExpr::And(Box::new(a), Box::new(b)), None)
                            }
                        }
                        "rel" => {
                            let (a, pk) = st.pop().unwrap();
                            (self.rel(t["r"].as_str().unwrap(), a, pk, before), None)
                        }
                        _ => {
                            let pk = (t["t"] == "cmp" && t["c"] == "key" && t["o"] == "eq").then(|| num(&t["v"]));
                            (self.atom(t), pk)
                        }
                    };
                    st.push(e);
                }
                assert_eq!(st.len(), 1);
                st.pop().unwrap().0
            }
            /// The numbers of the rows of a type that satisfy a filter (all if none), in increasing order.
            async fn load(&self, c: C<'_>, ty: &str, e: Option<BoolExpr>) -> Result<Vec<usize>, String> {
                macro_rules! q {
                    ($t:ident, $k:ident, $f:expr) => {{
                        let mut q = $t::query();
                        if let Some(e) = e.clone() {
                            q = q.filter(e);
                        }
                        let r: butane::Result<Vec<$t>> = go!(c, c => q.load(c));
                        let r = r.map_err(|x| format!("query failed: {x}; filter {e:?}"))?;
                        r.iter().map(|x| $f(&x.$k)).collect::<Vec<Option<usize>>>()
                    }};
                }
                let r = match ty {
                    "I" => q!($item, $ik, |k| self.ikey.iter().position(|x| x == k).map(|i| i + 1)),
                    "T" => q!($tag, $tk, |k| self.tkey.iter().position(|x| x == k).map(|i| i + 1)),
                    "C" => q!($child, $ck, |k: &AutoPk<$ckt>| self.ckey.iter().find(|x| x.1 == k).map(|x| *x.0)),
                    _ => q!($owner, $ok, |k| self.okey.iter().position(|x| x == k).map(|i| i + 1)),
                };
                let mut r: Vec<usize> = r.into_iter().collect::<Option<Vec<_>>>().ok_or("an unknown row was loaded")?;
                r.sort();
                Ok(r)
            }
            async fn all(&self, c: C<'_>) -> Result<BTreeMap<String, Vec<usize>>, String> {
                let mut m = BTreeMap::new();
                for t in ["I", "T", "C", "O"] {
                    m.insert(t.to_string(), self.load(c, t, None).await?);
                }
                Ok(m)
            }
        }
        impl World for $w {
            fn new(_variant: &str, seed: u64) -> Self {
                let mut rng = Rng::new(seed);
                let mut okey: Vec<$okt> = rng.pick(&$opool, 6);
                okey.sort(); // compared as ranks
                let mut ikey: Vec<$ikt> = rng.pick(&$ipool, 5);
                ikey.sort();
                let tkey = rng.pick(&$tpool, 4);
                $w { ikey, tkey, okey, ckey: BTreeMap::new(), rng }
            }
            async fn reset(&mut self, c: C<'_>) -> Check {
                self.clear(c).await
            }
            async fn step(&mut self, c: C<'_>, step: &Step) -> Check {
                let ev = &step.ev;
                match ev["op"].as_str().unwrap() {
                    "fill" => self.fill(c, &ev["db"]).await,
                    "query" => {
                        let e = self.expr(&ev["prog"]);
                        let got = self.load(c, ev["ty"].as_str().unwrap(), Some(e.clone())).await?;
                        let want = ids_of(&ev["rows"]);
                        ensure(got == want, || format!("filter {e:?} must select {want:?} but selects {got:?}"))
                    }
                    "delete" => {
                        let before = self.all(c).await?;
                        let e = self.expr(&ev["prog"]);
                        let e2 = e.clone();
                        let ty = ev["ty"].as_str().unwrap();
                        let r: butane::Result<usize> = match ty {
                            "I" => go!(c, c => $item::query().filter(e2).delete(c)),
                            "T" => go!(c, c => $tag::query().filter(e2).delete(c)),
                            "C" => go!(c, c => $child::query().filter(e2).delete(c)),
                            _ => go!(c, c => $owner::query().filter(e2).delete(c)),
                        };
                        let mut want = before.clone();
                        match (&r, ev["res"].as_str().unwrap()) {
                            (Ok(n), "ok") => {
                                let doubled = on_backend() == "turso" && matches!(ty, "T" | "O") && *n == 2 * num(&ev["n"]);
                                if doubled {
                                    known("turso-delete-count");
                                }
                                ensure(doubled || *n == num(&ev["n"]), || format!("delete of {ty} by {e:?} must delete {} but reports {n}", ev["n"]))?;
                                let d = ids_of(&step.st["gone"][ty]);
                                want.get_mut(ty).unwrap().retain(|i| !d.contains(i));
                            }
                            (Err(_), "err") => {}
                            (Err(_), "ok") if on_backend() == "turso" && ev["within"] == true => known("turso-delete-self-referring"),
                            _ => return Err(format!("delete of {ty} by {e:?} must be {} but is {}", ev["res"], text(&r))),
                        }
                        let after = self.all(c).await?;
                        ensure(after == want, || format!("delete of {ty} by {e:?} must leave {want:?} but leaves {after:?}"))
                    }
                    o => Err(format!("unknown op {o}")),
                }
            }
        }
    };
}
fn strs() -> Vec<String> {
    TEXTS.iter().map(|s| s.to_string()).filter(|s| s.is_ascii()).collect()
}
rel_world!(
    RelW, on, RItem(id "id": i64, n "n"), RTag(key "key": String, val "val"), RChild(id "id": i64, parent "parent", opt "opt"),
    ROwner(name "name": String, boss "boss", lead "lead", things "things", tags "tags", kids "kids", friends "friends"),
    INTS64, strs(), strs()
);
rel_world!(
    RelK, off, KItem(r#where "where": i32, select "select"), KTag(group "group": uuid::Uuid, owner "owner"), KChild(r#in "in": i32, references "references", has "has"),
    KOwner(index "index": i64, order "order", limit "limit", r#as "as", r#match "match", all "all", r#type "type"),
    INTS32, uuids(), INTS64
);
pub fn batch(l: &Lane, w: &[Walk], b: &Beat, s: &std::sync::atomic::AtomicUsize, n: &std::sync::atomic::AtomicUsize) -> Vec<Mismatch> {
    match w[0].variant.as_str() {
        "plain" => run_batch::<RelW>(l, w, b, s, n),
        "kw" => run_batch::<RelK>(l, w, b, s, n),
        v => panic!("unknown variant {v}"),
    }
}
