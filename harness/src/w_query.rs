//! Query.tla and Window.tla: filters, sorting, limits (Q01, Q02).
use crate::core::*;
use crate::go;
use crate::models::*;
use crate::w_store::{blobs, dates, floats, times, uuids};
use butane::query::{BoolExpr, Expr, OrderDirection, Query};
use butane::{filter, find, find_async, DataObject, FieldType, SqlVal, ToSql};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::fmt::Debug;

pub trait QRec: DataObject + Clone + Debug + PartialEq + Send {
    type V: Clone + PartialEq + Debug + ToSql + FieldType + Send;
    const A: &'static str;
    const B: &'static str;
    const S: &'static str;
    /// Values in increasing order.
    fn pool() -> Vec<Self::V>;
    fn make(id: i64, a: Option<Self::V>, b: Self::V, s: Option<String>) -> Self;
    fn id(&self) -> i64;
    /// The same comparison through the typed field API.
    fn field_cmp(col: &str, o: &str, v: &Self::V) -> Option<BoolExpr>;
    fn field_null(col: &str, null: bool) -> BoolExpr;
    fn field_in(col: &str, vs: Vec<Self::V>) -> BoolExpr;
    fn field_like(p: String) -> BoolExpr;
    /// The same atoms written with `filter!`; values of `is_in` and `like` too.
    fn macro_cmp(_col: &str, _o: &str, _v: &Self::V) -> Option<BoolExpr> {
        None
    }
    fn macro_null(_col: &str, _null: bool) -> Option<BoolExpr> {
        None
    }
    fn macro_in(_col: &str, _vs: Vec<Self::V>) -> Option<BoolExpr> {
        None
    }
    fn macro_like(_p: String) -> Option<BoolExpr> {
        None
    }
    /// A few filters of three atoms: `a < v`, `b >= w`, `s like p`.
    fn macro_three(_form: &str, _v: &Self::V, _w: &Self::V, _p: String) -> Option<BoolExpr> {
        None
    }
    /// `find!`, given a filter
    async fn find(_c: C<'_>, _e: BoolExpr) -> Option<butane::Result<Self>> {
        None
    }
    /// Through a partial result type: the ids found.
    async fn part(_c: C<'_>, _q: Option<BoolExpr>) -> Option<butane::Result<Vec<i64>>> {
        None
    }
}
macro_rules! ops {
    ($f:expr, $o:expr, $v:expr, $ve:expr) => {
        match $o {
            "eq" => $f.eq($ve),
            "ne" => $f.ne($ve),
            "lt" => $f.lt($v),
            "gt" => $f.gt($v),
            "le" => $f.le($v),
            "ge" => $f.ge($v),
            _ => unreachable!(),
        }
    };
}
macro_rules! qrec {
    ($t:ident, $v:ty, $pool:expr, $id:ident $a:ident $b:ident $s:ident, $an:literal $bn:literal $sn:literal $(, $($part:tt)*)?) => {
        impl QRec for $t {
            type V = $v;
            const A: &'static str = $an;
            const B: &'static str = $bn;
            const S: &'static str = $sn;
            fn pool() -> Vec<$v> {
                let mut p: Vec<$v> = $pool;
                p.sort_by(|x, y| x.partial_cmp(y).unwrap());
                p.dedup();
                p
            }
            fn make(id: i64, a: Option<$v>, b: $v, s: Option<String>) -> Self {
                $t { $id: id, $a: a, $b: b, $s: s }
            }
            fn id(&self) -> i64 {
                self.$id
            }
            fn field_cmp(col: &str, o: &str, v: &$v) -> Option<BoolExpr> {
                let f = $t::fields();
                Some(match col {
                    "a" => ops!(f.$a(), o, v, &Some(v.clone())),
                    "b" => ops!(f.$b(), o, v, v),
                    _ => return None,
                })
            }
            fn field_null(col: &str, null: bool) -> BoolExpr {
                let f = $t::fields();
                match (col, null) {
                    ("a", true) => f.$a().eq(&None),
                    ("a", false) => f.$a().ne(&None),
                    ("s", true) => f.$s().eq(&None),
                    (_, _) => f.$s().ne(&None),
                }
            }
            fn field_in(col: &str, vs: Vec<$v>) -> BoolExpr {
                let f = $t::fields();
                if col == "a" { f.$a().is_in(vs) } else { f.$b().is_in(vs) }
            }
            fn field_like(p: String) -> BoolExpr {
                $t::fields().$s().like(p)
            }
            $($($part)*)?
        }
    };
}
macro_rules! by_macro {
    ($t:ident, $v:ty, $a:ident $b:ident $s:ident) => {
        fn macro_cmp(col: &str, o: &str, v: &$v) -> Option<BoolExpr> {
            let some = Some(v.clone());
            Some(match (col, o) {
                ("a", "eq") => filter!($t, $a == { some }),
                ("a", "ne") => filter!($t, $a != { some }),
                ("a", "lt") => filter!($t, $a < { v.clone() }),
                ("a", "gt") => filter!($t, $a > { v.clone() }),
                ("a", "le") => filter!($t, $a <= { v.clone() }),
                ("a", "ge") => filter!($t, $a >= { v.clone() }),
                ("b", "eq") => filter!($t, $b == { v.clone() }),
                ("b", "ne") => filter!($t, $b != { v.clone() }),
                ("b", "lt") => filter!($t, $b < { v.clone() }),
                ("b", "gt") => filter!($t, $b > { v.clone() }),
                ("b", "le") => filter!($t, $b <= { v.clone() }),
                ("b", "ge") => filter!($t, $b >= { v.clone() }),
                _ => return None,
            })
        }
        fn macro_null(col: &str, null: bool) -> Option<BoolExpr> {
            Some(match (col, null) {
                ("a", true) => filter!($t, $a == None),
                ("a", false) => filter!($t, $a != None),
                (_, true) => filter!($t, $s == None),
                (_, false) => filter!($t, $s != None),
            })
        }
        fn macro_in(col: &str, vs: Vec<$v>) -> Option<BoolExpr> {
            Some(if col == "a" { filter!($t, $a.is_in({ vs })) } else { filter!($t, $b.is_in({ vs })) })
        }
        fn macro_like(p: String) -> Option<BoolExpr> {
            Some(filter!($t, $s.like({ p })))
        }
        fn macro_three(form: &str, v: &$v, w: &$v, p: String) -> Option<BoolExpr> {
            Some(match form {
                "and and" => filter!($t, $a < { v.clone() } && $b >= { w.clone() } && $s.like({ p })),
                "and or" => filter!($t, $a < { v.clone() } && $b >= { w.clone() } || $s.like({ p })),
                "or or" => filter!($t, $a < { v.clone() } || $b >= { w.clone() } || $s.like({ p })),
                "or and" => filter!($t, $a < { v.clone() } || $b >= { w.clone() } && $s.like({ p })),
                _ => return None,
            })
        }
        async fn find(c: C<'_>, e: BoolExpr) -> Option<butane::Result<Self>> {
            Some(match c {
                C::S(c) => find!($t, { e }, &c),
                C::A(c) => find_async!($t, { e }, &c),
            })
        }
    };
}
pub fn long_texts() -> Vec<String> {
    TEXTS.iter().map(|s| s.to_string()).collect()
}
qrec!(QI, i32, INTS32.to_vec(), id a b s, "a" "b" "s",
    async fn part(c: C<'_>, q: Option<BoolExpr>) -> Option<butane::Result<Vec<i64>>> {
        let mut qq = <QIPart as butane::DataResult>::query();
        if let Some(q) = q { qq = qq.filter(q); }
        let r: butane::Result<Vec<QIPart>> = go!(c, c => qq.load(c));
        Some(r.map(|v| v.into_iter().map(|p| p.id).collect()))
    }
    by_macro!(QI, i32, a b s););
qrec!(QL, i64, INTS64.to_vec(), id a b s, "a" "b" "s");
qrec!(QT, String, long_texts(), id a b s, "a" "b" "s", by_macro!(QT, String, a b s););
qrec!(QF, f64, floats(), id a b s, "a" "b" "s", by_macro!(QF, f64, a b s););
qrec!(QD, chrono::NaiveDate, dates(), id a b s, "a" "b" "s");
qrec!(QS, chrono::NaiveDateTime, times(), id a b s, "a" "b" "s");
qrec!(QU, uuid::Uuid, uuids(), id a b s, "a" "b" "s");
qrec!(QB, Vec<u8>, blobs(), id a b s, "a" "b" "s");
qrec!(QKw, i32, INTS32.to_vec(), index r#where order values, "where" "order" "values");

pub struct QueryW<T: QRec> {
    rng: Rng,
    vals: Vec<T::V>,  // by rank - 1
    others: Vec<T::V>,
    chars: BTreeMap<String, char>,
    rows: BTreeMap<i64, T>,
    filled: bool,
}
/// Strs of QueryMC.tla
const STRS: &[&[&str]] = &[&[], &["x"], &["x", "y"], &["y", "x", "x"]];

impl<T: QRec> QueryW<T> {
    fn text(&self, chars: &[Value]) -> String {
        chars
            .iter()
            .map(|c| match c.as_str().unwrap() {
                "%" => '%',
                "_" => '_',
                c => self.chars[c],
            })
            .collect()
    }
    fn str_rank(&self, r: usize) -> Option<String> {
        if r == 0 {
            None
        } else {
            Some(STRS[r - 1].iter().map(|c| self.chars[*c]).collect())
        }
    }
    fn sqlval(&self, col: &str, r: usize) -> SqlVal {
        if r == 0 {
            SqlVal::Null
        } else if col == "s" {
            self.str_rank(r).unwrap().to_sql()
        } else {
            self.vals[r - 1].to_sql()
        }
    }
    fn col(c: &str) -> &'static str {
        match c {
            "a" => T::A,
            "b" => T::B,
            "s" => T::S,
            c => panic!("column {c}"),
        }
    }
    fn atom(&mut self, t: &Value) -> BoolExpr {
        let c = t["c"].as_str().unwrap_or("");
        let col = if c.is_empty() { "" } else { Self::col(c) };
        let typed = self.rng.below(2) == 0;
        let cmp = |o: &str, e: Expr| match o {
            "eq" => BoolExpr::Eq(col, e),
            "ne" => BoolExpr::Ne(col, e),
            "lt" => BoolExpr::Lt(col, e),
            "gt" => BoolExpr::Gt(col, e),
            "le" => BoolExpr::Le(col, e),
            "ge" => BoolExpr::Ge(col, e),
            o => panic!("operator {o}"),
        };
        match t["t"].as_str().unwrap() {
            "cmp" => {
                let r = t["v"].as_u64().unwrap() as usize;
                if c != "s" && self.rng.below(3) == 0 {
                    if let Some(e) = T::macro_cmp(c, t["o"].as_str().unwrap(), &self.vals[r - 1]) {
                        return e;
                    }
                }
                if typed && c != "s" {
                    if let Some(e) = T::field_cmp(c, t["o"].as_str().unwrap(), &self.vals[r - 1]) {
                        return e;
                    }
                }
                cmp(t["o"].as_str().unwrap(), Expr::Val(self.sqlval(c, r)))
            }
            n @ ("null" | "notnull") if typed => {
                let e = if self.rng.below(2) == 0 { T::macro_null(c, n == "null") } else { None };
                e.unwrap_or_else(|| T::field_null(c, n == "null"))
            }
            "null" => BoolExpr::Eq(col, Expr::Val(SqlVal::Null)),
            "notnull" => BoolExpr::Ne(col, Expr::Val(SqlVal::Null)),
            "in" => {
                let rs: Vec<usize> = t["vs"].as_array().unwrap().iter().map(|v| v.as_u64().unwrap() as usize).collect();
                if typed && c != "s" && !rs.contains(&0) {
                    let mut vs: Vec<T::V> = rs.iter().map(|r| self.vals[r - 1].clone()).collect();
                    if !vs.is_empty() {
                        // make the list long with values that no row has
                        for _ in 0..self.padding() {
                            let o = self.others[self.rng.below(self.others.len())].clone();
                            let at = self.rng.below(vs.len() + 1);
                            vs.insert(at, o);
                        }
                    }
                    let e = if self.rng.below(2) == 0 { T::macro_in(c, vs.clone()) } else { None };
                    return e.unwrap_or_else(|| T::field_in(c, vs));
                }
                let mut vs: Vec<SqlVal> = rs.iter().map(|r| self.sqlval(c, *r)).collect();
                if c != "s" && !vs.is_empty() {
                    // make the list long with values that no row has
                    for _ in 0..self.padding() {
                        let o = self.others[self.rng.below(self.others.len())].clone();
                        let at = self.rng.below(vs.len() + 1);
                        vs.insert(at, o.to_sql());
                    }
                }
                BoolExpr::In(col, vs)
            }
            "like" => {
                let p = self.text(t["p"].as_array().unwrap());
                if typed {
                    let e = if self.rng.below(2) == 0 { T::macro_like(p.clone()) } else { None };
                    e.unwrap_or_else(|| T::field_like(p))
                } else {
                    BoolExpr::Like(col, Expr::Val(p.to_sql()))
                }
            }
            "col" => cmp(t["o"].as_str().unwrap(), Expr::Column(Self::col(t["c2"].as_str().unwrap()))),
            "true" => BoolExpr::True,
            o => panic!("atom {o}"),
        }
    }
    fn padding(&mut self) -> usize {
        [0, 0, 0, 1, 3, 30, 130, 300, 0, 0, 0, 1, 3, 30, [1100, 300, 300, 5000][self.rng.below(4)], 0][self.rng.below(16)]
    }
    /// Three atoms that a fixed macro expression has.
    fn three(&mut self, p: &[Value]) -> Option<BoolExpr> {
        let o: Vec<&str> = p.iter().map(|t| t["t"].as_str().unwrap()).collect();
        let (form, i) = match o[..] {
            ["cmp", "cmp", "and", "like", "and"] => ("and and", 3),
            ["cmp", "cmp", "and", "like", "or"] => ("and or", 3),
            ["cmp", "cmp", "or", "like", "or"] => ("or or", 3),
            ["cmp", "cmp", "like", "and", "or"] => ("or and", 2),
            _ => return None,
        };
        if p[0]["c"] != "a" || p[0]["o"] != "lt" || p[1]["c"] != "b" || p[1]["o"] != "ge" {
            return None;
        }
        let v = |j: usize| &self.vals[p[j]["v"].as_u64().unwrap() as usize - 1];
        T::macro_three(form, v(0), v(1), self.text(p[i]["p"].as_array().unwrap()))
    }
    pub fn expr(&mut self, prog: &Value) -> BoolExpr {
        let mut st: Vec<BoolExpr> = vec![];
        if let Some(e) = self.three(prog.as_array().unwrap()) {
            return e;
        }
        for t in prog.as_array().unwrap() {
            match t["t"].as_str().unwrap() {
                "not" => {
                    let a = st.pop().unwrap();
                    st.push(BoolExpr::Not(Box::new(a)));
                }
                "and" => {
                    let (b, a) = (st.pop().unwrap(), st.pop().unwrap());
                    st.push(match self.rng.below(2) {
                        0 => BoolExpr::And(Box::new(a), Box::new(b)),
                        _ => filter!(T, { a } && { b }),
                    });
                }
                "or" => {
                    let (b, a) = (st.pop().unwrap(), st.pop().unwrap());
                    st.push(match self.rng.below(2) {
                        0 => BoolExpr::Or(Box::new(a), Box::new(b)),
                        _ => filter!(T, { a } || { b }),
                    });
                }
                "all" => {
                    let n = t["n"].as_u64().unwrap() as usize;
                    let v = st.split_off(st.len() - n);
                    st.push(BoolExpr::AllOf(v));
                }
                _ => {
                    let a = self.atom(t);
                    st.push(a);
                }
            }
        }
        assert_eq!(st.len(), 1);
        st.pop().unwrap()
    }
    /// A query, restricted by the parts of a conjunction one after the other.
    fn query(&mut self, e: &BoolExpr) -> Query<T> {
        let mut parts = vec![e.clone()];
        while let BoolExpr::And(a, b) = parts[0].clone() {
            if self.rng.below(2) == 0 {
                break;
            }
            parts.splice(0..1, [*a, *b]);
        }
        parts.into_iter().fold(T::query(), |q, e| q.filter(e))
    }
    async fn fill(&mut self, c: C<'_>, combos: &[(usize, usize, usize)]) -> Check {
        let r: butane::Result<usize> = go!(c, c => T::query().delete(c));
        r.map_err(|e| format!("clearing: {e}"))?;
        self.rows.clear();
        // insertion order is not id order
        let mut order: Vec<usize> = (0..combos.len()).collect();
        order = self.rng.pick(&order, combos.len());
        for i in order {
            let (a, b, s) = combos[i];
            let mut t = T::make(
                i as i64 + 1,
                if a == 0 { None } else { Some(self.vals[a - 1].clone()) },
                self.vals[b - 1].clone(),
                self.str_rank(s),
            );
            let r: butane::Result<()> = go!(c, c => t.save(c));
            r.map_err(|e| format!("saving a row failed: {e}"))?;
            self.rows.insert(t.id(), t);
        }
        self.filled = true;
        Ok(())
    }
    fn check_rows(&self, got: &[T]) -> Result<Vec<i64>, String> {
        let mut ids = vec![];
        for t in got {
            ensure(self.rows.get(&t.id()) == Some(t), || format!("row loaded as {t:?} but stored as {:?}", self.rows.get(&t.id())))?;
            ids.push(t.id());
        }
        Ok(ids)
    }
}
/// The rows of Query.tla in the order TLC numbers them (its normal order of tuples).
fn combos(a: usize, b: usize, s: usize) -> Vec<(usize, usize, usize)> {
    let mut v = vec![];
    for x in 0..a {
        for y in 1..=b {
            for z in 0..s {
                v.push((x, y, z));
            }
        }
    }
    v
}
fn ids_of(v: &Value) -> Vec<i64> {
    v.as_array().unwrap().iter().map(|x| x.as_i64().unwrap()).collect()
}

impl<T: QRec> World for QueryW<T>
where
    T::PKType: Sync,
{
    fn new(_variant: &str, seed: u64) -> Self {
        let mut rng = Rng::new(seed);
        let pool = T::pool();
        // three ranks, in order; the rest are never stored
        let mut idx = rng.pick(&(0..pool.len()).collect::<Vec<_>>(), 3);
        idx.sort();
        let vals: Vec<T::V> = idx.iter().map(|i| pool[*i].clone()).collect();
        let others = (0..pool.len()).filter(|i| !idx.contains(i)).map(|i| pool[i].clone()).collect();
        let cs = [('x', 'y'), ('a', 'b'), ('é', '日'), ('\'', '"'), ('0', '-'), (' ', 'z'), ('?', '$')][rng.below(7)];
        // ranks of the strings must be in order: "" < x < xy < yxx
        let cs = if cs.0 < cs.1 { cs } else { (cs.1, cs.0) };
        let chars = [("x".to_string(), cs.0), ("y".to_string(), cs.1)].into_iter().collect();
        QueryW { rng, vals, others, chars, rows: BTreeMap::new(), filled: false }
    }
    async fn reset(&mut self, c: C<'_>) -> Check {
        self.fill(c, &combos(3, 2, 5)).await
    }
    async fn step(&mut self, c: C<'_>, step: &Step) -> Check {
        let ev = &step.ev;
        match ev["op"].as_str().unwrap() {
            "query" => {
                let e = self.expr(&ev["prog"]);
                let q = T::query().filter(e.clone());
                let r: butane::Result<Vec<T>> = go!(c, c => q.load(c));
                let r = r.map_err(|x| format!("query failed: {x}; filter {e:?}"))?;
                let mut ids = self.check_rows(&r)?;
                ids.sort();
                let mut want = ids_of(&ev["rows"]);
                want.sort();
                ensure(ids == want, || format!("filter {e:?} must select {want:?} but selects {ids:?}; rows {:?}", self.rows))?;
                if self.rng.below(4) == 0 {
                    match T::find(c, e.clone()).await {
                        None => (),
                        Some(Ok(t)) => ensure(want.contains(&self.check_rows(std::slice::from_ref(&t))?[0]), || format!("find! of {e:?} gave {t:?}; {want:?} match"))?,
                        Some(Err(butane::Error::NoSuchObject)) => ensure(want.is_empty(), || format!("find! of {e:?} found nothing; {want:?} match"))?,
                        Some(Err(x)) => return Err(format!("find! of {e:?} failed: {x}")),
                    }
                    if let Some(r) = T::part(c, Some(e.clone())).await {
                        let mut ids = r.map_err(|x| format!("partial query failed: {x}"))?;
                        ids.sort();
                        ensure(ids == want, || format!("filter {e:?} on a partial result must select {want:?} but selects {ids:?}"))?;
                    }
                    let q = T::query().filter(e.clone());
                    let r: butane::Result<Option<T>> = go!(c, c => q.load_first(c));
                    let r = r.map_err(|x| format!("load_first failed: {x}"))?;
                    let ok = match &r {
                        None => want.is_empty(),
                        Some(t) => want.contains(&t.id()),
                    };
                    ensure(ok, || format!("load_first of {e:?} gave {r:?}; {want:?} match"))?;
                }
            }
            "delete" => {
                let e = self.expr(&ev["prog"]);
                let q = self.query(&e);
                let r: butane::Result<usize> = go!(c, c => q.delete(c));
                let n = r.map_err(|x| format!("delete failed: {x}; filter {e:?}"))?;
                ensure(json!(n) == ev["n"], || format!("delete by {e:?} must delete {} but reports {n}", ev["n"]))?;
                let r: butane::Result<Vec<T>> = go!(c, c => T::query().load(c));
                let mut ids = self.check_rows(&r.map_err(|e| e.to_string())?)?;
                ids.sort();
                let mut want = ids_of(&step.st["db"]);
                want.sort();
                ensure(ids == want, || format!("delete by {e:?} must leave {want:?} but leaves {ids:?}"))?;
            }
            "refill" => self.fill(c, &combos(3, 2, 5)).await?,
            "window" | "wdelete" => self.window(c, ev).await?,
            o => return Err(format!("unknown op {o}")),
        }
        Ok(())
    }
}
impl<T: QRec> QueryW<T>
where
    T::PKType: Sync,
{
    /// A query with sort terms, limit and offset.
    async fn window(&mut self, c: C<'_>, ev: &Value) -> Check {
        // in any order, but for the order of the sort terms
        enum Part<'a> {
            Filter(BoolExpr),
            Sort(&'a Value),
            Limit(i32),
            Offset(i32),
        }
        let sort = ev["sort"].as_array().unwrap();
        let mut parts: Vec<Part> = vec![];
        for a in ev["prog"].as_array().unwrap() {
            parts.push(Part::Filter(self.expr(&json!([a]))));
        }
        parts.extend(sort.iter().map(Part::Sort));
        if let Some(l) = ev["limit"].as_i64().filter(|l| *l >= 0) {
            parts.push(Part::Limit(l as i32));
        }
        if let Some(l) = ev["offset"].as_i64().filter(|l| *l >= 0) {
            parts.push(Part::Offset(l as i32));
        }
        let order: Vec<usize> = (0..parts.len()).collect();
        let order = self.rng.pick(&order, parts.len());
        let mut sorted = 0;
        let mut q: Query<T> = T::query();
        for i in order {
            match &parts[i] {
                Part::Filter(e) => q = q.filter(e.clone()),
                Part::Limit(l) => q = q.limit(*l),
                Part::Offset(l) => q = q.offset(*l),
                Part::Sort(_) => {
                    let t = &sort[sorted];
                    sorted += 1;
                    let col = match t[0].as_str().unwrap() {
                        "id" => T::PKCOL,
                        c => Self::col(c),
                    };
                    q = match (t[1].as_str().unwrap(), self.rng.below(2)) {
                        ("asc", 0) => q.order_asc(col),
                        ("desc", 0) => q.order_desc(col),
                        ("asc", _) => q.order(col, OrderDirection::Ascending),
                        (_, _) => q.order(col, OrderDirection::Descending),
                    };
                }
            }
        }
        let want = ev["keys"].as_array().unwrap();
        let allowed = ids_of(&ev["match"]);
        let key = |id: i64| -> Value {
            let t = &ev["keyof"][id as usize - 1];
            t.clone()
        };
        if ev["op"] == "wdelete" {
            let n: butane::Result<usize> = go!(c, c => q.clone().delete(c));
            let n = n.map_err(|x| format!("delete failed: {x}; {q:?}"))?;
            let r: butane::Result<Vec<T>> = go!(c, c => T::query().load(c));
            let left = self.check_rows(&r.map_err(|e| e.to_string())?)?;
            let gone: Vec<i64> = self.rows.keys().copied().filter(|i| !left.contains(i)).collect();
            ensure(gone.iter().all(|i| allowed.contains(i)), || format!("delete of {q:?} deleted {gone:?}; only {allowed:?} match the filter"))?;
            let mut got: Vec<Value> = gone.iter().map(|i| key(*i)).collect();
            let mut want = want.clone();
            got.sort_by_key(|v| v.to_string());
            want.sort_by_key(|v| v.to_string());
            ensure(got == want, || format!("delete of {q:?} must delete rows with sort keys {want:?} but deleted {got:?} (ids {gone:?})"))?;
            ensure(n == gone.len(), || format!("delete of {q:?} deleted {} objects but reports {n}", gone.len()))?;
            for i in gone {
                let mut t = self.rows[&i].clone();
                let r: butane::Result<()> = go!(c, c => t.save(c));
                r.map_err(|e| format!("saving a row failed: {e}"))?;
            }
            return Ok(());
        }
        for round in 0..2 {
            let q2 = q.clone();
            let r: butane::Result<Vec<T>> = go!(c, c => q2.load(c));
            let r = r.map_err(|x| format!("query failed: {x}; {q:?}"))?;
            let ids = self.check_rows(&r)?;
            let mut d = ids.clone();
            d.sort();
            d.dedup();
            ensure(d.len() == ids.len(), || format!("a row is returned twice: {ids:?}; {q:?}"))?;
            ensure(ids.iter().all(|i| allowed.contains(i)), || format!("{q:?} returned {ids:?}; only {allowed:?} match the filter"))?;
            let got: Vec<Value> = ids.iter().map(|i| key(*i)).collect();
            ensure(&got == want, || format!("{q:?} (use {round}) must return rows with sort keys {want:?} but returned {got:?} (ids {ids:?})"))?;
        }
        let r: butane::Result<Option<T>> = go!(c, c => q.clone().load_first(c));
        let r = r.map_err(|x| format!("load_first failed: {x}; {q:?}"))?;
        let got = r.as_ref().map(|t| key(t.id()));
        ensure(got.as_ref() == want.first(), || format!("load_first of {q:?} must be a row with sort key {:?} but is {r:?}", want.first()))
    }
}
pub fn batch(l: &Lane, w: &[Walk], b: &Beat, s: &std::sync::atomic::AtomicUsize, n: &std::sync::atomic::AtomicUsize) -> Vec<Mismatch> {
    match w[0].variant.as_str() {
        "i32" => run_batch::<QueryW<QI>>(l, w, b, s, n),
        "i64" => run_batch::<QueryW<QL>>(l, w, b, s, n),
        "text" => run_batch::<QueryW<QT>>(l, w, b, s, n),
        "f64" => run_batch::<QueryW<QF>>(l, w, b, s, n),
        "date" => run_batch::<QueryW<QD>>(l, w, b, s, n),
        "time" => run_batch::<QueryW<QS>>(l, w, b, s, n),
        "uuid" => run_batch::<QueryW<QU>>(l, w, b, s, n),
        "blob" => run_batch::<QueryW<QB>>(l, w, b, s, n),
        "kw" => run_batch::<QueryW<QKw>>(l, w, b, s, n),
        v => panic!("unknown variant {v}"),
    }
}
