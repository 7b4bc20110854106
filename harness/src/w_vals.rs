//! Values.tla: values of every field type (V01).
use crate::core::*;
use crate::go;
use crate::w_store::{dates, floats, texts, times, uuids};
use butane::query::BoolExpr;
use butane::{butane_type, model, DataObject, FieldType};
use chrono::{DateTime, NaiveDate, NaiveDateTime, Utc};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap};
use std::fmt::Debug;
use uuid::Uuid;

/// A plain enum
#[derive(Clone, Copy, Debug, PartialEq, FieldType)]
pub enum Color {
    Red,
    DarkGreen,
    r#Blue,
}
/// An enum with data
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, FieldType)]
pub enum Shape {
    Dot,
    Circle(f64),
    Rect { w: i32, h: Option<i64> },
}
/// A struct
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, FieldType)]
pub struct Point {
    x: i32,
    y: Option<String>,
}
/// A wrapper of a database type
#[derive(Clone, Debug, PartialEq, PartialOrd, FieldType)]
pub struct Name(String);
#[derive(Clone, Copy, Debug, PartialEq, PartialOrd, FieldType)]
pub struct Count(i64);

pub trait Val: DataObject + Clone + Debug + PartialEq {
    type T: Clone + PartialEq + Debug;
    /// Values, sorted
    fn pool(r: &mut Rng, exact: bool) -> Vec<Self::T>;
    fn make(id: i64, v: Self::T, o: Option<Self::T>) -> Self;
    fn parts(&self) -> (i64, &Self::T, &Option<Self::T>);
    fn cmp(c: i64, op: &str, x: &Self::T) -> BoolExpr;
    fn null(neg: bool) -> BoolExpr;
    fn is_in(c: i64, xs: Vec<Self::T>) -> BoolExpr;
    fn sorted(q: butane::query::Query<Self>, asc: bool) -> butane::query::Query<Self>;
}
macro_rules! common {
    ($t:ty) => {
        type T = $t;
        fn make(id: i64, v: $t, o: Option<$t>) -> Self {
            Self { id, v, o }
        }
        fn parts(&self) -> (i64, &$t, &Option<$t>) {
            (self.id, &self.v, &self.o)
        }
        fn null(neg: bool) -> BoolExpr {
            let e = Self::fields().o().eq(&None::<$t>);
            if neg {
                Self::fields().o().ne(&None::<$t>)
            } else {
                e
            }
        }
        fn is_in(c: i64, xs: Vec<$t>) -> BoolExpr {
            if c == 1 {
                Self::fields().v().is_in(xs)
            } else {
                Self::fields().o().is_in(xs)
            }
        }
        fn sorted(q: butane::query::Query<Self>, asc: bool) -> butane::query::Query<Self> {
            if asc {
                q.order_asc("v")
            } else {
                q.order_desc("v")
            }
        }
    };
}
macro_rules! ordered {
    ($m:ident, $t:ty, $r:ident, $exact:ident => $pool:expr) => {
        impl Val for $m {
            common!($t);
            fn cmp(c: i64, op: &str, x: &$t) -> BoolExpr {
                let f = Self::fields();
                let some = Some(x.clone());
                match (c, op) {
                    (1, "eq") => f.v().eq(x),
                    (1, "ne") => f.v().ne(x),
                    (1, "lt") => f.v().lt(x),
                    (1, "le") => f.v().le(x),
                    (1, "gt") => f.v().gt(x),
                    (1, "ge") => f.v().ge(x),
                    (_, "eq") => f.o().eq(&some),
                    (_, "ne") => f.o().ne(&some),
                    (_, "lt") => f.o().lt(x),
                    (_, "le") => f.o().le(x),
                    (_, "gt") => f.o().gt(x),
                    (_, "ge") => f.o().ge(x),
                    _ => panic!("{op}"),
                }
            }
            fn pool($r: &mut Rng, $exact: bool) -> Vec<$t> {
                let mut v: Vec<$t> = $pool;
                v.sort_by(|a, b| a.partial_cmp(b).unwrap());
                v.dedup();
                v
            }
        }
    };
}
macro_rules! plain {
    ($m:ident, $t:ty, $r:ident, $exact:ident => $pool:expr) => {
        impl Val for $m {
            common!($t);
            fn cmp(c: i64, op: &str, x: &$t) -> BoolExpr {
                let f = Self::fields();
                let some = Some(x.clone());
                match (c, op) {
                    (1, "eq") => f.v().eq(x),
                    (1, "ne") => f.v().ne(x),
                    (_, "eq") => f.o().eq(&some),
                    (_, "ne") => f.o().ne(&some),
                    _ => panic!("{op}"),
                }
            }
            fn pool($r: &mut Rng, $exact: bool) -> Vec<$t> {
                $pool
            }
        }
    };
}

fn pairs(v: &[(&str, i64)]) -> Vec<(String, i64)> {
    v.iter().map(|(k, v)| (k.to_string(), *v)).collect()
}
/// PostgreSQL keeps microseconds
fn more_times(exact: bool) -> Vec<NaiveDateTime> {
    let d = NaiveDate::from_ymd_opt(2024, 2, 29).unwrap();
    let mut v: Vec<_> = [(0, 0, 0, 1), (0, 0, 0, 10), (0, 0, 0, 100), (0, 0, 0, 1000), (0, 0, 0, 100_000), (9, 9, 9, 999_990), (10, 0, 0, 0), (23, 59, 59, 999_000)]
        .map(|(h, m, s, us)| d.and_hms_micro_opt(h, m, s, us).unwrap())
        .to_vec();
    if exact {
        v.push(d.and_hms_nano_opt(0, 0, 0, 1).unwrap());
        v.push(d.and_hms_nano_opt(0, 0, 0, 999_999_999).unwrap());
        v.push(d.and_hms_nano_opt(0, 0, 0, 100_000_001).unwrap());
    }
    v
}
fn jsons() -> Vec<Value> {
    vec![
        json!(null),
        json!({}),
        json!([]),
        json!(""),
        json!("it's"),
        json!(0),
        json!(-1),
        json!(true),
        json!(false),
        json!(1.5),
        json!(i64::MAX),
        json!(i64::MIN),
        json!("null"),
        json!({"a": null}),
        json!({"b": 1, "a": [1, 2, {"c": "\u{10ffff}é\"\\\n"}]}),
        json!([[], [[]], {}]),
        json!([1, 2]),
        json!([2, 1]),
    ]
}

#[model]
#[derive(Clone, Debug, PartialEq)]
pub struct VBool {
    pub id: i64,
    pub v: bool,
    pub o: Option<bool>,
}
ordered!(VBool, bool, r, exact => vec![false, true]);

#[model]
#[derive(Clone, Debug, PartialEq)]
pub struct VI8 {
    pub id: i64,
    pub v: i8,
    pub o: Option<i8>,
}
ordered!(VI8, i8, r, exact => { let mut v = vec![i8::MIN, -1, 0, 1, i8::MAX, 100]; v.push(r.next() as i8); v });

#[model]
#[derive(Clone, Debug, PartialEq)]
pub struct VU8 {
    pub id: i64,
    pub v: u8,
    pub o: Option<u8>,
}
ordered!(VU8, u8, r, exact => { let mut v = vec![0, 1, 127, 128, u8::MAX]; v.push(r.next() as u8); v });

#[model]
#[derive(Clone, Debug, PartialEq)]
pub struct VI16 {
    pub id: i64,
    pub v: i16,
    pub o: Option<i16>,
}
ordered!(VI16, i16, r, exact => { let mut v = vec![i16::MIN, -129, 0, 255, 256, i16::MAX]; v.push(r.next() as i16); v });

#[model]
#[derive(Clone, Debug, PartialEq)]
pub struct VU16 {
    pub id: i64,
    pub v: u16,
    pub o: Option<u16>,
}
ordered!(VU16, u16, r, exact => { let mut v = vec![0, 255, 32767, 32768, u16::MAX]; v.push(r.next() as u16); v });

#[model]
#[derive(Clone, Debug, PartialEq)]
pub struct VI32 {
    pub id: i64,
    pub v: i32,
    pub o: Option<i32>,
}
ordered!(VI32, i32, r, exact => { let mut v = vec![i32::MIN, -65536, -1, 0, 65535, i32::MAX]; v.push(r.next() as i32); v });

#[model]
#[derive(Clone, Debug, PartialEq)]
pub struct VU32 {
    pub id: i64,
    pub v: u32,
    pub o: Option<u32>,
}
ordered!(VU32, u32, r, exact => { let mut v = vec![0, 1, 2147483647, 2147483648, u32::MAX]; v.push(r.next() as u32); v });

#[model]
#[derive(Clone, Debug, PartialEq)]
pub struct VI64 {
    pub id: i64,
    pub v: i64,
    pub o: Option<i64>,
}
ordered!(VI64, i64, r, exact => { let mut v = vec![i64::MIN, -4294967296, -1, 0, 9007199254740993, 9007199254740992, 4294967295, i64::MAX]; v.push(r.next() as i64); v });

#[model]
#[derive(Clone, Debug, PartialEq)]
pub struct VF32 {
    pub id: i64,
    pub v: f32,
    pub o: Option<f32>,
}
ordered!(VF32, f32, r, exact => { let mut v = vec![f32::MIN, -1.5, -f32::MIN_POSITIVE, 0.0, 0.1, 1.0 / 3.0, 16777217.0, 1e10, f32::MAX, f32::from_bits(1)]; v.push((r.next() as i32) as f32 / 7.0); v });

#[model]
#[derive(Clone, Debug, PartialEq)]
pub struct VF64 {
    pub id: i64,
    pub v: f64,
    pub o: Option<f64>,
}
ordered!(VF64, f64, r, exact => { let mut v = floats(); v.extend([0.0, 0.1, 0.1 + 0.2, 0.3, 1e15, 9007199254740993.0, -1.0, f64::MIN, f64::from_bits(1), 2.0, 1e16, 123456789.123456789]); v.push((r.next() as i64) as f64 / 7.0); v });

#[model]
#[derive(Clone, Debug, PartialEq)]
pub struct VText {
    pub id: i64,
    pub v: String,
    pub o: Option<String>,
}
ordered!(VText, String, r, exact => { let mut v = texts(); v.extend(["", " ", "a", "A", "aa", "é", "z", "\u{10ffff}", "e\u{301}", "10", "9", "null", "NULL", "\\", "a\nb", "\t", "%_", "true", "1", "1.0"].map(String::from)); v.push("long ✓ ".repeat(9000)); if exact { v.push("a\0b".into()); v.push("a\0".into()); } v });

#[model]
#[derive(Clone, Debug, PartialEq)]
pub struct VBlob {
    pub id: i64,
    pub v: Vec<u8>,
    pub o: Option<Vec<u8>>,
}
ordered!(VBlob, Vec<u8>, r, exact => { let mut v = crate::w_store::blobs(); v.push((0..60000u32).map(|i| (i % 251) as u8).collect()); v.push(r.next().to_le_bytes().to_vec()); v });

#[model]
#[derive(Clone, Debug, PartialEq)]
pub struct VDate {
    pub id: i64,
    pub v: NaiveDate,
    pub o: Option<NaiveDate>,
}
ordered!(VDate, NaiveDate, r, exact => { let mut v = dates(); v.extend([(1582, 10, 10), (1999, 12, 31), (2000, 1, 1), (999, 9, 9), (100, 1, 1)].map(|(y, m, d)| NaiveDate::from_ymd_opt(y, m, d).unwrap())); v });

#[model]
#[derive(Clone, Debug, PartialEq)]
pub struct VTime {
    pub id: i64,
    pub v: NaiveDateTime,
    pub o: Option<NaiveDateTime>,
}
ordered!(VTime, NaiveDateTime, r, exact => { let mut v = times(); v.extend(more_times(exact)); v });

#[model]
#[derive(Clone, Debug, PartialEq)]
pub struct VUtc {
    pub id: i64,
    pub v: DateTime<Utc>,
    pub o: Option<DateTime<Utc>>,
}
ordered!(VUtc, DateTime<Utc>, r, exact => { let mut v = times(); v.extend(more_times(exact)); v.into_iter().map(|t| t.and_utc()).collect() });

#[model]
#[derive(Clone, Debug, PartialEq)]
pub struct VUuid {
    pub id: i64,
    pub v: Uuid,
    pub o: Option<Uuid>,
}
ordered!(VUuid, Uuid, r, exact => { let mut v = uuids(); v.push(Uuid::from_u128((r.next() as u128) << 64 | r.next() as u128)); v });

#[model]
#[derive(Clone, Debug, PartialEq)]
pub struct VName {
    pub id: i64,
    pub v: Name,
    pub o: Option<Name>,
}
ordered!(VName, Name, r, exact => texts().into_iter().map(Name).collect());

#[model]
#[derive(Clone, Debug, PartialEq)]
pub struct VCount {
    pub id: i64,
    pub v: Count,
    pub o: Option<Count>,
}
ordered!(VCount, Count, r, exact => INTS64.iter().map(|i| Count(*i)).collect());

#[model]
#[derive(Clone, Debug, PartialEq)]
pub struct VJson {
    pub id: i64,
    pub v: serde_json::Value,
    pub o: Option<serde_json::Value>,
}
plain!(VJson, serde_json::Value, r, exact => jsons());

#[model]
#[derive(Clone, Debug, PartialEq)]
pub struct VColor {
    pub id: i64,
    pub v: Color,
    pub o: Option<Color>,
}
plain!(VColor, Color, r, exact => vec![Color::Red, Color::DarkGreen, Color::Blue]);

#[model]
#[derive(Clone, Debug, PartialEq)]
pub struct VShape {
    pub id: i64,
    pub v: Shape,
    pub o: Option<Shape>,
}
plain!(VShape, Shape, r, exact => vec![Shape::Dot, Shape::Circle(0.5), Shape::Circle(-2.0), Shape::Rect { w: -1, h: None }, Shape::Rect { w: -1, h: Some(i64::MIN) }, Shape::Rect { w: i32::MAX, h: Some(0) }]);

#[model]
#[derive(Clone, Debug, PartialEq)]
pub struct VPoint {
    pub id: i64,
    pub v: Point,
    pub o: Option<Point>,
}
plain!(VPoint, Point, r, exact => vec![Point { x: 0, y: None }, Point { x: 0, y: Some(String::new()) }, Point { x: 1, y: Some("it's \"q\"".into()) }, Point { x: i32::MIN, y: Some("é".into()) }]);

#[model]
#[derive(Clone, Debug, PartialEq)]
pub struct VMap {
    pub id: i64,
    pub v: HashMap<String, i64>,
    pub o: Option<HashMap<String, i64>>,
}
plain!(VMap, HashMap<String, i64>, r, exact => vec![HashMap::new(), pairs(&[("a", 1), ("b", 2)]).into_iter().collect(), pairs(&[("b", 1), ("a", 2)]).into_iter().collect(), pairs(&[("", i64::MAX)]).into_iter().collect(), pairs(&[("é'\"", i64::MIN), ("x y", 0), ("B", 3), ("A", 3)]).into_iter().collect()]);

#[model]
#[derive(Clone, Debug, PartialEq)]
pub struct VTree {
    pub id: i64,
    pub v: BTreeMap<String, String>,
    pub o: Option<BTreeMap<String, String>>,
}
plain!(VTree, BTreeMap<String, String>, r, exact => vec![BTreeMap::new(), [(String::new(), String::new())].into(), [("a".into(), "null".into())].into(), [("a".into(), "1".into()), ("é".into(), "it's".into())].into()]);

/// Years of other than four digits, which text does not sort
fn wild() -> Vec<NaiveDate> {
    [(-4000, 1, 31), (-1, 12, 31), (0, 2, 29), (10000, 1, 1), (12345, 6, 7), (99999, 12, 31), (100000, 1, 1)].map(|(y, m, d)| NaiveDate::from_ymd_opt(y, m, d).unwrap()).to_vec()
}
#[model]
#[derive(Clone, Debug, PartialEq)]
pub struct VWild {
    pub id: i64,
    pub v: NaiveDate,
    pub o: Option<NaiveDate>,
}
plain!(VWild, NaiveDate, _r, _exact => wild());
#[model]
#[derive(Clone, Debug, PartialEq)]
pub struct VWildT {
    pub id: i64,
    pub v: NaiveDateTime,
    pub o: Option<NaiveDateTime>,
}
plain!(VWildT, NaiveDateTime, _r, _exact => wild().into_iter().map(|d| d.and_hms_micro_opt(23, 0, 59, 120_000).unwrap()).collect());

pub struct ValW<M: Val> {
    vals: Vec<M::T>,
}
impl<M: Val> ValW<M> {
    fn val(&self, i: &Value) -> M::T {
        self.vals[i.as_u64().unwrap() as usize - 1].clone()
    }
    fn opt(&self, i: &Value) -> Option<M::T> {
        (i != &json!(0)).then(|| self.val(i))
    }
    fn rank(&self, v: &M::T) -> Value {
        match self.vals.iter().position(|x| x == v) {
            Some(i) => json!(i + 1),
            None => json!(format!("unknown value {v:?}").chars().take(200).collect::<String>()),
        }
    }
    fn row(&self, m: &M) -> Value {
        let (_, v, o) = m.parts();
        json!([self.rank(v), o.as_ref().map_or(json!(0), |o| self.rank(o))])
    }
    async fn find(&self, c: C<'_>, e: BoolExpr, what: &dyn Fn() -> String, want: &Value) -> Check {
        let r: butane::Result<Vec<M>> = go!(c, c => M::query().filter(e.clone()).load(c));
        let r = r.map_err(|e| format!("{} failed: {e}", what()))?;
        let mut ids: Vec<i64> = r.iter().map(|m| m.parts().0).collect();
        ids.sort();
        ensure(&json!(ids) == want, || format!("{} found rows {ids:?}, specified {want}", what()))
    }
}
impl<M: Val + Send> World for ValW<M>
where
    M: DataObject<PKType = i64>,
    M::T: Send + Sync,
{
    fn new(variant: &str, seed: u64) -> Self {
        let mut r = Rng::new(seed);
        let pool = M::pool(&mut r, on_backend() != "pg");
        let n = pool.len().min(3);
        // keeping the order of the pool
        let mut ix: Vec<usize> = (0..pool.len()).collect();
        ix = r.pick(&ix, n);
        ix.sort();
        let _ = variant;
        ValW { vals: ix.into_iter().map(|i| pool[i].clone()).collect() }
    }
    async fn reset(&mut self, c: C<'_>) -> Check {
        let r: butane::Result<usize> = go!(c, c => M::query().delete(c));
        r.map(|_| ()).map_err(|e| e.to_string())
    }
    async fn step(&mut self, c: C<'_>, step: &Step) -> Check {
        let ev = &step.ev;
        let short = |v: &M::T| format!("{v:?}").chars().take(200).collect::<String>();
        match ev["op"].as_str().unwrap() {
            "save" => {
                let mut m = M::make(ev["i"].as_i64().unwrap(), self.val(&ev["v"]), self.opt(&ev["o"]));
                let r: butane::Result<()> = go!(c, c => m.save(c));
                r.map_err(|e| format!("save of {} failed: {e}", short(m.parts().1)))?;
            }
            "delete" => {
                let id = ev["i"].as_i64().unwrap();
                let r: butane::Result<M> = go!(c, c => M::get(c, id));
                let m = r.map_err(|e| format!("get failed: {e}"))?;
                let r: butane::Result<()> = go!(c, c => m.delete(c));
                r.map_err(|e| format!("delete failed: {e}"))?;
            }
            "find" => {
                let x = self.val(&ev["x"]);
                let (col, op) = (ev["c"].as_i64().unwrap(), ev["cmp"].as_str().unwrap());
                self.find(c, M::cmp(col, op, &x), &|| format!("column {col} {op} {}", short(&x)), &ev["ids"]).await?;
            }
            "null" => self.find(c, M::null(ev["neg"] == true), &|| "null test".into(), &ev["ids"]).await?,
            "in" => {
                let xs: Vec<M::T> = ev["xs"].as_array().unwrap().iter().map(|x| self.val(x)).collect();
                let what = xs.iter().map(short).collect::<Vec<_>>();
                self.find(c, M::is_in(ev["c"].as_i64().unwrap(), xs), &|| format!("membership in {what:?}"), &ev["ids"]).await?;
            }
            "sort" => {
                let q = M::sorted(M::query(), ev["dir"] == "asc");
                let r: butane::Result<Vec<M>> = go!(c, c => q.load(c));
                let r = r.map_err(|e| format!("sorted load failed: {e}"))?;
                let got: Vec<Value> = r.iter().map(|m| self.rank(m.parts().1)).collect();
                ensure(json!(got) == ev["ranks"], || format!("sorting gave {:?}, specified ranks {}", r.iter().map(|m| short(m.parts().1)).collect::<Vec<_>>(), ev["ranks"]))?;
            }
            o => panic!("{o}"),
        }
        let all: butane::Result<Vec<M>> = go!(c, c => M::query().load(c));
        let all = all.map_err(|e| format!("loading failed: {e}"))?;
        let rows = step.st.as_array().unwrap();
        let mut got = vec![json!([]); rows.len()];
        for m in &all {
            got[m.parts().0 as usize - 1] = self.row(m);
        }
        ensure(json!(got) == step.st && all.len() == rows.iter().filter(|r| r != &&json!([])).count(), || {
            format!("rows {got:?}, specified {}, values {:?}", step.st, self.vals.iter().map(short).collect::<Vec<_>>())
        })
    }
}

pub fn batch(l: &Lane, w: &[Walk], b: &Beat, s: &std::sync::atomic::AtomicUsize, n: &std::sync::atomic::AtomicUsize) -> Vec<Mismatch> {
    match w[0].variant.as_str() {
        "VBool" => run_batch::<ValW<VBool>>(l, w, b, s, n),
        "VI8" => run_batch::<ValW<VI8>>(l, w, b, s, n),
        "VU8" => run_batch::<ValW<VU8>>(l, w, b, s, n),
        "VI16" => run_batch::<ValW<VI16>>(l, w, b, s, n),
        "VU16" => run_batch::<ValW<VU16>>(l, w, b, s, n),
        "VI32" => run_batch::<ValW<VI32>>(l, w, b, s, n),
        "VU32" => run_batch::<ValW<VU32>>(l, w, b, s, n),
        "VI64" => run_batch::<ValW<VI64>>(l, w, b, s, n),
        "VF32" => run_batch::<ValW<VF32>>(l, w, b, s, n),
        "VF64" => run_batch::<ValW<VF64>>(l, w, b, s, n),
        "VText" => run_batch::<ValW<VText>>(l, w, b, s, n),
        "VBlob" => run_batch::<ValW<VBlob>>(l, w, b, s, n),
        "VDate" => run_batch::<ValW<VDate>>(l, w, b, s, n),
        "VTime" => run_batch::<ValW<VTime>>(l, w, b, s, n),
        "VUtc" => run_batch::<ValW<VUtc>>(l, w, b, s, n),
        "VUuid" => run_batch::<ValW<VUuid>>(l, w, b, s, n),
        "VName" => run_batch::<ValW<VName>>(l, w, b, s, n),
        "VCount" => run_batch::<ValW<VCount>>(l, w, b, s, n),
        "VJson" => run_batch::<ValW<VJson>>(l, w, b, s, n),
        "VColor" => run_batch::<ValW<VColor>>(l, w, b, s, n),
        "VShape" => run_batch::<ValW<VShape>>(l, w, b, s, n),
        "VPoint" => run_batch::<ValW<VPoint>>(l, w, b, s, n),
        "VMap" => run_batch::<ValW<VMap>>(l, w, b, s, n),
        "VTree" => run_batch::<ValW<VTree>>(l, w, b, s, n),
        "VWild" => run_batch::<ValW<VWild>>(l, w, b, s, n),
        "VWildT" => run_batch::<ValW<VWildT>>(l, w, b, s, n),
        v => panic!("unknown variant {v}"),
    }
}
