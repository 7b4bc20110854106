//! Decl.tla: declarations of models and custom types are expanded and the recorded schema is compared (D01).
use crate::core::*;
use butane::migrations::adb::{ARef, TypeIdentifier, ADB};
use butane::migrations::{MemMigrations, Migration, MigrationsMut};
use butane::SqlVal;
use butane_core::codegen::{butane_type_with_migrations, derive_dataobject_with_migrations, model_with_migrations};
use proc_macro2::TokenStream;
use quote::ToTokens;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicUsize, Ordering};

const MODELS: &[&str] = &["Post", "Blog", "Tag", "r#Order", "User2", "Ünï", "post", "Many2", "ForeignKeys", "Opt", "r#async", "Kind_", "A", "B"];
const TABLES: &[&str] = &["posts", "my table", "ORDER", "t\\\"q", "日本", "Post_Many", "x.y", "select", ""];
const FIELDS: &[&str] = &["title", "r#type", "body", "r#where", "größe", "x1", "owner", "has", "Mixed", "pk", "table", "_f", "name", "unique", "default"];
const CUSTOM: &[&str] = &["Kind", "r#union", "Frozen", "my_type", "Point3", "Texts"];
const HELPERS: &[&str] = &["pk", "unique", "default", "sqltype"];

struct F {
    name: String,
    dflt: Option<SqlVal>,
}
struct M {
    pk: String,
    fields: Vec<F>,
}
struct W {
    ms: MemMigrations,
    models: Vec<String>,
    tables: Vec<String>,
    custom: BTreeMap<String, String>,
    point: &'static str,
    decl: BTreeMap<u64, M>,
    text: BTreeMap<u64, String>,
    rng: Rng,
}
fn plain(s: &str) -> String {
    s.trim_start_matches("r#").to_string()
}
fn plain_type(t: &str) -> &'static [&'static str] {
    match t {
        "bool" => &["bool", "std::primitive::bool"],
        "int" => &["i32", "std::primitive::i32", "::core::primitive::i32", "u8", "i8", "u16", "i16"],
        "bigint" => &["i64", "std::primitive::i64", "u32"],
        "real" => &["f64", "f32"],
        "text" => &["String", "std::string::String", "::std::string::String"],
        "blob" => &["Vec<u8>", "std::vec::Vec<u8>", "::std::vec::Vec<u8>", "Uuid", "uuid::Uuid", "::uuid::Uuid"],
        "json" => &["HashMap<String, String>", "std::collections::HashMap<String, Vec<i32>>", "::std::collections::BTreeMap<std::string::String, Option<bool>>", "Value", "serde_json::Value", "::serde_json::Value"],
        "date" => &["NaiveDate", "chrono::NaiveDate", "chrono::naive::NaiveDate", "::chrono::NaiveDate", "r#chrono::r#NaiveDate"],
        "timestamp" => &["NaiveDateTime", "chrono::NaiveDateTime", "chrono::naive::NaiveDateTime", "DateTime<Utc>", "chrono::DateTime<chrono::Utc>", "::chrono::DateTime<::chrono::offset::Utc>", "DateTime<chrono::Utc>"],
        t => panic!("{t}"),
    }
}
fn sqltype_name(t: &str) -> &'static str {
    match t {
        "bool" => "Bool",
        "int" => "Int",
        "bigint" => "BigInt",
        "real" => "Real",
        "text" => "Text",
        "blob" => "Blob",
        "json" => "Json",
        "date" => "Date",
        "timestamp" => "Timestamp",
        t => panic!("{t}"),
    }
}
fn one<'a>(r: &mut Rng, of: &[&'a str]) -> &'a str {
    of[r.below(of.len())]
}
/// A default, and the literal for it.
fn default(t: &str, r: &mut Rng) -> (String, SqlVal) {
    let i = r.below(3);
    match t {
        "bool" => [("true".into(), SqlVal::Bool(true)), ("false".into(), SqlVal::Bool(false)), ("true".into(), SqlVal::Bool(true))][i].clone(),
        "int" | "bigint" => [("42".into(), SqlVal::Int(42)), ("0".into(), SqlVal::Int(0)), ("0x7fff_ffff".into(), SqlVal::Int(i32::MAX))][i].clone(),
        "real" => [("0.5".into(), SqlVal::Real(0.5)), ("0.1".into(), SqlVal::Real(0.1)), ("1e3".into(), SqlVal::Real(1000.0))][i].clone(),
        "blob" => [("b\"\\x00\\xff'\"".into(), SqlVal::Blob(vec![0, 255, 39])), ("b\"\"".into(), SqlVal::Blob(vec![])), ("b\"x\"".into(), SqlVal::Blob(vec![120]))][i].clone(),
        _ => [("\"it's \\\"é\\\"\"".into(), SqlVal::Text("it's \"é\"".into())), ("r#\"a\\n\"#".into(), SqlVal::Text("a\\n".into())), ("\"\"".into(), SqlVal::Text("".into()))][i].clone(),
    }
}
impl W {
    fn new(seed: u64, models: usize) -> W {
        let mut rng = Rng::new(seed);
        let names = rng.pick(MODELS, models);
        let tables = rng.pick(TABLES, models);
        let custom = rng.pick(CUSTOM, 3).iter().enumerate().map(|(i, c)| (format!("c{}", i + 1), c.to_string())).collect();
        let point = one(&mut rng, &["POINT", "geo", "tsvector", "r3"]);
        W {
            ms: MemMigrations::new(),
            models: names.iter().map(|s| s.to_string()).collect(),
            tables: tables.iter().map(|s| s.to_string()).collect(),
            custom,
            point,
            decl: BTreeMap::new(),
            text: BTreeMap::new(),
            rng,
        }
    }
    /// The type as it may be written.
    fn spell(&mut self, t: &str) -> String {
        match self.custom.get(t).cloned() {
            Some(c) => match self.rng.below(3) {
                0 => format!("r#{}", plain(&c)),
                1 => format!("{}{c}", one(&mut self.rng, &["crate::", "self::types::", "super::", "::other::"])),
                _ => c,
            },
            None => one(&mut self.rng, plain_type(t)).to_string(),
        }
    }
    fn spell_model(&mut self, m: u64) -> String {
        let n = self.models[m as usize - 1].clone();
        match self.rng.below(5) {
            0 => format!("crate::models::{n}"),
            1 => format!("super::{n}"),
            2 => format!("::other::r#mod::{n}"),
            _ => n,
        }
    }
    fn table(&self, m: u64, renamed: bool) -> String {
        let i = m as usize - 1;
        if renamed { self.tables[i].replace("\\\"", "\"") } else { plain(&self.models[i]) }
    }
    fn optional(&mut self, t: String) -> String {
        let o = one(&mut self.rng, &["Option", "std::option::Option", "::std::option::Option", "core::option::Option"]);
        format!("{o}<{t}>")
    }
    fn junk(&mut self) -> &'static str {
        one(&mut self.rng, &["", "", "", "/// a comment \"pk\"\n", "#[serde(default)] ", "#[allow(unused)] ", "#[doc = \"unique\"] "])
    }
    fn declare(&mut self, st: &Value, ev: &Value) -> String {
        let m = ev["m"].as_u64().unwrap();
        let (pk, fields) = (&ev["pk"], ev["fields"].as_array().unwrap());
        let mut pool = self.rng.pick(FIELDS, fields.len() + 1);
        if !self.decl.contains_key(&m) && ev["renamed"] == json!(true) && self.rng.below(3) == 0 {
            // the table may have the name of a model whose own table is called otherwise
            let others = st["decl"].as_array().map(|d| d.as_slice()).unwrap_or(&[]);
            let free: Vec<String> = (0..others.len())
                .filter(|i| others[*i][0]["renamed"] == json!(true))
                .map(|i| plain(&self.models[i]))
                .filter(|n| !self.tables.contains(n))
                .collect();
            if let Some(n) = free.first() {
                self.tables[m as usize - 1] = n.clone();
            }
        }
        let by_name = self.rng.below(2) == 0;
        let mut lines = vec![];
        let mut named = vec![];
        for f in fields {
            let mut name = pool.pop().unwrap();
            // only the attribute makes the key
            if !by_name && f["k"] == "prim" && !named.iter().any(|n: &F| n.name == "id") && self.rng.below(2) == 0 {
                name = "id";
            }
            let mut t = match f["k"].as_str().unwrap() {
                "prim" => self.spell(f["t"].as_str().unwrap()),
                k => {
                    let target = self.spell_model(f["m"].as_u64().unwrap());
                    let of: &[&str] = if k == "fk" {
                        &["ForeignKey", "butane::ForeignKey", "butane::fkey::ForeignKey", "::butane::ForeignKey", "r#butane::fkey::r#ForeignKey"]
                    } else {
                        &["Many", "butane::Many", "butane::many::Many", "::butane::Many", "butane::r#many::Many"]
                    };
                    format!("{}<{target}>", one(&mut self.rng, of))
                }
            };
            if f["null"] == json!(true) {
                t = self.optional(t);
            }
            let mut attrs = vec![];
            let mut dflt = None;
            if f["uniq"] == json!(true) {
                attrs.push("#[unique] ".to_string());
            }
            if f["dflt"] != json!(0) {
                let mut of = f["t"].as_str().unwrap();
                while let Some(a) = st["alias"].get(of).and_then(|a| a.as_str()) {
                    of = a;
                }
                let (lit, v) = default(of, &mut self.rng);
                attrs.push(format!("#[default = {lit}] "));
                dflt = Some(v);
            }
            attrs.push(self.junk().to_string());
            let attrs = self.rng.pick(&attrs, 9);
            let vis = one(&mut self.rng, &["", "pub ", "pub(crate) "]);
            lines.push(format!("{}{vis}{name}: {t},", attrs.concat()));
            named.push(F { name: plain(name), dflt });
        }
        let mut t = self.spell(pk["t"].as_str().unwrap());
        if pk["auto"] == json!(true) {
            let a = one(&mut self.rng, &["AutoPk", "butane::AutoPk", "butane::autopk::AutoPk", "::butane::AutoPk", "r#AutoPk"]);
            t = format!("{a}<{t}>");
        }
        let key = if by_name { "id" } else { pool.pop().unwrap() };
        let attr = if by_name && self.rng.below(2) == 0 { "" } else { "#[pk] " };
        let at = self.rng.below(lines.len() + 1);
        let junk = self.junk();
        lines.insert(at, format!("{junk}{attr}pub {key}: {t},"));
        self.decl.insert(m, M { pk: plain(key), fields: named });
        let mut attrs = vec!["#[derive(Clone, Debug)]\n".to_string(), self.junk().to_string()];
        if ev["renamed"] == json!(true) {
            attrs.push(format!("#[table = \"{}\"]\n", self.tables[m as usize - 1]));
        }
        let attrs = self.rng.pick(&attrs, 9);
        format!("{}pub struct {} {{ {} }}", attrs.concat(), self.models[m as usize - 1], lines.join("\n"))
    }
    fn expand(&mut self, m: u64, renamed: bool) -> Check {
        let text = self.text[&m].clone();
        let tokens: TokenStream = text.parse().map_err(|e| format!("{text}: {e}"))?;
        let model = self.rng.below(2) == 0;
        let out = if model { model_with_migrations(tokens.clone(), &mut self.ms) } else { derive_dataobject_with_migrations(tokens.clone(), &mut self.ms) };
        let src = || format!("in the expansion of\n{text}\n");
        let file: syn::File = syn::parse2(out).map_err(|e| format!("{}: {e}", src()))?;
        let orig: syn::ItemStruct = syn::parse2(tokens).unwrap();
        let mut structs = 0;
        let mut consts: BTreeMap<String, syn::Lit> = BTreeMap::new();
        for item in &file.items {
            match item {
                syn::Item::Struct(s) if s.ident == orig.ident => {
                    structs += 1;
                    // what remains of it is what was declared but for the helper attributes
                    let mut want = orig.clone();
                    want.attrs.retain(|a| !a.path().is_ident("table"));
                    want.fields.iter_mut().for_each(|f| f.attrs.retain(|a| !HELPERS.iter().any(|h| a.path().is_ident(h))));
                    let show = |s: &syn::ItemStruct| -> Vec<String> {
                        let mut v: Vec<String> = s.attrs.iter().map(|a| a.to_token_stream().to_string()).collect();
                        v.push(s.vis.to_token_stream().to_string());
                        v.extend(s.fields.iter().map(|f| f.to_token_stream().to_string()));
                        v
                    };
                    ensure(show(s) == show(&want), || format!("{} the struct is\n{}", src(), s.to_token_stream()))?;
                }
                syn::Item::Impl(i) => {
                    for item in &i.items {
                        if let syn::ImplItem::Const(c) = item {
                            if let syn::Expr::Lit(l) = &c.expr {
                                consts.insert(c.ident.to_string(), l.lit.clone());
                            }
                        }
                    }
                }
                _ => {}
            }
        }
        ensure(structs == model as usize, || format!("{} {structs} structs", src()))?;
        let lit = |k: &str, want: &str| match consts.get(k) {
            Some(syn::Lit::Str(s)) => ensure(s.value() == want, || format!("{} {k} is {:?}, declared {want:?}", src(), s.value())),
            _ => Ok(()),
        };
        lit("TABLE", &self.table(m, renamed))?;
        lit("PKCOL", &self.decl[&m].pk)
    }
    fn define(&mut self, ev: &Value) -> Check {
        let (a, t) = (ev["a"].as_str().unwrap(), ev["t"].as_str().unwrap());
        let name = self.custom[a].clone();
        let name = name.as_str();
        let is_custom = t.starts_with('c');
        let alias = is_custom || (t != "named" && self.rng.below(2) == 0);
        let (args, input) = if alias {
            let of = self.spell(t);
            ("".to_string(), format!("pub type {name} = {of};"))
        } else {
            let args = if t == "named" { format!("Custom({})", self.point) } else { sqltype_name(t).to_string() };
            let form = ["struct {} { x: i32 }", "pub enum {} { A, B(i64) }", "#[derive(Clone)] pub struct {} { r#type: Vec<u8> }", "struct {}(u8);"];
            (args, one(&mut self.rng, &form).replacen("{}", name, 1))
        };
        let out = butane_type_with_migrations(args.parse().unwrap(), input.parse().unwrap(), &mut self.ms);
        let want: TokenStream = input.parse().unwrap();
        ensure(out.to_string() == want.to_string(), || format!("butane_type({args}) {input} became {out}"))
    }
    /// Tables by name: columns by name.
    fn got(&self, db: &ADB) -> BTreeMap<String, BTreeMap<String, String>> {
        let mut ts = BTreeMap::new();
        for t in db.tables() {
            let mut cs = BTreeMap::new();
            for c in &t.columns {
                let r = match c.reference() {
                    None => "".to_string(),
                    Some(ARef::Literal(l)) => format!("{:?}.{:?}", l.table_name(), l.column_name()),
                    Some(r) => format!("{r:?}"),
                };
                let t = match c.typeid() {
                    Ok(TypeIdentifier::Ty(t)) => format!("{t:?}"),
                    Ok(TypeIdentifier::Name(n)) => format!("named {n}"),
                    Err(e) => format!("{e}"),
                };
                let d = format!("{t} null={} pk={} auto={} unique={} default={:?} -> {r}", c.nullable(), c.is_pk(), c.is_auto(), c.unique(), c.default());
                if let Some(old) = cs.insert(c.name().to_string(), d) {
                    cs.insert(format!("{} again", c.name()), old);
                }
            }
            ts.insert(t.name.clone(), cs);
        }
        ts
    }
    fn want(&self, tabs: &Value, st: &Value) -> BTreeMap<String, BTreeMap<String, String>> {
        let renamed = |m: u64| st["decl"][m as usize - 1][0]["renamed"] == json!(true);
        let mut ts = BTreeMap::new();
        for t in tabs.as_array().unwrap() {
            let m = t["m"].as_u64().unwrap();
            let d = &self.decl[&m];
            let many = t["many"].as_u64().unwrap();
            let table = self.table(m, renamed(m));
            let name = if many == 0 { table } else { format!("{table}_{}_Many", d.fields[many as usize - 1].name) };
            let mut cs = BTreeMap::new();
            for c in t["cols"].as_array().unwrap() {
                let f = c["f"].as_u64().unwrap() as usize;
                let (col, dflt) = match (many, f) {
                    (0, 0) => (d.pk.clone(), None),
                    (0, f) => (d.fields[f - 1].name.clone(), d.fields[f - 1].dflt.clone()),
                    (_, 1) => ("owner".into(), None),
                    _ => ("has".into(), None),
                };
                let r = match c["ref"].as_u64().unwrap() {
                    0 => "".to_string(),
                    m => format!("{:?}.{:?}", self.table(m, renamed(m)), self.decl[&m].pk),
                };
                let ty = match c["t"].as_str().unwrap() {
                    "named" => format!("named {}", self.point),
                    t => sqltype_name(t).to_string(),
                };
                let b = |k: &str| c[k] == json!(true);
                cs.insert(col, format!("{ty} null={} pk={} auto={} unique={} default={dflt:?} -> {r}", b("null"), b("pk"), b("auto"), b("uniq")));
            }
            ts.insert(name, cs);
        }
        ts
    }
    fn step(&mut self, before: &Value, s: &Step) -> Check {
        let ev = &s.ev;
        match ev["op"].as_str().unwrap() {
            "declare" => {
                let m = ev["m"].as_u64().unwrap();
                let text = self.declare(before, ev);
                self.text.insert(m, text);
                self.expand(m, ev["renamed"] == json!(true))
            }
            "again" => {
                let m = ev["m"].as_u64().unwrap();
                self.expand(m, s.st["decl"][m as usize - 1][0]["renamed"] == json!(true))
            }
            "define" => self.define(ev),
            "look" => {
                let r = self.ms.current().db();
                let src = || self.text.values().cloned().collect::<Vec<_>>().join("\n");
                match (ev["res"].as_str().unwrap(), r) {
                    ("unresolved", Err(_)) => Ok(()),
                    ("ok", Ok(db)) => {
                        let (got, want) = (self.got(&db), self.want(&ev["tabs"], &s.st));
                        ensure(got == want, || format!("schema of\n{}\nspecification says\n{want:#?}\nrecorded\n{got:#?}", src()))
                    }
                    (w, r) => Err(format!("schema of\n{}\nspecification says {w}, it is {}", src(), text(&r))),
                }
            }
            op => panic!("{op}"),
        }
    }
}

pub fn batch(lane: &Lane, walks: &[Walk], beat: &Beat, stop: &AtomicUsize, steps: &AtomicUsize) -> Vec<Mismatch> {
    let mut out = vec![];
    for walk in walks {
        if stop.load(Ordering::Relaxed) > 3 {
            break;
        }
        *beat.since.lock().unwrap() = Some((std::time::Instant::now(), lane.name.clone(), walk.clone()));
        let mut w = W::new(walk.seed, walk.steps[0].st["decl"].as_array().unwrap().len());
        let mut st = json!({});
        for (i, s) in walk.steps.iter().enumerate() {
            beat.at.store(i, Ordering::Relaxed);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| w.step(&st, s))).unwrap_or_else(|e| Err(format!("{}: {}\n{:?}", s.ev["op"], panic_msg(e), w.text)));
            steps.fetch_add(1, Ordering::Relaxed);
            st = s.st.clone();
            if let Err(m) = r {
                stop.fetch_add(1, Ordering::Relaxed);
                out.push(Mismatch { lane: lane.name.clone(), walk: walk.clone(), failed_step: i, message: m });
                break;
            }
        }
        if !out.is_empty() {
            break;
        }
    }
    *beat.since.lock().unwrap() = None;
    out
}
