//! Models under test. The real `#[model]` macro expands them, so the macro is part of what is checked.
use butane::{dataresult, model, AutoPk, FieldType, ForeignKey, Many};
use chrono::{NaiveDate, NaiveDateTime};

/// Natural keys of several types, with a unique column.
#[model]
#[derive(Clone, Debug, PartialEq)]
pub struct RecI {
    pub id: i64,
    #[unique]
    pub u: String,
    pub n: Option<i32>,
}
#[model]
#[derive(Clone, Debug, PartialEq)]
pub struct RecT {
    #[unique]
    pub u: i64,
    #[pk]
    pub key: String,
    pub n: Option<String>,
}
#[model]
#[derive(Clone, Debug, PartialEq)]
pub struct RecB {
    pub n: Option<bool>,
    #[unique]
    pub u: Vec<u8>,
    #[pk]
    pub key: Vec<u8>,
}
#[model]
#[derive(Clone, Debug, PartialEq)]
pub struct RecU {
    #[pk]
    pub key: uuid::Uuid,
    #[unique]
    pub u: NaiveDate,
    pub n: Option<f64>,
}
#[model]
#[derive(Clone, Debug, PartialEq)]
pub struct RecD {
    #[pk]
    pub key: NaiveDate,
    #[unique]
    pub u: i32,
    pub n: Option<NaiveDateTime>,
}
#[model]
#[derive(Clone, Debug, PartialEq)]
#[table = "select"]
pub struct RecKw {
    #[pk]
    pub r#where: i32,
    #[unique]
    pub group: String,
    pub order: Option<i64>,
}

/// Natural integer key.
#[model]
#[derive(Clone, Debug, PartialEq)]
pub struct Item {
    pub id: i64,
    pub name: String,
    pub num: Option<i32>,
}

/// Natural text key, custom table name.
#[model]
#[derive(Clone, Debug, PartialEq)]
#[table = "strkeys"]
pub struct StrKey {
    #[pk]
    pub key: String,
    pub val: i32,
}

/// Auto key with a unique column.
#[model]
#[derive(Clone, Debug, PartialEq)]
pub struct Auto {
    pub id: AutoPk<i64>,
    #[unique]
    pub name: String,
    pub num: Option<i32>,
}

/// Auto key i32.
#[model]
#[derive(Clone, Debug, PartialEq)]
pub struct AutoS {
    #[pk]
    pub ident: AutoPk<i32>,
    #[unique]
    pub name: String,
    pub num: Option<i32>,
}

/// Auto key only.
#[model]
#[derive(Clone, Debug, PartialEq)]
pub struct OnlyPk {
    pub id: AutoPk<i64>,
}

/// Reserved words everywhere.
#[model]
#[derive(Clone, Debug, PartialEq)]
#[table = "order"]
pub struct Reserved {
    #[pk]
    pub r#where: i64,
    pub group: String,
    pub select: Option<i32>,
}

/// Reserved words with an auto key
#[model]
#[derive(Clone, Debug, PartialEq)]
pub struct Table {
    #[pk]
    pub user: AutoPk<i64>,
    #[unique]
    pub r#type: String,
    pub limit: Option<i32>,
}

/// Foreign keys.
#[model]
#[derive(Clone, Debug, PartialEq)]
pub struct Child {
    pub id: i64,
    pub parent: ForeignKey<Item>,
    pub opt: Option<ForeignKey<StrKey>>,
}

/// Many to many, natural owner key.
#[model]
#[derive(Clone, Debug, PartialEq)]
pub struct Owner {
    pub id: i64,
    pub name: String,
    pub things: Many<Item>,
    pub tags: Many<StrKey>,
}

/// Many to many, auto owner key.
#[model]
#[derive(Clone, Debug, PartialEq)]
pub struct AOwner {
    pub id: AutoPk<i64>,
    pub name: String,
    pub things: Many<Item>,
}

/// Many to many, text owner key.
#[model]
#[derive(Clone, Debug, PartialEq)]
pub struct SOwner {
    #[pk]
    pub name: String,
    pub things: Many<Item>,
}

#[model]
#[derive(Clone, Debug, PartialEq)]
pub struct QI {
    pub id: i64,
    pub a: Option<i32>,
    pub b: i32,
    pub s: Option<String>,
}
#[model]
#[derive(Clone, Debug, PartialEq)]
pub struct QL {
    pub id: i64,
    pub a: Option<i64>,
    pub b: i64,
    pub s: Option<String>,
}
#[model]
#[derive(Clone, Debug, PartialEq)]
#[table = "where"]
pub struct QT {
    pub id: i64,
    pub a: Option<String>,
    pub b: String,
    pub s: Option<String>,
}
#[model]
#[derive(Clone, Debug, PartialEq)]
pub struct QF {
    pub id: i64,
    pub a: Option<f64>,
    pub b: f64,
    pub s: Option<String>,
}
#[model]
#[derive(Clone, Debug, PartialEq)]
pub struct QD {
    pub id: i64,
    pub a: Option<NaiveDate>,
    pub b: NaiveDate,
    pub s: Option<String>,
}
#[model]
#[derive(Clone, Debug, PartialEq)]
#[table = "Q_mixed"]
pub struct QS {
    pub id: i64,
    pub a: Option<NaiveDateTime>,
    pub b: NaiveDateTime,
    pub s: Option<String>,
}
#[model]
#[derive(Clone, Debug, PartialEq)]
pub struct QU {
    pub id: i64,
    pub a: Option<uuid::Uuid>,
    pub b: uuid::Uuid,
    pub s: Option<String>,
}
#[model]
#[derive(Clone, Debug, PartialEq)]
pub struct QB {
    pub id: i64,
    pub a: Option<Vec<u8>>,
    pub b: Vec<u8>,
    pub s: Option<String>,
}
/// Query model whose every name is a keyword.
#[model]
#[derive(Clone, Debug, PartialEq)]
#[table = "group"]
pub struct QKw {
    #[pk]
    pub index: i64,
    pub r#where: Option<i32>,
    pub order: i32,
    pub values: Option<String>,
}
#[dataresult(QI)]
#[derive(Clone, Debug, PartialEq)]
pub struct QIPart {
    pub s: Option<String>,
    pub id: i64,
}

#[derive(Clone, Debug, PartialEq, FieldType)]
pub enum Color {
    Red,
    Green,
}

#[model]
#[derive(Clone, Debug, PartialEq)]
pub struct Types {
    pub id: i64,
    pub b: bool,
    pub i: i32,
    pub i_16: i16,
    pub i_8: i8,
    pub u_8: u8,
    pub u_16: u16,
    pub u_32: u32,
    pub l: i64,
    pub f: f64,
    pub f_32: f32,
    pub s: String,
    pub bl: Vec<u8>,
    pub d: NaiveDate,
    pub t: NaiveDateTime,
    pub j: serde_json::Value,
    pub u: uuid::Uuid,
    pub c: Color,
}


#[dataresult(Item)]
pub struct ItemName {
    pub id: i64,
    pub name: String,
}

// Related models (Rel.tla): ordinary names, and the same with keywords everywhere.
#[model]
#[derive(Clone, Debug, PartialEq)]
pub struct RItem {
    pub id: i64,
    pub n: Option<i32>,
}
#[model]
#[derive(Clone, Debug, PartialEq)]
pub struct RTag {
    #[pk]
    pub key: String,
    pub val: i32,
}
#[model]
#[derive(Clone, Debug, PartialEq)]
pub struct RChild {
    pub id: AutoPk<i64>,
    pub parent: ForeignKey<RItem>,
    pub opt: Option<ForeignKey<RTag>>,
}
#[model]
#[derive(Clone, Debug, PartialEq)]
pub struct ROwner {
    #[pk]
    pub name: String,
    pub things: Many<RItem>,
    pub tags: Many<RTag>,
    pub boss: Option<ForeignKey<ROwner>>,
    pub kids: Many<RChild>,
    pub friends: Many<ROwner>,
    pub lead: Option<ForeignKey<RChild>>,
}
#[model]
#[derive(Clone, Debug, PartialEq)]
#[table = "from"]
pub struct KItem {
    #[pk]
    pub r#where: i32,
    pub select: Option<i32>,
}
#[model]
#[derive(Clone, Debug, PartialEq)]
#[table = "Values"]
pub struct KTag {
    #[pk]
    pub group: uuid::Uuid,
    pub owner: i32,
}
#[model]
#[derive(Clone, Debug, PartialEq)]
#[table = "join"]
pub struct KChild {
    #[pk]
    pub r#in: AutoPk<i32>,
    pub references: ForeignKey<KItem>,
    pub has: Option<ForeignKey<KTag>>,
}
#[model]
#[derive(Clone, Debug, PartialEq)]
#[table = "user"]
pub struct KOwner {
    #[pk]
    pub index: i64,
    pub r#as: Many<KItem>,
    pub r#match: Many<KTag>,
    pub order: Option<ForeignKey<KOwner>>,
    pub all: Many<KChild>,
    pub r#type: Many<KOwner>,
    pub limit: Option<ForeignKey<KChild>>,
}

// Many-to-many (Many.tla)
#[model]
#[derive(Clone, Debug, PartialEq)]
pub struct MItem {
    pub id: AutoPk<i64>,
    pub n: i32,
}
#[model]
#[derive(Clone, Debug, PartialEq)]
pub struct MText {
    #[pk]
    pub key: String,
    pub n: i32,
}
#[model]
#[derive(Clone, Debug, PartialEq)]
pub struct MUuid {
    pub id: uuid::Uuid,
    pub n: i32,
}
#[model]
#[derive(Clone, Debug, PartialEq)]
#[table = "set"]
pub struct MKw {
    #[pk]
    pub r#for: i32,
    pub end: i32,
}
#[model]
#[derive(Clone, Debug, PartialEq)]
pub struct MOwnI {
    pub id: i64,
    pub f: Many<MItem>,
    pub g: Many<MItem>,
    pub x: i32,
}
#[model]
#[derive(Clone, Debug, PartialEq)]
pub struct MOwnA {
    pub f: Many<MText>,
    pub x: i32,
    pub id: AutoPk<i64>,
    pub g: Many<MText>,
}
#[model]
#[derive(Clone, Debug, PartialEq)]
pub struct MOwnS {
    pub x: i32,
    #[pk]
    pub name: String,
    pub f: Many<MUuid>,
    pub g: Many<MUuid>,
}
#[model]
#[derive(Clone, Debug, PartialEq)]
#[table = "update"]
pub struct MOwnK {
    #[pk]
    pub begin: AutoPk<i32>,
    pub r#where: Many<MKw>,
    pub group: Many<MKw>,
    pub select: i32,
}

// Foreign keys (Fkey.tla)
#[model]
#[derive(Clone, Debug, PartialEq)]
pub struct FInt {
    pub id: i64,
    pub v: i32,
}
#[model]
#[derive(Clone, Debug, PartialEq)]
pub struct FIntR {
    #[pk]
    pub name: String,
    pub parent: ForeignKey<FInt>,
    pub opt: Option<ForeignKey<FInt>>,
    pub boss: Option<ForeignKey<FIntR>>,
}
#[model]
#[derive(Clone, Debug, PartialEq)]
pub struct FText {
    #[pk]
    pub key: String,
    pub v: i32,
}
#[model]
#[derive(Clone, Debug, PartialEq)]
pub struct FTextR {
    pub opt: Option<ForeignKey<FText>>,
    pub id: i64,
    pub boss: Option<ForeignKey<FTextR>>,
    pub parent: ForeignKey<FText>,
}
#[model]
#[derive(Clone, Debug, PartialEq)]
pub struct FAuto {
    pub id: AutoPk<i32>,
    pub v: i32,
}
#[model]
#[derive(Clone, Debug, PartialEq)]
pub struct FAutoR {
    pub parent: ForeignKey<FAuto>,
    pub opt: Option<ForeignKey<FAuto>>,
    pub boss: Option<ForeignKey<FAutoR>>,
    #[pk]
    pub key: uuid::Uuid,
}
#[model]
#[derive(Clone, Debug, PartialEq)]
#[table = "Primary"]
pub struct FKw {
    #[pk]
    pub offset: uuid::Uuid,
    pub r#type: i32,
}
#[model]
#[derive(Clone, Debug, PartialEq)]
#[table = "all"]
pub struct FKwR {
    #[pk]
    pub r#where: i32,
    pub r#match: ForeignKey<FKw>,
    pub order: Option<ForeignKey<FKw>>,
    pub references: Option<ForeignKey<FKwR>>,
}

// Transactions (Txn.tla)
#[model]
#[derive(Clone, Debug, PartialEq)]
pub struct TxRow {
    #[pk]
    pub k: String,
    #[unique]
    pub v: i32,
}
#[model]
#[derive(Clone, Debug, PartialEq)]
pub struct TxBulk {
    pub id: i64,
    pub v: i32,
    pub pad: String,
}
