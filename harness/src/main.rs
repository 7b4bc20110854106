#![allow(dead_code)]
mod core;
mod models;
mod w_auto;
mod w_cli;
mod w_conn;
mod w_decl;
mod w_pool;
mod w_fkey;
mod w_many;
mod w_migcoll;
mod w_migr;
mod w_names;
mod w_query;
mod w_rel;
mod w_schema;
mod w_store;
mod w_txn;
mod w_vals;

use crate::core::*;

fn select(world: &str) -> BatchFn {
    match world {
        "store" => w_store::batch,
        "auto" => w_auto::batch,
        "query" => w_query::batch,
        "fkey" => w_fkey::batch,
        "txn" => w_txn::batch,
        "many" => w_many::batch,
        "migr" => w_migr::batch,
        "cli" => w_cli::batch,
        "names" => w_names::batch,
        "decl" => w_decl::batch,
        "coll" => w_migcoll::batch,
        "rel" => w_rel::batch,
        "schema" => w_schema::batch,
        "conn" => w_conn::batch,
        "pool" => w_pool::batch,
        "vals" => w_vals::batch,
        w => panic!("unknown world {w}"),
    }
}

fn main() {
    // connections would otherwise parse the system certificates each
    std::env::set_var("SSL_CERT_FILE", "/dev/null");
    std::env::set_var("SSL_CERT_DIR", "/nonexistent");
    let args: Vec<String> = std::env::args().skip(1).collect();
    if std::env::var("BH_PANIC").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    match args[0].as_str() {
        "replay" => replay(&args[1], select),
        "txnseg" => w_txn::segment(),
        "migrseg" => w_migr::segment(),
        a => panic!("unknown command {a}"),
    }
}
