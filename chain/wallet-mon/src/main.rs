#![allow(dead_code)]
extern crate self as mina_network;
mod c32;
#[path = "/repo/network/src/processor/mod.rs"]
mod processor;
// the wallet of the Berkeley network, laid out as in its own crate
#[path = "/repo/apps/wasm/mina-berkeley/src/frontier.rs"]
mod frontier;
#[path = "/repo/apps/wasm/mina-berkeley/src/js_exports.rs"]
mod js_exports;
#[path = "/repo/apps/wasm/mina-berkeley/src/js_ffi.rs"]
mod js_ffi;
#[path = "/repo/apps/wasm/mina-berkeley/src/logger.rs"]
mod logger;
#[path = "/repo/apps/wasm/mina-berkeley/src/payment.rs"]
mod payment;
#[path = "/repo/apps/wasm/mina-berkeley/src/proof.rs"]
mod proof;
#[path = "/repo/apps/wasm/mina-berkeley/src/protocol_state.rs"]
mod protocol_state;
#[path = "/repo/apps/wasm/mina-berkeley/src/utils.rs"]
mod utils;
use utils::*;
// the payments of the other wallet
#[path = "/repo/apps/wasm/mvp/src/payment.rs"]
mod mvp_payment;

#[path = "../../types-mon/src/c16.rs"]
mod c16;
#[path = "../../types-mon/src/c17.rs"]
mod c17;
#[path = "../../types-mon/src/c19.rs"]
mod c19;
#[path = "../../types-mon/src/c20.rs"]
mod c20;
#[path = "../../types-mon/src/c22.rs"]
mod c22;
#[path = "../../types-mon/src/c23.rs"]
mod c23;
#[path = "../../types-mon/src/c24.rs"]
mod c24;
#[path = "../../types-mon/src/c25.rs"]
mod c25;
#[path = "../../web-mon/src/c31.rs"]
mod c31;
#[path = "../../types-mon/src/exec.rs"]
mod exec;
#[path = "../../types-mon/src/gende.rs"]
mod gende;
#[path = "../../web-mon/src/graphql.rs"]
mod graphql;
#[path = "../../../harness/wire/src/lmodel.rs"]
mod lmodel;
#[path = "../../../harness/wire/src/model.rs"]
mod model;
#[path = "../../web-mon/src/node.rs"]
mod node;
#[path = "../../types-mon/src/tree.rs"]
mod tree;

#[global_allocator]
static A: mon::MonAlloc = mon::MonAlloc;

fn main() {
    match std::env::args().nth(1).as_deref() {
        Some("C32") => c32::run(),
        other => {
            eprintln!("unknown property {other:?}");
            std::process::exit(2)
        }
    }
}
