#![allow(dead_code)]
mod c31;
mod graphql;
mod node;
#[path = "/repo/network/src/processor/mod.rs"]
mod processor;
#[path = "../../types-mon/src/c16.rs"]
mod c16;
#[path = "../../types-mon/src/c17.rs"]
mod c17;
#[path = "../../types-mon/src/c19.rs"]
mod c19;
#[path = "../../types-mon/src/c20.rs"]
mod c20;
#[path = "../../types-mon/src/c22.rs"]
mod c22;
#[path = "../../types-mon/src/c23.rs"]
mod c23;
#[path = "../../types-mon/src/c24.rs"]
mod c24;
#[path = "../../types-mon/src/c25.rs"]
mod c25;
#[path = "../../types-mon/src/exec.rs"]
mod exec;
#[path = "../../types-mon/src/gende.rs"]
mod gende;
#[path = "../../../harness/wire/src/lmodel.rs"]
mod lmodel;
#[path = "../../../harness/wire/src/model.rs"]
mod model;
#[path = "../../types-mon/src/tree.rs"]
mod tree;

#[global_allocator]
static A: mon::MonAlloc = mon::MonAlloc;

fn main() {
    match std::env::args().nth(1).as_deref() {
        Some("C31") => c31::run(),
        other => {
            eprintln!("unknown property {other:?}");
            std::process::exit(2)
        }
    }
}
