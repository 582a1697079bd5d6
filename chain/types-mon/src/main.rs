mod c16;
mod c17;
mod c18;
mod c19;
mod c20;
mod c21;
mod c22;
mod c23;
mod c24;
mod c25;
mod c26;
mod c27;
mod c28;
mod c29;
mod exec;
#[path = "/repo/network/src/processor/mod.rs"]
#[allow(dead_code)]
mod processor;
mod gende;
#[path = "../../../harness/wire/src/lmodel.rs"]
#[allow(dead_code)]
mod lmodel;
#[path = "../../../harness/wire/src/model.rs"]
#[allow(dead_code)]
mod model;
mod tree;

#[global_allocator]
static A: mon::MonAlloc = mon::MonAlloc;

fn main() {
    match std::env::args().nth(1).as_deref() {
        Some("C16") => c16::run(),
        Some("C17") => c17::run(),
        Some("C18") => c18::run(),
        Some("C19") => c19::run(),
        Some("C20") => c20::run(),
        Some("C21") => c21::run(),
        Some("C22") => c22::run(),
        Some("C23") => c23::run(),
        Some("C24") => c24::run(),
        Some("C25") => c25::run(),
        Some("C26") => c26::run(),
        Some("C27") => c27::run(),
        Some("C28") => c28::run(),
        Some("C29") => c29::run(),
        other => {
            eprintln!("unknown property {other:?}");
            std::process::exit(2)
        }
    }
}
