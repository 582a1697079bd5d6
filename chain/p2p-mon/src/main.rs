mod c30;
#[path = "/repo/network/src/p2p/mod.rs"]
#[allow(dead_code)]
mod p2p;

#[global_allocator]
static A: mon::MonAlloc = mon::MonAlloc;

fn main() {
    match std::env::args().nth(1).as_deref() {
        Some("C30") => c30::run(),
        x => {
            println!("HARNESS-ERROR: no monitor {x:?}");
            std::process::exit(2)
        }
    }
}
