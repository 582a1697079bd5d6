mod c13;
mod c14;
mod c15;
mod model;

#[global_allocator]
static A: mon::MonAlloc = mon::MonAlloc;

fn main() {
    match std::env::args().nth(1).as_deref() {
        Some("C13") => c13::run(),
        Some("C14") => c14::run(),
        Some("C15") => c15::run(),
        other => {
            eprintln!("unknown property {other:?}");
            std::process::exit(2)
        }
    }
}
