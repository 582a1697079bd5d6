mod c01;
mod c02;
mod c03;
mod c04;
mod c05;
mod c06;
mod c07;
mod c08;
mod c09;
mod derived;
mod dynserde;
mod hostile;
mod lmodel;
mod model;
mod streams;

#[global_allocator]
static A: mon::MonAlloc = mon::MonAlloc;

fn main() {
    match std::env::args().nth(1).as_deref() {
        Some("C01") => c01::run(),
        Some("C02") => c02::run(),
        Some("C03") => c03::run(),
        Some("C04") => c04::run(),
        Some("C05") => c05::run(),
        Some("C06") => c06::run(),
        Some("C07") => c07::run(),
        Some("C08") => c08::run(),
        Some("C09") => c09::run(),
        other => {
            eprintln!("unknown property {other:?}");
            std::process::exit(2)
        }
    }
}
