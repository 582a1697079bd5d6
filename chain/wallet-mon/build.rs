//! The part of the processor for browsers is compiled too.
fn main() {
    println!("cargo:rerun-if-changed=build.rs");
    println!("cargo:rustc-cfg=target_arch=\"wasm32\"");
}
