//! Makes of the .proto files what their generator makes of them, as far as the wallet uses it.
use std::fmt::Write;
fn main() {
    println!("cargo:rerun-if-changed=build.rs");
    println!("cargo:rustc-cfg=target_arch=\"wasm32\"");
    let (dir, out) = ("/repo/apps/wasm/mvp/proto", std::env::var("OUT_DIR").unwrap());
    println!("cargo:rerun-if-changed={dir}");
    let mut text = String::new();
    for e in std::fs::read_dir(dir).unwrap() {
        let p = e.unwrap().path();
        println!("cargo:rerun-if-changed={}", p.display());
        let file = std::fs::read_to_string(&p).unwrap();
        let plain: String = file.lines().map(|l| l.split("//").next().unwrap().to_string() + "\n").collect();
        writeln!(text, "pub mod {} {{ use protobuf::Message as _;", p.file_stem().unwrap().to_str().unwrap()).unwrap();
        for m in plain.split("\nmessage ").skip(1) {
            let (name, body) = m.split_once('{').unwrap();
            let fields: Vec<(String, String, String)> = body
                .split('}')
                .next()
                .unwrap()
                .split(';')
                .map(|f| f.replace('=', " ").split_whitespace().map(String::from).collect::<Vec<_>>())
                .filter(|f| !f.is_empty())
                .map(|f| {
                    let t = match f[0].as_str() {
                        "string" => "String",
                        "int64" => "i64",
                        "bool" => "bool",
                        t => panic!("a field of type {t}"),
                    };
                    (f[1].clone(), t.to_string(), f[2].clone())
                })
                .collect();
            let name = name.trim();
            writeln!(text, "#[derive(Clone, Debug, Default, PartialEq)] pub struct {name} {{").unwrap();
            fields.iter().for_each(|(n, t, _)| writeln!(text, "pub {n}: {t},").unwrap());
            writeln!(text, "}} impl {name} {{ pub fn new() -> Self {{ Self::default() }} }} impl protobuf::Message for {name} {{ fn fields(&self, to: &mut Vec<u8>) {{").unwrap();
            fields.iter().for_each(|(n, _, k)| writeln!(text, "protobuf::Field::put(&self.{n}, {k}, to);").unwrap());
            writeln!(text, "}} fn field(&mut self, number: u64, value: protobuf::Value) -> protobuf::Result<()> {{ match number {{").unwrap();
            fields.iter().for_each(|(n, _, k)| writeln!(text, "{k} => self.{n} = protobuf::Field::get(value)?,").unwrap());
            writeln!(text, "_ => {{}} }} Ok(()) }} }}").unwrap();
        }
        writeln!(text, "}}").unwrap();
    }
    std::fs::create_dir_all(format!("{out}/protobuf")).unwrap();
    std::fs::write(format!("{out}/protobuf/mod.rs"), text).unwrap();
}
