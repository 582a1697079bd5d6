//! C08: a loosely typed value re-encodes to exactly the bytes it came from.
use crate::lmodel::*;
use crate::model::enc_nat0;
use bin_prot::{to_writer, BinProtRule, Deserializer, Value};
use mon::*;
use serde::Deserialize;
use serde_json::json;
use std::sync::OnceLock;

fn decode(rule: &BinProtRule, w: &[u8]) -> Result<Result<Value, bin_prot::error::Error>, String> {
    guarded(|| Value::deserialize(&mut Deserializer::from_reader(w).with_layout(rule)))
}
fn there_and_back(sh: &mut Shard, what: &str, l: &L, rule: &BinProtRule, v: &Value) -> Vec<u8> {
    let mut w = vec![];
    venc(&mut w, l, v);
    sh.case(|| format!("{what} bytes {}", hex(&w)));
    let got = match decode(rule, &w) {
        Ok(Ok(g)) => g,
        o => sh.violation(&format!("{what}: conforming bytes were not decoded: {:?}", o.map(|r| r.map(|_| ())))),
    };
    let mut back = vec![];
    match guarded(|| to_writer(&mut back, &got)) {
        Ok(Ok(())) if back == w => {}
        o => sh.violation(&format!("{what}: re-encoding gave {} ({o:?}) instead of {}", hex(&back), hex(&w))),
    }
    // a value built by the application encodes the same way
    let mut direct = vec![];
    match guarded(|| to_writer(&mut direct, v)) {
        Ok(Ok(())) if direct == w => {}
        o => sh.violation(&format!("{what}: encoding a built value gave {} ({o:?}) instead of {}", hex(&direct), hex(&w))),
    }
    w
}
fn random(sh: &mut Shard) {
    let d = sh.rng.range(0, 5);
    let l = gen_l(&mut sh.rng, d, false);
    let js = to_json(&l);
    let rule: BinProtRule = serde_json::from_value(js.clone()).unwrap();
    let v = gen_v(&mut sh.rng, &l, &mut 500);
    let w = there_and_back(sh, &format!("layout {js}"), &l, &rule, &v);
    sh.count("random_layouts");
    sh.observed(fnv(&w) ^ fnv(js.to_string().as_bytes()), w.len() > 1);
}
pub struct Real {
    pub name: &'static str,
    pub model: L,
    pub rule: BinProtRule,
}
pub fn real_layouts() -> &'static Vec<Real> {
    static R: OnceLock<Vec<Real>> = OnceLock::new();
    R.get_or_init(|| {
        std::thread::scope(|s| {
            let hs: Vec<_> = ["external_transition", "protocol_state", "snark_work", "verification_key"]
                .into_iter()
                .map(|n| {
                    std::thread::Builder::new()
                        .stack_size(512 << 20)
                        .spawn_scoped(s, move || {
                            let p = format!("{}/protocol/layouts/{n}.json", repo_dir());
                            let text = std::fs::read_to_string(&p).expect("layout file");
                            let mut d = serde_json::Deserializer::from_str(&text);
                            d.disable_recursion_limit();
                            let j = serde_json::Value::deserialize(&mut d).expect("layout is JSON");
                            let model = from_json(&j["bin_prot_rule"]).expect("layout model");
                            let rule: BinProtRule = serde_json::from_value(j["bin_prot_rule"].clone()).expect("layout rule");
                            Real { name: n, model, rule }
                        })
                        .unwrap()
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        })
    })
}
fn real(sh: &mut Shard, which: usize) {
    let r = &real_layouts()[which];
    let fuel = sh.rng.range(500, 6000) as i64;
    let v = gen_v(&mut sh.rng, &r.model, &mut fuel.clone());
    let w = there_and_back(sh, r.name, &r.model, &r.rule, &v);
    sh.count(r.name);
    sh.count_n("real_layout_bytes", w.len() as u64);
    sh.observed(fnv(&w), true);
    sh.sample(|| json!({"layout": r.name, "bytes": w.len()}));
}
/// Blocks recorded from the network, decoded with the block layout.
fn blocks() -> &'static Vec<(String, Vec<u8>)> {
    static B: OnceLock<Vec<(String, Vec<u8>)>> = OnceLock::new();
    B.get_or_init(|| {
        let mut out = vec![];
        let dir = format!("{}/protocol/test-fixtures/src/data", repo_dir());
        let mut names: Vec<_> = std::fs::read_dir(&dir).map(|d| d.filter_map(|e| e.ok()).map(|e| e.path()).collect()).unwrap_or_default();
        names.sort();
        for p in names {
            let n = p.file_name().unwrap().to_string_lossy().to_string();
            let Ok(b) = std::fs::read(&p) else { continue };
            if n.ends_with(".hex") {
                let t: Vec<u8> = b.iter().copied().filter(|c| c.is_ascii_hexdigit()).collect();
                out.push((n, t.chunks(2).map(|c| u8::from_str_radix(std::str::from_utf8(c).unwrap(), 16).unwrap()).collect()));
            } else if n == "block1" {
                out.push((n, b));
            }
        }
        out
    })
}
fn recorded(sh: &mut Shard, i: usize) {
    let (name, b) = &blocks()[i];
    let r = &real_layouts()[0];
    sh.case(|| format!("recorded block {name} ({} bytes)", b.len()));
    let mut odd = false;
    let mut c = crate::model::Cur::new(b);
    let Ok(want) = vdec(&mut c, &r.model, &mut odd) else {
        sh.count("recorded_not_blocks");
        return;
    };
    let used = c.p;
    let got = match decode(&r.rule, b) {
        Ok(Ok(g)) => g,
        o => sh.violation(&format!("recorded block {name} was not decoded: {:?}", o.map(|r| r.map(|_| ())))),
    };
    if !veq(&got, &want) {
        sh.violation(&format!("recorded block {name} decoded to a different tree"));
    }
    let mut back = vec![];
    match guarded(|| to_writer(&mut back, &got)) {
        Ok(Ok(())) if back == b[..used] => {}
        o => sh.violation(&format!("recorded block {name}: re-encoding differs ({o:?}), first difference at {:?}", back.iter().zip(b.iter()).position(|(x, y)| x != y))),
    }
    sh.count("recorded_blocks");
    sh.count_n("recorded_bytes", used as u64);
    sh.observed(fnv(name.as_bytes()), true);
}
fn strings(sh: &mut Shard) {
    let n = *sh.rng.pick(&[0, 1, 5, 127, 128, 200, 32767, 32768, 65535, 65536]);
    let b = sh.rng.bytes(n);
    let mut want = vec![];
    enc_nat0(&mut want, n as u64);
    want.extend(&b);
    sh.case(|| format!("string value of {n} bytes"));
    let mut got = vec![];
    match guarded(|| to_writer(&mut got, &Value::String(b.clone()))) {
        Ok(Ok(())) if got == want => sh.count("string_values"),
        o => sh.violation(&format!("Value::String of {n} bytes written as {} ({o:?})", hex(&got))),
    }
    sh.observed(fnv(&want), n > 0);
}
pub fn run() {
    let r = start("C08", "exploration",
        "distinct (layout, wire bytes) pairs re-encoded, real Mina layouts and recorded blocks included",
        &["inputs use the canonical (shortest) integer forms an encoder produces", "Value::Nat0 is never produced by decoding and is not covered", "reference encoder written from the bin_prot specification"]);
    r.require("random_layouts", 5000);
    r.require("recorded_blocks", 2);
    for k in ["external_transition", "protocol_state", "snark_work", "verification_key"] {
        r.require(k, 5);
    }
    real_layouts();
    blocks();
    r.par(8, |sh| {
        let n = if sh.thorough() { 800_000 } else { 20_000 };
        for i in 0..n {
            random(sh);
            if i % 50 == 0 {
                strings(sh);
            }
        }
        let n = if sh.thorough() { 600 } else { 6 };
        for i in 0..n {
            real(sh, (i + sh.index) % 4);
        }
        let mut i = sh.index;
        while i < blocks().len() {
            if sh.thorough() || blocks()[i].1.len() < 200_000 {
                recorded(sh, i);
            }
            i += 8;
        }
    });
    r.finish();
}
