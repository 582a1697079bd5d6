//! C02: typed values. Oracle: reference encoder for generated types (model.rs)
//! and hand-written wire images for derived Rust types (derived.rs).
use crate::derived::*;
use crate::dynserde::*;
use crate::model::*;
use bin_prot::{from_reader, to_writer, Deserializer, ReadBinProtExt, Serializer, WriteBinProtExt};
use mon::*;
use serde::de::DeserializeSeed;
use serde::{Deserialize, Serialize};

fn dynamic(sh: &mut Shard) {
    let d = sh.rng.range(0, 5);
    let t = gen_type(&mut sh.rng, d);
    // a stream of several values of the same type through one (de)serializer
    let k = sh.rng.range(1, 3);
    let ms: Vec<M> = (0..k).map(|_| gen_value(&mut sh.rng, &t)).collect();
    let mut want = vec![];
    let mut cuts = vec![];
    for m in &ms {
        enc(&mut want, &t, m);
        cuts.push(want.len());
    }
    sh.case(|| format!("type {t:?} values {ms:?} wire {}", hex(&want)));
    let mut got = vec![];
    let e = guarded(|| {
        let mut s = Serializer::new(&mut got);
        for m in &ms {
            Dyn(&t, m).serialize(&mut s)?;
        }
        Ok::<(), bin_prot::error::Error>(())
    });
    if !matches!(e, Ok(Ok(()))) {
        sh.violation(&format!("encoding failed: {e:?}"));
    }
    if got != want {
        sh.violation(&format!("value encoded as {} but the wire format says {}", hex(&got), hex(&want)));
    }
    // decode the whole stream from one deserializer
    let back = guarded(|| {
        let mut de = Deserializer::from_reader(want.as_slice());
        let mut v = vec![];
        for _ in 0..k {
            v.push(Seed(&t).deserialize(&mut de)?);
        }
        Ok::<Vec<M>, bin_prot::error::Error>(v)
    });
    match back {
        Ok(Ok(v)) if v == ms => {}
        o => sh.violation(&format!("decoding returned {o:?}")),
    }
    // convenience entry points on the first value
    let one = &want[..cuts[0]];
    set_type(&t);
    match guarded(|| from_reader::<_, Any>(one)) {
        Ok(Ok(Any(m))) if m == ms[0] => {}
        o => sh.violation(&format!("from_reader returned {o:?}")),
    }
    let mut o1 = vec![];
    match guarded(|| to_writer(&mut o1, &Dyn(&t, &ms[0]))) {
        Ok(Ok(())) if o1 == one => {}
        o => sh.violation(&format!("to_writer returned {o:?} and wrote {}", hex(&o1))),
    }
    sh.count("dynamic_types");
    sh.count_n("stream_values", k as u64);
    sh.observed(shape(&t), d > 0);
    if d >= 2 {
        sh.sample(|| serde_json::json!({"type": format!("{t:?}").chars().take(200).collect::<String>(), "wire": hex(&want).chars().take(120).collect::<String>()}));
    }
}
fn derived<G: Gold>(sh: &mut Shard, name: &'static str) {
    let g = G::gen(&mut sh.rng);
    let mut want = vec![];
    g.wire(&mut want);
    sh.case(|| format!("{name} {g:?} wire {}", hex(&want)));
    let mut got = vec![];
    match guarded(|| to_writer(&mut got, &g)) {
        Ok(Ok(())) if got == want => {}
        o => sh.violation(&format!("{name}: encoder returned {o:?} and wrote {} instead of {}", hex(&got), hex(&want))),
    }
    match guarded(|| from_reader::<_, G>(want.as_slice())) {
        Ok(Ok(b)) if b == g => {}
        o => sh.violation(&format!("{name}: decoded to {o:?}")),
    }
    sh.count(name);
    sh.observed(fnv(&want) ^ fnv(name.as_bytes()), want.len() > 1);
}
/// Sequences whose length is unknown up front, and chars that do not fit in
/// one byte, must be refused rather than written wrongly.
fn refusals(sh: &mut Shard) {
    struct NoLen(Vec<i32>);
    impl Serialize for NoLen {
        fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
            use serde::ser::SerializeSeq;
            let mut q = s.serialize_seq(None)?;
            for x in &self.0 {
                q.serialize_element(x)?;
            }
            q.end()
        }
    }
    let n = sh.rng.range(0, 4);
    let v = NoLen((0..n as i32).collect());
    sh.case(|| "sequence of unknown length".into());
    let mut o = vec![];
    match guarded(|| to_writer(&mut o, &v)) {
        Ok(Err(_)) => sh.count("refused_unknown_length"),
        r => sh.violation(&format!("a sequence without a length was not refused: {r:?}")),
    }
    struct NoLenMap(u8);
    impl Serialize for NoLenMap {
        fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
            use serde::ser::SerializeMap;
            let mut q = s.serialize_map(None)?;
            for x in 0..self.0 {
                q.serialize_entry(&x, &x)?;
            }
            q.end()
        }
    }
    sh.case(|| "map of unknown length".into());
    let mut o = vec![];
    match guarded(|| to_writer(&mut o, &NoLenMap(n as u8))) {
        Ok(Err(_)) => sh.count("refused_unknown_length"),
        r => sh.violation(&format!("a map without a length was not refused: {r:?}")),
    }
    let c = loop {
        if let Some(c) = char::from_u32(256 + sh.rng.below(0x10ffff - 256) as u32) {
            break c;
        }
    };
    sh.case(|| format!("char {c:?}"));
    let mut o = vec![];
    match guarded(|| to_writer(&mut o, &c)) {
        Ok(Err(_)) => sh.count("refused_wide_char"),
        r => sh.violation(&format!("char {c:?} has no single-byte form but encoding returned {r:?} and wrote {} (decodes to another char)", hex(&o))),
    }
    sh.observed(c as u64, true);
}
/// The single write and read methods: bytes, and the number of bytes they tell.
fn single(sh: &mut Shard) {
    let x = sh.rng.next();
    let (kind, want): (&str, Vec<u8>) = match x % 6 {
        0 => ("unit", vec![0]),
        1 => ("bool", vec![(x >> 8) as u8 & 1]),
        2 => ("char", vec![(x >> 8) as u8]),
        3 => ("variant index", vec![(x >> 8) as u8]),
        4 => ("float32", ((x >> 8) as u32).to_le_bytes().to_vec()),
        _ => ("float64", x.to_le_bytes().to_vec()),
    };
    sh.case(|| format!("{kind} written as {}", hex(&want)));
    let mut o = vec![];
    let b = want[0];
    let told = guarded(|| match kind {
        "unit" => o.bin_write_unit().map(|_| 1),
        "bool" => o.bin_write_bool(b == 1).map(|_| 1),
        "char" => o.bin_write_char(b as char),
        "variant index" => o.bin_write_variant_index(b),
        "float32" => o.bin_write_float32(&f32::from_le_bytes(want[..4].try_into().unwrap())),
        _ => o.bin_write_float64(&f64::from_le_bytes(want[..8].try_into().unwrap())),
    });
    if !matches!(told, Ok(Ok(n)) if n == want.len()) || o != want {
        sh.violation(&format!("{kind}: {} was written instead of {} and the method returned {told:?}", hex(&o), hex(&want)))
    }
    let mut rest = &want[..];
    let back = guarded(|| match kind {
        "unit" => rest.bin_read_unit().map(|_| 0),
        "bool" => rest.bin_read_bool().map(|b| b as u8),
        "char" => rest.bin_read_char().map(|c| c as u8),
        "variant index" => rest.bin_read_variant_index(),
        _ => {
            rest = &[];
            Ok(b)
        }
    });
    if !matches!(back, Ok(Ok(x)) if x == b) || !rest.is_empty() {
        sh.violation(&format!("{kind}: {} read back as {back:?} with {} bytes left", hex(&want), rest.len()))
    }
    sh.count("single_methods");
    sh.observed(fnv(&want) ^ fnv(kind.as_bytes()), true);
}
pub fn run() {
    let r = start("C02", "exploration",
        "distinct generated type shapes with at least one level of nesting, plus distinct (derived type, wire image) pairs",
        &["enums of more than 256 variants are outside the format support the crate documents", "reference encoder written from the bin_prot specification"]);
    for k in ["dynamic_types", "Rec", "Kind", "Poly", "Gen"] {
        r.require(k, 1000);
    }
    r.require("long_maps", 14);
    r.par(8, |sh| {
        let n = if sh.thorough() { 700_000 } else { 25_000 };
        for i in 0..n {
            dynamic(sh);
            if i % 3 == 0 {
                derived::<Rec>(sh, "Rec");
                derived::<Kind>(sh, "Kind");
                derived::<Poly>(sh, "Poly");
                derived::<Gen<Kind, Poly>>(sh, "Gen");
                derived::<Chain>(sh, "Chain");
                derived::<Vec<(Option<TupS>, (UnitS, NewT))>>(sh, "VecTuple");
            }
            single(sh);
            if i % 20 == 0 {
                refusals(sh);
            }
        }
        big(sh);
        ints_with(sh);
    });
    r.finish();
}
/// Lengths that need each size class of the length prefix.
fn big(sh: &mut Shard) {
    for len in [0usize, 1, 127, 128, 129, 255, 256, 32767, 32768, 65535, 65536, 65537, 200_001, 1_048_577, 5_000_003, 17_000_003] {
        if len > 1 << 20 && sh.index != len % 8 {
            continue;
        }
        let v: Vec<u8> = sh.rng.bytes(len);
        let s: String = v.iter().map(|b| (b'a' + b % 26) as char).collect();
        for (name, want_body) in [("bytes", v.clone()), ("string", s.clone().into_bytes())] {
            let mut want = vec![];
            enc_nat0(&mut want, len as u64);
            want.extend(&want_body);
            sh.case(|| format!("{name} of length {len}"));
            let mut got = vec![];
            let r = if name == "bytes" { to_writer(&mut got, &v) } else { to_writer(&mut got, &s) };
            if r.is_err() || got != want {
                sh.violation(&format!("{name} of length {len} encoded wrongly ({r:?}; prefix {})", hex(&got[..got.len().min(12)])));
            }
            let ok = if name == "bytes" { from_reader::<_, Vec<u8>>(want.as_slice()).map(|x| x == v) } else { from_reader::<_, String>(want.as_slice()).map(|x| x == s) };
            if !matches!(ok, Ok(true)) {
                sh.violation(&format!("{name} of length {len} did not survive: {ok:?}"));
            }
            sh.count("long_payloads");
            sh.observed(len as u64 ^ fnv(name.as_bytes()), true);
        }
        sh.beat();
    }
    // as many elements and bindings
    use std::collections::BTreeMap;
    for len in [0usize, 127, 128, 255, 256, 257, 32767, 32768, 65535, 65536, 65537, 70_003, 200_001, 1_048_577] {
        if sh.index != len % 8 {
            continue;
        }
        let m: BTreeMap<u32, (bool, u16)> = (0..len as u32).map(|k| (k * 3, (k % 2 == 0, sh.rng.next() as u16))).collect();
        let mut want = vec![];
        enc_nat0(&mut want, len as u64);
        for (k, (b, n)) in &m {
            enc_int(&mut want, *k as i64);
            want.push(*b as u8);
            enc_int(&mut want, *n as i64);
        }
        sh.case(|| format!("map and list of {len} bindings"));
        let v: Vec<(u32, (bool, u16))> = m.clone().into_iter().collect();
        match guarded(|| {
            let (mut a, mut b) = (vec![], vec![]);
            to_writer(&mut a, &m)?;
            to_writer(&mut b, &v)?;
            Ok::<_, bin_prot::error::Error>((a == want, b == want, from_reader::<_, BTreeMap<u32, (bool, u16)>>(want.as_slice())? == m, from_reader::<_, Vec<(u32, (bool, u16))>>(want.as_slice())? == v))
        }) {
            Ok(Ok((true, true, true, true))) => sh.count("long_maps"),
            o => sh.violation(&format!("{len} bindings did not survive (written as map, as list, read as map, as list): {o:?}")),
        }
        sh.observed(fnv(&want), true);
        sh.beat();
    }
}
/// Explicit integer-form annotations.
fn ints_with(sh: &mut Shard) {
    #[derive(Serialize)]
    struct A {
        #[serde(with = "bin_prot::integers::nat0")]
        n: u32,
        #[serde(with = "bin_prot::integers::integer")]
        i: i32,
    }
    for _ in 0..2000 {
        let a = A { n: gen_i64(&mut sh.rng) as u32, i: gen_i64(&mut sh.rng) as i32 };
        let mut want = vec![];
        enc_nat0(&mut want, a.n as u64);
        enc_int(&mut want, a.i as i64);
        let mut got = vec![];
        sh.case(|| format!("annotated integers {} {}", a.n, a.i));
        match guarded(|| to_writer(&mut got, &a)) {
            Ok(Ok(())) if got == want => sh.count("annotated_integers"),
            r => sh.violation(&format!("annotated integers: {r:?}, wrote {} instead of {}", hex(&got), hex(&want))),
        }
    }
}
#[allow(dead_code)]
fn _assert<'d, T: Deserialize<'d>>() {}
