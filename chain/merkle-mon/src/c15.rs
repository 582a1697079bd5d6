//! C15: field elements as text, and the packing of hash inputs into field elements.
use mon::*;
use num::{bigint::BigUint, One, Zero};
use proof_systems::{bitvec::prelude::*, fp_from_radix_10, mina_hasher::Fp, mina_hasher::ROInput, o1_utils::FieldHelpers, ChunkedROInput, FpJson};

fn modulus() -> BigUint {
    BigUint::parse_bytes(b"40000000000000000000000000000000224698fc094cf91b992d30ed00000001", 16).unwrap()
}
/// Below the modulus, with the interesting ends.
fn any_number(r: &mut Rng) -> BigUint {
    let p = modulus();
    match r.below(8) {
        0 => BigUint::from(r.below(3)),
        1 => &p - BigUint::from(1 + r.below(3)),
        2 => BigUint::from(r.next()),
        3 => (BigUint::one() << r.range(0, 253)) - BigUint::from(r.below(2)),
        _ => BigUint::from_bytes_le(&r.bytes(32)) % &p,
    }
}
fn fp(n: &BigUint) -> Fp {
    let mut b = n.to_bytes_le();
    b.resize(32, 0);
    Fp::from_bytes(&b).expect("below the modulus")
}
fn num(f: &Fp) -> BigUint {
    BigUint::from_bytes_le(&f.to_bytes())
}

fn text(sh: &mut Shard) {
    let n = any_number(&mut sh.rng);
    let want = fp(&n);
    let dec = n.to_str_radix(10);
    sh.case(|| format!("field element {dec}"));
    match guarded(|| serde_json::to_string(&FpJson(want)).unwrap()) {
        Ok(s) if s == format!("\"{dec}\"") => {}
        o => sh.violation(&format!("written as {o:?}")),
    }
    match guarded(|| serde_json::from_str::<FpJson>(&format!("\"{dec}\""))) {
        Ok(Ok(FpJson(f))) if f == want => {}
        o => sh.violation(&format!("read back as {o:?}")),
    }
    match guarded(|| fp_from_radix_10(&dec)) {
        Ok(Ok(f)) if f == want => {}
        o => sh.violation(&format!("fp_from_radix_10 gave {o:?}")),
    }
    sh.count("decimals");
    sh.observed(fnv(dec.as_bytes()), true);
    // anything that is not a number below the modulus is an error
    let bad = match sh.rng.below(6) {
        0 => (modulus() + BigUint::from(sh.rng.below(3))).to_str_radix(10),
        1 => (BigUint::one() << sh.rng.range(255, 600)).to_str_radix(10),
        2 => ((BigUint::one() << 256usize) - BigUint::one()).to_str_radix(10),
        3 => format!("-{dec}"),
        4 => format!("{dec}{}", sh.rng.pick(&["a", " ", ".0", "e1", "é"])),
        _ => sh.rng.pick(&["", " ", "0x10", "one", "-"]).to_string(),
    };
    sh.case(|| format!("text {bad:?}"));
    match guarded(|| serde_json::from_str::<FpJson>(&format!("\"{bad}\"")).is_err()) {
        Ok(true) => {}
        o => sh.violation(&format!("{bad:?} is not a field element, but reading it gave {:?}", o.map(|_| "a value"))),
    }
    match guarded(|| fp_from_radix_10(&bad).is_err()) {
        Ok(true) => {}
        o => sh.violation(&format!("{bad:?} is not a field element, but fp_from_radix_10 gave {:?}", o.map(|_| "a value"))),
    }
    sh.count("refused_texts");
}

/// The packing of the Mina protocol: fields first, then the packed values in
/// order, each appended below the previous ones while less than 255 bits are used.
fn reference(fields: &[BigUint], packed: &[(BigUint, u32)]) -> Vec<BigUint> {
    let mut out = fields.to_vec();
    let mut acc = BigUint::zero();
    let mut used = 0;
    for (x, n) in packed {
        if used + n < 255 {
            acc = (acc << *n as usize) + x;
            used += n;
        } else {
            out.push(acc);
            acc = x.clone();
            used = *n;
        }
    }
    if used > 0 {
        out.push(acc);
    }
    out
}

fn packing(sh: &mut Shard) {
    let mut fields = vec![];
    let mut packed: Vec<(BigUint, u32)> = vec![];
    let mut log = String::new();
    fn build(r: &mut Rng, log: &mut String, fields: &mut Vec<BigUint>, packed: &mut Vec<(BigUint, u32)>, depth: u32) -> ChunkedROInput {
        let mut c = ChunkedROInput::new();
        for _ in 0..r.range(0, 12) {
            match r.below(if depth == 0 { 7 } else { 6 }) {
                0 => {
                    let n = any_number(r);
                    *log += &format!(" field {n}");
                    c = c.append_field(fp(&n));
                    fields.push(n);
                }
                1 => {
                    let b = r.bool();
                    *log += &format!(" bool {b}");
                    c = c.append_bool(b);
                    packed.push((BigUint::from(b as u8), 1));
                }
                2 => {
                    let x = if r.bool() { r.next() as u32 } else { *r.pick(&[0, 1, u32::MAX, 1 << 31]) };
                    *log += &format!(" u32 {x}");
                    c = c.append_u32(x);
                    packed.push((BigUint::from(x), 32));
                }
                3 => {
                    let x = if r.bool() { r.next() } else { *r.pick(&[0, 1, u64::MAX, 1 << 63]) };
                    *log += &format!(" u64 {x}");
                    c = c.append_u64(x);
                    packed.push((BigUint::from(x), 64));
                }
                4 => {
                    let n = r.range(0, 40);
                    let b = r.bytes(n);
                    *log += &format!(" bytes {}", hex(&b));
                    c = c.append_bytes(&b);
                    for x in b {
                        for i in 0..8 {
                            packed.push((BigUint::from(x >> i & 1), 1));
                        }
                    }
                }
                5 => {
                    let bits = *r.pick(&[1u32, 5, 63, 100, 190, 222, 223, 252, 253, 254]);
                    let x = match r.below(3) {
                        0 => (BigUint::one() << bits as usize) - BigUint::one(),
                        1 => BigUint::zero(),
                        _ => BigUint::from_bytes_le(&r.bytes(32)) % (BigUint::one() << bits as usize),
                    };
                    *log += &format!(" packed {x}/{bits}");
                    c = c.append_packed(fp(&x), bits);
                    packed.push((x, bits));
                }
                _ => {
                    *log += " (";
                    let (mut f, mut p) = (vec![], vec![]);
                    let o = build(r, log, &mut f, &mut p, 1);
                    *log += " )";
                    c = c.append(o);
                    fields.extend(f);
                    packed.extend(p);
                }
            }
        }
        c
    }
    let c = match guarded(|| build(&mut sh.rng, &mut log, &mut fields, &mut packed, 0)) {
        Ok(c) => c,
        Err(p) => sh.violation(&format!("appending panicked: {p}; input{log}")),
    };
    sh.case(|| format!("input{log}"));
    let want = reference(&fields, &packed);
    let got = match guarded(|| c.clone().into_fields()) {
        Ok(g) => g.iter().map(num).collect::<Vec<_>>(),
        Err(p) => sh.violation(&format!("into_fields panicked: {p}")),
    };
    if got != want {
        sh.violation(&format!("packed into {got:?} instead of {want:?}"));
    }
    let roi: ROInput = c.into();
    if roi.to_fields().iter().map(num).collect::<Vec<_>>() != want {
        sh.violation("the hash input made from it has other fields");
    }
    sh.count("packings");
    if want.len() > fields.len() + 1 {
        sh.count("packings_over_several_fields");
    }
    sh.observed(fnv(log.as_bytes()), packed.len() > 1);
    sh.sample(|| serde_json::json!({"input": log.chars().take(200).collect::<String>(), "fields": want.len()}));
}

fn bits(sh: &mut Shard) {
    let n = *sh.rng.pick(&[0usize, 1, 7, 8, 9, 31, 64, 200, 247, 248, 249, 253, 254, 255, 256, 257, 300]);
    let ones = sh.rng.chance(1, 4);
    let b: Vec<bool> = (0..n).map(|_| ones || sh.rng.bool()).collect();
    let mut v: BitVec<u8> = b.iter().copied().collect();
    if sh.rng.bool() {
        // a vector that was longer before
        for _ in 0..sh.rng.range(1, 20) {
            v.push(true);
        }
        v.truncate(n);
    }
    let mut x = BigUint::zero();
    for (i, b) in b.iter().enumerate() {
        if *b {
            x += BigUint::one() << i;
        }
    }
    let expect = (n <= 255 && x < modulus()).then_some(x);
    sh.case(|| format!("{n} bits, the number is {expect:?}"));
    match guarded(|| ChunkedROInput::bits_to_fp(v)) {
        Ok(r) if r.as_ref().ok().map(num) == expect => sh.count("bit_vectors"),
        o => sh.violation(&format!("bits_to_fp gave {:?}", o.map(|r| r.map(|f| num(&f)).map_err(|e| e.to_string())))),
    }
    sh.observed(fnv(&[n as u8, (n >> 8) as u8]) ^ expect.map_or(0, |x| fnv(&x.to_bytes_le())), true);
}

pub fn run() {
    let run = start("C15", "exploration", "one evaluation converts one text, bit vector or hash input and compares it with big-integer arithmetic; distinct by content", &["packed values fit the declared number of bits", "the field arithmetic is a stand-in for ark-ff with the real modulus"]);
    let n = if run.thorough { 600_000 } else { 25_000 };
    run.par(threads(), move |sh| {
        for _ in 0..n {
            text(sh);
            packing(sh);
            bits(sh);
        }
    });
    for k in ["decimals", "refused_texts", "packings", "packings_over_several_fields", "bit_vectors"] {
        run.require(k, 100);
    }
    run.finish()
}
