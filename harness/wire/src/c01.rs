//! C01: integers. Oracle: the reference encoder/decoder in model.rs.
use crate::model::*;
use bin_prot::{from_reader, to_writer, ReadBinProtExt, WriteBinProtExt};
use mon::*;
use std::sync::Arc;

fn enc_ref_int(n: i64) -> Vec<u8> {
    let mut o = vec![];
    enc_int(&mut o, n);
    o
}
fn enc_ref_nat(n: u64) -> Vec<u8> {
    let mut o = vec![];
    enc_nat0(&mut o, n);
    o
}
macro_rules! rt {
    ($sh:expr,$n:expr,$t:ty,$wire:expr) => {{
        let n: $t = $n;
        let wire: Vec<u8> = $wire;
        $sh.case(|| format!("{} as {} expected wire {}", n, stringify!($t), hex(&wire)));
        let mut got = vec![];
        match guarded(|| to_writer(&mut got, &n)) {
            Ok(Ok(())) => {}
            e => $sh.violation(&format!("encoding {} {} failed: {:?}", stringify!($t), n, e)),
        }
        if got != wire {
            $sh.violation(&format!("{} {} encoded as {} instead of {}", stringify!($t), n, hex(&got), hex(&wire)));
        }
        match guarded(|| from_reader::<_, $t>(got.as_slice())) {
            Ok(Ok(m)) if m == n => {}
            e => $sh.violation(&format!("{} {} (wire {}) decoded to {:?}", stringify!($t), n, hex(&got), e)),
        }
        $sh.count(concat!("roundtrip_", stringify!($t)));
        $sh.observed(fnv(&wire) ^ fnv(stringify!($t).as_bytes()), wire.len() > 1);
    }};
}
macro_rules! low_int {
    ($sh:expr,$n:expr,$t:ty) => {{
        let n: $t = $n;
        let want = enc_ref_int(n as i64);
        let mut got = vec![];
        let c = guarded(|| got.bin_write_integer(n));
        match c {
            Ok(Ok(k)) if k == want.len() && got == want => {}
            e => $sh.violation(&format!("writing integer {} ({}) gave {} (returned {:?}), expected {} ({} bytes)", n, stringify!($t), hex(&got), e, hex(&want), want.len())),
        }
        match guarded(|| got.as_slice().bin_read_integer::<$t>()) {
            Ok(Ok(m)) if m == n => {}
            e => $sh.violation(&format!("reading back integer {} ({}) gave {:?}", n, stringify!($t), e)),
        }
        $sh.count("low_level_integer");
    }};
}
macro_rules! low_nat {
    ($sh:expr,$n:expr,$t:ty) => {{
        let n: $t = $n;
        let want = enc_ref_nat(n as u64);
        let mut got = vec![];
        let c = guarded(|| got.bin_write_nat0(n));
        match c {
            Ok(Ok(k)) if k == want.len() && got == want => {}
            e => $sh.violation(&format!("writing natural {} ({}) gave {} (returned {:?}), expected {}", n, stringify!($t), hex(&got), e, hex(&want))),
        }
        match guarded(|| got.as_slice().bin_read_nat0::<$t>()) {
            Ok(Ok(m)) if m == n => {}
            e => $sh.violation(&format!("reading back natural {} ({}) gave {:?}", n, stringify!($t), e)),
        }
        $sh.count("low_level_nat0");
    }};
}
fn all(sh: &mut Shard, n: i64) {
    rt!(sh, n, i64, enc_ref_int(n));
    rt!(sh, n as i32, i32, enc_ref_int(n as i32 as i64));
    rt!(sh, n as i16, i16, enc_ref_int(n as i16 as i64));
    rt!(sh, n as i8, i8, enc_ref_int(n as i8 as i64));
    rt!(sh, n as u8, u8, vec![n as u8]);
    rt!(sh, n as u16, u16, enc_ref_int(n as u16 as i64));
    rt!(sh, n as u32, u32, enc_ref_int(n as u32 as i64));
    rt!(sh, n as u64, u64, enc_ref_int(n));
    rt!(sh, n as isize, isize, enc_ref_int(n));
    low_int!(sh, n, i64);
    low_int!(sh, n as i32, i32);
    low_int!(sh, n as i16, i16);
    low_int!(sh, n as i8, i8);
    low_int!(sh, n as u8, u8);
    low_int!(sh, n as u16, u16);
    low_int!(sh, n as u32, u32);
    low_nat!(sh, n as u64, u64);
    low_nat!(sh, n as u32, u32);
    low_nat!(sh, n as u16, u16);
    low_nat!(sh, n as u8, u8);
}
macro_rules! dec_int {
    ($sh:expr,$b:expr,$t:ty) => {{
        let b: &[u8] = $b;
        let want: Option<$t> = Cur::new(b).int().ok().and_then(|v| <$t>::try_from(v).ok());
        let mut rest = b;
        let got = guarded(|| rest.bin_read_integer::<$t>());
        match (&want, &got) {
            (Some(w), Ok(Ok(g))) if w == g => {
                let mut c = Cur::new(b);
                let _ = c.int();
                if b.len() - rest.len() != c.p {
                    $sh.violation(&format!("reading integer {} from {} consumed {} bytes instead of {}", stringify!($t), hex(b), b.len() - rest.len(), c.p));
                }
                $sh.count("decode_accept");
            }
            (None, Ok(Err(_))) => $sh.count("decode_reject"),
            _ => $sh.violation(&format!("bytes {} read as {}: got {:?}, expected {:?}", hex(b), stringify!($t), got, want)),
        }
        $sh.observed(fnv(&b[..b.len().min(3)]) ^ fnv(stringify!($t).as_bytes()), true);
    }};
}
macro_rules! dec_nat {
    ($sh:expr,$b:expr,$t:ty) => {{
        let b: &[u8] = $b;
        let want: Option<$t> = Cur::new(b).nat0().ok().and_then(|v| <$t>::try_from(v).ok());
        let got = guarded(|| (&mut &b[..]).bin_read_nat0::<$t>());
        match (&want, &got) {
            (Some(w), Ok(Ok(g))) if w == g => $sh.count("decode_nat_accept"),
            (None, Ok(Err(_))) => $sh.count("decode_nat_reject"),
            _ => $sh.violation(&format!("bytes {} read as natural {}: got {:?}, expected {:?}", hex(b), stringify!($t), got, want)),
        }
    }};
}
/// Typed decoding into every width.
macro_rules! dec_typed {
    ($sh:expr,$b:expr,$t:ty) => {{
        let b: &[u8] = $b;
        let raw = Cur::new(b).int().ok();
        let want: Option<$t> = if stringify!($t) == "u64" { raw.map(|v| v as $t) } else { raw.and_then(|v| <$t>::try_from(v).ok()) };
        let got = guarded(|| from_reader::<_, $t>(b));
        match (&want, &got) {
            (Some(w), Ok(Ok(g))) if w == g => $sh.count("typed_accept"),
            (None, Ok(Err(_))) => $sh.count("typed_reject"),
            _ => $sh.violation(&format!("bytes {} decoded as {}: got {:?}, expected {:?}", hex(b), stringify!($t), got, want)),
        }
    }};
}
fn dec_all(sh: &mut Shard, b: &[u8]) {
    sh.case(|| format!("bytes {}", hex(b)));
    dec_int!(sh, b, i64);
    dec_int!(sh, b, i32);
    dec_int!(sh, b, i16);
    dec_int!(sh, b, i8);
    dec_int!(sh, b, u64);
    dec_int!(sh, b, u32);
    dec_int!(sh, b, u16);
    dec_int!(sh, b, u8);
    dec_nat!(sh, b, u64);
    dec_nat!(sh, b, u32);
    dec_nat!(sh, b, u16);
    dec_nat!(sh, b, u8);
    dec_typed!(sh, b, i64);
    dec_typed!(sh, b, i32);
    dec_typed!(sh, b, i16);
    dec_typed!(sh, b, i8);
    dec_typed!(sh, b, u64);
    dec_typed!(sh, b, u32);
    dec_typed!(sh, b, u16);
}
pub fn run() {
    let r = start("C01", "exploration",
        "distinct (integer type, wire bytes) pairs with a multi-byte encoding, plus distinct (type, leading bytes) decode attempts",
        &["reference encoder/decoder written from the bin_prot specification", "u64 values above i64::MAX travel as their two's-complement int64, as OCaml's Uint64 does"]);
    for k in ["roundtrip_i64", "roundtrip_u64", "roundtrip_u16", "low_level_nat0", "decode_accept", "decode_reject", "typed_reject", "typed_accept"] {
        r.require(k, 10_000);
    }
    r.par(8, |sh| {
        // every 16-bit-ish value, exhaustively, split across shards
        let lo = -70_000i64;
        let hi = 70_000i64;
        let mut n = lo + sh.index as i64;
        while n <= hi {
            all(sh, n);
            n += 8;
        }
        // windows around every power of two and around the type limits
        let w = if sh.thorough() { 2000 } else { 150 };
        for p in 0..64u32 {
            if p as usize % 8 != sh.index {
                continue;
            }
            for d in -w..=w {
                let base = (1i128 << p) as i64;
                all(sh, base.wrapping_add(d));
                all(sh, base.wrapping_neg().wrapping_add(d));
            }
        }
        let reps = if sh.thorough() { 1_500_000 } else { 40_000 };
        for _ in 0..reps {
            let n = gen_i64(&mut sh.rng);
            all(sh, n);
        }
        // every first byte with every payload length, including truncated ones
        let reps = if sh.thorough() { 4000 } else { 150 };
        for b0 in 0..=255u8 {
            if b0 as usize % 8 != sh.index {
                continue;
            }
            for len in 0..=9usize {
                for _ in 0..reps / 10 + 5 {
                    let mut b = vec![b0];
                    b.extend(sh.rng.bytes(len));
                    // bias the payload towards sign/width boundaries
                    for x in b[1..].iter_mut() {
                        if sh.rng.chance(1, 2) {
                            *x = *sh.rng.pick(&[0, 0xff, 0x80, 0x7f]);
                        }
                    }
                    dec_all(sh, &b);
                }
            }
        }
        // two-byte payloads of the 16-bit form, exhaustively
        for v in (sh.index as u32..65536).step_by(8) {
            dec_all(sh, &[0xfe, v as u8, (v >> 8) as u8]);
        }
        for v in 0..=255u8 {
            dec_all(sh, &[0xff, v]);
        }
        dec_all(sh, &[]);
        sh.sample(|| serde_json::json!({"i64": -129, "wire": hex(&enc_ref_int(-129))}));
        sh.sample(|| serde_json::json!({"u64": u64::MAX, "wire": hex(&enc_ref_int(-1))}));
    });
    let _ = Arc::strong_count(&r);
    r.finish();
}
