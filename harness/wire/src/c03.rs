//! C03: hostile bytes. Oracles: reference decoders (verdict and value), panic
//! monitor, allocation monitor, hang watchdog.
use crate::dynserde::*;
use crate::hostile::mutate;
use crate::lmodel::*;
use crate::model::*;
use bin_prot::{from_reader, from_reader_strict, BinProtRule, Deserializer, ReadBinProtExt, Value};
use mon::*;
use serde::de::DeserializeSeed;
use serde::Deserialize;

fn budget(n: usize) -> (usize, usize) {
    ((1 << 20) + 512 * n, (4 << 20) + 2048 * n)
}
fn typed(sh: &mut Shard) {
    let d = sh.rng.range(0, 4);
    let t = gen_type(&mut sh.rng, d);
    let (m1, m2) = (gen_value(&mut sh.rng, &t), gen_value(&mut sh.rng, &t));
    let (mut w1, mut w2) = (vec![], vec![]);
    enc(&mut w1, &t, &m1);
    enc(&mut w2, &t, &m2);
    set_type(&t);
    for _ in 0..12 {
        let b = mutate(&mut sh.rng, &w1, &w2);
        sh.case(|| format!("typed {t:?} bytes {}", hex(&b)));
        let mut c = Cur::new(&b);
        let want = dec(&mut c, &t);
        let lax = c.odd;
        let (s, l) = budget(b.len());
        let (got, peak, _) = with_budget(s, l, || guarded(|| from_reader::<_, Any>(b.as_slice())));
        match (&want, got) {
            (_, Err(p)) => sh.violation(&format!("decoding untrusted bytes panicked: {p}")),
            (Ok(m), Ok(Ok(Any(g)))) if *m == g => sh.count("typed_accepted"),
            (Err(_), Ok(Err(e))) => {
                let _ = e.to_string();
                sh.count("typed_rejected")
            }
            (w, Ok(g)) => {
                // an untagged (even) polymorphic-variant tag is outside the format: no verdict demanded
                if lax {
                    sh.count("typed_lax");
                } else {
                    sh.violation(&format!("decoder says {g:?} but the format says {w:?}"))
                }
            }
        }
        sh.count_n("peak_bytes_total", peak as u64);
        sh.observed(fnv(&b) ^ shape(&t), !b.is_empty());
        // the strict entry point never panics either, and agrees
        if sh.rng.chance(1, 3) {
            let (got, _, _) = with_budget(s, l, || guarded(|| from_reader_strict::<_, Any>(b.as_slice()).is_ok()));
            match got {
                Err(p) => sh.violation(&format!("strict decoding panicked: {p}")),
                Ok(ok) if !lax && ok != (want.is_ok() && c.p == b.len()) => {
                    sh.violation(&format!("strict decoding accepted={ok}, expected {}", want.is_ok() && c.p == b.len()))
                }
                Ok(_) => sh.count("strict_checked"),
            }
        }
        // a deserializer stays usable for the next value after an error: no panic
        if sh.rng.chance(1, 6) {
            let r = guarded(|| {
                let mut de = Deserializer::from_reader(b.as_slice());
                for _ in 0..4 {
                    let _ = Seed(&t).deserialize(&mut de);
                }
            });
            if let Err(p) = r {
                sh.violation(&format!("reading several values from damaged bytes panicked: {p}"));
            }
            sh.count("stream_after_error");
        }
    }
}
fn loose(sh: &mut Shard) {
    let d = sh.rng.range(0, 4);
    let bad = sh.rng.chance(1, 3);
    let l = if bad && sh.rng.chance(1, 5) {
        L::Bad(if sh.rng.chance(1, 6) { BadRule::BareCustom(vec![]) } else { gen_bad(&mut sh.rng, 1) })
    } else {
        gen_l(&mut sh.rng, d, bad)
    };
    let js = to_json(&l);
    let rule: BinProtRule = match guarded(|| serde_json::from_value(js.clone())) {
        Ok(Ok(r)) => r,
        e => sh.violation(&format!("a well-formed layout was not parsed: {e:?} layout {js}")),
    };
    let mut f = 400;
    let (v1, v2) = (gen_v(&mut sh.rng, &l, &mut f), gen_v(&mut sh.rng, &l, &mut 100));
    let (mut w1, mut w2) = (vec![], vec![]);
    venc(&mut w1, &l, &v1);
    venc(&mut w2, &l, &v2);
    for k in 0..12 {
        let b = if k == 0 { w1.clone() } else { mutate(&mut sh.rng, &w1, &w2) };
        sh.case(|| format!("layout {js} bytes {}", hex(&b)));
        let mut odd = false;
        let want = vdec(&mut Cur::new(&b), &l, &mut odd);
        let (s, lim) = budget(b.len() + js.to_string().len() * 8);
        let (got, _, _) = with_budget(s, lim, || {
            guarded(|| {
                let mut de = Deserializer::from_reader(b.as_slice()).with_layout(&rule);
                Value::deserialize(&mut de)
            })
        });
        match (&want, got) {
            (_, Err(p)) => sh.violation(&format!("layout-driven decoding of untrusted bytes panicked: {p}")),
            (Ok(m), Ok(Ok(g))) if veq(m, &g) => sh.count("loose_accepted"),
            (Err(_), Ok(Err(e))) => {
                let _ = e.to_string();
                sh.count(if has_bad(&l) { "loose_rejected_unsupported_layout" } else { "loose_rejected" })
            }
            (_, Ok(_)) if odd => sh.count("loose_lax"),
            (w, Ok(g)) => sh.violation(&format!("layout-driven decoder says {g:?} but the layout says {w:?}")),
        }
        sh.observed(fnv(&b) ^ fnv(js.to_string().as_bytes()), true);
    }
    if d >= 2 {
        sh.sample(|| serde_json::json!({"layout": js.to_string().chars().take(160).collect::<String>(), "valid_wire": hex(&w1).chars().take(80).collect::<String>()}));
    }
}
/// Length prefixes that promise far more than the input holds.
fn bombs(sh: &mut Shard) {
    let n: u64 = match sh.rng.below(5) {
        0 => u64::MAX - sh.rng.below(3),
        1 => i64::MAX as u64 - sh.rng.below(3),
        2 => 1 << sh.rng.range(24, 63),
        3 => u32::MAX as u64 + sh.rng.below(2),
        _ => sh.rng.next() | 1 << 33,
    };
    let mut b = vec![];
    enc_nat0(&mut b, n);
    let k = sh.rng.range(0, 40);
    b.extend(vec![0u8; k]);
    sh.case(|| format!("length bomb {n} followed by {k} bytes: {}", hex(&b)));
    let (s, l) = budget(b.len());
    macro_rules! die {
        ($name:expr, $e:expr) => {{
            let (got, _, _) = with_budget(s, l, || guarded(|| $e));
            match got {
                Err(p) => sh.violation(&format!("{}: claimed length {n} panicked: {p}", $name)),
                Ok(true) => sh.violation(&format!("{}: claimed length {n} with {k} bytes present was accepted", $name)),
                Ok(false) => sh.count("length_bombs"),
            }
        }};
    }
    die!("string", from_reader::<_, String>(b.as_slice()).is_ok());
    die!("Vec<u8>", from_reader::<_, Vec<u8>>(b.as_slice()).is_ok());
    die!("Vec<i64>", from_reader::<_, Vec<i64>>(b.as_slice()).is_ok());
    die!("Vec<[u8;32]>", from_reader::<_, Vec<[u8; 32]>>(b.as_slice()).is_ok());
    die!("Vec<(String,bool)>", from_reader::<_, Vec<(String, bool)>>(b.as_slice()).is_ok());
    die!("BTreeSet", from_reader::<_, std::collections::BTreeSet<u16>>(b.as_slice()).is_ok() && k < 1);
    die!("BTreeMap", from_reader::<_, std::collections::BTreeMap<u16, u8>>(b.as_slice()).is_ok());
    die!("HashMap<String,_>", from_reader::<_, std::collections::HashMap<String, Option<i64>>>(b.as_slice()).is_ok());
    die!("bin_read_string", (&mut b.as_slice()).bin_read_string().is_ok());
    die!("bin_read_bytes", (&mut b.as_slice()).bin_read_bytes().is_ok());
    for js in [r#"["String"]"#, r#"["List",["Bool"]]"#, r#"["List",["Record",[{"field_name":"a","field_rule":["String"]},{"field_name":"b","field_rule":["List",["Int"]]}]]]"#,
        r#"["List",["Sum",[{"ctor_name":"A","index":0,"ctor_args":[]}]]]"#, r#"["List",["Option",["Char"]]]"#] {
        let rule: BinProtRule = serde_json::from_str(js).unwrap();
        die!(js, Value::deserialize(&mut Deserializer::from_reader(b.as_slice()).with_layout(&rule)).is_ok());
    }
    sh.observed(n ^ k as u64, true);
}
/// Loose values without a layout, and requests the format cannot serve.
fn no_layout(sh: &mut Shard) {
    let k = sh.rng.range(0, 16);
    let b = sh.rng.bytes(k);
    sh.case(|| format!("Value without layout, bytes {}", hex(&b)));
    for (name, got) in [
        ("Value", guarded(|| from_reader::<_, Value>(b.as_slice()).is_ok())),
        ("Vec<Value>", guarded(|| from_reader::<_, Vec<Value>>([&[1u8][..], &b].concat().as_slice()).is_ok())),
        ("strict Value", guarded(|| from_reader_strict::<_, Value>(b.as_slice()).is_ok())),
    ] {
        match got {
            Ok(false) => sh.count("no_layout_refused"),
            Ok(true) => sh.violation(&format!("{name} was decoded without any layout")),
            Err(p) => sh.violation(&format!("{name} without a layout panicked: {p}")),
        }
    }
    sh.observed(fnv(&b) ^ 77, true);
}
pub fn run() {
    let r = start("C03", "exploration",
        "distinct (type or layout, hostile byte string) pairs on which verdict, value, panic and memory monitors ran",
        &["sequence elements occupy at least one byte", "inputs in the latitude of the format (untagged polymorphic-variant tags, Int32 out of range) carry no verdict",
          "memory budget: 1 MiB + 512 B per input byte for one request, 4 MiB + 2 KiB per input byte live"]);
    for k in ["typed_accepted", "typed_rejected", "loose_accepted", "loose_rejected", "loose_rejected_unsupported_layout", "length_bombs", "strict_checked", "no_layout_refused"] {
        r.require(k, 1000);
    }
    r.par(8, |sh| {
        let n = if sh.thorough() { 400_000 } else { 9_000 };
        for i in 0..n {
            typed(sh);
            loose(sh);
            if i % 8 == 0 {
                bombs(sh);
            }
            if i % 16 == 0 {
                no_layout(sh);
            }
        }
    });
    r.finish();
}
