//! C04: strict decoding consumes the stream exactly.
use crate::dynserde::*;
use crate::model::*;
use crate::streams::*;
use bin_prot::{error::Error, from_reader, from_reader_strict};
use mon::*;

fn one(sh: &mut Shard) {
    let d = sh.rng.range(0, 3);
    let t = gen_type(&mut sh.rng, d);
    let m = gen_value(&mut sh.rng, &t);
    let mut w = vec![];
    enc(&mut w, &t, &m);
    set_type(&t);
    let trailing = match sh.rng.below(8) {
        0 | 1 | 2 => 0,
        3 => 1,
        4 => sh.rng.range(1, 9),
        5 => 8192usize.saturating_sub(w.len()) + sh.rng.range(0, 3),
        6 => sh.rng.range(8100, 8300),
        _ => sh.rng.range(1, 40_000),
    };
    let n = w.len();
    let mut b = w.clone();
    b.extend(if sh.rng.bool() { vec![0; trailing] } else { sh.rng.bytes(trailing) });
    let mode = if sh.rng.chance(1, 4) { Mode::SplitAt(n) } else { gen_mode(&mut sh.rng, b.len()) };
    let intr = sh.rng.chance(1, 3);
    sh.case(|| format!("{t:?} wire {} + {trailing} trailing bytes, delivery {mode:?} interrupts {intr}", hex(&w)));
    let mut rd = ChunkReader::new(&b, mode, sh.rng.fork());
    rd.interrupts = intr;
    let got = guarded(|| from_reader_strict::<_, Any>(&mut rd));
    match got {
        Err(p) => sh.violation(&format!("strict decoding panicked: {p}")),
        Ok(Ok(Any(g))) => {
            if trailing > 0 {
                sh.violation(&format!("strict decoding accepted a stream with {trailing} unread trailing bytes"));
            }
            if g != m {
                sh.violation(&format!("strict decoding returned {g:?} instead of {m:?}"));
            }
            sh.count("exact_accepted");
        }
        Ok(Err(e)) => {
            if trailing == 0 {
                sh.violation(&format!("strict decoding refused an exact encoding: {e:?}"));
            }
            match e {
                Error::StreamNotFullyConsumed(k) if k >= 1 && k <= trailing => sh.count("trailing_reported"),
                e => sh.violation(&format!("trailing bytes reported as {e:?}")),
            }
        }
    }
    // the non-strict entry point returns the value and ignores what follows
    match guarded(|| from_reader::<_, Any>(b.as_slice())) {
        Ok(Ok(Any(g))) if g == m => sh.count("lenient_ok"),
        o => sh.violation(&format!("plain decoding with trailing bytes gave {o:?}")),
    }
    // truncated stream: never accepted by either entry point
    if n > 0 {
        let cut = sh.rng.below(n as u64) as usize;
        let short = &w[..cut];
        let want = dec(&mut Cur::new(short), &t);
        if want.is_err() {
            let mode = gen_mode(&mut sh.rng, cut);
            let mut rd = ChunkReader::new(short, mode, sh.rng.fork());
            match guarded(|| from_reader_strict::<_, Any>(&mut rd)) {
                Ok(Err(_)) => sh.count("truncated_refused"),
                o => sh.violation(&format!("truncated to {cut} of {n} bytes: strict decoding gave {o:?}")),
            }
        }
    }
    // an I/O fault exactly where the end of stream should be is not mistaken for it
    if sh.rng.chance(1, 4) {
        let k = *sh.rng.pick(FAULTS);
        let mut rd = ChunkReader::new(&w, mode, sh.rng.fork());
        rd.fault = Some((n, k));
        match guarded(|| from_reader_strict::<_, Any>(&mut rd)) {
            Ok(Err(Error::Io(e))) if e.kind() == k => sh.count("fault_at_end_reported"),
            o => sh.violation(&format!("fault {k:?} at the end of the stream: strict decoding gave {o:?}")),
        }
    }
    sh.observed(fnv(&w) ^ trailing as u64 ^ shape(&t), n > 0);
    if trailing > 0 {
        sh.sample(|| serde_json::json!({"type": format!("{t:?}"), "wire_bytes": n, "trailing": trailing, "delivery": format!("{mode:?}")}));
    }
}
pub fn run() {
    let r = start("C04", "exploration",
        "distinct (type, encoding, number of trailing bytes) triples delivered to strict decoding",
        &["streams are finite or end in an error", "zero-width types are included"]);
    for k in ["exact_accepted", "trailing_reported", "truncated_refused", "fault_at_end_reported"] {
        r.require(k, 1000);
    }
    r.par(8, |sh| {
        let n = if sh.thorough() { 1_500_000 } else { 30_000 };
        for _ in 0..n {
            one(sh);
        }
    });
    r.finish();
}
