//! C05: results do not depend on how the stream is cut up, and I/O faults are
//! reported faithfully with an exact prefix written.
use crate::dynserde::*;
use crate::lmodel::*;
use crate::model::*;
use crate::streams::*;
use bin_prot::{error::Error, from_reader, to_writer, BinProtRule, Deserializer, Value};
use mon::*;
use serde::Deserialize;
use std::io::{ErrorKind, Read};

#[derive(Debug)]
enum Want<'a> {
    Typed(&'a T, &'a M),
    Loose(&'a BinProtRule, &'a Value),
}
fn decode<R: Read>(w: &Want, rd: R) -> Result<bool, Error> {
    match w {
        Want::Typed(t, m) => {
            set_type(t);
            from_reader::<_, Any>(rd).map(|Any(g)| g == **m)
        }
        Want::Loose(rule, v) => {
            let mut de = Deserializer::from_reader(rd).with_layout(rule);
            Value::deserialize(&mut de).map(|g| veq(&g, v))
        }
    }
}
fn check(sh: &mut Shard, w: &Want, wire: &[u8], fp: u64) {
    let n = wire.len();
    for _ in 0..3 {
        let mode = gen_mode(&mut sh.rng, n);
        let intr = sh.rng.bool();
        // trailing bytes belong to the next message: present or not, same result
        let extra = if sh.rng.bool() { sh.rng.range(0, 30) } else { 0 };
        let mut b = wire.to_vec();
        b.extend(sh.rng.bytes(extra));
        let mut rd = ChunkReader::new(&b, mode, sh.rng.fork());
        rd.interrupts = intr;
        sh.case(|| format!("{w:?} wire {} delivery {mode:?} interrupts {intr}", hex(wire)));
        match guarded(|| decode(w, &mut rd)) {
            Ok(Ok(true)) => {}
            o => sh.violation(&format!("delivery {mode:?} (interrupts {intr}) changed the result: {o:?}")),
        }
        sh.count("deliveries");
        sh.count_n("interrupted_reads", rd.interrupted);
        sh.count_n("short_reads", rd.short_reads);
        sh.observed(fp ^ fnv(format!("{mode:?}{intr}").as_bytes()), n > 1);
    }
    // fault or truncation at offset k
    for _ in 0..3 {
        let k = if n == 0 { 0 } else { sh.rng.below(n as u64 + 1) as usize };
        let kind = *sh.rng.pick(FAULTS);
        let mode = gen_mode(&mut sh.rng, n);
        sh.case(|| format!("{w:?} wire {} fault {kind:?} at {k} delivery {mode:?}", hex(wire)));
        let mut rd = ChunkReader::new(wire, mode, sh.rng.fork());
        rd.interrupts = sh.rng.chance(1, 3);
        rd.fault = Some((k, kind));
        match (k < n, guarded(|| decode(w, &mut rd))) {
            (true, Ok(Err(Error::Io(e)))) if e.kind() == kind => sh.count("read_faults_reported"),
            (false, Ok(Ok(true))) => sh.count("complete_before_fault"),
            (_, o) => sh.violation(&format!("read fault {kind:?} after {k} of {n} bytes gave {o:?}")),
        }
        if k < n {
            let mut rd = ChunkReader::new(&wire[..k], mode, sh.rng.fork());
            match guarded(|| decode(w, &mut rd)) {
                Ok(Err(Error::Io(e))) if e.kind() == ErrorKind::UnexpectedEof => sh.count("truncations_reported"),
                Ok(Err(Error::EndOfStream)) => sh.count("truncations_reported"),
                o => sh.violation(&format!("stream ending after {k} of {n} bytes gave {o:?}")),
            }
        }
        sh.observed(fp ^ (k as u64) << 20 ^ kind as u64, true);
    }
    // writing
    let put = |o: &mut ChunkWriter| match w {
        Want::Typed(t, m) => to_writer(o, &Dyn(t, m)),
        Want::Loose(_, v) => to_writer(o, v),
    };
    for _ in 0..3 {
        let max = *sh.rng.pick(&[1, 2, 3, 5, 8, 64]);
        let mut o = ChunkWriter::new(max, sh.rng.fork());
        o.interrupts = sh.rng.bool();
        sh.case(|| format!("{w:?} expected wire {} writer accepts at most {max} bytes per call", hex(wire)));
        match guarded(|| put(&mut o)) {
            Ok(Ok(())) if o.out == wire => {}
            r => sh.violation(&format!("a writer accepting at most {max} bytes per call received {} (result {r:?})", hex(&o.out))),
        }
        sh.count("partial_write_runs");
        sh.count_n("partial_writes", o.partial);
        if n > 0 {
            let k = sh.rng.below(n as u64) as usize;
            let kind = *sh.rng.pick(FAULTS);
            let mut o = ChunkWriter::new(max, sh.rng.fork());
            let zero = sh.rng.chance(1, 4);
            if zero {
                o.zero_at = Some(k);
            } else {
                o.fault = Some((k, kind));
            }
            sh.case(|| format!("{w:?} expected wire {} writer fails ({kind:?}, zero={zero}) at {k}", hex(wire)));
            let r = guarded(|| put(&mut o));
            let ok = match &r {
                Ok(Err(Error::Io(e))) => zero || e.kind() == kind,
                _ => false,
            };
            if !ok {
                sh.violation(&format!("write fault {kind:?} (zero={zero}) after {k} of {n} bytes gave {r:?}"));
            }
            if o.out != wire[..k] {
                sh.violation(&format!("before the write fault at {k} the writer received {} instead of the prefix of {}", hex(&o.out), hex(wire)));
            }
            sh.count("write_faults_reported");
        }
    }
}
pub fn run() {
    let r = start("C05", "exploration",
        "distinct (value, delivery pattern) and (value, fault position, fault kind) combinations",
        &["readers and writers obey the std::io contract", "Interrupted is retried as std::io does"]);
    for k in ["deliveries", "short_reads", "interrupted_reads", "read_faults_reported", "complete_before_fault", "truncations_reported", "partial_writes", "write_faults_reported"] {
        r.require(k, 1000);
    }
    r.par(8, |sh| {
        let n = if sh.thorough() { 250_000 } else { 7_000 };
        for _ in 0..n {
            let d = sh.rng.range(0, 3);
            let t = gen_type(&mut sh.rng, d);
            let m = gen_value(&mut sh.rng, &t);
            let mut w = vec![];
            enc(&mut w, &t, &m);
            check(sh, &Want::Typed(&t, &m), &w, fnv(&w) ^ shape(&t));
            let d = sh.rng.range(0, 3);
            let l = gen_l(&mut sh.rng, d, false);
            let rule: BinProtRule = serde_json::from_value(to_json(&l)).unwrap();
            let v = gen_v(&mut sh.rng, &l, &mut 300);
            let mut w = vec![];
            venc(&mut w, &l, &v);
            check(sh, &Want::Loose(&rule, &v), &w, fnv(&w));
            sh.sample(|| serde_json::json!({"layout": format!("{l:?}").chars().take(160).collect::<String>(), "wire": hex(&w).chars().take(80).collect::<String>()}));
        }
    });
    r.finish();
}
