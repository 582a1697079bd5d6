use crate::gende::make;
use crate::lmodel::{gen_v, vdec, venc, veq, L};
use crate::model::Cur;
use crate::tree::*;
use bin_prot::Value;
use mina_serialization_types::v1::*;
use mon::{fnv, guarded, hex, Shard};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::json;
use std::sync::Arc;

/// Summands of the protocol that the types do not cover (the sources say so).
const UNCOVERED: &[&str] = &["Snapp_command", "Create_new_token", "Create_token_account", "Mint_tokens"];

fn ref_dec(l: &L, b: &[u8]) -> Option<Value> {
    let mut c = Cur::new(b);
    let mut odd = false;
    let v = vdec(&mut c, l, &mut odd).ok()?;
    (c.p == b.len()).then_some(v)
}
fn two_none(v: &Value) -> bool {
    let mut hit = false;
    sums(v, &mut |n, a| hit |= n == "Two" && matches!(a, [Value::Option(None)]));
    hit
}
/// Every check on one typed value whose layout is known.
fn typed<T: Serialize + DeserializeOwned + PartialEq + std::fmt::Debug + Clone>(sh: &mut Shard, l: &L, t: &T, what: &'static str) -> Vec<u8> {
    let bytes = match guarded(|| {
        let mut b = vec![];
        bin_prot::to_writer(&mut b, t).map(|_| b)
    }) {
        Ok(Ok(b)) => b,
        e => sh.violation(&format!("{what}: not written: {}", short(&format!("{e:?}")))),
    };
    sh.case(|| format!("{what} bytes {}", hex(&bytes)));
    match guarded(|| bin_prot::from_reader_strict::<_, T>(bytes.as_slice())) {
        Ok(Ok(u)) if &u == t => {}
        e => sh.violation(&format!("{what}: does not read back what it wrote: {}", short(&format!("{e:?}")))),
    }
    let tree = serde_json::to_value(t).unwrap();
    let Some(v) = ref_dec(l, &bytes) else {
        if known_shape(sh, &tree, what) {
            return bytes;
        }
        let mut c = Cur::new(&bytes);
        let _ = vdec(&mut c, l, &mut false);
        sh.violation(&format!("{what}: bytes are not a value of the protocol layout: refused near byte {} of {}: {}", c.p, bytes.len(), hex(&bytes[c.p.saturating_sub(30)..bytes.len().min(c.p + 10)])))
    };
    if let Err(e) = matches(&v, &tree, &mut vec![]) {
        if known_shape(sh, &tree, what) {
            return bytes;
        }
        sh.violation(&format!("{what}: the layout reads the bytes differently: {e}"))
    }
    sh.count("typed values");
    bytes
}
/// Recorded findings, recognised by the value they need.
fn known_shape(sh: &mut Shard, tree: &serde_json::Value, what: &str) -> bool {
    fn any(j: &serde_json::Value, f: &dyn Fn(&serde_json::Value) -> bool) -> bool {
        f(j) || match j {
            serde_json::Value::Array(a) => a.iter().any(|x| any(x, f)),
            serde_json::Value::Object(o) => o.values().any(|x| any(x, f)),
            _ => false,
        }
    }
    if any(tree, &|j| j.get("Two").and_then(|x| x.as_array()).is_some_and(|a| a.len() == 2 && a[0].is_null())) {
        sh.finding_or_violation("coinbase-two-none", &format!("{what}: coinbase Two(None) is not encoded as the layout says"));
        return true;
    }
    false
}
/// Bytes made from the layout must be read as exactly what they say.
fn from_layout<T: Serialize + DeserializeOwned + PartialEq + std::fmt::Debug>(sh: &mut Shard, l: &L, what: &'static str) {
    let mut fuel = 300;
    let mut v = gen_v(&mut sh.rng, l, &mut fuel);
    tame(&mut v);
    let mut b = vec![];
    venc(&mut b, l, &v);
    sh.case(|| format!("{what} from layout {}", hex(&b)));
    let mut uncovered = false;
    sums(&v, &mut |n, _| uncovered |= UNCOVERED.contains(&n));
    let back = ref_dec(l, &b);
    if !back.is_some_and(|x| veq(&x, &v)) {
        die("layout model does not round trip");
    }
    match guarded(|| bin_prot::from_reader_strict::<_, T>(b.as_slice())) {
        Err(e) => sh.violation(&format!("{what}: panic on valid bytes: {e}")),
        Ok(Err(e)) => {
            if uncovered {
                sh.count("uncovered summand refused");
            } else if two_none(&v) {
                sh.finding_or_violation("coinbase-two-none", &format!("{what}: {e}"));
            } else {
                sh.violation(&format!("{what}: valid bytes refused: {e}"))
            }
        }
        Ok(Ok(t)) => {
            if uncovered {
                sh.violation(&format!("{what}: a summand the types do not cover was accepted as something else"))
            }
            let tree = serde_json::to_value(&t).unwrap();
            if let Err(e) = matches(&v, &tree, &mut vec![]) {
                if two_none(&v) {
                    sh.finding_or_violation("coinbase-two-none", &format!("{what}: {e}"));
                    return;
                }
                sh.violation(&format!("{what}: read differently from what the layout says: {e}"))
            }
            let mut o = vec![];
            bin_prot::to_writer(&mut o, &t).unwrap();
            if o != b {
                sh.violation(&format!("{what}: re-encoding gives {}", hex(&o)))
            }
            sh.observed(fnv(&b), b.len() > 40);
            sh.count("layout values");
        }
    }
}
/// Keep generated layout values in the range the types document: versions are
/// 1, parts of a protocol version and 32-bit numbers are below 2^31 and 64-bit ones below 2^63 unless signed.
fn tame(v: &mut Value) {
    match v {
        Value::Option(Some(x)) => tame(x),
        Value::Record(r) => {
            for (k, x) in r.iter_mut() {
                tame(x);
                match x {
                    Value::Int(n) if k == "version" => *n = 1,
                    Value::Int(n) if ["major", "minor", "patch"].contains(&k.as_str()) => *n &= 0x7fff_ffff,
                    _ => {}
                }
            }
        }
        Value::Tuple(a) | Value::List(a) => a.iter_mut().for_each(tame),
        Value::Sum { value, .. } | Value::Polyvar { value, .. } => tame(value),
        Value::Int(n) => *n = (*n).max(-(*n).saturating_add(1)).max(0),
        _ => {}
    }
}
fn native<N, T>(sh: &mut Shard, t: &T, what: &'static str)
where
    T: Clone + PartialEq + From<N>,
    N: From<T> + Clone + PartialEq,
{
    let t = t.clone();
    let r = guarded(|| {
        let n: N = t.clone().into();
        let back: T = n.clone().into();
        let n2: N = back.clone().into();
        (back == t, n2 == n)
    });
    match r {
        Ok((true, true)) => sh.count("native conversions"),
        Ok(_) => sh.violation(&format!("{what}: conversion to the native type and back changes the value")),
        Err(e) => sh.violation(&format!("{what}: conversion panics: {e}")),
    }
}
/// A random block. The protocol allows at most one coinbase part in the second pre-diff.
pub fn block(r: &mut mon::Rng, fuel: i64, ascii: bool) -> ExternalTransitionV1 {
    use mina_serialization_types::staged_ledger_diff::CoinBase;
    let mut t: ExternalTransitionV1 = make(r, fuel, ascii);
    if let Some(d) = t.t.staged_ledger_diff.t.diff.t.1.as_mut() {
        if let CoinBase::Two(a, _) = d.t.t.coinbase.t.clone() {
            d.t.t.coinbase.t = CoinBase::One(a);
        }
    }
    t
}
struct Ls {
    et: L,
    ps: L,
    sw: L,
}
fn shipped(sh: &mut Shard, ls: &Ls, i: u64) {
    let dir = format!("{}/protocol/test-fixtures/src/data", mon::repo_dir());
    let mut names: Vec<_> = std::fs::read_dir(&dir).unwrap_or_else(|_| die("no shipped blocks")).filter_map(|e| e.ok()?.file_name().into_string().ok()).filter(|n| n.ends_with(".hex") || n == "block1").collect();
    names.sort();
    for (k, n) in names.iter().enumerate() {
        if k as u64 % mon::threads() as u64 != i {
            continue;
        }
        let raw = std::fs::read(format!("{dir}/{n}")).unwrap();
        let b = if n == "block1" { raw } else { ::hex::decode(raw.trim_ascii()).unwrap_or_else(|_| die("bad hex")) };
        sh.case(|| format!("shipped block {n}"));
        let t: ExternalTransitionV1 = match guarded(|| bin_prot::from_reader_strict(b.as_slice())) {
            Ok(Ok(t)) => t,
            e => sh.violation(&format!("shipped block {n} is not read: {}", short(&format!("{e:?}")))),
        };
        let o = typed(sh, &ls.et, &t, "shipped block");
        if o != b {
            sh.violation(&format!("shipped block {n} is not written back identically"))
        }
        native::<mina_rs_base::types::ExternalTransition, _>(sh, &t, "shipped block");
        for _ in 0..20 {
            hostile(sh, &ls.et, &b, "shipped block");
        }
        use mina_serialization_types::BinProtSerializationType;
        let r = guarded(|| mina_rs_base::types::ExternalTransition::try_from_binprot(b.as_slice()).and_then(|n| n.try_into_binprot()));
        if !matches!(&r, Ok(Ok(x)) if x == &b) {
            sh.violation(&format!("shipped block {n}: the native type does not write back what it read"))
        }
        sh.observed(fnv(&b), true);
        sh.count("shipped blocks");
    }
}
/// Damaged bytes are a value or an error, never a panic, for the types and the native types alike.
fn hostile(sh: &mut Shard, l: &L, b: &[u8], what: &'static str) {
    use mina_serialization_types::BinProtSerializationType;
    for _ in 0..6 {
        let mut m = b.to_vec();
        let n = m.len();
        for _ in 0..1 + sh.rng.below(2) {
            let i = sh.rng.below(m.len().max(1) as u64) as usize;
            match sh.rng.below(6) {
                0 if n > 0 => m.truncate(i),
                1 if i < m.len() => m[i] ^= 1 << sh.rng.below(8),
                2 if i < m.len() => m[i] = sh.rng.below(256) as u8,
                3 if i < m.len() => m[i] = [0xfc, 0xfd, 0xfe, 0xff, 0, 2][sh.rng.below(6) as usize],
                4 => m.insert(i, sh.rng.below(256) as u8),
                _ if i < m.len() => {
                    m.remove(i);
                }
                _ => {}
            }
        }
        sh.case(|| format!("{what} damaged {}", hex(&m)));
        match guarded(|| bin_prot::from_reader_strict::<_, ExternalTransitionV1>(m.as_slice())) {
            Err(e) => sh.violation(&format!("{what}: reading damaged bytes panics: {e}")),
            Ok(Err(_)) => sh.count("damaged bytes refused"),
            Ok(Ok(t)) => {
                // whatever is accepted is what the layout says the bytes say
                typed(sh, l, &t, what);
                if let Some(v) = ref_dec(l, &m) {
                    if matches(&v, &serde_json::to_value(&t).unwrap(), &mut vec![]).is_err() && !two_none(&v) {
                        sh.violation(&format!("{what}: damaged bytes are read differently from what the layout says"))
                    }
                }
                sh.count("damaged bytes accepted");
            }
        }
        match guarded(|| mina_rs_base::types::ExternalTransition::try_from_binprot(m.as_slice()).is_ok()) {
            Ok(_) => sh.count("damaged bytes to native"),
            Err(e) if e.contains("Wrong number of bytes") => sh.finding_or_violation("key-not-below-modulus", &format!("{what}: native conversion panics: {}", short(&e))),
            Err(e) => sh.violation(&format!("{what}: native reading of damaged bytes panics: {e}")),
        }
        sh.observed(fnv(&m), true);
    }
}
macro_rules! part {
    ($sh:expr, $l:expr, $t:ty, $n:expr) => {{
        if $sh.rng.chance(1, 3) {
            from_layout::<$t>($sh, $l, $n);
        } else {
            let t: $t = make(&mut $sh.rng, 400, false);
            let b = typed($sh, $l, &t, $n);
            $sh.observed(fnv(&b), b.len() > 40);
        }
    }};
    ($sh:expr, $l:expr, $t:ty, $n:expr, $nat:ty) => {{
        if $sh.rng.chance(1, 3) {
            from_layout::<$t>($sh, $l, $n);
        } else {
            let t: $t = make(&mut $sh.rng, 400, false);
            let b = typed($sh, $l, &t, $n);
            native::<$nat, $t>($sh, &t, $n);
            $sh.observed(fnv(&b), b.len() > 40);
        }
    }};
}
pub fn run() {
    let run = mon::start(
        "C16",
        "exploration",
        "a block (or part) counts as distinct by the hash of its bytes, and as non-trivial when it has more than 40 bytes",
        &[
            "the layout files in protocol/layouts state the wire form of the protocol",
            "32-bit counters are below 2^31 and amounts below 2^63 where bytes are made from the layout (the sources document the gap)",
            "bin_prot itself is judged by C01-C09",
        ],
    );
    let ls = Arc::new(Ls { et: layout("external_transition"), ps: layout("protocol_state"), sw: layout("snark_work") });
    let done = Arc::new(std::sync::atomic::AtomicU64::new(0));
    run.par(mon::threads(), move |sh| {
        let id = done.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        shipped(sh, &ls, id);
        let diff = at(&ls.et, &["staged_ledger_diff", "diff", "0"]);
        let cmd = at(diff, &["commands", "*"]);
        let data = at(cmd, &["data"]);
        let status = at(cmd, &["status"]);
        let sc = at(data, &["Signed_command"]);
        let cb = at(diff, &["coinbase"]);
        let icb = at(diff, &["internal_command_balances", "*"]);
        let proof = at(&ls.et, &["protocol_state_proof"]);
        let dtcp = at(&ls.et, &["delta_transition_chain_proof"]);
        let blocks = if sh.thorough() { 6000 } else { 250 };
        use mina_rs_base::types as n;
        for i in 0..blocks {
            sh.beat();
            if i % 2 == 0 {
                let fuel = [200, 1500, 6000][sh.rng.below(3) as usize];
                let t = block(&mut sh.rng, fuel, false);
                let b = typed(sh, &ls.et, &t, "block");
                native::<n::ExternalTransition, _>(sh, &t, "block");
                sh.observed(fnv(&b), b.len() > 40);
                sh.count("blocks");
                hostile(sh, &ls.et, &b, "block");
                if i < 2 {
                    sh.sample(|| json!({"block_bytes": b.len(), "commands": t.t.staged_ledger_diff.t.diff.t.0.t.t.commands.len()}));
                }
            } else {
                from_layout::<ExternalTransitionV1>(sh, &ls.et, "block");
            }
            for _ in 0..3 {
                part!(sh, diff, StagedLedgerPreDiffV1, "pre-diff", n::StagedLedgerPreDiff);
                part!(sh, &ls.ps, ProtocolStateV1, "protocol state", n::ProtocolStateLegacy);
                part!(sh, &ls.sw, TransactionSnarkWorkV1, "snark work", n::TransactionSnarkWork);
                part!(sh, proof, ProtocolStateProofV1, "proof", n::ProtocolStateProof);
                part!(sh, dtcp, DeltaTransitionChainProof, "chain proof", n::DeltaTransitionChainProof);
            }
            for _ in 0..10 {
                part!(sh, cmd, UserCommandWithStatusV1, "command with status", n::UserCommandWithStatus);
                part!(sh, sc, SignedCommandV1, "signed command", n::SignedCommand);
                part!(sh, status, TransactionStatusV1, "status", n::TransactionStatus);
                part!(sh, cb, CoinBaseV1, "coinbase", n::CoinBase);
                part!(sh, icb, InternalCommandBalanceDataV1, "internal balances", n::InternalCommandBalanceData);
                part!(sh, data, UserCommandV1, "user command", n::UserCommand);
            }
        }
    });
    run.require("shipped blocks", 13);
    run.require("blocks", 400);
    run.require("typed values", 20_000);
    run.require("layout values", 10_000);
    run.require("native conversions", 10_000);
    run.require("damaged bytes refused", 500);
    run.require("damaged bytes accepted", 200);
    run.require("uncovered summand refused", 500);
    run.finish()
}
