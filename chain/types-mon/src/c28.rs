//! The built-in genesis blocks and states against the shipped block and the network's answer, and the parts of proofs
//! that they are made of: hex texts, challenges and points, built from random numbers.
use crate::c23::fp;
use crate::gende::field;
use crate::tree::{die, short};
use mina_consensus::common::*;
use mina_consensus::genesis::*;
use mina_crypto::hex::HexEncodable;
use mina_rs_base::from_graphql_json::FromGraphQLJson;
use mina_rs_base::types::*;
use mina_rs_base::{finite_ec_point, finite_ec_point_pair, BinProtSerializationType};
use mina_serialization_types::v1::ExternalTransitionV1;
use mon::{fnv, guarded, hex as hx, Shard};
use proof_systems::mina_curves::pasta::{Fp, Fq, Pallas, Vesta};
use proof_systems::o1_utils::FieldHelpers;

const SHIPPED: &str = "protocol/test-fixtures/src/data/genesis-3NKeMoncuHab5ScarV5ViyF16cJPT4taWNSaTLS64Dp67wuXigPZ.hex";
/// What the berkeley network answers about its first state.
const BERKELEY: &str = r#"{"previousStateHash":"3NLUmnTBMCeExeWErijZ2GeLnjLtBgsDjN3qM8M8gcJDtk8k89xf",
"consensusState":{"blockCreator":"B62qiy32p8kAKnny8ZFwoMhYpBppM1DWVCqAPBYNcXnsAHhnfAAuXgg","blockHeight":"1",
"blockStakeWinner":"B62qiy32p8kAKnny8ZFwoMhYpBppM1DWVCqAPBYNcXnsAHhnfAAuXgg","blockchainLength":"1",
"coinbaseReceiever":"B62qiy32p8kAKnny8ZFwoMhYpBppM1DWVCqAPBYNcXnsAHhnfAAuXgg","epoch":"0","epochCount":"0",
"hasAncestorInSameCheckpointWindow":true,"lastVrfOutput":"48FthHHNE1y3YmoS4UvKaM6UyGd9nCJXTPVFQUGak7YtonTDUuEd",
"minWindowDensity":"77","slot":"0","slotSinceGenesis":"0","superchargedCoinbase":true,"totalCurrency":"1013238001000001000",
"nextEpochData":{"epochLength":"2","lockCheckpoint":"3NLUmnTBMCeExeWErijZ2GeLnjLtBgsDjN3qM8M8gcJDtk8k89xf",
"seed":"2vc1zQHJx2xN72vaR4YDH31KwFSr5WHSEH2dzcfcq8jxBPcGiJJA","startCheckpoint":"3NK2tkzqqK5spR2sZ7tujjqPksL45M3UUrcA4WhCkeiPtnugyE2x",
"ledger":{"hash":"jwNYQU34Jb9FD6ZbKnWRALZqVDKbMrjZBKWFYZwAw8ZPMgv9Ld4","totalCurrency":"1013238001000001000"}},
"stakingEpochData":{"epochLength":"1","lockCheckpoint":"3NK2tkzqqK5spR2sZ7tujjqPksL45M3UUrcA4WhCkeiPtnugyE2x",
"seed":"2va9BGv9JrLTtrzZttiEMDYw1Zj6a6EHzXjmP9evHDTG3oEquURA","startCheckpoint":"3NK2tkzqqK5spR2sZ7tujjqPksL45M3UUrcA4WhCkeiPtnugyE2x",
"ledger":{"hash":"jwNYQU34Jb9FD6ZbKnWRALZqVDKbMrjZBKWFYZwAw8ZPMgv9Ld4","totalCurrency":"1013238001000001000"}}},
"blockchainState":{"bodyReference":"36bda176656cc3be96c3d317db7b4ac06fdbc7f4eedcd6efdd20e28143d67421","date":"1655755201000",
"snarkedLedgerHash":"jwNYQU34Jb9FD6ZbKnWRALZqVDKbMrjZBKWFYZwAw8ZPMgv9Ld4","stagedLedgerAuxHash":"UDRUFHSvxUAtV8sh7gzMVPqpbd46roG1wzWR6dYvB6RunPihom",
"stagedLedgerHash":"jwNYQU34Jb9FD6ZbKnWRALZqVDKbMrjZBKWFYZwAw8ZPMgv9Ld4",
"stagedLedgerPendingCoinbaseHash":"2n27mUhCEctJbiZQdrk3kxYc7DVHvJVDErjXrjNs7jnP3HMLKtuN",
"stagedLedgerPendingCoinbaseAux":"WAAeUjUnP9Q2JiabhJzJozcjiEmkZe8ob4cfFKSuq6pQSNmHh7","stagedLedgerProofEmitted":false,"utcDate":"1655755201000",
"genesisLedgerHash":"jwNYQU34Jb9FD6ZbKnWRALZqVDKbMrjZBKWFYZwAw8ZPMgv9Ld4"}}"#;

/// The facts that a state before any block has, whatever the network.
fn first(sh: &mut Shard, what: &str, c: &ConsensusState, k: &ProtocolConstants, previous: String, genesis: String, ledgers: &[String], time: u64) {
    let n = ConsensusConstants::mainnet();
    let s = k.slots_per_sub_window.0;
    let (e, x) = (&c.staking_epoch_data, &c.next_epoch_data);
    let facts = [
        ("height", c.blockchain_length.0 == 1),
        ("epoch", c.epoch_count.0 == 0),
        ("slot", c.curr_global_slot.slot_number.0 == 0 && c.global_slot_since_genesis.0 == 0),
        ("slots of an epoch", c.curr_global_slot.slots_per_epoch.0 == k.slots_per_epoch.0),
        ("densities", c.sub_window_densities.len() == n.sub_windows_per_window.0 as usize && c.sub_window_densities.iter().enumerate().all(|(i, d)| d.0 == if i == 0 { 1 } else { s })),
        ("density", c.min_window_density.0 == s * n.sub_windows_per_window.0),
        ("flags", c.has_ancestor_in_same_checkpoint_window && c.supercharge_coinbase),
        ("keys", c.block_creator == c.block_stake_winner && c.block_creator == c.coinbase_receiver),
        ("currency", e.ledger.total_currency.0 == c.total_currency.0 && x.ledger.total_currency.0 == c.total_currency.0),
        ("epoch ledgers", e.ledger.hash == x.ledger.hash && ledgers.iter().all(|l| *l == e.ledger.hash.to_string())),
        ("epoch lengths", (e.epoch_length.0, x.epoch_length.0) == (1, 2)),
        ("checkpoints", e.start_checkpoint == e.lock_checkpoint && x.start_checkpoint == e.start_checkpoint && x.lock_checkpoint.to_string() == previous),
        ("hashes", previous == genesis),
        ("vrf output", c.last_vrf_output.0.len() == 32),
        ("time", time == k.genesis_state_timestamp.0),
        ("constants", (k.k, k.delta, k.slots_per_epoch, k.slots_per_sub_window) == (n.k, n.delta, n.slots_per_epoch, n.slots_per_sub_window)),
        ("constants of the protocol", (k.k.0, k.delta.0, k.slots_per_epoch.0, s, n.sub_windows_per_window.0, n.grace_period_end.0) == (290, 0, 7140, 7, 11, 1440)),
    ];
    for (f, ok) in facts {
        sh.case(|| format!("{what}: {f}"));
        if !ok {
            sh.violation(&format!("{what}: {f} is not that of a first state: {}", short(&format!("{c:?} {k:?}"))))
        }
        sh.observed(fnv(format!("{what} {f}").as_bytes()), true);
        sh.count("facts of first states");
    }
}
fn genesis(sh: &mut Shard, bytes: &[u8]) {
    let tree = match guarded(|| ExternalTransition::try_from_binprot(bytes)) {
        Ok(Ok(t)) => t,
        e => sh.violation(&format!("the shipped genesis block is not read: {}", short(&format!("{e:?}")))),
    };
    for (what, devnet) in [("mainnet", false), ("devnet", true)] {
        sh.case(|| format!("genesis block of {what}"));
        let made = guarded(|| {
            let t = ExternalTransition::from_genesis_config(if devnet { &DEVNET_CONFIG } else { &MAINNET_CONFIG });
            let b = t.clone().try_into_binprot();
            (t, b)
        });
        let (t, b) = match made {
            Ok((t, Ok(b))) => (t, b),
            e => sh.violation(&format!("{what}: no genesis block: {}", short(&format!("{e:?}")))),
        };
        let v: ExternalTransitionV1 = t.clone().into();
        let mut w = vec![];
        if b != bytes || bin_prot::to_writer(&mut w, &v).is_err() || w != bytes {
            let i = b.iter().zip(bytes).position(|(a, b)| a != b);
            sh.violation(&format!("{what}: the genesis block differs from the shipped one from byte {i:?} ({} and {} bytes)", b.len(), bytes.len()))
        }
        if t != tree {
            sh.violation(&format!("{what}: the genesis block differs from the one that is read from its bytes"))
        }
        let s = &t.protocol_state;
        let l = &s.body.blockchain_state;
        let ledgers = [l.snarked_ledger_hash.to_string(), l.genesis_ledger_hash.to_string(), l.staged_ledger_hash.non_snark.ledger_hash.to_string()];
        first(sh, what, &s.body.consensus_state, &s.body.constants, s.previous_state_hash.to_string(), s.body.genesis_state_hash.to_string(), &ledgers, l.timestamp.0);
        if l.timestamp.0 != ConsensusConstants::mainnet().genesis_state_timestamp.0 || l.timestamp.0 != 1_615_939_200_000 {
            sh.violation(&format!("{what}: the genesis time is {}", l.timestamp.0))
        }
        let p = (&t.current_protocol_version, &t.proposed_protocol_version_opt);
        if (p.0.major, p.0.minor, p.0.patch) != (2, 0, 0) || p.1.is_some() {
            sh.violation(&format!("{what}: the protocol version is {p:?}"))
        }
        // a chain can start with it
        let mut chain = ProtocolStateChain::<ProtocolStateLegacy>(vec![]);
        if chain.push(s.clone()).is_err() || chain.length() != 1 || chain.genesis_block() != Some(s) || chain.epoch_slot() != Some(0) {
            sh.violation(&format!("{what}: no chain starts with the genesis state"))
        }
        sh.count("genesis blocks compared");
    }
    sh.case(|| "genesis state of berkeley".into());
    let answer = serde_json::from_str(BERKELEY).unwrap_or_else(|_| die("own answer"));
    let (s, a) = match guarded(|| (ProtocolState::berkeley(), ProtocolState::from_graphql_json(&answer))) {
        Ok((s, Ok(a))) => (s, a),
        e => sh.violation(&format!("berkeley: no genesis state: {}", short(&format!("{e:?}")))),
    };
    if *s != a {
        sh.violation(&format!("berkeley: the genesis state differs from what the network answers: {} {}", short(&format!("{s:?}")), short(&format!("{a:?}"))))
    }
    if !std::ptr::eq(s, ProtocolState::berkeley()) {
        sh.violation("berkeley: there are two genesis states")
    }
    let l = &s.body.blockchain_state;
    let ledgers = [l.registers.ledger.to_string(), l.genesis_ledger_hash.to_string(), l.staged_ledger_hash.non_snark.ledger_hash.to_string()];
    first(sh, "berkeley", &s.body.consensus_state, &s.body.constants, s.previous_state_hash.to_string(), s.body.genesis_state_hash.to_string(), &ledgers, l.timestamp.0);
    if l.timestamp.0 != 1_655_755_201_000 {
        sh.violation(&format!("berkeley: the genesis time is {}", l.timestamp.0))
    }
    let mut chain = ProtocolStateChain::<ProtocolState>(vec![]);
    if chain.push(s.clone()).is_err() || chain.length() != 1 || chain.genesis_block() != Some(s) || chain.epoch_slot() != Some(0) {
        sh.violation("berkeley: no chain starts with the genesis state")
    }
    sh.count("genesis states compared");
}
fn num(sh: &mut Shard) -> i64 {
    match sh.rng.below(5) {
        0 => sh.rng.below(4) as i64 - 2,
        1 => *sh.rng.pick(&[i64::MIN, i64::MAX, i64::MIN + 1]),
        2 => (sh.rng.next() >> sh.rng.below(64)) as i64,
        _ => sh.rng.next() as i64,
    }
}
macro_rules! listed {
    ($t:ident $($i:tt)*) => { [$($t.$i.clone()),*] };
}
fn challenges(sh: &mut Shard) {
    let a: Vec<i64> = (0..36).map(|_| num(sh)).collect();
    sh.case(|| format!("challenges of {a:?}"));
    let r = guarded(|| (BulletproofChallengeTuple17::new(a[..34].try_into().unwrap()), BulletproofChallengeTuple18::new(a[..].try_into().unwrap()), BulletproofChallenge::new(a[0], a[1]), BulletproofPreChallenge::scalar(a[2], a[3]), ScalarChallengeVector2::new(a[4], a[5])));
    let (t17, t18, c, p, s) = r.unwrap_or_else(|e| sh.violation(&format!("challenges panic: {e}")));
    let pair = |c: &BulletproofChallenge| match &c.prechallenge {
        BulletproofPreChallenge::ScalarChallenge(v) => [v.0.clone(), v.1.clone()],
    };
    let want = |k: usize| -> Vec<Hex64> { a[k..k + 2].iter().map(|n| (*n).into()).collect() };
    if pair(&c)[..] != want(0) || pair(&BulletproofChallenge { prechallenge: p })[..] != want(2) || [s.0, s.1][..] != want(4) {
        sh.violation("a challenge is not made of its two numbers")
    }
    // every number in its place
    let all17 = listed!(t17 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16);
    let all18 = listed!(t18 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17);
    for all in [&all17[..], &all18[..]] {
        for (i, c) in all.iter().enumerate() {
            if pair(c)[..] != want(2 * i) {
                sh.violation(&format!("challenge {i} of {} is not made of numbers {} and {}", all.len(), 2 * i, 2 * i + 1))
            }
        }
        sh.count("tuples of challenges");
    }
    sh.observed(fnv(format!("{a:?}").as_bytes()), true);
}
fn element(sh: &mut Shard) -> [u8; 32] {
    field(&mut sh.rng)
}
fn digits(sh: &mut Shard, b: &[u8]) -> String {
    let mut s = hx(b);
    if sh.rng.chance(1, 4) {
        s = s.to_uppercase()
    }
    s
}
fn prefix(sh: &mut Shard) -> &'static str {
    *sh.rng.pick(&["", "", "0x", "\\x"])
}
/// The elements that a text tells, 64 digits each, or nothing.
fn told(s: &str) -> Option<Vec<BigInt256>> {
    let s = s.strip_prefix("0x").or_else(|| s.strip_prefix("\\x")).unwrap_or(s);
    if !s.bytes().all(|b| b.is_ascii_hexdigit()) || s.len() % 64 != 0 {
        return None;
    }
    Some(s.as_bytes().chunks(64).map(|c| BigInt256(std::array::from_fn(|i| u8::from_str_radix(std::str::from_utf8(&c[2 * i..2 * i + 2]).unwrap(), 16).unwrap()))).collect())
}
fn texts(sh: &mut Shard) {
    let n = match sh.rng.below(6) {
        0 => 0,
        1 | 2 => 1,
        3 => 2,
        _ => sh.rng.range(3, 12) as usize,
    };
    let mut s = String::from(prefix(sh));
    for _ in 0..n {
        let b = sh.rng.bytes(32);
        s.push_str(&digits(sh, &b));
    }
    if sh.rng.chance(1, 3) {
        let i = sh.rng.below(s.len() as u64 + 1) as usize;
        match sh.rng.below(6) {
            0 => s.truncate(i),
            1 => s.insert(i, *sh.rng.pick(&['0', 'a', 'F', 'g', ' ', 'x'])),
            2 if i < s.len() => {
                s.remove(i);
            }
            3 if i < s.len() => s.replace_range(i..i + 1, *sh.rng.pick(&["x", "\\", "G", " ", "-", "0"])),
            4 => s.insert_str(i, *sh.rng.pick(&["0x", "\\x", "00", "é", "0X"])),
            _ => s.push_str(*sh.rng.pick(&["00", "0", "\n", "0x", " "])),
        }
    }
    sh.case(|| format!("elements of {s:?}"));
    let want = told(&s);
    let got = guarded(|| FieldElementVec::try_from_hex(&s)).unwrap_or_else(|e| sh.violation(&format!("elements of {s:?} panic: {e}")));
    match (&got, &want) {
        (Ok(g), Some(w)) if g.0 == *w => {
            let t: String = w.iter().map(|b| hx(&b.0)).collect();
            if g.to_hex_string() != t {
                sh.violation(&format!("elements of {s:?} are written as {:?}", g.to_hex_string()))
            }
            sh.count("texts read")
        }
        (Err(_), None) => sh.count("texts refused"),
        _ => sh.violation(&format!("elements of {s:?} are read as {}", short(&format!("{got:?}")))),
    }
    // one element
    let one = guarded(|| BigInt256::try_from_hex(&s)).unwrap_or_else(|e| sh.violation(&format!("number of {s:?} panics: {e}")));
    match (one, want.as_deref()) {
        (Ok(o), Some([w])) if o == *w && o.to_hex_string() == hx(&w.0) => sh.count("texts of one number"),
        (Err(_), w) if w.map(|w| w.len()) != Some(1) => {}
        (o, _) => sh.violation(&format!("number of {s:?} is read as {o:?}")),
    }
    sh.observed(fnv(s.as_bytes()), true);
}
fn points(sh: &mut Shard) {
    let e: Vec<[u8; 32]> = (0..4).map(|_| element(sh)).collect();
    let t: Vec<String> = e.iter().map(|b| format!("{}{}", prefix(sh), digits(sh, b))).collect();
    sh.case(|| format!("points of {t:?}"));
    let f = |i: usize| BigInt256(e[i]);
    let made = guarded(|| {
        let p = finite_ec_point!(&t[0], &t[1]).ok()?;
        let q = finite_ec_point_pair!(&t[0], &t[1], &t[2], &t[3]).ok()?;
        Some((p, q))
    });
    let (p, q) = match made {
        Ok(Some(x)) => x,
        e => sh.violation(&format!("points of {t:?}: {e:?}")),
    };
    if p != FiniteECPoint(f(0), f(1)) || q != FiniteECPointPair(FiniteECPoint(f(0), f(1)), FiniteECPoint(f(2), f(3))) {
        sh.violation(&format!("points of {t:?} are {p:?} and {q:?}"))
    }
    // a spoiled text is an error whichever of the places it is in
    let k = sh.rng.below(4) as usize;
    let mut u = t.clone();
    match sh.rng.below(3) {
        0 => u[k].push('0'),
        1 => {
            u[k].pop();
        }
        _ => {
            u[k].pop();
            u[k].push('g')
        }
    }
    let bad = guarded(|| (finite_ec_point!(&u[0], &u[1]).is_ok(), finite_ec_point_pair!(&u[0], &u[1], &u[2], &u[3]).is_ok()));
    if bad != Ok((k > 1, false)) {
        sh.violation(&format!("points of {u:?} are taken: {bad:?}"))
    }
    // points in the curves' own form
    let (a, b, c, d) = (fp(&e[0]), fp(&e[1]), fp(&e[2]), fp(&e[3]));
    let fq = |i: usize| Fq::from_bytes(&e[i]).unwrap_or_else(|_| die("element"));
    let inf = sh.rng.bool();
    let r = guarded(|| {
        let finite: Pallas = (&p).into();
        let other: Vesta = (&p).into();
        let ec: Pallas = (&if inf { ECPoint::Infinite } else { ECPoint::Finite(p.clone()) }).into();
        let many: Vec<Pallas> = (&FiniteECPointVec(vec![q.0.clone(), q.1.clone(), q.0.clone()])).into();
        let pairs: Vec<(Pallas, Pallas)> = (&FiniteECPointPairVec(vec![q.clone(), FiniteECPointPair(q.1.clone(), q.0.clone())])).into();
        let ecs: Vec<Vesta> = (&ECPointVec(vec![ECPoint::Finite(q.1.clone()), ECPoint::Infinite, ECPoint::Finite(q.0.clone())])).into();
        let els: Vec<Fp> = (&FieldElementVec(vec![f(0), f(1), f(2), f(3)])).into();
        (finite, other, ec, many, pairs, ecs, els)
    });
    let (finite, other, ec, many, pairs, ecs, els) = r.unwrap_or_else(|e| sh.violation(&format!("points of {t:?} panic: {e}")));
    let is = |p: &Pallas, x: Fp, y: Fp| p.x == x && p.y == y && !p.infinity;
    let isv = |p: &Vesta, x: Fq, y: Fq| p.x == x && p.y == y && !p.infinity;
    let facts = [
        ("a finite point", is(&finite, a, b)),
        ("a finite point of the other curve", isv(&other, fq(0), fq(1))),
        ("a point", if inf { ec.infinity } else { is(&ec, a, b) }),
        ("a list of points", many.len() == 3 && is(&many[0], a, b) && is(&many[1], c, d) && is(&many[2], a, b)),
        ("a list of pairs", pairs.len() == 2 && is(&pairs[0].0, a, b) && is(&pairs[0].1, c, d) && is(&pairs[1].0, c, d) && is(&pairs[1].1, a, b)),
        ("a list with infinity", ecs.len() == 3 && isv(&ecs[0], fq(2), fq(3)) && ecs[1].infinity && isv(&ecs[2], fq(0), fq(1))),
        ("a list of elements", els == [a, b, c, d]),
    ];
    for (n, ok) in facts {
        if !ok {
            sh.violation(&format!("{n} is not that of the numbers {t:?}"))
        }
    }
    sh.count("points converted");
    sh.observed(fnv(format!("{t:?}").as_bytes()), e[0] != e[1]);
}
pub fn run() {
    let run = mon::start(
        "C28",
        "exploration",
        "each fact of a genesis state counts once, each tuple, text and point by its numbers",
        &[
            "the shipped genesis block and the recorded answer of the berkeley network are what the networks started with; the repository has no other block for devnet, whose built-in block is mainnet's",
            "curve points by a stand-in of the curve library; coordinates are below both moduli",
        ],
    );
    let bytes = std::fs::read(format!("{}/{SHIPPED}", mon::repo_dir())).ok().and_then(|h| ::hex::decode(h.trim_ascii()).ok()).unwrap_or_else(|| die("no shipped genesis block"));
    let gate = std::sync::Barrier::new(mon::threads());
    run.par(mon::threads(), move |sh| {
        // all threads meet the states' first use together
        gate.wait();
        genesis(sh, &bytes);
        let n = if sh.thorough() { 600_000 } else { 50_000 };
        for i in 0..n {
            if i % 256 == 0 {
                sh.beat();
            }
            challenges(sh);
            texts(sh);
            points(sh);
        }
    });
    run.require("genesis blocks compared", 16);
    run.require("genesis states compared", 8);
    run.require("facts of first states", 3 * 17 * 8);
    for k in ["tuples of challenges", "texts read", "texts refused", "texts of one number", "points converted"] {
        run.require(k, 1000);
    }
    run.finish()
}
