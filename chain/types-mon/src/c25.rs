//! The transition frontier: histories of blocks, good and bad, are added; after each the frontier must hold the chain
//! that the rules select among the valid ones, and, where it has one, the ledger that came with that block.
use crate::c20::{facts, put, verdicts, F};
use crate::c22::{signed_block, some_keys};
use crate::c23::{fp, key, states};
use crate::c24;
use crate::exec::now;
use crate::gende::field;
use crate::processor::*;
use mina_rs_base::types::*;
use mon::{fnv, guarded, Rng, Shard};
use proof_systems::mina_hasher::{stand_in_sponge, Fp};
use proof_systems::mina_signer::{Keypair, NetworkId};
use proof_systems::o1_utils::FieldHelpers;
use serde_json::{json, Map, Value as J};

/// Facts of a block; with chances of forks of every kind.
fn some_facts(r: &mut Rng, id: u64, tip: Option<&F>) -> F {
    let hostile = r.chance(1, 4);
    let mut f = facts(r, id, hostile);
    if let Some(t) = tip {
        if r.chance(1, 2) {
            f.height = t.height.wrapping_add(r.below(3) as u32).wrapping_sub(1)
        }
        if r.chance(2, 3) {
            f.epoch = t.epoch.saturating_add(r.chance(1, 4) as u32)
        }
        if r.chance(1, 3) {
            f.slot = t.slot.saturating_add(r.below(14) as u32).saturating_sub(r.below(14) as u32)
        }
    } else if f.dens.len() != 11 && r.chance(4, 5) {
        f.dens = vec![7; 11]
    }
    f
}
enum Done {
    First,
    Taken,
    Kept,
    Failed,
}
/// What the rules allow for the next block; the outcome decides where the recorded finding makes a difference.
fn judge(tip: Option<&F>, f: &F, ok: bool, tip_is_new: bool) -> Result<Done, String> {
    let Some(t) = tip else {
        return match ok && tip_is_new {
            true => Ok(Done::First),
            false => Err("the first block was not taken".into()),
        };
    };
    let v = verdicts(t, f);
    let seen = ok.then_some(tip_is_new);
    if !v.contains(&seen) {
        return Err(format!("the selection was {seen:?} instead of {v:?} (taken or kept; None is an error)"));
    }
    Ok(match seen {
        None => Done::Failed,
        Some(true) => Done::Taken,
        Some(false) => Done::Kept,
    })
}
fn count(sh: &mut Shard, d: &Done) {
    sh.count(match d {
        Done::First => "first blocks",
        Done::Taken => "blocks taken",
        Done::Kept => "blocks not preferred",
        Done::Failed => "forks that cannot be weighed",
    })
}
fn mainnet(sh: &mut Shard, keys: &[Keypair]) {
    let mut tf = NaiveTransitionFrontier::<ProtocolStateLegacy, MerkleProofMainnet>::new();
    if !tf.get_best_chain().0.is_empty() {
        sh.violation("a new frontier has a best chain")
    }
    let mut tip: Option<(F, ProtocolStateLegacy)> = None;
    let mut text = String::new();
    for i in 0..2 + sh.rng.below(5) {
        let mut f = some_facts(&mut sh.rng, i, tip.as_ref().map(|t| &t.0));
        let testnet = sh.rng.chance(1, 6);
        let (s, mut b) = loop {
            let s = signed_block(&mut sh.rng, keys, if testnet { NetworkId::TESTNET } else { NetworkId::MAINNET });
            if let Ok(b) = guarded(|| ExternalTransition::from(s.block.clone())) {
                break (s, b);
            }
        };
        b.protocol_state = states(&mut sh.rng, 0, 32).0;
        put(&f, &mut b.protocol_state.body.consensus_state);
        f.hash = b.protocol_state.state_hash_fp();
        let valid = s.bad.is_none() && !(testnet && s.commands() > 0);
        let state = b.protocol_state.clone();
        text.push_str(&format!("{} {f:?} ", if valid { "valid" } else { "invalid" }));
        sh.case(|| format!("mainnet frontier, tip {:?}, history {text}", tip.as_ref().map(|t| &t.0)));
        let got = match guarded(|| now(tf.add_block(b))) {
            Ok(g) => g,
            Err(e) => sh.violation(&format!("adding a block panicked: {e}")),
        };
        let chain = &tf.get_best_chain().0;
        let is_new = chain.len() == 1 && chain[0] == state;
        let is_old = match &tip {
            Some(t) => chain.len() == 1 && chain[0] == t.1,
            None => chain.is_empty(),
        };
        if !is_new && !is_old {
            sh.violation(&format!("after {} blocks the best chain has {} blocks and is neither the old one nor the new block", i + 1, chain.len()))
        }
        if !valid {
            if got.is_ok() || !is_old {
                sh.violation(&format!("a block with an invalid command was {}", if is_old { "accepted" } else { "taken into the best chain" }))
            }
            sh.count("blocks with an invalid command");
            continue;
        }
        match judge(tip.as_ref().map(|t| &t.0), &f, got.is_ok(), is_new) {
            Err(e) => sh.violation(&format!("{e}; tip {:?}, block {f:?}, result {got:?}", tip.as_ref().map(|t| &t.0))),
            Ok(d) => {
                count(sh, &d);
                if is_new {
                    tip = Some((f, state))
                }
            }
        }
    }
    sh.observed(fnv(text.as_bytes()), true);
}
fn dec(f: &Fp) -> String {
    num::BigUint::from_bytes_le(&f.to_bytes()).to_str_radix(10)
}
/// A proof as it must be read, and its JSON.
#[derive(Clone)]
pub struct Proof {
    pub address: String,
    pub leaf: Fp,
    pub index: usize,
    pub peers: Vec<(usize, Fp)>,
    pub root: Fp,
    pub json: J,
}
pub fn proof(r: &mut Rng) -> Proof {
    let most = if r.chance(1, 4) { 40 } else { 8 };
    let n = 1 + r.below(most) as usize;
    let leaf = fp(&field(r));
    let (mut h, mut nodes, mut peers, mut lefts) = (leaf, vec![], vec![], vec![]);
    for i in 0..n {
        let (left, sib) = (r.bool(), fp(&field(r)));
        let both = if left { [h, sib] } else { [sib, h] };
        h = stand_in_sponge("kimchi", Some(&format!("CodaMklTree{i:03}")), &both);
        let mut o = Map::new();
        o.insert("left".into(), if left { J::String(dec(&sib)) } else { J::Null });
        o.insert("right".into(), if left { J::Null } else { J::String(dec(&sib)) });
        nodes.push(J::Object(o));
        lefts.push(left);
        peers.push(sib);
    }
    // positions in the tree, rows from the root
    let at = |depth: usize, row: usize| (1usize << depth) - 1 + row;
    let mut row = 0;
    let mut idx = vec![];
    for (d, left) in lefts.iter().rev().enumerate() {
        row = 2 * row + !left as usize;
        idx.insert(0, at(d + 1, row ^ 1));
    }
    let address = c24::key(&key(r)).as_str().unwrap().to_string();
    Proof { address, leaf, index: at(n, row), peers: idx.into_iter().zip(peers).collect(), root: h, json: json!({"leafHash": dec(&leaf), "merklePath": nodes}) }
}
fn same(p: &MerkleProofBerkeleyNet, w: &Proof) -> bool {
    use mina_merkle::MerkleProof;
    let (i, h): (Vec<_>, Vec<_>) = w.peers.iter().map(|(i, h)| (*i, Some(*h))).unzip();
    p.index == w.index && p.peer_indices == i && p.peer_hashes == h && format!("{:?}", p.item) == format!("DummyAccount({:?})", w.leaf) && p.root_hash().ok() == Some(w.root) && p.verify(&w.root)
}
fn shown(ps: &[MerkleProofBerkeleyNet]) -> Vec<String> {
    ps.iter().map(|p| format!("{:?} at {} under {:?}", p.item, p.index, p.peer_indices)).collect()
}
pub fn all_same(ps: &[MerkleProofBerkeleyNet], ws: &[Proof]) -> bool {
    let mut left: Vec<_> = ws.iter().collect();
    ps.len() == ws.len()
        && ps.iter().all(|p| match left.iter().position(|w| same(p, w)) {
            Some(i) => {
                left.remove(i);
                true
            }
            None => false,
        })
}
/// An answer of the interface with a state and proofs.
pub fn answer(r: &mut Rng, s: &ProtocolState, ps: &[Proof]) -> J {
    let mut o = Map::new();
    let w = c24::state(r, s);
    let mut chain = vec![json!({"protocolState": J::Object(w.o), "stateHash": "x"})];
    if r.chance(1, 4) {
        // only the first one counts
        chain.push(json!({"protocolState": {}}))
    }
    o.insert("bestChain".into(), chain.into());
    for p in ps {
        let mut j = p.json.clone();
        if r.bool() {
            j["balance"] = json!({"total": "1"});
        }
        o.insert(p.address.clone(), j);
    }
    for k in ["genesisBlock", "syncStatus", "B62q", ""] {
        if r.chance(1, 3) {
            o.insert(k.into(), r.pick(&[J::Null, json!("x"), json!({"merklePath": 1}), json!([])]).clone());
        }
    }
    J::Object(o)
}
pub type Both = ProtocolStateWithSparseMerkleLedger;
pub fn read(j: &J) -> Result<anyhow::Result<Both>, String> {
    guarded(|| Both::try_from(j.clone()))
}
fn spoil(sh: &mut Shard, j: &J, ps: &[Proof]) {
    let r = &mut sh.rng;
    let mut bad = j.clone();
    let what = if ps.is_empty() || r.chance(1, 4) {
        let v = r.pick(&[J::Null, json!([]), json!({}), json!("x"), json!([{}]), json!([{"protocolState": null}]), json!([[]])]).clone();
        if r.bool() {
            bad["bestChain"] = v;
            "best chain"
        } else {
            bad.as_object_mut().unwrap().remove("bestChain");
            "missing best chain"
        }
    } else {
        let p = r.pick(ps);
        let a = &mut bad[p.address.as_str()];
        let modulus = num::BigUint::from_bytes_le(&crate::c19::MODULUS).to_str_radix(10);
        let text = |r: &mut Rng| r.pick(&[J::Null, json!(1), json!(""), json!("x"), json!("-1"), json!("0x1f"), json!("1.0"), json!([]), json!(modulus.as_str()), json!("115792089237316195423570985008687907853269984665640564039457584007913129639936")]).clone();
        match r.below(5) {
            0 => {
                a["leafHash"] = text(r);
                "leaf hash"
            }
            1 => {
                a["merklePath"] = r.pick(&[J::Null, json!([]), json!({}), json!("x"), json!([[]]), json!([{}]), json!([null])]).clone();
                "merkle path"
            }
            2 => {
                *a = r.pick(&[J::Null, json!([]), json!({}), json!("x")]).clone();
                "account"
            }
            k => {
                let i = r.below(p.peers.len() as u64) as usize;
                let n = &mut a["merklePath"][i];
                let side = if n["left"].is_null() { "right" } else { "left" };
                let other = if side == "left" { "right" } else { "left" };
                if k == 3 {
                    n[other] = n[side].clone();
                    "node with two hashes"
                } else {
                    n[side] = text(r);
                    "hash of a node"
                }
            }
        }
    };
    sh.case(|| format!("answer with {what} spoiled: {bad}"));
    match read(&bad) {
        Ok(Err(_)) => {}
        Ok(Ok(_)) => sh.violation(&format!("an answer with {what} spoiled was read: {bad}")),
        Err(e) => sh.violation(&format!("panic ({e}) on an answer with {what} spoiled: {bad}")),
    }
    sh.count("answers spoiled");
}
fn berkeley(sh: &mut Shard) {
    let mut tf = NaiveTransitionFrontier::<ProtocolState, MerkleProofBerkeleyNet>::new();
    if !tf.get_best_chain().0.is_empty() || !tf.get_sparse_merkle_ledger().is_empty() {
        sh.violation("a new frontier has a best chain")
    }
    let mut tip: Option<(F, ProtocolState, Vec<Proof>)> = None;
    let mut text = String::new();
    for i in 0..2 + sh.rng.below(5) {
        let mut f = some_facts(&mut sh.rng, i, tip.as_ref().map(|t| &t.0));
        let told = c24::told(&mut sh.rng);
        let n = sh.rng.below(4);
        let mut ps: Vec<Proof> = vec![];
        for p in (0..n).map(|_| proof(&mut sh.rng)).collect::<Vec<_>>() {
            if ps.iter().all(|q| q.address != p.address) {
                ps.push(p)
            }
        }
        let j = answer(&mut sh.rng, &told, &ps);
        sh.case(|| format!("answer {j}"));
        let mut b = match read(&j) {
            Ok(Ok(b)) => b,
            e => sh.violation(&format!("answer not read ({:?}): {j}", e.map(|e| e.map(|_| ())))),
        };
        if b.0 != told || !all_same(&b.1, &ps) {
            sh.violation(&format!("the answer {j} was read as {:?} with {:?}", b.0, shown(&b.1)))
        }
        sh.count("answers read");
        spoil(sh, &j, &ps);
        put(&f, &mut b.0.body.consensus_state);
        f.hash = b.0.state_hash_fp();
        let state = b.0.clone();
        text.push_str(&format!("{f:?} with {n} "));
        sh.case(|| format!("berkeley frontier, tip {:?}, history {text}", tip.as_ref().map(|t| &t.0)));
        let got = match guarded(|| now(tf.add_block(b))) {
            Ok(g) => g,
            Err(e) => sh.violation(&format!("adding a block panicked: {e}")),
        };
        let chain = &tf.get_best_chain().0;
        let is_new = chain.len() == 1 && chain[0] == state;
        let is_old = match &tip {
            Some(t) => chain.len() == 1 && chain[0] == t.1,
            None => chain.is_empty(),
        };
        if !is_new && !is_old {
            sh.violation(&format!("after {} blocks the best chain has {} blocks and is neither the old one nor the new block", i + 1, chain.len()))
        }
        let ledger = tf.get_sparse_merkle_ledger();
        let fits = if is_new { all_same(ledger, &ps) } else { tip.as_ref().map_or(ledger.is_empty(), |t| all_same(ledger, &t.2)) };
        if !fits {
            sh.violation(&format!("the ledger is not the one that came with the {} block: {:?}", if is_new { "new" } else { "old" }, shown(ledger)))
        }
        match judge(tip.as_ref().map(|t| &t.0), &f, got.is_ok(), is_new) {
            Err(e) => sh.violation(&format!("{e}; tip {:?}, block {f:?}, result {got:?}", tip.as_ref().map(|t| &t.0))),
            Ok(d) => {
                count(sh, &d);
                if is_new {
                    tip = Some((f, state, ps))
                } else {
                    sh.count("ledgers kept")
                }
            }
        }
    }
    sh.observed(fnv(text.as_bytes()), true);
}
pub fn run() {
    let run = mon::start(
        "C25",
        "exploration",
        "each history counts once",
        &[
            "the frontier is compiled from its real source with the language's own async traits",
            "hash, signature and chain selection are judged as in the checks of those",
        ],
    );
    run.par(mon::threads(), |sh| {
        let keys = some_keys(&mut sh.rng);
        let n = if sh.thorough() { 8_000 } else { 400 };
        for i in 0..n {
            sh.beat();
            mainnet(sh, &keys);
            berkeley(sh);
            berkeley(sh);
            if i == 0 {
                let f = facts(&mut sh.rng, 0, true);
                sh.sample(|| json!({"block": format!("{f:?}")}));
            }
        }
    });
    for k in ["first blocks", "blocks taken", "blocks not preferred", "blocks with an invalid command", "answers read", "answers spoiled", "ledgers kept"] {
        run.require(k, 500);
    }
    run.require("forks that cannot be weighed", 20);
    run.finish()
}
