//! States and accounts as the node's GraphQL interface answers them: the monitor writes the answer for a value itself,
//! with whatever else such an answer holds, and the value read must be that value; then it spoils one place.
use crate::c17::{b58, bad_b58};
use crate::c23::{gen_account, h32, int, permissions, states, text32};
use mina_rs_base::account::*;
use mina_rs_base::from_graphql_json::FromGraphQLJson;
use mina_rs_base::types::*;
use mon::{fnv, guarded, hex, Rng, Shard};
use proof_systems::mina_signer::CompressedPubKey;
use proof_systems::o1_utils::FieldHelpers;
use serde_json::{json, Map, Value as J};

#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind {
    /// a decimal number of so many bits
    Num(u32),
    B58,
    /// base58check of content of any length
    Raw,
    Auth,
    Hex,
    Flag,
    /// may be null or absent
    MaybeFlag,
    MaybeKey,
}
use Kind::*;
type Places = Vec<(Vec<&'static str>, Kind)>;

fn hash(v: u8, b: [u8; 32]) -> J {
    J::String(b58(v, &[&[1u8][..], &b].concat()))
}
pub fn key(k: &CompressedPubKey) -> J {
    J::String(b58(0xcb, &[&[1u8, 1][..], &k.x.to_bytes(), &[k.is_odd as u8]].concat()))
}
pub fn num(n: impl Into<u64>) -> J {
    J::String(Into::<u64>::into(n).to_string())
}
pub struct W {
    pub o: Map<String, J>,
    places: Places,
}
impl W {
    fn new() -> Self {
        W { o: Map::new(), places: vec![] }
    }
    fn put(&mut self, n: &'static str, k: Kind, j: J) {
        self.o.insert(n.into(), j);
        self.places.push((vec![n], k));
    }
    fn sub(&mut self, n: &'static str, w: W) {
        self.o.insert(n.into(), J::Object(w.o));
        for (mut p, k) in w.places {
            p.insert(0, n);
            self.places.push((p, k));
        }
    }
    /// What else the interface offers, with values that must not matter.
    fn extra(&mut self, r: &mut Rng, names: &[&str]) {
        for n in names {
            if r.bool() {
                let j = match r.below(4) {
                    0 => J::Null,
                    1 => J::Bool(r.bool()),
                    2 => num(r.next()),
                    _ => json!({"hash": "x", "total": "7"}),
                };
                self.o.insert((*n).into(), j);
            }
        }
    }
}
fn epoch(r: &mut Rng, e: &EpochData) -> W {
    let (mut w, mut l) = (W::new(), W::new());
    l.put("hash", B58, hash(5, h32(&e.ledger.hash)));
    l.put("totalCurrency", Num(64), num(e.ledger.total_currency.0));
    w.sub("ledger", l);
    w.put("seed", B58, hash(13, text32(e.seed.to_string())));
    w.put("startCheckpoint", B58, hash(16, h32(&e.start_checkpoint)));
    w.put("lockCheckpoint", B58, hash(16, h32(&e.lock_checkpoint)));
    w.put("epochLength", Num(32), num(e.epoch_length.0));
    w.extra(r, &["epoch", "blockHeight"]);
    w
}
fn consensus(r: &mut Rng, c: &ConsensusState) -> W {
    let mut w = W::new();
    w.put("blockHeight", Num(32), num(c.blockchain_length.0));
    w.put("epochCount", Num(32), num(c.epoch_count.0));
    w.put("minWindowDensity", Num(32), num(c.min_window_density.0));
    w.put("lastVrfOutput", Raw, J::String(crate::c19::vrf58_text(&c.last_vrf_output.0)));
    w.put("totalCurrency", Num(64), num(c.total_currency.0));
    w.put("slot", Num(32), num(c.curr_global_slot.slot_number.0));
    w.put("slotSinceGenesis", Num(32), num(c.global_slot_since_genesis.0));
    let e = epoch(r, &c.staking_epoch_data);
    w.sub("stakingEpochData", e);
    let e = epoch(r, &c.next_epoch_data);
    w.sub("nextEpochData", e);
    w.put("hasAncestorInSameCheckpointWindow", Flag, J::Bool(c.has_ancestor_in_same_checkpoint_window));
    w.put("blockStakeWinner", B58, key(&c.block_stake_winner));
    w.put("blockCreator", B58, key(&c.block_creator));
    w.put("coinbaseReceiever", B58, key(&c.coinbase_receiver));
    w.put("superchargedCoinbase", Flag, J::Bool(c.supercharge_coinbase));
    // in the first epoch the slot is the global slot
    w.o.insert("epoch".into(), "0".into());
    // the deprecated name of the same thing
    w.o.insert("blockchainLength".into(), w.o["blockHeight"].clone());
    w.extra(r, &["coinbaseReceiver", "snarkedLedgerHash", "__typename"]);
    w
}
fn blockchain(r: &mut Rng, b: &BlockchainState) -> W {
    let mut w = W::new();
    let s = &b.staged_ledger_hash;
    w.put("stagedLedgerHash", B58, hash(5, h32(&s.non_snark.ledger_hash)));
    w.put("stagedLedgerAuxHash", Raw, J::String(b58(14, &s.non_snark.aux_hash.0)));
    w.put("stagedLedgerPendingCoinbaseAux", Raw, J::String(b58(15, &s.non_snark.pending_coinbase_aux.0)));
    w.put("stagedLedgerPendingCoinbaseHash", B58, hash(12, text32(s.pending_coinbase_hash.to_string())));
    w.put("genesisLedgerHash", B58, hash(5, h32(&b.genesis_ledger_hash)));
    w.put("snarkedLedgerHash", B58, hash(5, h32(&b.registers.ledger)));
    w.put("utcDate", Num(64), num(b.timestamp.0));
    w.put("bodyReference", Hex, J::String(hex(&b.body_reference.0)));
    // the same instant, as the shipped answers have it
    w.o.insert("date".into(), w.o["utcDate"].clone());
    w.extra(r, &["stagedLedgerProofEmitted", "__typename", "ledgerHash"]);
    w
}
pub fn state(r: &mut Rng, s: &ProtocolState) -> W {
    let mut w = W::new();
    w.put("previousStateHash", B58, hash(16, h32(&s.previous_state_hash)));
    let b = blockchain(r, &s.body.blockchain_state);
    w.sub("blockchainState", b);
    let c = consensus(r, &s.body.consensus_state);
    w.sub("consensusState", c);
    w.extra(r, &["genesisStateHash", "constants", "__typename"]);
    w
}
fn perms(r: &mut Rng, p: &Permissions) -> W {
    let mut w = W::new();
    for (n, a) in [
        ("editState", &p.edit_state),
        ("send", &p.send),
        ("receive", &p.receive),
        ("setDelegate", &p.set_delegate),
        ("setPermissions", &p.set_permissions),
        ("setVerificationKey", &p.set_verification_key),
        ("setZkappUri", &p.set_zkapp_uri),
        ("editSequenceState", &p.edit_sequence_state),
        ("setTokenSymbol", &p.set_token_symbol),
        ("incrementNonce", &p.increment_nonce),
        ("setVotingFor", &p.set_voting_for),
    ] {
        let t = match a {
            AuthRequired::None => "None",
            AuthRequired::Either => "Either",
            AuthRequired::Proof => "Proof",
            AuthRequired::Signature => "Signature",
            AuthRequired::Both => "Both",
            AuthRequired::Impossible => "Impossible",
        };
        w.put(n, Auth, t.into());
    }
    w.extra(r, &["access", "setTiming", "stake"]);
    w
}
fn timing(r: &mut Rng, t: &Timing) -> W {
    let mut w = W::new();
    let names = ["initialMinimumBalance", "cliffTime", "cliffAmount", "vestingPeriod", "vestingIncrement"];
    match t {
        Timing::Untimed => names.iter().for_each(|n| {
            if r.chance(3, 4) {
                w.o.insert((*n).into(), J::Null);
            }
        }),
        Timing::Timed(t) => {
            for (n, v) in names.into_iter().zip([t.initial_minimum_balance.0, t.cliff_time.0, t.cliff_amount.0, t.vesting_period.0, t.vesting_increment.0]) {
                w.put(n, Num(64), num(v))
            }
        }
    }
    w.extra(r, &["__typename"]);
    w
}
fn account(r: &mut Rng, a: &Account) -> W {
    let mut w = W::new();
    w.put("publicKey", B58, key(&a.public_key));
    w.put("token", Num(64), num(a.token_id.0));
    let mut b = W::new();
    b.put("total", Num(64), num(a.balance.0));
    b.extra(r, &["liquid", "locked", "blockHeight", "unknown"]);
    w.sub("balance", b);
    let (own, disabled) = match a.token_permissions {
        TokenPermissions::NotOwned { account_disabled } => (false, account_disabled),
        TokenPermissions::TokenOwned { disable_new_accounts } => (true, disable_new_accounts),
    };
    for (n, x) in [("isTokenOwner", own), ("isDisabled", disabled)] {
        match r.below(if x { 1 } else { 3 }) {
            0 => w.put(n, MaybeFlag, J::Bool(x)),
            1 => w.put(n, MaybeFlag, J::Null),
            _ => {}
        }
    }
    w.put("nonce", Num(32), num(a.nonce.0));
    w.put("receiptChainHash", B58, hash(5, h32(&a.receipt_chain_hash)));
    match &a.delegate {
        Some(k) => w.put("delegate", MaybeKey, key(k)),
        None if r.bool() => w.put("delegate", MaybeKey, J::Null),
        None => {}
    }
    w.put("votingFor", B58, hash(16, h32(&a.voting_for)));
    let t = timing(r, &a.timing);
    w.sub("timing", t);
    let p = perms(r, &a.permissions);
    w.sub("permissions", p);
    w.extra(r, &["tokenSymbol", "zkappUri", "zkappState", "inferredNonce", "delegateAccount", "stakingActive", "locked", "index"]);
    w
}
/// The members in any order and with any space between them.
pub fn text(r: &mut Rng, j: &J, out: &mut String) {
    let gap = |r: &mut Rng, out: &mut String| {
        if r.chance(1, 6) {
            out.push_str(*r.pick(&[" ", "\n", "\t  "]))
        }
    };
    match j {
        J::Object(o) => {
            let mut ks: Vec<_> = o.iter().collect();
            for i in (1..ks.len()).rev() {
                ks.swap(i, r.below(i as u64 + 1) as usize)
            }
            out.push('{');
            for (i, (k, v)) in ks.into_iter().enumerate() {
                if i > 0 {
                    out.push(',')
                }
                gap(r, out);
                out.push_str(&format!("{k:?}:"));
                text(r, v, out);
                gap(r, out);
            }
            out.push('}')
        }
        _ => out.push_str(&j.to_string()),
    }
}
fn spoiled(r: &mut Rng, k: Kind, old: &J) -> Option<J> {
    let wrong = |r: &mut Rng| match r.below(5) {
        0 => json!([]),
        1 => json!({}),
        2 => json!([old]),
        3 => json!({ "value": old }),
        _ => json!(1.5),
    };
    let junk = |r: &mut Rng| r.pick(&["", " ", "null", "true", "0x", "B62", "\u{0}", "é", "{}"]).to_string();
    Some(match k {
        Num(w) => {
            let s = old.as_str()?;
            match r.below(10) {
                0 => wrong(r),
                1 => J::Bool(r.bool()),
                2 => J::String(junk(r)),
                // just out of range and far out of it
                3 => J::String((u64::MAX as u128 + 1 + r.below(3) as u128).to_string()),
                4 => J::String(if w == 32 { (u32::MAX as u64 + 1 + (r.next() >> r.range(1, 33))).to_string() } else { (u64::MAX as u128 + 1 + r.next() as u128).to_string() }),
                5 => J::String(format!("-{s}1")),
                6 => J::String(format!("{s}{}", *r.pick(&[".0", ".5", "e1", "f", "_0", " ", "\n", ",000"]))),
                7 => J::String(format!("{}{s}", *r.pick(&["0x", " ", "\t", "--", "$", "."]))),
                8 => J::String(format!("{s}1{:020}", r.next())),
                _ => J::Null,
            }
        }
        B58 | MaybeKey | Raw => match r.below(5) {
            0 => wrong(r),
            1 => J::Bool(r.bool()),
            2 => J::String(junk(r)),
            _ => J::String(bad_b58(r, old.as_str()?, k != Raw)),
        },
        Auth => match r.below(4) {
            0 => wrong(r),
            1 => J::Null,
            2 => J::String(junk(r)),
            _ => {
                let s = old.as_str()?;
                J::String(match r.below(4) {
                    0 => format!("{s}s"),
                    1 => format!("{s} "),
                    2 => s[..s.len() - 1].into(),
                    _ => format!("{s}{s}"),
                })
            }
        },
        Hex => {
            let s = old.as_str()?;
            match r.below(8) {
                0 => wrong(r),
                1 => J::Null,
                2 => J::String(junk(r)),
                3 => J::String(s[1..].into()),
                4 => J::String(s[2..].into()),
                5 => J::String(format!("{s}00")),
                6 => J::String(format!("0x{}", &s[2..])),
                _ => {
                    let i = r.below(64) as usize;
                    J::String(format!("{}{}{}", &s[..i], *r.pick(&["g", "z", " ", "-"]), &s[i + 1..]))
                }
            }
        }
        Flag | MaybeFlag => match r.below(5) {
            0 => wrong(r),
            1 => J::String(junk(r)),
            2 => J::String(old.to_string()),
            3 => json!(r.below(2)),
            _ if k == Flag => J::Null,
            _ => return None,
        },
    })
}
fn set(j: &mut J, p: &[&str], v: Option<J>) {
    match p {
        [last] => {
            let o = j.as_object_mut().unwrap();
            match v {
                Some(v) => o.insert(last.to_string(), v),
                None => o.remove(*last),
            };
        }
        [first, rest @ ..] => set(j.get_mut(first).unwrap(), rest, v),
        [] => {}
    }
}
fn read<T: FromGraphQLJson>(s: &str) -> Result<Result<T, String>, String> {
    let j: J = serde_json::from_str(s).unwrap_or_else(|e| crate::tree::die(&format!("own JSON is malformed: {e}")));
    guarded(|| T::from_graphql_json(&j).map_err(|e| format!("{e:#}")))
}
fn one<T: FromGraphQLJson + std::fmt::Debug>(sh: &mut Shard, what: &'static str, want: &T, w: W) {
    let j = J::Object(w.o);
    let mut s = String::new();
    text(&mut sh.rng, &j, &mut s);
    sh.case(|| format!("{what} {s}"));
    let want = format!("{want:?}");
    match read::<T>(&s) {
        Ok(Ok(v)) => {
            let v = format!("{v:?}");
            if v != want {
                let at = v.bytes().zip(want.bytes()).take_while(|(a, b)| a == b).count();
                let cut = |x: &str| x.chars().skip(at.saturating_sub(60)).take(160).collect::<String>();
                sh.violation(&format!("{what} read as …{}… instead of …{}… from {s}", cut(&v), cut(&want)))
            }
        }
        Ok(Err(e)) => sh.violation(&format!("{what} refused ({e}): {s}")),
        Err(e) => sh.violation(&format!("panic ({e}) on {what}: {s}")),
    }
    sh.count(what);
    sh.observed(fnv(want.as_bytes()), true);
    if w.places.is_empty() {
        return;
    }
    for _ in 0..4 {
        let (p, k) = sh.rng.pick(&w.places).clone();
        let ptr = format!("/{}", p.join("/"));
        let old = j.pointer(&ptr).unwrap().clone();
        let mut bad = j.clone();
        let (how, new) = if sh.rng.chance(1, 5) {
            if matches!(k, MaybeFlag | MaybeKey) {
                continue;
            }
            ("missing", None)
        } else {
            if old.is_null() {
                // only the wrong kinds: there is no text to damage
                let v = sh.rng.pick(&[json!([]), json!({}), json!("x"), json!(2.5), json!("")]).clone();
                ("spoiled", Some(v))
            } else {
                match spoiled(&mut sh.rng, k, &old) {
                    Some(v) => ("spoiled", Some(v)),
                    None => continue,
                }
            }
        };
        set(&mut bad, &p, new.clone());
        let mut s = String::new();
        text(&mut sh.rng, &bad, &mut s);
        sh.case(|| format!("{what} with {ptr} {how}: {s}"));
        match read::<T>(&s) {
            Ok(Err(_)) => {}
            Ok(Ok(v)) => sh.violation(&format!("{what} with {ptr} {how} ({old} -> {new:?}) read as {v:?}")),
            Err(e) => sh.violation(&format!("panic ({e}) on {what} with {ptr} {how}: {new:?}")),
        }
        sh.count(match how {
            "missing" => "answers with a part missing",
            _ => "answers with a part spoiled",
        });
        sh.observed(fnv(s.as_bytes()), true);
    }
    // a whole part missing or of the wrong kind
    if let Some((p, _)) = w.places.iter().filter(|(p, _)| p.len() > 1 && p[0] != "timing").nth(sh.rng.below(8) as usize) {
        let mut bad = j.clone();
        let v = sh.rng.pick(&[None, Some(J::Null), Some(json!([])), Some(json!("")), Some(json!(7)), Some(json!({}))]).clone();
        let depth = 1 + sh.rng.below(p.len() as u64 - 1) as usize;
        set(&mut bad, &p[..depth], v.clone());
        sh.case(|| format!("{what} with {:?} replaced by {v:?}", &p[..depth]));
        match guarded(|| T::from_graphql_json(&bad).map(|_| ())) {
            Ok(Err(_)) => {}
            Ok(Ok(())) => sh.violation(&format!("{what} with {:?} replaced by {v:?} was read", &p[..depth])),
            Err(e) => sh.violation(&format!("panic ({e}) on {what} with {:?} replaced by {v:?}", &p[..depth])),
        }
        sh.count("answers with a whole part replaced");
    }
}
fn densities() -> Vec<Length> {
    let mut v = vec![Length(7); 11];
    v[0] = Length(1);
    v
}
const GENESIS: &str = "3NLUmnTBMCeExeWErijZ2GeLnjLtBgsDjN3qM8M8gcJDtk8k89xf";

/// A state with only what the interface tells, the rest being what the genesis block has.
pub fn told(r: &mut Rng) -> ProtocolState {
    let (_, mut s) = states(r, 0, 32);
    // what the interface does not tell
    s.body.genesis_state_hash = text32(GENESIS.into()).into();
    s.body.constants = Default::default();
    s.body.blockchain_state.registers.local_state = Default::default();
    let c = &mut s.body.consensus_state;
    c.sub_window_densities = densities();
    c.curr_global_slot.slots_per_epoch = Length(7140);
    s
}
fn answers(sh: &mut Shard) {
    let r = &mut sh.rng;
    let s = told(r);
    let w = state(r, &s);
    one(sh, "states", &s, w);
    match sh.rng.below(4) {
        0 => {
            let w = consensus(&mut sh.rng, &s.body.consensus_state);
            one(sh, "consensus states", &s.body.consensus_state, w)
        }
        1 => {
            let w = blockchain(&mut sh.rng, &s.body.blockchain_state);
            one(sh, "blockchain states", &s.body.blockchain_state, w)
        }
        2 => {
            let e = &s.body.consensus_state.next_epoch_data;
            let w = epoch(&mut sh.rng, e);
            one(sh, "epoch data", e, w)
        }
        _ => {
            let p = permissions(&mut sh.rng);
            let w = perms(&mut sh.rng, &p);
            one(sh, "permissions", &p, w)
        }
    }
    let mut a = gen_account(&mut sh.rng);
    a.token_symbol = Default::default();
    a.zkapp = None;
    a.zkapp_uri = None;
    if let Timing::Timed(t) = &mut a.timing {
        t.cliff_time.0 = int(&mut sh.rng);
    }
    let w = account(&mut sh.rng, &a);
    one(sh, "accounts", &a, w);
    match &a.timing {
        Timing::Untimed => sh.count("accounts without timing"),
        _ => sh.count("accounts with timing"),
    }
    if a.delegate.is_none() {
        sh.count("accounts without delegate")
    }
}
pub fn run() {
    let run = mon::start(
        "C24",
        "exploration",
        "each answer counts once",
        &[
            "what the interface does not tell (genesis hash, constants, densities, slots per epoch, local state, token symbol, zkapps) has the fixed values of the genesis block",
            "states of the first epoch, where slot and global slot agree",
        ],
    );
    run.par(mon::threads(), |sh| {
        let n = if sh.thorough() { 60_000 } else { 2_500 };
        for i in 0..n {
            sh.beat();
            answers(sh);
            if i == 0 {
                sh.sample(|| json!({"densities": densities().len()}));
            }
        }
    });
    for k in ["states", "accounts", "accounts with timing", "accounts without timing", "accounts without delegate", "answers with a part missing", "answers with a part spoiled", "answers with a whole part replaced"] {
        run.require(k, 1000);
    }
    for k in ["consensus states", "blockchain states", "epoch data", "permissions"] {
        run.require(k, 500);
    }
    run.finish()
}
