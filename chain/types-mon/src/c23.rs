//! What is hashed: the monitor lays out states and accounts for the sponge itself, in the older form (fields and bits)
//! and in the newer one (fields and packed groups), and compares digests; and it alters one leaf at a time, which must
//! alter the digest.
use crate::gende::field;
use mina_crypto::hash::*;
use mina_rs_base::account::*;
use mina_rs_base::blockchain_state_registers::*;
use mina_rs_base::types::*;
use mon::{fnv, guarded, hex, Rng, Shard};
use proof_systems::mina_hasher::{create_kimchi, create_legacy, stand_in_sponge, Fp, Hashable, Hasher};
use proof_systems::mina_signer::CompressedPubKey;
use proof_systems::o1_utils::FieldHelpers;
use proof_systems::ToChunkedROInput;
use sha2::{Digest, Sha256};

/// Field elements, and numbers with a width; a group that is `loose` is laid out bit by bit.
#[derive(Default)]
struct Ro {
    fields: Vec<Fp>,
    bits: Vec<Vec<bool>>,
}
pub fn fp(b: &[u8]) -> Fp {
    Fp::from_bytes(b).unwrap()
}
fn pow2(n: usize) -> Fp {
    let mut b = [0; 32];
    b[n / 8] = 1 << (n % 8);
    fp(&b)
}
impl Ro {
    fn f(&mut self, x: Fp) {
        self.fields.push(x)
    }
    fn n(&mut self, x: u64, w: u32) {
        self.bits.push((0..w).map(|i| x >> i & 1 == 1).collect())
    }
    fn b(&mut self, x: bool) {
        self.bits.push(vec![x])
    }
    fn bytes(&mut self, x: &[u8]) {
        x.iter().for_each(|b| (0..8).for_each(|i| self.b(b >> i & 1 == 1)))
    }
    fn hash(&mut self, h: impl Into<[u8; 32]>) {
        let h: [u8; 32] = h.into();
        self.f(fp(&h))
    }
    fn key(&mut self, k: &CompressedPubKey) {
        self.f(k.x);
        self.b(k.is_odd)
    }
    /// Bits in order, 254 to an element.
    fn legacy(self) -> Vec<Fp> {
        let all: Vec<bool> = self.bits.concat();
        let mut f = self.fields;
        f.extend(all.chunks(254).map(|c| {
            let mut b = [0u8; 32];
            c.iter().enumerate().for_each(|(i, x)| b[i / 8] |= (*x as u8) << (i % 8));
            fp(&b)
        }));
        f
    }
    /// Groups, the first highest, as long as fewer than 255 bits are used.
    fn kimchi(self) -> Vec<Fp> {
        let mut f = self.fields;
        let (mut acc, mut used) = (Fp::from(0u64), 0);
        for g in &self.bits {
            let mut v = Fp::from(0u64);
            g.iter().enumerate().for_each(|(i, x)| {
                if *x {
                    v = v + pow2(i)
                }
            });
            if used + g.len() < 255 {
                acc = acc * pow2(g.len()) + v;
                used += g.len();
            } else {
                f.push(acc);
                (acc, used) = (v, g.len());
            }
        }
        if used > 0 {
            f.push(acc)
        }
        f
    }
}
pub fn h32<T>(t: &T) -> [u8; 32]
where
    for<'a> Fp: TryFrom<&'a T>,
{
    let f = match Fp::try_from(t) {
        Ok(f) => f,
        Err(_) => crate::tree::die("hash that is no field element"),
    };
    f.to_bytes().try_into().unwrap()
}
/// Hashes that convert to nothing public are read back from their text.
pub fn text32(s: String) -> [u8; 32] {
    let v = bs58::decode(s).into_vec().unwrap();
    let n = v.len();
    v[n - 36..n - 4].try_into().unwrap()
}
fn staged(o: &mut Ro, s: &StagedLedgerHash) {
    let mut d = Sha256::new();
    let mut l = h32(&s.non_snark.ledger_hash);
    l.reverse();
    d.update(l);
    d.update(&s.non_snark.aux_hash.0);
    d.update(&s.non_snark.pending_coinbase_aux.0);
    o.bytes(&d.finalize());
    o.hash(text32(s.pending_coinbase_hash.to_string()));
}
fn constants(o: &mut Ro, c: &ProtocolConstants) {
    for x in [c.k.0, c.delta.0, c.slots_per_epoch.0, c.slots_per_sub_window.0] {
        o.n(x as u64, 32)
    }
    o.n(c.genesis_state_timestamp.0, 64);
}
fn epoch(o: &mut Ro, e: &EpochData) {
    o.hash(text32(e.seed.to_string()));
    o.hash(h32(&e.start_checkpoint));
    o.n(e.epoch_length.0 as u64, 32);
    o.hash(h32(&e.ledger.hash));
    o.n(e.ledger.total_currency.0, 64);
    o.hash(h32(&e.lock_checkpoint));
}
fn consensus(o: &mut Ro, c: &ConsensusState) {
    for x in [c.blockchain_length, c.epoch_count, c.min_window_density].iter().chain(&c.sub_window_densities) {
        o.n(x.0 as u64, 32)
    }
    // 253 bits of it
    let v = &c.last_vrf_output.0;
    o.bytes(&v[..v.len().min(31)]);
    if let Some(x) = v.get(31) {
        (0..5).for_each(|i| o.b(x >> i & 1 == 1))
    }
    o.n(c.total_currency.0, 64);
    o.n(c.curr_global_slot.slot_number.0 as u64, 32);
    o.n(c.curr_global_slot.slots_per_epoch.0 as u64, 32);
    o.n(c.global_slot_since_genesis.0 as u64, 32);
    o.b(c.has_ancestor_in_same_checkpoint_window);
    o.b(c.supercharge_coinbase);
    epoch(o, &c.staking_epoch_data);
    epoch(o, &c.next_epoch_data);
    for k in [&c.block_stake_winner, &c.block_creator, &c.coinbase_receiver] {
        o.key(k)
    }
}
fn body_legacy(b: &ProtocolStateBodyLegacy) -> Vec<Fp> {
    let mut o = Ro::default();
    constants(&mut o, &b.constants);
    o.hash(h32(&b.genesis_state_hash));
    let s = &b.blockchain_state;
    staged(&mut o, &s.staged_ledger_hash);
    o.hash(h32(&s.snarked_ledger_hash));
    o.hash(h32(&s.genesis_ledger_hash));
    o.n(s.snarked_next_available_token.0, 64);
    o.n(s.timestamp.0, 64);
    consensus(&mut o, &b.consensus_state);
    o.legacy()
}
fn body(b: &ProtocolStateBody) -> Vec<Fp> {
    let mut o = Ro::default();
    constants(&mut o, &b.constants);
    o.hash(h32(&b.genesis_state_hash));
    let s = &b.blockchain_state;
    staged(&mut o, &s.staged_ledger_hash);
    o.hash(h32(&s.genesis_ledger_hash));
    o.hash(h32(&s.registers.ledger));
    let l = &s.registers.local_state;
    for x in [&l.stack_frame, &l.call_stack, &l.transaction_commitment, &l.full_transaction_commitment] {
        o.hash(h32(x))
    }
    o.f(l.token_id.0.into());
    o.n(l.excess.0, 64);
    o.b(l.excess.1);
    o.hash(h32(&l.ledger));
    o.n(l.party_index.0 as u64, 32);
    o.b(l.success);
    o.n(s.timestamp.0, 64);
    o.bytes(&s.body_reference.0);
    consensus(&mut o, &b.consensus_state);
    o.kimchi()
}
fn state(kind: &str, previous: &StateHash, body: &[Fp]) -> Fp {
    let b = stand_in_sponge(kind, Some("CodaProtoStateBody"), body);
    stand_in_sponge(kind, Some("CodaProtoState"), &[fp(&h32(previous)), b])
}
fn auth(o: &mut Ro, a: &AuthRequired) {
    // constant, signature necessary, signature sufficient
    let b = match a {
        AuthRequired::None => [true, false, true],
        AuthRequired::Either => [false, false, true],
        AuthRequired::Proof => [false, false, false],
        AuthRequired::Signature => [false, true, true],
        AuthRequired::Both => [false, true, false],
        AuthRequired::Impossible => [true, true, false],
    };
    b.iter().for_each(|x| o.b(*x))
}
fn zkapp() -> Fp {
    let f = |s| proof_systems::fp_from_radix_10(s).unwrap();
    let a = f("12935064460869035604753254773225484359407575580289870070671311469994328713165");
    let b = f("15836741414052211301983886193856353162526040956490609761139212467629447291325");
    let z = Fp::from(0u64);
    // eight elements of state, the default key, the sequence state and one group of 65 zero bits
    stand_in_sponge("kimchi", Some("CodaZkappAccount"), &[a, a, a, a, a, b, z, z, z, z, z, z, z, z, z])
}
pub fn account(a: &Account) -> Vec<Fp> {
    let mut o = Ro::default();
    o.f(stand_in_sponge("kimchi", Some("MinaZkappUri"), &[Fp::from(1u64)]));
    o.f(zkapp());
    let p = &a.permissions;
    for x in [
        &p.edit_state, &p.send, &p.receive, &p.set_delegate, &p.set_permissions, &p.set_verification_key, &p.set_zkapp_uri, &p.edit_sequence_state,
        &p.set_token_symbol, &p.increment_nonce, &p.set_voting_for,
    ] {
        auth(&mut o, x)
    }
    let (timed, t) = match &a.timing {
        Timing::Untimed => (false, [0, 0, 0, 1, 0]),
        Timing::Timed(t) => (true, [t.initial_minimum_balance.0, t.cliff_time.0, t.cliff_amount.0, t.vesting_period.0, t.vesting_increment.0]),
    };
    o.b(timed);
    for (x, w) in t.iter().zip([64, 32, 64, 32, 64]) {
        o.n(*x, w)
    }
    o.hash(h32(&a.voting_for));
    match &a.delegate {
        Some(k) => o.key(k),
        None => o.key(&CompressedPubKey { x: Fp::from(0u64), is_odd: false }),
    }
    o.hash(h32(&a.receipt_chain_hash));
    o.n(a.nonce.0 as u64, 32);
    o.n(a.balance.0, 64);
    let s: [u8; 32] = a.token_symbol.clone().into();
    o.n(s[..6].iter().rev().fold(0, |n, b| n << 8 | *b as u64), 48);
    let (own, flag) = match &a.token_permissions {
        TokenPermissions::NotOwned { account_disabled } => (false, *account_disabled),
        TokenPermissions::TokenOwned { disable_new_accounts } => (true, *disable_new_accounts),
    };
    o.n(own as u64 | (flag as u64) << 1, 2);
    o.f(a.token_id.0.into());
    o.key(&a.public_key);
    o.kimchi()
}

pub fn int(r: &mut Rng) -> u64 {
    match r.below(5) {
        0 => r.below(3),
        1 => u64::MAX - r.below(2),
        2 => 1 << r.below(64),
        3 => r.next() >> 32,
        _ => r.next(),
    }
}
fn len(r: &mut Rng) -> Length {
    Length(int(r) as u32)
}
pub fn key(r: &mut Rng) -> CompressedPubKey {
    CompressedPubKey { x: fp(&field(r)), is_odd: r.bool() }
}
fn ledger(r: &mut Rng) -> LedgerHash {
    (&fp(&field(r))).into()
}
fn coin(r: &mut Rng) -> CoinBaseHash {
    crate::c17::b58(12, &[&[1u8][..], &field(r)].concat()).parse().unwrap_or_else(|e| crate::tree::die(&format!("coinbase hash {e:?}")))
}
fn seed(r: &mut Rng) -> EpochSeed {
    crate::c17::b58(13, &[&[1u8][..], &field(r)].concat()).parse().unwrap_or_else(|e| crate::tree::die(&format!("epoch seed {e:?}")))
}
fn staged_hash(r: &mut Rng) -> StagedLedgerHash {
    StagedLedgerHash {
        non_snark: NonSnarkStagedLedgerHash { ledger_hash: ledger(r), aux_hash: AuxHash(r.bytes(32)), pending_coinbase_aux: r.bytes(32).into() },
        pending_coinbase_hash: coin(r),
    }
}
fn epoch_data(r: &mut Rng) -> EpochData {
    EpochData {
        ledger: EpochLedger { hash: ledger(r), total_currency: Amount(int(r)) },
        seed: seed(r),
        start_checkpoint: field(r).into(),
        lock_checkpoint: field(r).into(),
        epoch_length: len(r),
    }
}
fn consensus_state(r: &mut Rng, windows: usize, vrf: usize) -> ConsensusState {
    ConsensusState {
        blockchain_length: len(r),
        epoch_count: len(r),
        min_window_density: len(r),
        sub_window_densities: (0..windows).map(|_| len(r)).collect(),
        last_vrf_output: VrfOutputTruncated(r.bytes(vrf)),
        total_currency: Amount(int(r)),
        curr_global_slot: GlobalSlot { slot_number: GlobalSlotNumber(int(r) as u32), slots_per_epoch: len(r) },
        global_slot_since_genesis: GlobalSlotNumber(int(r) as u32),
        staking_epoch_data: epoch_data(r),
        next_epoch_data: epoch_data(r),
        has_ancestor_in_same_checkpoint_window: r.bool(),
        block_stake_winner: key(r),
        block_creator: key(r),
        coinbase_receiver: key(r),
        supercharge_coinbase: r.bool(),
    }
}
fn protocol_constants(r: &mut Rng) -> ProtocolConstants {
    ProtocolConstants { k: len(r), slots_per_epoch: len(r), slots_per_sub_window: len(r), delta: len(r), genesis_state_timestamp: BlockTime(int(r)) }
}
type Pair = (ProtocolStateLegacy, ProtocolState);
/// The same content in both forms, as far as both have it.
pub fn states(r: &mut Rng, windows: usize, vrf: usize) -> Pair {
    let (mut c, k, mut s) = (consensus_state(r, windows, vrf), protocol_constants(r), staged_hash(r));
    let (previous, genesis, t): (StateHash, StateHash, _) = (field(r).into(), field(r).into(), BlockTime(int(r)));
    let (gl, mut sl) = (ledger(r), ledger(r));
    // parts that agree, as they do in a genesis state
    match r.below(12) {
        0 => c.next_epoch_data = c.staking_epoch_data.clone(),
        1 => c.coinbase_receiver = c.block_creator.clone(),
        2 => c.block_stake_winner = c.block_creator.clone(),
        3 => c.staking_epoch_data.lock_checkpoint = c.staking_epoch_data.start_checkpoint.clone(),
        4 => s.non_snark.ledger_hash = gl.clone(),
        5 => sl = gl.clone(),
        6 => c.global_slot_since_genesis = c.curr_global_slot.slot_number.clone(),
        7 => c.next_epoch_data.ledger = c.staking_epoch_data.ledger.clone(),
        _ => {}
    }
    let old = ProtocolStateLegacy {
        previous_state_hash: previous.clone(),
        body: ProtocolStateBodyLegacy {
            genesis_state_hash: genesis.clone(),
            blockchain_state: BlockchainStateLegacy {
                staged_ledger_hash: s.clone(),
                snarked_ledger_hash: sl.clone(),
                genesis_ledger_hash: gl.clone(),
                snarked_next_available_token: TokenId(int(r)),
                timestamp: t.clone(),
            },
            consensus_state: c.clone(),
            constants: k.clone(),
        },
    };
    let f = |r: &mut Rng| Field::from(&fp(&field(r)));
    let new = ProtocolState {
        previous_state_hash: previous,
        body: ProtocolStateBody {
            genesis_state_hash: genesis,
            blockchain_state: BlockchainState {
                staged_ledger_hash: s,
                genesis_ledger_hash: gl,
                registers: BlockchainStateRegisters {
                    ledger: sl,
                    pending_coinbase_stack: (),
                    local_state: BlockchainStateRegistersLocalState {
                        stack_frame: f(r),
                        call_stack: f(r),
                        transaction_commitment: f(r),
                        full_transaction_commitment: f(r),
                        token_id: TokenId(int(r)),
                        excess: SignedAmount(int(r), r.bool()),
                        ledger: ledger(r),
                        success: r.bool(),
                        party_index: MinaIndex(int(r) as u32),
                        failure_status_tbl: vec![],
                    },
                },
                timestamp: t,
                body_reference: BodyReference(r.bytes(32).try_into().unwrap()),
            },
            consensus_state: c,
            constants: k,
        },
    };
    (old, new)
}
pub fn perm(r: &mut Rng) -> AuthRequired {
    use AuthRequired::*;
    r.pick(&[None, Either, Proof, Signature, Both, Impossible]).clone()
}
pub fn permissions(r: &mut Rng) -> Permissions {
    Permissions {
        edit_state: perm(r),
        send: perm(r),
        receive: perm(r),
        set_delegate: perm(r),
        set_permissions: perm(r),
        set_verification_key: perm(r),
        set_zkapp_uri: perm(r),
        edit_sequence_state: perm(r),
        set_token_symbol: perm(r),
        increment_nonce: perm(r),
        set_voting_for: perm(r),
    }
}
pub fn gen_account(r: &mut Rng) -> Account {
    let mut symbol = [0; 32];
    let n = r.below(7) as usize;
    symbol[..n].copy_from_slice(&r.bytes(n));
    let public_key = key(r);
    let receipt = field(r);
    Account {
        token_id: TokenId(int(r)),
        balance: Amount(int(r)),
        token_permissions: if r.bool() { TokenPermissions::NotOwned { account_disabled: r.bool() } } else { TokenPermissions::TokenOwned { disable_new_accounts: r.bool() } },
        token_symbol: symbol.into(),
        nonce: AccountNonce(int(r) as u32),
        receipt_chain_hash: receipt.into(),
        // no delegate is the key of all zeros
        delegate: r.bool().then(|| if r.chance(1, 3) { public_key.clone() } else { key(r) }).filter(|k| k.x != Fp::from(0u64)),
        voting_for: if r.chance(1, 8) { receipt.into() } else { field(r).into() },
        public_key,
        timing: if r.bool() {
            Timing::Untimed
        } else if r.chance(1, 8) {
            // the values that stand in for an untimed account
            Timing::Timed(Default::default())
        } else {
            // slots have 32 bits
            Timing::Timed(timing::TimedData {
                initial_minimum_balance: Amount(int(r)),
                cliff_time: BlockTime(int(r) as u32 as u64),
                cliff_amount: Amount(int(r)),
                vesting_period: BlockTime(int(r) as u32 as u64),
                vesting_increment: Amount(int(r)),
            })
        },
        permissions: permissions(r),
        zkapp: r.bool().then(Default::default),
        zkapp_uri: r.bool().then(Default::default),
    }
}
/// Replaces one leaf of the first by the second's, in both forms where both have it.
type Swap = (&'static str, fn(&mut Pair, &Pair));
macro_rules! both {
    ($($($p:ident).+;)*) => { &[$((stringify!($($p).+), |a, b| {
        a.0.$($p).+ = b.0.$($p).+.clone();
        a.1.$($p).+ = b.1.$($p).+.clone();
    })),*] };
}
macro_rules! newer {
    ($($($p:ident).+;)*) => { &[$((stringify!($($p).+), |a, b| a.1.$($p).+ = b.1.$($p).+.clone())),*] };
}
const BOTH: &[Swap] = both! {
    previous_state_hash;
    body.genesis_state_hash;
    body.constants.k;
    body.constants.delta;
    body.constants.slots_per_epoch;
    body.constants.slots_per_sub_window;
    body.constants.genesis_state_timestamp;
    body.blockchain_state.staged_ledger_hash.non_snark.ledger_hash;
    body.blockchain_state.staged_ledger_hash.non_snark.aux_hash;
    body.blockchain_state.staged_ledger_hash.non_snark.pending_coinbase_aux;
    body.blockchain_state.staged_ledger_hash.pending_coinbase_hash;
    body.blockchain_state.genesis_ledger_hash;
    body.blockchain_state.timestamp;
    body.consensus_state.blockchain_length;
    body.consensus_state.epoch_count;
    body.consensus_state.min_window_density;
    body.consensus_state.sub_window_densities;
    body.consensus_state.last_vrf_output;
    body.consensus_state.total_currency;
    body.consensus_state.curr_global_slot.slot_number;
    body.consensus_state.curr_global_slot.slots_per_epoch;
    body.consensus_state.global_slot_since_genesis;
    body.consensus_state.staking_epoch_data.seed;
    body.consensus_state.staking_epoch_data.start_checkpoint;
    body.consensus_state.staking_epoch_data.lock_checkpoint;
    body.consensus_state.staking_epoch_data.epoch_length;
    body.consensus_state.staking_epoch_data.ledger.hash;
    body.consensus_state.staking_epoch_data.ledger.total_currency;
    body.consensus_state.next_epoch_data.seed;
    body.consensus_state.next_epoch_data.start_checkpoint;
    body.consensus_state.next_epoch_data.lock_checkpoint;
    body.consensus_state.next_epoch_data.epoch_length;
    body.consensus_state.next_epoch_data.ledger.hash;
    body.consensus_state.next_epoch_data.ledger.total_currency;
    body.consensus_state.has_ancestor_in_same_checkpoint_window;
    body.consensus_state.supercharge_coinbase;
    body.consensus_state.block_stake_winner.x;
    body.consensus_state.block_stake_winner.is_odd;
    body.consensus_state.block_creator.x;
    body.consensus_state.block_creator.is_odd;
    body.consensus_state.coinbase_receiver.x;
    body.consensus_state.coinbase_receiver.is_odd;
};
const NEWER: &[Swap] = newer! {
    body.blockchain_state.body_reference;
    body.blockchain_state.registers.ledger;
    body.blockchain_state.registers.local_state.stack_frame;
    body.blockchain_state.registers.local_state.call_stack;
    body.blockchain_state.registers.local_state.transaction_commitment;
    body.blockchain_state.registers.local_state.full_transaction_commitment;
    body.blockchain_state.registers.local_state.token_id;
    body.blockchain_state.registers.local_state.excess;
    body.blockchain_state.registers.local_state.ledger;
    body.blockchain_state.registers.local_state.success;
    body.blockchain_state.registers.local_state.party_index;
};
const OLDER: &[Swap] = &[
    ("body.blockchain_state.snarked_ledger_hash", |a, b| a.0.body.blockchain_state.snarked_ledger_hash = b.0.body.blockchain_state.snarked_ledger_hash.clone()),
    ("body.blockchain_state.snarked_next_available_token", |a, b| {
        a.0.body.blockchain_state.snarked_next_available_token = b.0.body.blockchain_state.snarked_next_available_token.clone()
    }),
];
/// Digests by every public way to them, which must agree.
fn digest(sh: &mut Shard, p: &Pair) -> (Fp, Fp) {
    let r = guarded(|| {
        let (o, n) = (&p.0, &p.1);
        let old = vec![o.state_hash_fp(), fp(&h32(&o.state_hash())), ProtocolStateHeader::state_hash_fp(o), create_legacy(()).hash(o)];
        let new = vec![n.state_hash_fp(), fp(&h32(&n.state_hash())), ProtocolStateHeader::state_hash_fp(n), create_kimchi(()).hash(n)];
        (old, new)
    });
    match r {
        Ok((o, n)) if o.iter().all(|x| *x == o[0]) && n.iter().all(|x| *x == n[0]) => (o[0], n[0]),
        r => sh.violation(&format!("the state hash of {p:?} is {r:?}")),
    }
}
fn check(sh: &mut Shard, what: &str, p: &Pair) -> (Fp, Fp) {
    let got = digest(sh, p);
    let want = (state("legacy", &p.0.previous_state_hash, &body_legacy(&p.0.body)), state("kimchi", &p.1.previous_state_hash, &body(&p.1.body)));
    if got.0 != want.0 {
        sh.violation(&format!("{what}: the older state hash does not cover the state as the protocol says: {:?}", p.0))
    }
    if got.1 != want.1 {
        sh.violation(&format!("{what}: the newer state hash does not cover the state as the protocol says: {:?}", p.1))
    }
    fn facts<'a>(h: &'a impl ProtocolStateHeader, c: &'a ConsensusState, k: &'a ProtocolConstants) -> bool {
        h.get_height() == c.blockchain_length
            && h.min_window_density() == c.min_window_density
            && h.sub_window_densities() == &c.sub_window_densities
            && h.consensus_state() == c
            && h.constants() == k
    }
    let (o, n) = (&p.0.body, &p.1.body);
    if !facts(&p.0, &o.consensus_state, &o.constants) || !facts(&p.1, &n.consensus_state, &n.constants) || p.0.curr_global_slot() != &o.consensus_state.curr_global_slot {
        sh.violation(&format!("{what}: the header facts of {p:?} are not those of its body"))
    }
    got
}
fn one_state(sh: &mut Shard) {
    let windows = *sh.rng.pick(&[11, 11, 11, 0, 1, 30]);
    let vrf = *sh.rng.pick(&[32, 32, 32, 31, 0, 16]);
    let a = states(&mut sh.rng, windows, vrf);
    let b = states(&mut sh.rng, windows, vrf);
    sh.case(|| format!("state {a:?}"));
    let before = check(sh, "state", &a);
    sh.observed(fnv(&before.0.to_bytes()), true);
    for _ in 0..3 {
        let (set, k) = match sh.rng.below(8) {
            0 | 1 => (NEWER, 1),
            2 => (OLDER, 0),
            _ => (BOTH, 2),
        };
        let (name, swap) = sh.rng.pick(set);
        let mut c = a.clone();
        swap(&mut c, &b);
        // the last three bits of the vrf output are not part of it
        c.0.body.consensus_state.last_vrf_output.0.iter_mut().skip(31).for_each(|x| *x &= 0x1f);
        let changed = (c.0 != a.0, c.1 != a.1);
        c.1.body.consensus_state.last_vrf_output = c.0.body.consensus_state.last_vrf_output.clone();
        let vrf_only = {
            let mut d = a.clone();
            d.0.body.consensus_state.last_vrf_output = c.0.body.consensus_state.last_vrf_output.clone();
            d.1.body.consensus_state.last_vrf_output = c.0.body.consensus_state.last_vrf_output.clone();
            d == c
        };
        sh.case(|| format!("state {a:?} with another {name}: {c:?}"));
        let after = check(sh, name, &c);
        if !vrf_only && k != 1 && changed.0 && after.0 == before.0 || !vrf_only && k != 0 && changed.1 && after.1 == before.1 {
            sh.violation(&format!("two states that differ in {name} have the same hash: {a:?} and {c:?}"))
        }
        sh.count("states with one leaf altered");
        if k == 2 {
            sh.count("leaves of both forms");
        }
        sh.observed(fnv(&after.1.to_bytes()), true);
    }
    // neighbouring densities exchanged, or (as their number is fixed on a network, without a verdict on equal
    // digests) one more
    let mut c = a.clone();
    let w = &mut c.0.body.consensus_state.sub_window_densities;
    let more = sh.rng.bool();
    if more {
        w.push(Length(0));
    } else if w.len() > 1 {
        let i = sh.rng.below(w.len() as u64 - 1) as usize;
        w.swap(i, i + 1);
    }
    c.1.body.consensus_state.sub_window_densities = c.0.body.consensus_state.sub_window_densities.clone();
    if c != a {
        let after = check(sh, "windows", &c);
        if !more && (after.0 == before.0 || after.1 == before.1) {
            sh.violation(&format!("two states that differ in their windows have the same hash: {a:?} and {c:?}"))
        }
        sh.count("states with other windows");
    }
}
type SwapA = (&'static str, fn(&mut Account, &Account));
macro_rules! leaves {
    ($($($p:ident).+;)*) => { &[$((stringify!($($p).+), |a, b| a.$($p).+ = b.$($p).+.clone())),*] };
}
const ACCOUNT: &[SwapA] = leaves! {
    public_key.x; public_key.is_odd; token_id; balance; token_permissions; token_symbol; nonce; receipt_chain_hash; delegate; voting_for; timing;
    permissions.edit_state; permissions.send; permissions.receive; permissions.set_delegate; permissions.set_permissions; permissions.set_verification_key;
    permissions.set_zkapp_uri; permissions.edit_sequence_state; permissions.set_token_symbol; permissions.increment_nonce; permissions.set_voting_for;
};
fn account_digest(sh: &mut Shard, a: &Account) -> Fp {
    let want = account(a);
    match guarded(|| (create_kimchi(()).hash(a), a.roinput().to_fields(), a.to_chunked_roinput().into_fields())) {
        Ok((h, f, g)) if h == stand_in_sponge("kimchi", Some("CodaAccount"), &want) && f == want && g == want => h,
        g => sh.violation(&format!("{a:?} is hashed as {g:?}, not as {want:?}")),
    }
}
fn one_account(sh: &mut Shard) {
    let (a, b) = (gen_account(&mut sh.rng), gen_account(&mut sh.rng));
    sh.case(|| format!("account {a:?}"));
    let before = account_digest(sh, &a);
    for _ in 0..3 {
        let (name, swap) = sh.rng.pick(ACCOUNT);
        let mut c = a.clone();
        swap(&mut c, &b);
        if format!("{a:?}") == format!("{c:?}") {
            continue;
        }
        sh.case(|| format!("account {a:?} with another {name}: {c:?}"));
        let after = account_digest(sh, &c);
        if after == before {
            sh.violation(&format!("two accounts that differ in {name} have the same hash: {a:?} and {c:?}"))
        }
        sh.count("accounts with one leaf altered");
        sh.observed(fnv(&after.to_bytes()), true);
    }
    sh.count("accounts");
    // all levels of permission are hashed differently
    let o = |x: &AuthRequired| x.to_chunked_roinput().into_fields();
    let (x, y) = (perm(&mut sh.rng), perm(&mut sh.rng));
    if (format!("{x:?}") == format!("{y:?}")) != (o(&x) == o(&y)) {
        sh.violation(&format!("permissions {x:?} and {y:?} are hashed as {:?} and {:?}", o(&x), o(&y)))
    }
    let h = <Account as Hashable>::domain_string(());
    sh.sample(|| serde_json::json!({"domain": h, "digest": hex(&before.to_bytes())}));
}
/// The parts by themselves, as other hashed things would take them in.
fn parts(sh: &mut Shard) {
    macro_rules! part {
        ($t:ty, $v:expr, |$o:ident| $lay:expr) => {{
            let v: $t = $v;
            let mut $o = Ro::default();
            $lay;
            let old = $o.legacy();
            let mut $o = Ro::default();
            $lay;
            let new = $o.kimchi();
            sh.case(|| format!("{v:?} by itself"));
            match guarded(|| (v.to_roinput().to_fields(), v.to_chunked_roinput().into_fields(), v.roinput().to_fields(), <$t as Hashable>::domain_string(()))) {
                Ok((a, b, c, None)) if a == old && b == new && c == new => sh.count(stringify!($t)),
                g => sh.violation(&format!("{v:?} by itself is hashed as {g:?}, not as {old:?} and {new:?}")),
            }
            sh.observed(fnv(format!("{v:?}").as_bytes()), true);
        }};
    }
    let r = &mut sh.rng.clone();
    sh.rng.next();
    let (n, m, x) = (int(r), int(r) as u32, field(r));
    part!(TokenId, n.into(), |o| o.n(n, 64));
    part!(Length, Length(m), |o| o.n(m as u64, 32));
    part!(Amount, Amount(n), |o| o.n(n, 64));
    part!(AccountNonce, AccountNonce(m), |o| o.n(m as u64, 32));
    part!(BlockTime, BlockTime(n), |o| o.n(n, 64));
    let len = len(r);
    part!(GlobalSlot, GlobalSlot { slot_number: GlobalSlotNumber(m), slots_per_epoch: len }, |o| {
        o.n(m as u64, 32);
        o.n(len.0 as u64, 32)
    });
    part!(StateHash, x.into(), |o| o.hash(x));
    part!(ChainHash, x.into(), |o| o.hash(x));
    part!(LedgerHash, (&fp(&x)).into(), |o| o.hash(x));
    let c = coin(r);
    part!(CoinBaseHash, c.clone(), |o| o.hash(text32(c.to_string())));
    let e = seed(r);
    part!(EpochSeed, e.clone(), |o| o.hash(text32(e.to_string())));
    let s = staged_hash(r);
    part!(StagedLedgerHash, s.clone(), |o| staged(&mut o, &s));
    let d = epoch_data(r);
    part!(EpochData, d.clone(), |o| epoch(&mut o, &d));
    part!(EpochLedger, d.ledger.clone(), |o| {
        o.hash(h32(&d.ledger.hash));
        o.n(d.ledger.total_currency.0, 64)
    });
    let k = protocol_constants(r);
    part!(ProtocolConstants, k.clone(), |o| constants(&mut o, &k));
    let back: StateBodyHash = (&fp(&x)).into();
    let same: StateHash = x.into();
    match guarded(|| (text32(back.to_string()), text32(same.to_string()))) {
        Ok(t) if t == (x, x) => sh.count("parts"),
        t => sh.violation(&format!("the hashes with the value {} hold {t:?}", hex(&x))),
    }
}
pub fn run() {
    let run = mon::start(
        "C23",
        "exploration",
        "each digest counts once",
        &[
            "the sponge is a stand-in that is injective for practical purposes; digests are compared with the monitor's own layout, not with published ones",
            "hashes and keys are below the field modulus, times of accounts below 2^32, vrf outputs of at most 32 bytes, aux hashes of 32 bytes",
        ],
    );
    run.par(mon::threads(), |sh| {
        let n = if sh.thorough() { 40_000 } else { 2_500 };
        for _ in 0..n {
            sh.beat();
            one_state(sh);
            one_account(sh);
            parts(sh);
        }
    });
    for k in ["states with one leaf altered", "leaves of both forms", "states with other windows", "accounts", "accounts with one leaf altered", "parts"] {
        run.require(k, 2000);
    }
    run.finish()
}
