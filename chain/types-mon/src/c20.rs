//! Chain selection: a header type with chosen contents is put through the real selection code and judged by the
//! rules of the consensus specification.
use mina_consensus::common::{ChainSelection, ProtocolStateChain};
use mina_consensus::error::ConsensusError;
use mina_crypto::hash::StateHash;
use mina_rs_base::types::*;
use mon::{fnv, guarded, Rng, Shard};
use proof_systems::mina_hasher::Fp;
use serde_json::json;

#[derive(Clone, Debug, Default)]
pub struct H {
    id: u64,
    cs: ConsensusState,
    k: ProtocolConstants,
    hash: Fp,
}
impl ProtocolStateHeader for H {
    fn get_height(&self) -> Length {
        self.cs.blockchain_length
    }
    fn min_window_density(&self) -> Length {
        self.cs.min_window_density
    }
    fn sub_window_densities(&self) -> &Vec<Length> {
        &self.cs.sub_window_densities
    }
    fn consensus_state(&self) -> &ConsensusState {
        &self.cs
    }
    fn constants(&self) -> &ProtocolConstants {
        &self.k
    }
    fn state_hash_fp(&self) -> Fp {
        self.hash
    }
}
type Chain = ProtocolStateChain<H>;

const EPOCH: u32 = 7140;
const WINDOWS: usize = 11;
const PER_WINDOW: u32 = 7;
const GRACE: u32 = 1440;

/// What the rules need to know about a chain.
#[derive(Clone, Debug)]
pub struct F {
    pub id: u64,
    pub height: u32,
    pub epoch: u32,
    pub slot: u32,
    pub per_epoch: u32,
    lock: [u8; 32],
    next_lock: [u8; 32],
    min_density: u32,
    pub dens: Vec<u32>,
    vrf: Vec<u8>,
    pub hash: Fp,
}
pub fn facts(r: &mut Rng, id: u64, hostile: bool) -> F {
    let locks = [[1u8; 32], [2; 32], [0; 32]];
    let base = *r.pick(&[0, 100, GRACE - 2, 2121, 40_000, 700_000]);
    let slot = match r.below(5) {
        0 => base,
        1 => (r.below(4) as u32) * EPOCH + 4760 - 2 + r.below(5) as u32,
        2 => r.below(200_000) as u32,
        _ => base + r.below(30) as u32,
    };
    let n = *r.pick(&[11, 11, 11, 11, 11, 11, 11, 10, 12, 0]);
    F {
        id,
        height: if hostile && r.chance(1, 8) { u32::MAX - r.below(2) as u32 } else { r.below(4) as u32 },
        epoch: if hostile && r.chance(1, 6) { u32::MAX - r.below(2) as u32 } else { r.below(4) as u32 },
        slot: if hostile && r.chance(1, 8) { u32::MAX - r.below(20) as u32 } else { slot },
        per_epoch: if hostile && r.chance(1, 6) { r.below(2) as u32 } else { EPOCH },
        lock: *r.pick(&locks),
        next_lock: *r.pick(&locks),
        min_density: r.below(78) as u32,
        dens: (0..n).map(|_| if r.chance(1, 60) { *r.pick(&[8, 9, 100, u32::MAX]) } else { r.below(8) as u32 }).collect(),
        vrf: r.pick(&[vec![1u8; 32], vec![2; 32], vec![3; 31], vec![]]).clone(),
        hash: Fp::from(r.below(3)),
    }
}
/// Puts the facts into a consensus state.
pub fn put(f: &F, cs: &mut ConsensusState) {
    cs.blockchain_length = Length(f.height);
    cs.epoch_count = Length(f.epoch);
    cs.curr_global_slot = GlobalSlot { slot_number: GlobalSlotNumber(f.slot), slots_per_epoch: Length(f.per_epoch) };
    cs.staking_epoch_data.lock_checkpoint = StateHash::from(f.lock);
    cs.next_epoch_data.lock_checkpoint = StateHash::from(f.next_lock);
    cs.min_window_density = Length(f.min_density);
    cs.sub_window_densities = f.dens.iter().map(|d| Length(*d)).collect();
    cs.last_vrf_output = VrfOutputTruncated(f.vrf.clone());
}
fn chain(f: &F) -> Chain {
    let mut cs = ConsensusState::default();
    put(f, &mut cs);
    ProtocolStateChain(vec![H { id: f.id, cs, k: Default::default(), hash: f.hash }])
}
fn short(a: &F, b: &F) -> bool {
    if a.epoch == b.epoch {
        return a.lock == b.lock;
    }
    // one is an epoch ahead, and the other is past the slots that update its seed
    let (lo, hi) = if a.epoch < b.epoch { (a, b) } else { (b, a) };
    hi.epoch - lo.epoch == 1 && lo.per_epoch > 0 && lo.slot % lo.per_epoch >= EPOCH * 2 / 3 && hi.lock == lo.next_lock
}
fn digest(v: &[u8]) -> Vec<u8> {
    use blake2::digest::{Update, VariableOutput};
    let mut h = blake2::Blake2bVar::new(32).unwrap();
    h.update(v);
    h.finalize_boxed().to_vec()
}
/// The candidate is preferred on length, then on the digest of the vrf output, then on the state hash.
fn longer(a: &F, c: &F) -> bool {
    (c.height, digest(&c.vrf), c.hash) > (a.height, digest(&a.vrf), a.hash)
}
/// Minimum density of the window of `a` seen from the later of the two slots; None when there are too few sub windows.
fn density(a: &F, b: &F, extra: u32, per_window: u32) -> Option<u32> {
    let max = a.slot.max(b.slot);
    if max < GRACE {
        return Some(a.min_density);
    }
    let gone = match extra {
        0 => (max - a.slot).saturating_sub(1),
        _ => max - a.slot.saturating_sub(1),
    };
    let mut w = a.dens.clone();
    let mut i = (a.slot / per_window) as usize % WINDOWS;
    for _ in 0..gone.min(WINDOWS as u32) {
        i = (i + 1) % WINDOWS;
        *w.get_mut(i)? = 0;
    }
    Some((a.min_density as u64).min(w.iter().map(|d| *d as u64).sum()) as u32)
}
fn well_formed(f: &F) -> bool {
    f.dens.len() == WINDOWS && f.dens.iter().all(|d| *d <= PER_WINDOW)
}
/// Whether a candidate replaces the own chain (None: selection fails), by the rule and by what is recorded of the code.
pub fn verdicts(a: &F, c: &F) -> [Option<bool>; 2] {
    if short(a, c) {
        return [Some(longer(a, c)); 2];
    }
    if !well_formed(c) {
        return [Some(false); 2];
    }
    [(0, PER_WINDOW), (1, WINDOWS as u32)].map(|(extra, per)| {
        let (da, dc) = (density(a, c, extra, per)?, density(c, a, extra, per)?);
        Some(dc > da || dc == da && longer(a, c))
    })
}
fn id(c: &Chain) -> Option<u64> {
    c.top().map(|t| t.id)
}
fn densities(sh: &mut Shard, a: &F, b: &F) -> Result<u32, ()> {
    let (ca, cb) = (chain(a), chain(b));
    let got = match guarded(|| ca.relative_min_window_density(&cb)) {
        Ok(g) => g,
        Err(p) => sh.violation(&format!("relative density panicked: {p}: {a:?} {b:?}")),
    };
    let spec = density(a, b, 0, PER_WINDOW);
    let deviating = density(a, b, 1, WINDOWS as u32);
    let g = got.as_ref().ok().copied();
    if g == spec {
        sh.count("relative densities by the rule");
    } else if g == deviating {
        sh.finding_or_violation("relative-density-window", &format!("relative density {g:?}, by the rule {spec:?}: {a:?} against {b:?}"));
        sh.count("relative densities");
    } else {
        sh.violation(&format!("relative density {got:?}, by the rule {spec:?}: {a:?} against {b:?}"))
    }
    match got {
        Ok(d) => Ok(d),
        Err(ConsensusError::CandidatesMissingSubWindowDensities) => Err(()),
        Err(e) => sh.violation(&format!("relative density of {a:?} failed with {e:?}")),
    }
}
fn fork(sh: &mut Shard) {
    let hostile = sh.rng.bool();
    let mut tip = facts(&mut sh.rng, 0, false);
    if hostile && sh.rng.chance(1, 3) {
        tip.epoch = u32::MAX - sh.rng.below(2) as u32;
    }
    // the own chain is well formed
    while !well_formed(&tip) {
        tip.dens = (0..WINDOWS).map(|_| sh.rng.below(8) as u32).collect();
    }
    let n = 1 + sh.rng.below(4);
    let mut cands: Vec<Option<F>> = vec![];
    for i in 0..n {
        let mut c = facts(&mut sh.rng, i + 1, hostile);
        if sh.rng.chance(1, 3) {
            c.epoch = tip.epoch.saturating_add(sh.rng.below(2) as u32);
        }
        if sh.rng.chance(1, 3) {
            c.slot = tip.slot.saturating_add(sh.rng.below(14) as u32).saturating_sub(sh.rng.below(14) as u32);
        }
        cands.push(if sh.rng.chance(1, 40) { None } else { Some(c) });
    }
    sh.case(|| format!("tip {tip:?}\ncandidates {cands:#?}"));
    // the rules
    let mut best = Some(tip.clone());
    let mut want = Ok(());
    let mut kinds = vec![];
    for c in &cands {
        let a = best.clone().unwrap();
        let Some(c) = c else {
            want = Err(ConsensusError::ConsensusStateNotFound);
            break;
        };
        let s = short(&a, c);
        let (ca, cc) = (chain(&a), chain(c));
        let real = guarded(|| (ca.is_short_range(&cc), cc.is_short_range(&ca)));
        if real.as_ref() != Ok(&(Ok(s), Ok(s))) {
            sh.violation(&format!("short range is {real:?} instead of {s} for {a:?} and {c:?}"))
        }
        let l = longer(&a, c);
        let mut pick = ca.clone();
        if guarded(|| pick.select_longer_chain(cc.clone())) != Ok(Ok(())) {
            sh.violation(&format!("select_longer_chain failed for {a:?} and {c:?}"))
        }
        if id(&pick) != Some(if l { c.id } else { a.id }) {
            sh.violation(&format!("select_longer_chain took chain {:?} of {a:?} and {c:?}", id(&pick)))
        }
        let (kind, take) = if s {
            (if l { "short range, longer taken" } else { "short range, kept" }, l)
        } else if !well_formed(c) {
            ("long range, malformed window ignored", false)
        } else {
            let (Ok(da), Ok(dc)) = (densities(sh, &a, c), densities(sh, c, &a)) else {
                // the own chain was replaced, in a short fork, by one with too few sub windows
                if a.dens.len() >= WINDOWS {
                    sh.violation(&format!("no relative density for well formed windows {a:?} {c:?}"))
                }
                want = Err(ConsensusError::CandidatesMissingSubWindowDensities);
                sh.count("windows missing");
                break;
            };
            match dc.cmp(&da) {
                std::cmp::Ordering::Greater => ("long range, denser taken", true),
                std::cmp::Ordering::Less => ("long range, denser kept", false),
                _ => (if l { "long range, equal density, longer taken" } else { "long range, equal density, kept" }, l),
            }
        };
        sh.count(kind);
        kinds.push(kind);
        if take {
            best = Some(c.clone())
        }
    }
    let mut own = chain(&tip);
    let got = guarded(|| own.select_secure_chain(cands.iter().map(|c| c.as_ref().map_or(ProtocolStateChain(vec![]), chain)).collect()));
    if got.as_ref() != Ok(&want) {
        sh.violation(&format!("selection ended with {got:?}, expected {want:?}"))
    }
    let b = best.unwrap();
    if id(&own) != Some(b.id) {
        sh.violation(&format!("chain {:?} was selected, the rules say {} ({kinds:?})", id(&own), b.id))
    }
    if format!("{:?}", own.0) != format!("{:?}", chain(&b).0) {
        sh.violation("the selected chain was altered")
    }
    sh.count("selections");
    sh.observed(fnv(format!("{tip:?}{cands:?}").as_bytes()), kinds.len() > 1);
}
/// Short forks of one checkpoint: the winner does not depend on the order in which candidates arrive.
fn any_order(sh: &mut Shard) {
    let mut fs: Vec<F> = (0..5).map(|i| facts(&mut sh.rng, i, false)).collect();
    for f in &mut fs {
        f.epoch = 3;
        f.lock = [7; 32];
        f.height += 1;
    }
    sh.case(|| format!("{fs:#?}"));
    let key = |f: &F| (f.height, digest(&f.vrf), f.hash);
    let want = fs.iter().map(key).max().unwrap();
    for _ in 0..4 {
        for i in (1..fs.len()).rev() {
            let j = sh.rng.below(i as u64 + 1) as usize;
            fs.swap(i, j);
        }
        let mut own = chain(&fs[0]);
        let cut = 1 + sh.rng.below(5) as usize;
        // in one batch or in two
        let r1 = own.select_secure_chain(fs[1..cut].iter().map(chain).collect());
        let r2 = own.select_secure_chain(fs[cut..].iter().map(chain).collect());
        let got = id(&own).unwrap();
        let g = fs.iter().find(|f| f.id == got).map(key);
        if r1.is_err() || r2.is_err() || g.as_ref() != Some(&want) {
            sh.violation(&format!("chain {got} was selected although another one is preferred"))
        }
    }
    sh.count("orders of arrival");
    sh.observed(fnv(format!("{fs:?}").as_bytes()), true);
}
/// Chains grow by one block at a time.
fn growth(sh: &mut Shard) {
    let mut c: Chain = ProtocolStateChain(vec![]);
    let mut model: Vec<F> = vec![];
    let mut text = String::new();
    if c.length() != 0 || c.top().is_some() || c.genesis_block().is_some() || c.epoch_slot().is_some() || c.state_hash().is_some() || c.last_vrf_hash_digest().is_ok() {
        sh.violation("an empty chain has a block")
    }
    let near_end = sh.rng.chance(1, 4);
    for i in 0..12 {
        let mut f = facts(&mut sh.rng, i, true);
        f.height = match model.last() {
            Some(l) if sh.rng.chance(3, 4) => l.height.wrapping_add(1),
            Some(l) => l.height.wrapping_add(sh.rng.below(5) as u32).wrapping_sub(2),
            None if near_end => u32::MAX - 4,
            None => sh.rng.below(3) as u32,
        };
        text.push_str(&format!("{} ", f.height));
        sh.case(|| format!("heights pushed {text}, last {f:?}"));
        let fits = model.last().map_or(true, |l| l.height.checked_add(1) == Some(f.height));
        let got = guarded(|| c.push(chain(&f).0.remove(0)));
        let want = if fits { Ok(()) } else { Err(ConsensusError::InvalidHeight) };
        if got.as_ref() != Ok(&want) {
            sh.violation(&format!("pushing height {} gave {got:?}, expected {want:?}", f.height))
        }
        if fits {
            model.push(f)
        } else {
            sh.count("blocks that do not extend the chain")
        }
        let l = model.last().unwrap();
        let want = (
            Some(l.id),
            Some(model[0].id),
            l.height as usize,
            (l.per_epoch > 0).then(|| l.slot % l.per_epoch.max(1)),
            Ok(mon::hex(&digest(&l.vrf))),
            Some(l.hash),
            model.iter().map(|f| f.id).collect::<Vec<_>>(),
        );
        let got = guarded(|| {
            (
                id(&c),
                c.genesis_block().map(|t| t.id),
                c.length(),
                c.epoch_slot(),
                c.last_vrf_hash_digest(),
                c.state_hash(),
                c.0.iter().map(|f| f.id).collect::<Vec<_>>(),
            )
        });
        if got.as_ref() != Ok(&want) {
            sh.violation(&format!("the chain reports {got:?}, expected {want:?}"))
        }
    }
    sh.count("chains grown");
    sh.observed(fnv(text.as_bytes()), true);
}
/// The same with the block headers of the repository.
fn real_headers(sh: &mut Shard) {
    let mut mk = |l: u32, vrf: u8, t: u64| {
        let mut s = ProtocolStateLegacy::default();
        s.body.consensus_state.blockchain_length = Length(l);
        s.body.consensus_state.last_vrf_output = VrfOutputTruncated(vec![vrf; 32]);
        s.body.consensus_state.total_currency = Amount(t);
        s
    };
    let l = 1 + sh.rng.below(3) as u32;
    let (a, b) = (
        mk(l, sh.rng.below(2) as u8, sh.rng.below(1000)),
        mk(1 + sh.rng.below(3) as u32, sh.rng.below(2) as u8, sh.rng.below(1000)),
    );
    sh.case(|| format!("{a:?}\n{b:?}"));
    let key = |s: &ProtocolStateLegacy| {
        let c = &s.body.consensus_state;
        (c.blockchain_length.0, digest(&c.last_vrf_output.0), s.state_hash_fp())
    };
    let want = if key(&b) > key(&a) { &b } else { &a };
    let mut own = ProtocolStateChain(vec![a.clone()]);
    if own.select_secure_chain(vec![ProtocolStateChain(vec![b.clone()])]).is_err() || own.top() != Some(want) {
        sh.violation("the less preferred block header was selected")
    }
    sh.count("real headers");
    sh.observed(fnv(format!("{a:?}{b:?}").as_bytes()), true);
}
/// The digest that breaks ties is that of the VRF output, known for some inputs.
fn known_digests(sh: &mut Shard) {
    for (m, want) in [
        (vec![], "0e5751c026e543b2e8ab2eb06099daa1d1e5df47778f7787faab45cdf12fe3a8"),
        (b"abc".to_vec(), "bddd813c634239723171ef3fee98579b94964e3bb1cb3e427262c8c068d52319"),
        ((0..32).collect(), "cb2f5160fc1f7e05a55ef49d340b48da2e5a78099d53393351cd579dd42503d6"),
    ] {
        let mut f = facts(&mut sh.rng, 0, false);
        f.vrf = m.clone();
        let got = chain(&f).last_vrf_hash_digest();
        if got.as_deref() != Ok(want) {
            sh.violation(&format!("the digest of the vrf output {} is {got:?}, not {want}", mon::hex(&m)))
        }
    }
}
pub fn run() {
    let run = mon::start(
        "C20",
        "exploration",
        "a fork counts once by its tip and candidates, and is nontrivial when several candidates were weighed",
        &[
            "constants are those of mainnet, the only ones the code has",
            "the own chain has a well formed density window; candidates may have anything",
            "state hashes are chosen freely through a header type of the monitor, and come from a stand-in hash for real headers",
        ],
    );
    run.par(mon::threads(), |sh| {
        known_digests(sh);
        let n = if sh.thorough() { 300_000 } else { 15_000 };
        for i in 0..n {
            if i % 64 == 0 {
                sh.beat()
            }
            fork(sh);
            if i % 8 == 0 {
                any_order(sh);
                growth(sh);
                real_headers(sh);
            }
            if i < 2 {
                let f = facts(&mut sh.rng, 0, true);
                sh.sample(|| json!({"candidate": format!("{f:?}")}));
            }
        }
    });
    for k in [
        "short range, longer taken", "short range, kept", "long range, malformed window ignored", "long range, denser taken", "long range, denser kept",
        "long range, equal density, longer taken", "long range, equal density, kept", "relative densities by the rule", "blocks that do not extend the chain",
        "orders of arrival", "chains grown", "real headers",
    ] {
        run.require(k, 500);
    }
    run.finish()
}
