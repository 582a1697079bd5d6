//! Signed commands: the monitor signs and checks signatures itself, from its own account of what a command's
//! signature covers, and compares with the real signing and verification.
use mina_rs_base::types::*;
use mina_rs_base::user_commands::signed_command::{builder::SignedTransferCommandBuilder, StakeDelegation};
use mina_rs_base::verifiable::Verifiable;
use mina_serialization_types::v1::UserCommandV1;
use mina_serialization_types::v1::ExternalTransitionV1;
use mon::{fnv, guarded, hex, Rng, Shard};
use proof_systems::mina_hasher::{stand_in_sponge, Fp, Hashable};
use proof_systems::mina_signer::{create_legacy, generator, CompressedPubKey, CurvePoint, Keypair, NetworkId, ScalarField, Signature};
use proof_systems::o1_utils::FieldHelpers;

type Pk = ([u8; 32], bool);
#[derive(Clone, Debug, PartialEq)]
struct P {
    fee: u64,
    fee_token: u64,
    payer: Pk,
    nonce: u32,
    valid: u32,
    memo: Vec<u8>,
    deleg: bool,
    source: Pk,
    receiver: Pk,
    token: u64,
    amount: u64,
}
fn fp(b: &[u8; 32]) -> Fp {
    Fp::from_bytes(b).unwrap()
}
fn pk(p: &Pk) -> CompressedPubKey {
    CompressedPubKey { x: fp(&p.0), is_odd: p.1 }
}
fn payload(p: &P) -> SignedCommandPayload {
    SignedCommandPayload {
        common: SignedCommandPayloadCommon {
            fee: Amount(p.fee),
            fee_token: TokenId(p.fee_token),
            fee_payer_pk: pk(&p.payer),
            nonce: AccountNonce(p.nonce),
            valid_until: GlobalSlotNumber(p.valid),
            memo: SignedCommandMemo(p.memo.clone()),
        },
        body: if p.deleg {
            SignedCommandPayloadBody::StakeDelegation(StakeDelegation::SetDelegate { delegator: pk(&p.source), new_delegate: pk(&p.receiver) })
        } else {
            SignedCommandPayloadBody::PaymentPayload(PaymentPayload {
                source_pk: pk(&p.source),
                receiver_pk: pk(&p.receiver),
                token_id: TokenId(p.token),
                amount: Amount(p.amount),
            })
        },
    }
}
/// What the signature of a command covers: three field elements and 254-bit groups of the remaining bits.
fn covered(p: &P) -> Vec<Fp> {
    let mut bits: Vec<bool> = vec![];
    let mut int = |bits: &mut Vec<bool>, x: u64, n: u32| (0..n).for_each(|i| bits.push(x >> i & 1 == 1));
    int(&mut bits, p.fee, 64);
    int(&mut bits, p.fee_token, 64);
    bits.push(p.payer.1);
    int(&mut bits, p.nonce as u64, 32);
    int(&mut bits, p.valid as u64, 32);
    p.memo.iter().for_each(|b| int(&mut bits, *b as u64, 8));
    bits.extend([false, false, p.deleg]);
    bits.extend([p.source.1, p.receiver.1]);
    int(&mut bits, if p.deleg { 1 } else { p.token }, 64);
    int(&mut bits, if p.deleg { 0 } else { p.amount }, 64);
    bits.push(false);
    let mut f = vec![fp(&p.payer.0), fp(&p.source.0), fp(&p.receiver.0)];
    f.extend(bits.chunks(254).map(|c| {
        let mut b = [0u8; 32];
        c.iter().enumerate().for_each(|(i, x)| b[i / 8] |= (*x as u8) << (i % 8));
        fp(&b)
    }));
    f
}
fn domain(n: NetworkId) -> &'static str {
    match n {
        NetworkId::MAINNET => "MinaSignatureMainnet",
        NetworkId::TESTNET => "CodaSignature",
    }
}
fn times(p: CurvePoint, s: ScalarField) -> CurvePoint {
    let b = s.to_bytes();
    p.times(&(0..255).map(|i| b[i / 8] >> (i % 8) & 1 == 1).collect::<Vec<_>>())
}
fn odd(f: Fp) -> bool {
    f.to_bytes()[0] & 1 == 1
}
fn challenge(p: &P, key: &CurvePoint, rx: Fp, n: NetworkId) -> ScalarField {
    let mut f = covered(p);
    // field elements come before the bits
    f.splice(3..3, [key.x, key.y, rx]);
    ScalarField::from_bytes(&stand_in_sponge("legacy", Some(domain(n)), &f).to_bytes()).unwrap()
}
fn ref_sign(r: &mut Rng, p: &P, kp: &Keypair, n: NetworkId) -> Signature {
    let k = ScalarField::from_bytes(&crate::gende::field(r)).unwrap() + ScalarField::from(7u64);
    let at = times(generator(), k);
    let k = if odd(at.y) { -k } else { k };
    Signature::new(at.x, k + challenge(p, kp.public.point(), at.x, n) * *kp.secret.scalar())
}
fn ref_check(p: &P, key: &CurvePoint, s: &Signature, n: NetworkId) -> bool {
    let v = times(generator(), s.s).plus(times(*key, challenge(p, key, s.rx, n)).neg());
    !v.infinity && !odd(v.y) && v.x == s.rx
}
fn num(r: &mut Rng) -> u64 {
    match r.below(5) {
        0 => r.below(3),
        1 => u64::MAX - r.below(2),
        2 => 1 << r.below(64),
        3 => r.next() >> 32,
        _ => r.next(),
    }
}
fn key(r: &mut Rng, keys: &[Keypair]) -> Pk {
    if r.chance(1, 4) {
        return (crate::gende::field(r), r.bool());
    }
    let c = r.pick(keys).public.into_compressed();
    (c.x.to_bytes().try_into().unwrap(), c.is_odd)
}
fn memo(r: &mut Rng) -> Vec<u8> {
    let mut m = if r.bool() { r.bytes(34) } else { vec![0; 34] };
    if r.bool() {
        m[0] = 1;
        m[1] = r.below(33) as u8
    }
    m
}
fn command(r: &mut Rng, keys: &[Keypair]) -> P {
    let source = key(r, keys);
    P {
        fee: num(r),
        fee_token: num(r),
        payer: if r.bool() { source } else { key(r, keys) },
        nonce: num(r) as u32,
        valid: num(r) as u32,
        memo: memo(r),
        deleg: r.chance(1, 3),
        source,
        receiver: if r.chance(1, 6) { source } else { key(r, keys) },
        token: num(r),
        amount: num(r),
    }
}
fn bump(r: &mut Rng, x: u64, bits: u32) -> u64 {
    let m = if bits == 64 { u64::MAX } else { (1 << bits) - 1 };
    match r.below(3) {
        0 => x ^ 1 << r.below(bits as u64),
        1 => x.wrapping_add(1) & m,
        _ => r.next() & m,
    }
}
fn bump_pk(r: &mut Rng, k: &mut Pk, keys: &[Keypair]) {
    match r.below(4) {
        0 => k.1 = !k.1,
        1 => k.0[r.below(31) as usize] ^= 1 << r.below(8),
        _ => *k = key(r, keys),
    }
}
/// The command with one thing changed; None when the change makes no difference.
fn change(r: &mut Rng, p: &P, keys: &[Keypair]) -> Option<(&'static str, P)> {
    let mut q = p.clone();
    let what = match r.below(16) {
        0 => {
            q.fee = bump(r, q.fee, 64);
            "fee"
        }
        1 => {
            q.fee_token = bump(r, q.fee_token, 64);
            "fee token"
        }
        2 => {
            bump_pk(r, &mut q.payer, keys);
            "fee payer"
        }
        3 => {
            q.nonce = bump(r, q.nonce as u64, 32) as u32;
            "nonce"
        }
        4 => {
            q.valid = bump(r, q.valid as u64, 32) as u32;
            "valid until"
        }
        5 => {
            let at = r.below(34) as usize;
            q.memo[at] ^= 1 << r.below(8);
            "memo"
        }
        6 => {
            // a payment that differs from a delegation by its tag only, and the reverse
            q.deleg = !q.deleg;
            (q.token, q.amount) = (1, 0);
            "kind of command"
        }
        7 => {
            bump_pk(r, &mut q.source, keys);
            "source"
        }
        8 => {
            bump_pk(r, &mut q.receiver, keys);
            "receiver"
        }
        9 => {
            q.token = bump(r, q.token, 64);
            "token"
        }
        10 => {
            q.amount = bump(r, q.amount, 64);
            "amount"
        }
        11 => {
            std::mem::swap(&mut q.source, &mut q.receiver);
            "source and receiver"
        }
        12 => {
            std::mem::swap(&mut q.payer, &mut q.source);
            "payer and source"
        }
        13 => {
            std::mem::swap(&mut q.fee, &mut q.amount);
            "fee and amount"
        }
        14 => {
            std::mem::swap(&mut q.nonce, &mut q.valid);
            "nonce and valid until"
        }
        _ => {
            std::mem::swap(&mut q.fee_token, &mut q.token);
            "fee token and token"
        }
    };
    (covered(p) != covered(&q)).then_some((what, q))
}
fn verify(c: &SignedCommand, n: NetworkId) -> Result<bool, String> {
    guarded(|| {
        let a = c.verify(&mut create_legacy(n));
        let b = UserCommand::SignedCommand(c.clone()).verify(&mut create_legacy(n));
        assert_eq!(a, b, "a user command verifies differently from the signed command in it");
        a
    })
}
fn expect(sh: &mut Shard, what: &'static str, c: &SignedCommand, n: NetworkId, want: bool) {
    sh.case(|| format!("{what} on {n:?}: {c:?}"));
    match verify(c, n) {
        Ok(b) if b == want => {}
        g => sh.violation(&format!("{what}: verification on {n:?} gave {g:?}, not {want}: {c:?}")),
    }
    sh.count(what);
    sh.observed(fnv(format!("{what}{n:?}{c:?}").as_bytes()), true);
}
fn wire(sh: &mut Shard, c: &SignedCommand, n: NetworkId) {
    let u = UserCommand::SignedCommand(c.clone());
    let r = guarded(|| {
        let v: UserCommandV1 = u.clone().into();
        let mut b = vec![];
        bin_prot::to_writer(&mut b, &v).map_err(|e| e.to_string())?;
        let back: UserCommandV1 = bin_prot::from_reader_strict(b.as_slice()).map_err(|e| e.to_string())?;
        Ok::<UserCommand, String>(back.into())
    });
    match r {
        Ok(Ok(UserCommand::SignedCommand(d))) if &d == c => expect(sh, "command from the wire", &d, n, true),
        e => sh.violation(&format!("{c:?} came back from the wire as {e:?}")),
    }
}
fn built(sh: &mut Shard, p: &P) {
    // any setters, in any order, repeatedly: the last one counts and the others stay at their defaults
    let mut q = P { fee_token: 1, payer: p.source, valid: u32::MAX, memo: vec![], deleg: false, token: 1, ..p.clone() };
    let mut names = vec![];
    let mut b = SignedTransferCommandBuilder::new(pk(&p.source), pk(&p.receiver), Amount(p.amount), Amount(p.fee), AccountNonce(p.nonce));
    for _ in 0..sh.rng.below(8) {
        let (x, y) = (num(&mut sh.rng), num(&mut sh.rng) as u32);
        match sh.rng.below(5) {
            0 => {
                b = b.transfer_token(TokenId(x));
                q.token = x;
                names.push("transfer_token")
            }
            1 => {
                b = b.fee_token(TokenId(x));
                q.fee_token = x;
                names.push("fee_token")
            }
            2 => {
                let k = (crate::gende::field(&mut sh.rng), sh.rng.bool());
                b = b.fee_payer(pk(&k));
                q.payer = k;
                names.push("fee_payer")
            }
            3 => {
                let m = memo(&mut sh.rng);
                b = b.memo(SignedCommandMemo(m.clone()));
                q.memo = m;
                names.push("memo")
            }
            _ => {
                b = b.valid_until(GlobalSlotNumber(y));
                q.valid = y;
                names.push("valid_until")
            }
        }
    }
    let got = b.build();
    if got != payload(&q) {
        sh.violation(&format!("the builder with {names:?} made {got:?}, not {:?}", payload(&q)))
    }
    sh.count("commands built");
}
fn signature(r: &mut Rng, s: &Signature) -> Signature {
    let one = ScalarField::from(1u64);
    match r.below(6) {
        0 => Signature::new(s.rx + Fp::from(1u64), s.s),
        1 => Signature::new(s.rx, s.s + one),
        2 => Signature::new(s.rx, -s.s),
        3 => Signature::new(-s.rx, s.s),
        4 => Signature::new(fp(&crate::gende::field(r)), ScalarField::from_bytes(&crate::gende::field(r)).unwrap()),
        _ => Signature::dummy(),
    }
}
fn one(sh: &mut Shard, keys: &[Keypair]) {
    let p = command(&mut sh.rng, keys);
    let (net, other) = if sh.rng.bool() { (NetworkId::MAINNET, NetworkId::TESTNET) } else { (NetworkId::TESTNET, NetworkId::MAINNET) };
    let kp = sh.rng.pick(keys).clone();
    let native = payload(&p);
    sh.case(|| format!("{p:?} signed by {} on {net:?}", kp.to_hex()));
    if native.to_roinput().to_fields() != covered(&p) {
        sh.violation(&format!("the signature of {p:?} does not cover what the protocol says: {:?} instead of {:?}", native.to_roinput().to_fields(), covered(&p)))
    }
    for n in [net, other] {
        if <SignedCommandPayload as Hashable>::domain_string(n).as_deref() != Some(domain(n)) {
            sh.violation(&format!("commands on {n:?} are signed in the domain {:?}", <SignedCommandPayload as Hashable>::domain_string(n)))
        }
    }
    built(sh, &p);
    let c = match guarded(|| if p.nonce & 1 == 0 { SignedCommand::from_payload(native.clone(), kp.clone(), net) } else { native.clone().into_signed_command(kp.clone(), net) }) {
        Ok(c) => c,
        Err(e) => sh.violation(&format!("signing {p:?} panicked: {e}")),
    };
    if c.payload != native || c.signer != kp.public.into_compressed() {
        sh.violation(&format!("signing {p:?} by {} made {c:?}", kp.get_address()))
    }
    if !ref_check(&p, kp.public.point(), &c.signature, net) {
        sh.violation(&format!("the signature that was made is not valid by the protocol's rule: {c:?}"))
    }
    sh.count("commands signed");
    expect(sh, "genuine command", &c, net, true);
    expect(sh, "command of the other network", &c, other, false);
    if sh.rng.chance(1, 2) {
        wire(sh, &c, net);
    }
    let s = ref_sign(&mut sh.rng, &p, &kp, net);
    let theirs = SignedCommand { signature: s, ..c.clone() };
    expect(sh, "command signed elsewhere", &theirs, net, true);
    for _ in 0..4 {
        if let Some((what, q)) = change(&mut sh.rng, &p, keys) {
            expect(sh, what, &SignedCommand { payload: payload(&q), ..c.clone() }, net, false);
            sh.count("altered commands");
        }
    }
    let s = signature(&mut sh.rng, &c.signature);
    if s != c.signature {
        expect(sh, "signature altered", &SignedCommand { signature: s, ..c.clone() }, net, false);
    }
    let mut k: Pk = (c.signer.x.to_bytes().try_into().unwrap(), c.signer.is_odd);
    bump_pk(&mut sh.rng, &mut k, keys);
    if pk(&k) != c.signer {
        if CurvePoint::get_point_from_x(fp(&k.0), true).is_none() {
            sh.count("signers that are no point");
        }
        expect(sh, "signer altered", &SignedCommand { signer: pk(&k), ..c.clone() }, net, false);
        // signatures that anyone can write down, by reading the command alone
        let k = pk(&k);
        let easy = [Fp::from(0u64), Fp::from(1u64), k.x, c.payload.common.fee_payer_pk.x, generator().x];
        let rx = *sh.rng.pick(&easy);
        let s = *sh.rng.pick(&[ScalarField::from(0u64), ScalarField::from(1u64), c.signature.s]);
        expect(sh, "signature without a secret", &SignedCommand { signer: k, signature: Signature::new(rx, s), payload: c.payload.clone() }, net, false);
    }
    sh.sample(|| serde_json::json!({"network": format!("{net:?}"), "nonce": p.nonce, "delegation": p.deleg, "memo": hex(&p.memo)}));
}
pub struct Signed {
    pub block: ExternalTransitionV1,
    n: u64,
    m: u64,
    pub bad: Option<u64>,
    how: &'static str,
}
impl Signed {
    pub fn commands(&self) -> u64 {
        self.n + self.m
    }
}
pub fn some_keys(r: &mut Rng) -> Vec<Keypair> {
    (0..12).map(|_| Keypair::from_secret(ScalarField::from_bytes(&crate::gende::field(r)).unwrap() + ScalarField::from(3u64))).collect()
}
/// A block with commands of which at most one is not valid.
pub fn signed_block(r: &mut Rng, keys: &[Keypair], net: NetworkId) -> Signed {
    use mina_serialization_types::staged_ledger_diff::{CoinBase, UserCommandWithStatus};
    let mut b = crate::c16::block(r, 200, true);
    let two = b.t.staged_ledger_diff.t.diff.t.0.clone();
    b.t.staged_ledger_diff.t.diff.t.1 = r.bool().then_some(two);
    if let Some(d) = b.t.staged_ledger_diff.t.diff.t.1.as_mut() {
        d.t.t.coinbase.t = CoinBase::Zero;
    }
    let n = r.below(6);
    let m = if b.t.staged_ledger_diff.t.diff.t.1.is_some() { r.below(6) } else { 0 };
    // at most one command is not valid
    let bad = (n + m > 0 && r.chance(2, 3)).then(|| r.below(n + m));
    let mut how = "";
    let mut commands = vec![];
    for i in 0..n + m {
        let p = command(r, keys);
        let kp = r.pick(keys).clone();
        let mut c = SignedCommand { payload: payload(&p), signer: kp.public.into_compressed(), signature: ref_sign(r, &p, &kp, net) };
        if bad == Some(i) {
            how = "signature";
            match (r.bool(), change(r, &p, keys)) {
                (true, Some((w, q))) => (c.payload, how) = (payload(&q), w),
                _ => c.signature.s = c.signature.s + ScalarField::from(1u64),
            }
        }
        let status = crate::gende::make(r, 40, true);
        let mut w: mina_serialization_types::v1::UserCommandWithStatusV1 = UserCommandWithStatus { data: UserCommand::SignedCommand(c).into(), status }.into();
        w.version = 1;
        commands.push(w);
    }
    let second = commands.split_off(n as usize);
    b.t.staged_ledger_diff.t.diff.t.0.t.t.commands = commands;
    if let Some(d) = b.t.staged_ledger_diff.t.diff.t.1.as_mut() {
        d.t.t.commands = second;
    }
    Signed { block: b, n, m, bad, how }
}
/// A block is valid exactly when each command in either part of it is.
fn block(sh: &mut Shard, keys: &[Keypair]) {
    let net = if sh.rng.bool() { NetworkId::MAINNET } else { NetworkId::TESTNET };
    let Signed { block: b, n, m, bad, how } = signed_block(&mut sh.rng, keys, net);
    sh.case(|| format!("a block with {n} and {m} commands of which {bad:?} has another {how}"));
    let r = guarded(|| {
        let e = ExternalTransition::from(b.clone());
        let v = [e.staged_ledger_diff.verify(&mut create_legacy(net)), e.verify(&mut create_legacy(net))];
        (v, b.t.staged_ledger_diff.t.diff.t.1.is_some() != e.staged_ledger_diff.diff.diff_one().is_some())
    });
    let want = bad.is_none();
    match r {
        Ok((v, false)) if v == [want; 2] => {}
        r => sh.violation(&format!("a block with {n} and {m} commands of which {bad:?} has another {how} verified as {r:?}")),
    }
    sh.count(match bad {
        None => "valid blocks",
        Some(i) if i < n => "blocks with a bad command in the first part",
        _ => "blocks with a bad command in the second part",
    });
    sh.observed(fnv(format!("{n}{m}{bad:?}{how}").as_bytes()), true);
}
pub fn run() {
    let run = mon::start(
        "C22",
        "exploration",
        "each (kind of check, network, command, signer, signature) counts once",
        &[
            "the sponge is a stand-in, so that signatures are compared with the monitor's own signing and not with published ones",
            "memos have their 34 bytes",
        ],
    );
    // the curve of the stand-ins: small multiples by addition, and the group order
    let g = generator();
    let mut at = CurvePoint::zero();
    for i in 0..50u64 {
        if times(g, ScalarField::from(i)) != at || !at.is_on_curve() || times(g, -ScalarField::from(i)) != at.neg() {
            crate::tree::die("curve arithmetic")
        }
        at = at.plus(g);
    }
    run.par(mon::threads(), |sh| {
        let keys = some_keys(&mut sh.rng);
        let n = if sh.thorough() { 10_000 } else { 500 };
        for i in 0..n {
            sh.beat();
            one(sh, &keys);
            if i % 2 == 0 {
                block(sh, &keys);
            }
        }
    });
    for k in ["valid blocks", "blocks with a bad command in the first part", "blocks with a bad command in the second part"] {
        run.require(k, 100);
    }
    for k in ["commands signed", "commands built", "genuine command", "command of the other network", "command from the wire", "command signed elsewhere", "signature altered", "signer altered", "signature without a secret"] {
        run.require(k, 300);
    }
    for k in [
        "signers that are no point", "fee", "fee token", "fee payer", "nonce", "valid until", "memo", "kind of command", "source", "receiver", "token", "amount",
        "source and receiver", "payer and source", "fee and amount", "nonce and valid until", "fee token and token",
    ] {
        run.require(k, 20);
    }
    run.finish()
}
