//! Genesis ledgers: the monitor fills stores with accounts it encodes itself, among other records, and reads them
//! through the ledger; damage and failures must show, and nothing else may change. The shipped ledgers are read too.
use crate::c23::{account, gen_account, int, perm};
use crate::gende::field;
use mina_ledger::*;
use mina_merkle::*;
use mina_rs_base::account::timing::TimedData;
use mina_rs_base::account::*;
use mina_rs_base::types::*;
use mon::{fnv, guarded, hex, Rng, Shard};
use proof_systems::mina_hasher::{stand_in_sponge, Fp};
use proof_systems::mina_signer::CompressedPubKey;
use proof_systems::o1_utils::FieldHelpers;
use rocksdb::DB;
use std::collections::BTreeMap;

fn n(o: &mut Vec<u8>, x: u64) {
    let i = x as i64;
    match i {
        0..=127 => o.push(i as u8),
        -128..=-1 => o.extend([0xff, i as u8]),
        _ if i16::try_from(i).is_ok() => {
            o.push(0xfe);
            o.extend((i as i16).to_le_bytes())
        }
        _ if i32::try_from(i).is_ok() => {
            o.push(0xfd);
            o.extend((i as i32).to_le_bytes())
        }
        _ => {
            o.push(0xfc);
            o.extend(i.to_le_bytes())
        }
    }
}
fn pk(o: &mut Vec<u8>, k: &CompressedPubKey) {
    o.extend(k.x.to_bytes());
    o.push(k.is_odd as u8)
}
/// Version bytes, where there are any.
fn v(o: &mut Vec<u8>, legacy: bool, times: usize) {
    if legacy {
        o.extend(vec![1; times])
    }
}
fn token(o: &mut Vec<u8>, legacy: bool, t: &TokenPermissions) {
    v(o, legacy, 2);
    match t {
        TokenPermissions::NotOwned { account_disabled: x } => o.extend([0, *x as u8]),
        TokenPermissions::TokenOwned { disable_new_accounts: x } => o.extend([1, *x as u8]),
    }
}
fn auth(o: &mut Vec<u8>, legacy: bool, ps: &[&AuthRequired]) {
    for p in ps {
        v(o, legacy, 1);
        o.push(match p {
            AuthRequired::None => 0,
            AuthRequired::Either => 1,
            AuthRequired::Proof => 2,
            AuthRequired::Signature => 3,
            AuthRequired::Both => 4,
            AuthRequired::Impossible => 5,
        })
    }
}
/// From the receipt chain hash to the timing, where both kinds of accounts agree.
fn middle(o: &mut Vec<u8>, l: bool, nonce: u32, receipt: &[u8], delegate: &Option<CompressedPubKey>, voting: &[u8], t: &Timing) {
    v(o, l, 2);
    n(o, nonce as u64);
    v(o, l, 1);
    o.extend(receipt);
    o.push(delegate.is_some() as u8);
    if let Some(k) = delegate {
        v(o, l, 2);
        pk(o, k)
    }
    v(o, l, 1);
    o.extend(voting);
    v(o, l, 2);
    match t {
        Timing::Untimed => o.push(0),
        Timing::Timed(t) => {
            o.push(1);
            v(o, l, 1);
            for x in [t.initial_minimum_balance.0, t.cliff_time.0, t.cliff_amount.0, t.vesting_period.0, t.vesting_increment.0] {
                v(o, l, 2);
                n(o, x)
            }
        }
    }
}
fn b32<T>(t: &T) -> Vec<u8>
where
    for<'a> Fp: TryFrom<&'a T>,
{
    crate::c23::h32(t).to_vec()
}
pub trait Kind: Clone + std::fmt::Debug + Sized + 'static {
    const NAME: &'static str;
    const PATH: &'static str;
    const SPONGE: &'static str;
    const EMPTY: &'static str;
    fn gen(r: &mut Rng) -> Self;
    fn bytes(&self) -> Vec<u8>;
    fn accounts(db: &DB) -> (Vec<Result<Self, String>>, usize);
    fn root(db: &DB) -> (Option<Fp>, usize, u32);
    fn leaf(&self) -> Fp;
    /// through the types' own conversions
    fn again(b: &[u8]) -> Result<Vec<u8>, String>;
}
macro_rules! kind {
    ($t:ident, $name:literal, $path:literal, $sponge:literal, $empty:literal, $tree:ident, $gen:item, $bytes:item, $leaf:item) => {
        impl Kind for $t {
            const NAME: &'static str = $name;
            const PATH: &'static str = $path;
            const SPONGE: &'static str = $sponge;
            const EMPTY: &'static str = $empty;
            $gen
            $bytes
            $leaf
            fn accounts(db: &DB) -> (Vec<Result<Self, String>>, usize) {
                let l: RocksDbGenesisLedger<20, $t> = RocksDbGenesisLedger::new(db);
                let depth = l.depth();
                let v = l.accounts().map(|a| a.map_err(|e| e.to_string())).collect();
                (v, depth)
            }
            fn root(db: &DB) -> (Option<Fp>, usize, u32) {
                let l: RocksDbGenesisLedger<20, $t> = RocksDbGenesisLedger::new(db);
                let mut t = l.$tree();
                (t.root(), t.count(), t.height())
            }
            fn again(b: &[u8]) -> Result<Vec<u8>, String> {
                use mina_serialization_types::BinProtSerializationType;
                $t::try_from_binprot(b).and_then(|a| a.try_into_binprot()).map_err(|e| e.to_string())
            }
        }
    };
}
kind!(
    Account,
    "berkeley",
    "genesis_ledger_a99a1ff63d4ba4a07cc6bedbff3e23bd6c1f482f9ecef33abdf7fb817564cc89",
    "kimchi",
    "9572980593872981109373931329129826339992116007886182568766828232902813999143",
    to_mina_merkle_ledger,
    fn gen(r: &mut Rng) -> Self {
        let mut a = gen_account(r);
        a.nonce.0 &= 0x7fff_ffff;
        a.zkapp = None;
        a.zkapp_uri = None;
        a
    },
    fn bytes(&self) -> Vec<u8> {
        let mut o = vec![];
        pk(&mut o, &self.public_key);
        n(&mut o, self.token_id.0);
        token(&mut o, false, &self.token_permissions);
        let s: [u8; 32] = self.token_symbol.clone().into();
        o.extend(s);
        n(&mut o, self.balance.0);
        middle(&mut o, false, self.nonce.0, &b32(&self.receipt_chain_hash), &self.delegate, &b32(&self.voting_for), &self.timing);
        let p = &self.permissions;
        auth(
            &mut o,
            false,
            &[
                &p.edit_state, &p.send, &p.receive, &p.set_delegate, &p.set_permissions, &p.set_verification_key, &p.set_zkapp_uri, &p.edit_sequence_state,
                &p.set_token_symbol, &p.increment_nonce, &p.set_voting_for,
            ],
        );
        o.extend([0, 0]);
        o
    },
    fn leaf(&self) -> Fp {
        stand_in_sponge("kimchi", Some("CodaAccount"), &account(self))
    }
);
kind!(
    AccountLegacy,
    "mainnet",
    "genesis_ledger_6a887ea130e53b06380a9ab27b327468d28d4ce47515a0cc59759d4a3912f0ef",
    "legacy",
    "14604874247461951431777712543359658136906556694369689076707549712589474483312",
    to_mina_merkle_ledger_legacy,
    fn gen(r: &mut Rng) -> Self {
        let a = Account::gen(r);
        AccountLegacy {
            public_key: a.public_key,
            token_id: a.token_id,
            token_permissions: a.token_permissions,
            balance: a.balance,
            nonce: a.nonce,
            receipt_chain_hash: a.receipt_chain_hash,
            delegate: a.delegate,
            voting_for: a.voting_for,
            timing: match a.timing {
                // the older times are wider
                Timing::Timed(t) if r.bool() => Timing::Timed(TimedData { cliff_time: BlockTime(int(r)), vesting_period: BlockTime(int(r)), ..t }),
                t => t,
            },
            permissions: PermissionsLegacy {
                stake: r.bool(),
                edit_state: perm(r),
                send: perm(r),
                receive: perm(r),
                set_delegate: perm(r),
                set_permissions: perm(r),
                set_verification_key: perm(r),
            },
            snapp: None,
        }
    },
    fn bytes(&self) -> Vec<u8> {
        let mut o = vec![];
        v(&mut o, true, 3);
        v(&mut o, true, 3);
        pk(&mut o, &self.public_key);
        v(&mut o, true, 3);
        n(&mut o, self.token_id.0);
        token(&mut o, true, &self.token_permissions);
        v(&mut o, true, 2);
        n(&mut o, self.balance.0);
        middle(&mut o, true, self.nonce.0, &b32(&self.receipt_chain_hash), &self.delegate, &b32(&self.voting_for), &self.timing);
        let p = &self.permissions;
        v(&mut o, true, 2);
        o.push(p.stake as u8);
        auth(&mut o, true, &[&p.edit_state, &p.send, &p.receive, &p.set_delegate, &p.set_permissions, &p.set_verification_key]);
        o.push(0);
        o
    },
    // what an account of the older kind hashes to is not claimed
    fn leaf(&self) -> Fp {
        MinaLedgerMerkleHasherLegacy::hash(self, MerkleTreeNodeMetadata::new(0, 1))
    }
);
/// The root of a tree of twenty levels above the leaves.
fn root<K: Kind>(mut row: Vec<Fp>) -> Option<Fp> {
    let mut empty = proof_systems::fp_from_radix_10(K::EMPTY).unwrap();
    if row.is_empty() {
        row.push(empty);
    }
    for h in 0..20 {
        let node = |a: Fp, b: Fp| stand_in_sponge(K::SPONGE, Some(&format!("CodaMklTree{h:03}")), &[a, b]);
        row = row.chunks(2).map(|c| node(c[0], *c.get(1).unwrap_or(&empty))).collect();
        empty = node(empty, empty);
    }
    Some(row[0])
}
type Map = BTreeMap<Vec<u8>, Vec<u8>>;
enum Rec<K> {
    Good(K),
    Bad(&'static str),
}
fn key_of(r: &mut Rng, i: u32) -> Vec<u8> {
    match r.below(12) {
        0 => vec![0xfe],
        1 => vec![0xfe, 0xff, 0xff, 0xff, 0xff],
        2 => [&[0xfe][..], &r.bytes(8)].concat(),
        _ => [&[0xfe][..], &(i << 4).to_be_bytes()[1..]].concat(),
    }
}
/// Records that are no accounts, some with the bytes of one.
fn others<K: Kind>(r: &mut Rng, m: &mut Map) {
    for _ in 0..r.below(8) {
        let k = match r.below(6) {
            0 => vec![],
            1 => vec![0xff],
            2 => vec![0xfd, 0xff, 0xff, 0xff, 0xff],
            3 => [&[0xff][..], b"$B62q"].concat(),
            4 => [&[0xff, 0xfe][..], &r.bytes(3)].concat(),
            _ => [&[r.below(0xfe) as u8][..], &r.bytes(3)].concat(),
        };
        let v = match r.below(3) {
            0 => K::gen(r).bytes(),
            1 => field(r).to_vec(),
            _ => r.bytes(4),
        };
        m.insert(k, v);
    }
}
fn damage(r: &mut Rng, b: &mut Vec<u8>, legacy: bool) -> &'static str {
    match r.below(5) {
        0 => {
            b.truncate(r.below(b.len() as u64) as usize);
            "cut off"
        }
        1 => {
            let n = 1 + r.below(3) as usize;
            b.extend(r.bytes(n));
            "with more behind it"
        }
        2 => {
            // the last permission
            let at = b.len() - if legacy { 2 } else { 3 };
            b[at] = 6 + r.below(250) as u8;
            "with an unknown permission"
        }
        3 => {
            b[if legacy { 38 } else { 32 }] = 2 + r.below(254) as u8;
            "with a key neither odd nor even"
        }
        _ => {
            let at = b.len() - 1;
            b[at] = 2 + r.below(254) as u8;
            "with an option neither present nor absent"
        }
    }
}
fn judge<K: Kind>(sh: &mut Shard, what: &str, m: Map, want: Vec<(Vec<u8>, Rec<K>)>, fails: Option<Vec<u8>>, tree: bool) {
    let db = DB::stand_in(m, fails.clone());
    let (got, depth) = match guarded(|| K::accounts(&db)) {
        Ok(g) => g,
        Err(e) => sh.violation(&format!("reading {what} panicked: {e}")),
    };
    if depth != 20 {
        sh.violation(&format!("a ledger of depth 20 says {depth}"))
    }
    let seen: Vec<_> = want.iter().filter(|(k, _)| fails.as_ref().map_or(true, |f| k < f)).collect();
    let mut g = got.iter();
    for (k, w) in &seen {
        match (w, g.next()) {
            (Rec::Good(a), Some(Ok(b))) => {
                let (a, b) = (format!("{a:?}"), format!("{b:?}"));
                if a != b {
                    let at = b.bytes().zip(a.bytes()).take_while(|(x, y)| x == y).count();
                    let cut = |x: &str| x.chars().skip(at.saturating_sub(80)).take(200).collect::<String>();
                    sh.violation(&format!("{what}: the account at {} is read as …{}… instead of …{}…", hex(k), cut(&b), cut(&a)))
                }
                sh.count("accounts read")
            }
            (Rec::Good(_), Some(Err(e))) => sh.violation(&format!("{what}: the account at {} is refused: {e}", hex(k))),
            (Rec::Bad(how), Some(Ok(b))) => sh.violation(&format!("{what}: a record {how} at {} is read as {b:?}", hex(k))),
            (Rec::Bad(_), Some(Err(_))) => sh.count("records refused"),
            (_, None) => sh.violation(&format!("{what}: {} records instead of {}: the one at {} is left out", got.len(), seen.len(), hex(k))),
        }
    }
    match (g.next(), &fails) {
        (None, None) => {}
        (Some(Err(_)), Some(_)) => sh.count("failing stores"),
        (None, Some(f)) => sh.violation(&format!("{what}: the store failed at {} and the accounts just end there, after {} of {}", hex(f), got.len(), want.len())),
        (Some(_), _) => sh.violation(&format!("{what}: {} records instead of {}", got.len(), seen.len())),
    }
    if g.next().is_some() {
        sh.violation(&format!("{what}: {} records instead of {}", got.len(), seen.len()))
    }
    if !tree {
        return;
    }
    let (r, count, height) = match guarded(|| K::root(&db)) {
        Ok(x) => x,
        Err(e) => sh.violation(&format!("the tree of {what} panicked: {e}")),
    };
    let leaves: Vec<Fp> = seen.iter().filter_map(|(_, w)| if let Rec::Good(a) = w { Some(a.leaf()) } else { None }).collect();
    let whole = leaves.len() == want.len();
    let n = leaves.len();
    let model = root::<K>(leaves);
    if count != n || !(r == model || n == 0 && r.is_none()) || height != 20 {
        sh.violation(&format!("the tree of {what} has height {height}, {count} leaves and root {r:?} instead of {n} and {model:?}"))
    }
    if whole {
        sh.count("trees compared")
    } else {
        sh.finding_or_violation("unreadable-account-left-out", &format!("the tree of {what} has {n} leaves, although the store has {} accounts", want.len()))
    }
}
fn one<K: Kind>(sh: &mut Shard) {
    let mut r = sh.rng.clone();
    sh.rng.next();
    let mut m = Map::new();
    let mut want: BTreeMap<Vec<u8>, Rec<K>> = BTreeMap::new();
    let legacy = K::NAME == "mainnet";
    let count = if r.chance(1, 20) { r.below(300) } else { r.below(12) };
    let (bad, fails) = (r.chance(1, 3), r.chance(1, 5));
    for i in 0..count {
        let a = K::gen(&mut r);
        let mut b = a.bytes();
        let k = key_of(&mut r, i as u32);
        let rec = if bad && r.chance(1, 3) {
            Rec::Bad(damage(&mut r, &mut b, legacy))
        } else {
            Rec::Good(a)
        };
        m.insert(k.clone(), b);
        want.insert(k, rec);
    }
    others::<K>(&mut r, &mut m);
    let want: Vec<_> = want.into_iter().collect();
    let fails = (fails && !want.is_empty()).then(|| r.pick(&want).0.clone());
    let what = format!("a {} store of {} accounts", K::NAME, want.len());
    sh.case(|| format!("{what}, failing at {fails:?}: {}", m.iter().map(|(k, v)| format!("{}={} ", hex(k), hex(v))).collect::<String>()));
    let print = fnv(format!("{m:?}{fails:?}").as_bytes());
    judge(sh, &what, m, want, fails, true);
    sh.observed(print, count > 0);
}
/// The ledger that the repository ships, as it is and with one record damaged.
fn shipped<K: Kind>(sh: &mut Shard, damaged: bool) {
    let dir = format!("{}/ledger/test-data/{}", mon::repo_dir(), K::PATH);
    sh.case(|| dir.clone());
    let db = match DB::open_for_read_only(&rocksdb::Options::default(), &dir, true) {
        Ok(d) => d,
        Err(e) => crate::tree::die(&format!("{dir}: {e}")),
    };
    let (got, _) = match guarded(|| K::accounts(&db)) {
        Ok(g) => g,
        Err(e) => sh.violation(&format!("reading {dir} panicked: {e}")),
    };
    let stored: Vec<_> = db.stand_in_map().iter().filter(|(k, _)| k.first() == Some(&0xfe)).collect();
    if stored.is_empty() {
        crate::tree::die(&format!("{dir} holds no accounts"))
    }
    if got.len() != stored.len() {
        sh.violation(&format!("{dir}: {} accounts instead of {}", got.len(), stored.len()))
    }
    let mut want = vec![];
    for (g, (k, b)) in got.into_iter().zip(&stored) {
        let g = match g {
            Ok(g) => g,
            Err(e) => sh.violation(&format!("{dir}: the account at {} is refused: {e}", hex(k))),
        };
        let mine = g.bytes();
        if &mine != *b {
            sh.violation(&format!("{dir}: the account at {} is stored as {} and was read as {g:?}, which is {}", hex(k), hex(b), hex(&mine)))
        }
        match guarded(|| K::again(b)) {
            Ok(Ok(x)) if &x == *b => {}
            x => sh.violation(&format!("{dir}: the account {} is written again as {:?}", hex(b), x.map(|r| r.map(|b| hex(&b))))),
        }
        sh.count("shipped accounts");
        want.push(((*k).clone(), Rec::Good(g)));
    }
    let mut m = db.stand_in_map().clone();
    let mut what = format!("the shipped {} ledger", K::NAME);
    if damaged {
        let i = sh.rng.below(want.len() as u64) as usize;
        let mut b = m[&want[i].0].clone();
        let how = damage(&mut sh.rng, &mut b, K::NAME == "mainnet");
        m.insert(want[i].0.clone(), b);
        want[i].1 = Rec::Bad(how);
        what.push_str(&format!(" with record {i} {how}"));
        sh.case(|| what.clone());
    }
    judge(sh, &what, m, want, None, true);
    sh.observed(fnv(what.as_bytes()), true);
}
pub fn run() {
    let run = mon::start(
        "C27",
        "exploration",
        "each store counts once by its content",
        &[
            "the ledger crate is compiled from its real source; the store below it is a stand-in in memory that also reads the write-ahead logs of the shipped databases",
            "accounts without zkapp parts, nonces below 2^31; the Poseidon sponge is a stand-in; what an older account hashes to is taken from the code",
        ],
    );
    run.par(mon::threads(), |sh| {
        let n = if sh.thorough() { 60_000 } else { 2_500 };
        for _ in 0..if sh.thorough() { 40 } else { 1 } {
            let damaged = sh.rng.bool();
            shipped::<AccountLegacy>(sh, damaged);
            sh.beat();
            shipped::<Account>(sh, !damaged);
            sh.beat();
        }
        for i in 0..n {
            if i % 16 == 0 {
                sh.beat();
            }
            one::<Account>(sh);
            one::<AccountLegacy>(sh);
            // one account through the types' own conversions
            let a = AccountLegacy::gen(&mut sh.rng).bytes();
            let b = Account::gen(&mut sh.rng).bytes();
            for (b, again) in [(&a, AccountLegacy::again(&a)), (&b, Account::again(&b))] {
                if again.as_ref() != Ok(b) {
                    sh.violation(&format!("the account {} is written again as {:?}", hex(b), again.map(|b| hex(&b))))
                }
            }
        }
    });
    for k in ["accounts read", "records refused", "failing stores", "trees compared", "shipped accounts"] {
        run.require(k, 500);
    }
    run.finish()
}
