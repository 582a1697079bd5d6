//! Reference merkle trees, computed from scratch from the list of leaves.
use mina_merkle::*;
use mon::Rng;
use proof_systems::mina_hasher::{stand_in_sponge, Fp, Hashable, ROInput};
use std::fmt::Debug;

/// A hash function for leaves and inner nodes, as the reference sees it.
pub trait Alg: 'static {
    type Item: Clone + PartialEq + Debug + Send;
    type H: Clone + PartialEq + Debug + Send;
    type Hasher: MerkleHasher<Item = Self::Item, Hash = Self::H>;
    type Merger: MerkleMerger<Hash = Self::H>;
    const NAME: &'static str;
    fn item(r: &mut Rng) -> Self::Item;
    fn other_hash(r: &mut Rng) -> Self::H;
    fn leaf(i: &Self::Item) -> Self::H;
    fn node(l: Option<Self::H>, r: Option<Self::H>, height: u32) -> Option<Self::H>;
    fn fp(h: &Self::H) -> u64;
}

fn mix(parts: &[u128]) -> u128 {
    let mut x: u128 = 0x9e3779b97f4a7c15f39cc0605cedc835;
    for p in parts {
        x ^= *p;
        x = x.wrapping_mul(0x0000000001000000000000000000013B).rotate_left(53);
        x ^= x >> 61;
        x = x.wrapping_mul(0xda942042e4dd58b5da942042e4dd58b5);
    }
    x
}

/// Collision-free in practice; missing children are part of the input.
pub struct Term;
/// As Term, but a node without any leaf below has no hash.
pub struct Sparse;
pub struct TermHasher;
impl MerkleHasher for TermHasher {
    type Item = u64;
    type Hash = u128;
    fn hash(i: &u64, m: MerkleTreeNodeMetadata) -> u128 {
        mix(&[1, *i as u128, m.height() as u128])
    }
}
pub struct TermMerger;
impl MerkleMerger for TermMerger {
    type Hash = u128;
    fn merge(h: [Option<u128>; 2], m: MerkleTreeNodeMetadata) -> Option<u128> {
        Term::node(h[0], h[1], m.height())
    }
}
pub struct SparseMerger;
impl MerkleMerger for SparseMerger {
    type Hash = u128;
    fn merge(h: [Option<u128>; 2], m: MerkleTreeNodeMetadata) -> Option<u128> {
        Sparse::node(h[0], h[1], m.height())
    }
}
fn opt(x: Option<u128>) -> [u128; 2] {
    match x {
        None => [2, 0],
        Some(x) => [3, x],
    }
}
impl Alg for Term {
    type Item = u64;
    type H = u128;
    type Hasher = TermHasher;
    type Merger = TermMerger;
    const NAME: &'static str = "term";
    fn item(r: &mut Rng) -> u64 {
        r.next()
    }
    fn other_hash(r: &mut Rng) -> u128 {
        mix(&[9, r.next() as u128])
    }
    fn leaf(i: &u64) -> u128 {
        mix(&[1, *i as u128, 0])
    }
    fn node(l: Option<u128>, r: Option<u128>, height: u32) -> Option<u128> {
        let (a, b) = (opt(l), opt(r));
        Some(mix(&[4, a[0], a[1], b[0], b[1], height as u128]))
    }
    fn fp(h: &u128) -> u64 {
        *h as u64
    }
}
impl Alg for Sparse {
    type Item = u64;
    type H = u128;
    type Hasher = TermHasher;
    type Merger = SparseMerger;
    const NAME: &'static str = "sparse";
    fn item(r: &mut Rng) -> u64 {
        r.next()
    }
    fn other_hash(r: &mut Rng) -> u128 {
        mix(&[9, r.next() as u128])
    }
    fn leaf(i: &u64) -> u128 {
        Term::leaf(i)
    }
    fn node(l: Option<u128>, r: Option<u128>, height: u32) -> Option<u128> {
        if l.is_none() && r.is_none() {
            return None;
        }
        Term::node(l, r, height)
    }
    fn fp(h: &u128) -> u64 {
        *h as u64
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Acc(pub u64);
impl Hashable for Acc {
    type D = ();
    fn to_roinput(&self) -> ROInput {
        ROInput::new().append_u64(self.0)
    }
    fn domain_string(_: ()) -> Option<String> {
        Some("MinaAccount".to_string())
    }
}
fn dec(s: &str) -> Fp {
    let mut r = Fp::from(0u64);
    for c in s.bytes() {
        r = r * Fp::from(10u64) + Fp::from((c - b'0') as u64);
    }
    r
}
fn poseidon_node(kind: &str, empty: &str, l: Option<Fp>, r: Option<Fp>, height: u32) -> Fp {
    let fill = |x: Option<Fp>| {
        x.unwrap_or_else(|| {
            let mut e = dec(empty);
            for h in 1..height {
                e = stand_in_sponge(kind, Some(&format!("CodaMklTree{:03}", h - 1)), &[e, e]);
            }
            e
        })
    };
    stand_in_sponge(kind, Some(&format!("CodaMklTree{:03}", height - 1)), &[fill(l), fill(r)])
}
macro_rules! poseidon {
    ($n:ident, $kind:literal, $hasher:ident, $merger:ident, $empty:literal) => {
        pub struct $n;
        impl Alg for $n {
            type Item = Acc;
            type H = Fp;
            type Hasher = $hasher<Acc>;
            type Merger = $merger;
            const NAME: &'static str = $kind;
            fn item(r: &mut Rng) -> Acc {
                Acc(r.next())
            }
            fn other_hash(r: &mut Rng) -> Fp {
                Fp::from(r.next())
            }
            fn leaf(i: &Acc) -> Fp {
                stand_in_sponge($kind, Some("MinaAccount"), &[Fp::from(i.0)])
            }
            fn node(l: Option<Fp>, r: Option<Fp>, height: u32) -> Option<Fp> {
                Some(poseidon_node($kind, $empty, l, r, height))
            }
            fn fp(h: &Fp) -> u64 {
                mon::fnv(h.to_string().as_bytes())
            }
        }
    };
}
poseidon!(Legacy, "legacy", MinaPoseidonMerkleHasherLegacy, MinaPoseidonMerkleMergerLegacy, "14604874247461951431777712543359658136906556694369689076707549712589474483312");
poseidon!(Kimchi, "kimchi", MinaPoseidonMerkleHasher, MinaPoseidonMerkleMerger, "9572980593872981109373931329129826339992116007886182568766828232902813999143");

pub fn height_of(n: usize) -> u32 {
    let mut h = 0;
    while (1usize << h) < n {
        h += 1;
    }
    h
}

/// Root of the tree of the given height over the leaves.
pub fn root<A: Alg>(items: &[A::Item], height: u32) -> Option<A::H> {
    let mut row: Vec<Option<A::H>> = items.iter().map(|i| Some(A::leaf(i))).collect();
    let own = height_of(items.len());
    row.resize(1 << own, None);
    for h in 1..=own {
        row = row.chunks(2).map(|c| A::node(c[0].clone(), c[1].clone(), h)).collect();
    }
    let mut r = row.pop().unwrap();
    for h in own + 1..=height {
        r = A::node(r, None, h);
    }
    r
}

/// What a proof shows: None when it is not a path from a leaf to the root.
pub fn fold<A: Alg>(index: usize, item: &A::Item, peers: &[usize], hashes: &[Option<A::H>]) -> Option<A::H> {
    if index == 0 || peers.len() != hashes.len() || peers.is_empty() {
        return None;
    }
    let mut i = index as u128;
    let mut h = Some(A::leaf(item));
    for (k, (p, ph)) in peers.iter().zip(hashes).enumerate() {
        if i == 0 {
            return None;
        }
        let left = i % 2 == 1;
        let sib = if left { i + 1 } else { i - 1 };
        if *p as u128 != sib {
            return None;
        }
        let height = k as u32 + 1;
        h = if left { A::node(h, ph.clone(), height) } else { A::node(ph.clone(), h, height) };
        i = (i - 1) / 2;
    }
    if i != 0 {
        return None;
    }
    h
}
