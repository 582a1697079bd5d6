//! C13: the root of a merkle tree is a function of its leaves, whatever the history.
use crate::model::*;
use mina_merkle::*;
use mon::*;

pub enum Tree<A: Alg> {
    V(MinaMerkleTree<A::Item, A::H, A::Hasher, A::Merger, VariableHeightMode>),
    F(MinaMerkleTree<A::Item, A::H, A::Hasher, A::Merger, FixedHeightMode>),
}
impl<A: Alg> Tree<A> {
    pub fn new(fixed: Option<u32>, cap: Option<usize>) -> Self {
        match (fixed, cap) {
            (Some(h), _) => Tree::F(MinaMerkleTree::<_, _, _, _, FixedHeightMode>::new(h)),
            (None, None) => Tree::V(MinaMerkleTree::<_, _, _, _, VariableHeightMode>::new()),
            (None, Some(c)) => Tree::V(MinaMerkleTree::with_capacity(c)),
        }
    }
    pub fn root(&mut self) -> Option<A::H> {
        match self {
            Tree::V(t) => t.root(),
            Tree::F(t) => t.root(),
        }
    }
    pub fn add(&mut self, i: A::Item) {
        match self {
            Tree::V(t) => t.add(i),
            Tree::F(t) => t.add(i),
        }
    }
    pub fn add_batch(&mut self, i: Vec<A::Item>) {
        match self {
            Tree::V(t) => t.add_batch(i),
            Tree::F(t) => t.add_batch(i),
        }
    }
    pub fn height(&self) -> u32 {
        match self {
            Tree::V(t) => t.height(),
            Tree::F(t) => t.height(),
        }
    }
    pub fn count(&self) -> usize {
        match self {
            Tree::V(t) => t.count(),
            Tree::F(t) => t.count(),
        }
    }
    pub fn proof(&mut self, i: usize) -> Option<DefaultMerkleProof<A::Item, A::H, A::Hasher, A::Merger>> {
        match self {
            Tree::V(t) => t.get_proof(i),
            Tree::F(t) => t.get_proof(i),
        }
    }
}

fn history<A: Alg>(sh: &mut Shard) {
    let max = if A::NAME == "term" || A::NAME == "sparse" { if sh.rng.chance(1, 60) { 1500 } else { *sh.rng.pick(&[3usize, 9, 20, 40, 140]) } } else { *sh.rng.pick(&[3usize, 9, 20]) };
    let own = height_of(max);
    let fixed = match sh.rng.below(3) {
        0 => None,
        1 => Some(own),
        _ => {
            let more = if sh.rng.chance(1, 4) { 30 } else { 4 };
            Some(own + sh.rng.range(0, more) as u32)
        }
    };
    let cap = sh.rng.chance(1, 4).then(|| sh.rng.range(0, 70));
    let mut t = Tree::<A>::new(fixed, cap);
    let mut items: Vec<A::Item> = vec![];
    let mut log = format!("{} fixed={fixed:?} cap={cap:?}:", A::NAME);
    let steps = sh.rng.range(2, 30);
    let single = sh.rng.chance(1, 2);
    let (mut shape, mut roots) = (vec![], 0u32);
    for _ in 0..steps {
        match sh.rng.below(10) {
            0..=4 => {
                let room = max - items.len();
                let n = if single { 1 } else if max > 140 { sh.rng.range(0, 300) } else { sh.rng.range(0, 6) }.min(room);
                let new: Vec<A::Item> = (0..n)
                    .map(|_| if !items.is_empty() && sh.rng.chance(1, 6) { sh.rng.pick(&items).clone() } else { A::item(&mut sh.rng) })
                    .collect();
                log += &format!(" add{n}");
                shape.push(n as u8);
                items.extend(new.iter().cloned());
                let use_add = n == 1 && sh.rng.bool();
                let r = guarded(|| if use_add { t.add(new[0].clone()) } else { t.add_batch(new) });
                if let Err(p) = r {
                    sh.violation(&format!("adding leaves panicked: {p}; history {log}"));
                }
            }
            5..=7 => {
                log += " root";
                shape.push(254);
                sh.case(|| log.clone());
                let want = root::<A>(&items, fixed.unwrap_or(0));
                match guarded(|| t.root()) {
                    Err(p) => sh.violation(&format!("root panicked: {p}; history {log}")),
                    Ok(got) => {
                        if got != want {
                            sh.violation(&format!("root of {} leaves is {got:?}, a tree of the same leaves has {want:?}; history {log}", items.len()));
                        }
                        roots += 1;
                        sh.count("roots_compared");
                        if roots > 1 {
                            sh.count("roots_after_cached_root");
                        }
                        if let Some(g) = &got {
                            sh.observed(A::fp(g), items.len() > 1);
                        }
                    }
                }
            }
            8 => {
                if items.len() > 1 {
                    let i = sh.rng.below(items.len() as u64) as usize;
                    log += &format!(" proof{i}");
                    shape.push(253);
                    if let Err(p) = guarded(|| t.proof(i).is_some()) {
                        sh.violation(&format!("get_proof panicked: {p}; history {log}"));
                    }
                }
            }
            _ => {
                if t.count() != items.len() {
                    sh.violation(&format!("count {} after adding {}; history {log}", t.count(), items.len()));
                }
                let want = fixed.unwrap_or_else(|| height_of(items.len()));
                if t.height() != want {
                    sh.violation(&format!("height {} instead of {want}; history {log}", t.height()));
                }
                sh.count("shape_compared");
            }
        }
    }
    let want = root::<A>(&items, fixed.unwrap_or(0));
    match guarded(|| t.root()) {
        Ok(g) if g == want => sh.count("final_roots"),
        o => sh.violation(&format!("final root is {o:?} instead of {want:?}; history {log}")),
    }
    sh.observed(fnv(&shape), roots > 1);
    sh.sample(|| serde_json::json!({"history": log, "leaves": items.len()}));
}

/// Trees around the powers of two, with thousands of leaves, in three steps with a root in between.
fn large(sh: &mut Shard) {
    let k = sh.rng.range(10, if sh.thorough() { 18 } else { 16 }) as u32;
    let sizes = [(1usize << k) - 1, 1, sh.rng.range(1, 40)];
    let fixed = match sh.rng.below(3) {
        0 => None,
        1 => Some(k + 1),
        _ => Some(20.max(k + 1)),
    };
    let mut t = Tree::<Term>::new(fixed, None);
    let mut items: Vec<u64> = vec![];
    for n in sizes {
        let new: Vec<u64> = (0..n).map(|_| sh.rng.next()).collect();
        items.extend(&new);
        sh.case(|| format!("large tree, fixed height {fixed:?}, now {} leaves", items.len()));
        let want = (root::<Term>(&items, fixed.unwrap_or(0)), fixed.unwrap_or_else(|| height_of(items.len())), items.len());
        match guarded(|| {
            t.add_batch(new);
            (t.root(), t.height(), t.count())
        }) {
            Ok(g) if g == want => {}
            o => sh.violation(&format!("root, height and count of a tree (fixed height {fixed:?}) of {} leaves added as {sizes:?} are {o:?} instead of {want:?}", items.len())),
        }
        sh.count("large");
        sh.observed(want.0.map_or(0, |r| r as u64), true);
    }
}

struct Nil;
impl MerkleHasher for Nil {
    type Item = ();
    type Hash = bool;
    fn hash(_: &(), _: MerkleTreeNodeMetadata) -> bool {
        true
    }
}
impl MerkleMerger for Nil {
    type Hash = bool;
    fn merge(_: [Option<bool>; 2], _: MerkleTreeNodeMetadata) -> Option<bool> {
        Some(true)
    }
}

/// The height of a growing tree follows its number of leaves, over more leaves than a ledger holds.
fn heights(sh: &mut Shard) {
    let mut t: MinaMerkleTree<(), bool, Nil, Nil, VariableHeightMode> = MinaMerkleTree::<_, _, _, _, VariableHeightMode>::new();
    let mut n = 0usize;
    for k in 17..=if sh.thorough() { 27u32 } else { 25 } {
        for size in [(1usize << k) - 1, 1 << k, (1 << k) + 1] {
            sh.case(|| format!("{size} leaves without content"));
            let add = size - n;
            n = size;
            match guarded(|| {
                t.add_batch(std::iter::repeat(()).take(add));
                (t.height(), t.count())
            }) {
                Ok(g) if g == (height_of(size), size) => {}
                o => sh.violation(&format!("height and count of a tree of {size} leaves are {o:?} instead of {:?}", (height_of(size), size))),
            }
            sh.count("large");
            sh.beat();
        }
    }
}

/// More leaves than a fixed height can hold: no root may come out.
fn overfull(sh: &mut Shard) {
    let h = sh.rng.range(0, 5) as u32;
    let n = (1usize << h) + sh.rng.range(1, 9);
    let mut t = Tree::<Term>::new(Some(h), None);
    for _ in 0..n {
        t.add(sh.rng.next());
    }
    sh.case(|| format!("fixed height {h}, {n} leaves"));
    if let Ok(Some(r)) = guarded(|| t.root()) {
        sh.violation(&format!("a tree of fixed height {h} holding {n} leaves reported root {r}"));
    }
    sh.count("overfull");
}

/// Position of a node in the tree: its distance to the root and to the leaves.
fn metadata(sh: &mut Shard) {
    for d in 0..60u32 {
        let first = (1usize << d) - 1;
        let last = (1usize << (d + 1)) - 2;
        let mut ix = vec![first, last, (first + 1).min(last), last.saturating_sub(1).max(first), (first + last) / 2];
        for _ in 0..4 {
            ix.push(first + sh.rng.below((last - first + 1) as u64) as usize);
        }
        for i in ix {
            let tree = d + sh.rng.below(4) as u32;
            sh.case(|| format!("node index {i} tree height {tree}"));
            match guarded(|| {
                let m = MerkleTreeNodeMetadata::new(i, tree);
                (m.depth(), m.height())
            }) {
                Ok(g) if g == (d, tree - d) => {}
                o => sh.violation(&format!("node {i} in a tree of height {tree} is at (depth, height) {:?}, reported {o:?}", (d, tree - d))),
            }
            sh.count("positions");
            sh.observed(fnv(&(i as u64).to_le_bytes()), true);
        }
    }
}

pub fn run() {
    let run = start(
        "C13",
        "exploration",
        "one evaluation compares a root, or the position of a node, with a tree computed from scratch; distinct by root value, history shape and node; nontrivial: several leaves and an already cached root",
        &["hash and merge functions depend on the item, the children and the height only", "the Poseidon sponge is a stand-in (SHA-256); domain prefixes, order of children and empty hashes are the ones mina-rs feeds to it"],
    );
    let n = if run.thorough { 60_000 } else { 4_000 };
    run.par(threads(), move |sh| {
        if sh.index == 0 {
            metadata(sh);
            heights(sh);
        }
        for _ in 0..if sh.thorough() { 20 } else { 3 } {
            large(sh);
        }
        for i in 0..n {
            history::<Term>(sh);
            history::<Sparse>(sh);
            if i % 4 == 0 {
                history::<Legacy>(sh);
                history::<Kimchi>(sh);
                overfull(sh);
            }
        }
    });
    for k in ["roots_compared", "roots_after_cached_root", "shape_compared", "positions", "overfull"] {
        run.require(k, 100);
    }
    run.require("large", 50);
    run.finish()
}
