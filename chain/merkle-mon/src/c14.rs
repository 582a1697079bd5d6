//! C14: merkle proofs and paths show exactly what the tree contains.
use crate::c13::Tree;
use crate::model::*;
use mina_merkle::*;
use mon::*;
use proof_systems::{mina_hasher::Fp, FpJson};

type Proof<A> = DefaultMerkleProof<<A as Alg>::Item, <A as Alg>::H, <A as Alg>::Hasher, <A as Alg>::Merger>;

/// verify() and root_hash() against the reference on one, possibly hostile, proof.
fn judge<A: Alg>(sh: &mut Shard, p: &Proof<A>, root: &A::H, what: &str) -> bool {
    let want = fold::<A>(p.index, &p.item, &p.peer_indices, &p.peer_hashes);
    let expect = want.as_ref() == Some(root);
    sh.case(|| format!("{} {what}: index {} item {:?} peers {:?} hashes {:?} root {root:?}", A::NAME, p.index, p.item, p.peer_indices, p.peer_hashes));
    match guarded(|| p.verify(root)) {
        Err(e) => sh.violation(&format!("verify panicked: {e}")),
        Ok(v) if v != expect => sh.violation(&format!("verify returned {v}, but the proof {} a path from the item to that root", if expect { "is" } else { "is not" })),
        Ok(_) => {}
    }
    match guarded(|| p.root_hash()) {
        Err(e) => sh.violation(&format!("root_hash panicked: {e}")),
        Ok(r) => {
            if r.as_ref().ok() != want.as_ref() {
                sh.violation(&format!("root_hash returned {r:?}, expected {want:?}"));
            }
        }
    }
    sh.count(if expect { "accepted" } else { "refused" });
    let mut f = vec![];
    f.extend(p.index.to_le_bytes());
    for i in &p.peer_indices {
        f.extend(i.to_le_bytes());
    }
    f.extend(A::fp(root).to_le_bytes());
    sh.observed(fnv(&f), true);
    expect
}

fn copy<A: Alg>(p: &Proof<A>) -> Proof<A> {
    DefaultMerkleProof { index: p.index, item: p.item.clone(), peer_indices: p.peer_indices.clone(), peer_hashes: p.peer_hashes.clone(), _hasher: Default::default(), _merger: Default::default() }
}

fn tamper<A: Alg>(sh: &mut Shard, p: &Proof<A>, root: &A::H) {
    let mut q = copy::<A>(p);
    let k = sh.rng.below(p.peer_indices.len() as u64) as usize;
    let what = match sh.rng.below(13) {
        0 => {
            q.item = A::item(&mut sh.rng);
            "other item"
        }
        1 => {
            q.peer_hashes[k] = Some(A::other_hash(&mut sh.rng));
            "other peer hash"
        }
        2 => {
            q.peer_hashes[k] = None;
            "peer hash dropped"
        }
        3 => {
            // claim the mirrored position: same hashes, neighbouring index
            if q.index % 2 == 1 {
                q.index += 1;
                q.peer_indices[0] = if sh.rng.bool() { q.index + 1 } else { q.index - 1 };
            } else {
                q.index -= 1;
                q.peer_indices[0] = if sh.rng.bool() { q.index.wrapping_sub(1) } else { q.index + 1 };
            }
            "mirrored position"
        }
        4 => {
            q.peer_indices[k] = match sh.rng.below(4) {
                0 => q.peer_indices[k].wrapping_add(1),
                1 => q.peer_indices[k].wrapping_sub(1),
                2 => q.peer_indices[k].wrapping_add(2),
                _ => sh.rng.next() as usize,
            };
            "other peer index"
        }
        5 => {
            q.index = match sh.rng.below(5) {
                0 => 0,
                1 => q.index + 1,
                2 => q.index - 1,
                3 => usize::MAX - sh.rng.below(3) as usize,
                _ => sh.rng.below(600) as usize,
            };
            "other index"
        }
        6 => {
            q.peer_indices.pop();
            q.peer_hashes.pop();
            "last step dropped"
        }
        7 => {
            q.peer_indices.remove(0);
            q.peer_hashes.remove(0);
            "first step dropped"
        }
        8 => {
            q.peer_indices.push(*sh.rng.pick(&[0usize, 1, 2, 3]));
            q.peer_hashes.push(if sh.rng.bool() { None } else { Some(A::other_hash(&mut sh.rng)) });
            "step added"
        }
        9 => {
            if sh.rng.bool() {
                q.peer_hashes.pop();
            } else {
                q.peer_indices.pop();
            }
            "lengths differ"
        }
        10 => {
            let j = sh.rng.below(p.peer_indices.len() as u64) as usize;
            q.peer_hashes.swap(k, j);
            if sh.rng.bool() {
                q.peer_indices.swap(k, j);
            }
            "steps swapped"
        }
        11 => {
            // swap the item's hash with its sibling's role at an inner level
            let mut i = q.index;
            for _ in 0..k {
                i = (i - 1) / 2;
            }
            q.peer_indices[k] = if i % 2 == 1 { i.wrapping_sub(1) } else { i + 1 };
            "adjacent node that is not the sibling"
        }
        _ => {
            let r = A::other_hash(&mut sh.rng);
            judge::<A>(sh, p, &r, "other root");
            return;
        }
    };
    judge::<A>(sh, &q, root, what);
}

fn trees<A: Alg>(sh: &mut Shard) {
    let small = A::NAME == "legacy" || A::NAME == "kimchi";
    let n = if small { sh.rng.range(1, 9) } else { *sh.rng.pick(&[1usize, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 70, 130]) };
    let own = height_of(n);
    let fixed = match sh.rng.below(3) {
        0 if n > 1 => None,
        1 if n > 1 => Some(own),
        _ => {
            let more = if sh.rng.chance(1, 4) { 36 } else { 5 };
            Some((own + sh.rng.range(0, more) as u32).max(1))
        }
    };
    let mut t = Tree::<A>::new(fixed, None);
    let mut items: Vec<A::Item> = vec![];
    let first = sh.rng.range(0, n);
    for _ in 0..first {
        let i = A::item(&mut sh.rng);
        items.push(i.clone());
        t.add(i);
    }
    if sh.rng.bool() {
        let _ = guarded(|| t.root());
    }
    let rest: Vec<A::Item> = (first..n).map(|_| A::item(&mut sh.rng)).collect();
    items.extend(rest.iter().cloned());
    t.add_batch(rest);
    let h = fixed.unwrap_or(own);
    let Some(rt) = root::<A>(&items, h) else { return };
    let ix: Vec<usize> = if n <= 9 { (0..n).collect() } else { (0..6).map(|_| sh.rng.below(n as u64) as usize).chain([0, n - 1]).collect() };
    for i in ix {
        sh.case(|| format!("{} get_proof({i}) of {n} leaves, fixed height {fixed:?}", A::NAME));
        let p = match guarded(|| t.proof(i)) {
            Err(e) => sh.violation(&format!("get_proof panicked: {e}")),
            Ok(None) => sh.violation("no proof for a leaf of the tree"),
            Ok(Some(p)) => p,
        };
        if p.item != items[i] || p.index != (1usize << h) - 1 + i || p.peer_indices.len() != h as usize {
            sh.violation(&format!("the proof is for item {:?} at node {} with {} steps", p.item, p.index, p.peer_indices.len()));
        }
        if !judge::<A>(sh, &p, &rt, "proof from the tree") {
            sh.violation("the proof that the tree gives for its leaf does not lead to its root");
        }
        sh.count("proofs_from_trees");
        for _ in 0..4 {
            tamper::<A>(sh, &p, &rt);
        }
    }
    sh.sample(|| serde_json::json!({"algorithm": A::NAME, "leaves": n, "fixed_height": fixed}));
}

fn paths<A: Alg<H = Fp>>(sh: &mut Shard) {
    let n = match sh.rng.below(20) {
        0 => 63,
        1..=4 => sh.rng.range(28, 63),
        _ => sh.rng.range(1, 12),
    };
    let style = sh.rng.below(4);
    let item = A::item(&mut sh.rng);
    let mut nodes = vec![];
    let mut h = A::leaf(&item);
    let mut lefts = vec![];
    for k in 0..n {
        let left = match style {
            0 => true,
            1 => false,
            2 => k > n / 2,
            _ => sh.rng.bool(),
        };
        let s = A::other_hash(&mut sh.rng);
        lefts.push(left);
        nodes.push(if left { MerklePathNode { left: Some(FpJson(s)), right: None } } else { MerklePathNode { left: None, right: Some(FpJson(s)) } });
        let height = k as u32 + 1;
        h = if left { A::node(Some(h), Some(s), height) } else { A::node(Some(s), Some(h), height) }.unwrap();
    }
    let mut index: usize = 0;
    for l in lefts.iter().rev() {
        index = 2 * index + if *l { 1 } else { 2 };
    }
    let path = MerklePath(nodes);
    sh.case(|| format!("{} path {path:?} item {item:?}", A::NAME));
    let p = match guarded(|| path.to_proof::<A::Item, A::Hasher, A::Merger>(item.clone())) {
        Ok(Ok(p)) => p,
        o => sh.violation(&format!("to_proof gave {:?}", o.map(|r| r.map(|_| ()).map_err(|e| e.to_string())))),
    };
    if p.index != index {
        sh.violation(&format!("the path leads to node {index}, the proof says {}", p.index));
    }
    if !judge::<A>(sh, &p, &h, "proof from a path") {
        sh.violation("the proof made from a path does not lead to the path's root");
    }
    sh.count("paths");
    if n >= 28 {
        sh.count("ledger_deep_paths");
    }
    tamper::<A>(sh, &p, &h);
    // JSON form
    let js = serde_json::to_string(&path).unwrap();
    match guarded(|| serde_json::from_str::<MerklePath>(&js)) {
        Ok(Ok(b)) if b == path => sh.count("json_round_trips"),
        o => sh.violation(&format!("{js} came back as {o:?}")),
    }
    // malformed nodes are errors
    let mut bad = path.clone();
    let k = sh.rng.below(n as u64) as usize;
    let f = FpJson(A::other_hash(&mut sh.rng));
    bad.0[k] = if sh.rng.bool() { MerklePathNode { left: None, right: None } } else { MerklePathNode { left: Some(f.clone()), right: Some(f) } };
    match guarded(|| bad.to_proof::<A::Item, A::Hasher, A::Merger>(item.clone()).is_err()) {
        Ok(true) => sh.count("malformed_refused"),
        o => sh.violation(&format!("a path node with none or both of its hashes: {o:?}")),
    }
    if sh.rng.chance(1, 8) {
        let len = *sh.rng.pick(&[0usize, 64, 65, 200]);
        let odd = MerklePath((0..len).map(|_| MerklePathNode { left: Some(FpJson(Fp::from(1u64))), right: None }).collect());
        sh.case(|| format!("path of {len} nodes"));
        match guarded(|| odd.to_proof::<A::Item, A::Hasher, A::Merger>(item.clone()).is_err()) {
            Ok(true) => sh.count("impossible_lengths_refused"),
            o => sh.violation(&format!("a path of {len} nodes: {o:?}")),
        }
    }
}

pub fn run() {
    let run = start(
        "C14",
        "exploration",
        "one evaluation compares verify() and root_hash() of one proof (genuine or tampered) with a reference fold; distinct by indices and root",
        &["trees with at least two leaves, or a fixed height of at least one", "the Poseidon sponge is a stand-in (SHA-256)"],
    );
    let n = if run.thorough { 60_000 } else { 2_500 };
    run.par(threads(), move |sh| {
        for i in 0..n {
            trees::<Term>(sh);
            trees::<Sparse>(sh);
            paths::<Legacy>(sh);
            paths::<Kimchi>(sh);
            if i % 4 == 0 {
                trees::<Legacy>(sh);
                trees::<Kimchi>(sh);
            }
        }
    });
    for k in ["accepted", "refused", "proofs_from_trees", "paths", "ledger_deep_paths", "json_round_trips", "malformed_refused", "impossible_lengths_refused"] {
        run.require(k, 50);
    }
    run.finish()
}
