//! The GraphQL backends: the real ones, their real JavaScript in a Node process, and a network made up by the monitor,
//! which loses requests, answers with rubbish for a while or for good, and answers queries with what they ask for only.
use crate::c24;
use crate::c25::{all_same, proof, read, Proof};
use crate::exec::{pause, End, Exec};
use crate::graphql;
use crate::node::*;
use crate::processor::js::graphql_api_berkeley::*;
use crate::processor::js::graphql_api_v1::*;
use crate::processor::*;
use mina_rs_base::types::*;
use mina_serialization_types::json::ExternalTransitionJson;
use mon::{fnv, Rng, Shard};
use serde_json::{json, Value as J};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;
use tokio::sync::mpsc;
use wasm_bindgen::{hook, Call, Hook};

pub const ALWAYS: u32 = 1000;
#[derive(Clone)]
pub struct Info {
    pub height: usize,
    pub hash: String,
    pub time: u64,
}
/// A node of the other network, as of now.
#[derive(Clone)]
pub struct Daemon {
    pub state: ProtocolState,
    pub chain: Vec<J>,
    pub genesis: J,
    pub accounts: BTreeMap<String, J>,
    pub proofs: BTreeMap<String, Proof>,
}
#[derive(Clone)]
pub enum Stored {
    Block(String),
    /// JSON, but not a block
    Junk(&'static str),
}
pub struct World {
    pub r: Rng,
    pub list: Vec<Info>,
    pub store: HashMap<String, Stored>,
    pub daemons: HashMap<String, Daemon>,
    /// how many more requests for a thing go wrong
    pub left: HashMap<String, u32>,
    /// how many requests there were
    pub seen: BTreeMap<String, u32>,
    pub strange: Vec<String>,
    pub faults: u64,
    pub log: Vec<String>,
}
pub fn block_key(height: usize, hash: &str) -> String {
    format!("block {height} {hash}")
}
/// Fields that the servers' schemas have beside those the data shows.
const KNOWN: &[&str] = &["coinbaseReceiver", "coinbaseReceiever", "stagedLedgerProofEmitted", "balance", "nonce", "canonical", "creator", "dateTime", "protocolVersion", "receivedTime", "epoch", "bodyReference", "zkappUri", "token", "publicKey"];
impl World {
    pub fn new(r: Rng) -> Self {
        World { r, list: vec![], store: HashMap::new(), daemons: HashMap::new(), left: HashMap::new(), seen: BTreeMap::new(), strange: vec![], faults: 0, log: vec![] }
    }
    fn bad(&mut self, graphql: bool) -> Reply {
        match self.r.below(if graphql { 6 } else { 5 }) {
            0 => Reply::Lost("fetch failed"),
            1 => Reply::Body(*self.r.pick(&[200, 502, 503]), "text/html", "<html>try later</html>".into()),
            2 => Reply::Body(*self.r.pick(&[200, 500]), "application/json", "".into()),
            3 => Reply::Body(200, "application/json", "{\"data\":".into()),
            4 => Reply::Body(404, "application/xml", "<?xml version='1.0'?><Error><Code>NoSuchKey</Code></Error>".into()),
            _ => Reply::Body(*self.r.pick(&[200, 400]), "application/json", r#"{"data":null,"errors":[{"message":"overloaded"}]}"#.into()),
        }
    }
    pub fn reply(&mut self, q: Request) -> Reply {
        let post = q.method == "POST";
        if let Some(name) = q.url.strip_prefix("https://storage.googleapis.com/mina_network_block_data/mainnet-").and_then(|n| n.strip_suffix(".json")) {
            if let (Some((h, hash)), "GET") = (name.split_once('-'), q.method.as_str()) {
                if let Ok(h) = h.parse::<usize>() {
                    let key = block_key(h, hash);
                    return match (self.goes_wrong(&key), self.store.get(&key).cloned()) {
                        (false, Some(Stored::Block(t))) => Reply::Body(200, "application/json", t),
                        (false, Some(Stored::Junk(t))) => Reply::Body(200, "application/json", t.into()),
                        _ => self.bad(false),
                    };
                }
            }
        }
        if post && q.url == "https://graphql.minaexplorer.com/" {
            if self.goes_wrong("list") {
                return self.bad(true);
            }
            let mut list = self.list.clone();
            return self.graphql(&q, &mut |name, args| {
                if name != "blocks" {
                    return Err(format!("Cannot query field {name}"));
                }
                let mut limit = list.len();
                for (n, v) in args {
                    match n.as_str() {
                        "limit" => limit = v.as_u64().ok_or("limit is not a number")? as usize,
                        "sortBy" => match v.as_str() {
                            Some("\u{1}RECEIVEDTIME_DESC") => list.sort_by_key(|b| std::cmp::Reverse(b.time)),
                            Some("\u{1}RECEIVEDTIME_ASC") => list.sort_by_key(|b| b.time),
                            Some("\u{1}BLOCKHEIGHT_DESC") => list.sort_by_key(|b| std::cmp::Reverse(b.height)),
                            Some("\u{1}BLOCKHEIGHT_ASC") => list.sort_by_key(|b| b.height),
                            _ => return Err("no such order".into()),
                        },
                        _ => return Err(format!("Unknown argument {n}")),
                    }
                }
                Ok(list.iter().take(limit).map(|b| json!({"blockHeight": b.height, "stateHash": b.hash, "stateHashField": "x"})).collect())
            });
        }
        if let (true, Some(d)) = (post, self.daemons.get(&q.url).cloned()) {
            if self.goes_wrong(&q.url) {
                return self.bad(true);
            }
            return self.graphql(&q, &mut |name, args| match name {
                "bestChain" => {
                    let most = match args.get("maxLength") {
                        None => d.chain.len(),
                        Some(n) => n.as_u64().ok_or("maxLength is not a number")? as usize,
                    };
                    if args.len() > args.contains_key("maxLength") as usize {
                        return Err("Unknown argument".into());
                    }
                    Ok(d.chain[d.chain.len().saturating_sub(most)..].to_vec().into())
                }
                "genesisBlock" => Ok(d.genesis.clone()),
                "account" => {
                    let k = args.get("publicKey").and_then(|k| k.as_str()).ok_or("argument publicKey is missing")?;
                    if k.starts_with('\u{1}') {
                        return Err("publicKey is not a text".into());
                    }
                    Ok(d.accounts.get(k).cloned().unwrap_or(J::Null))
                }
                "syncStatus" => Ok("SYNCED".into()),
                _ => Err(format!("Cannot query field {name}")),
            });
        }
        self.strange.push(format!("{} {} {}", q.method, q.url, q.body));
        Reply::Lost("no such host")
    }
    fn goes_wrong(&mut self, key: &str) -> bool {
        *self.seen.entry(key.into()).or_insert(0) += 1;
        let wrong = match self.left.get_mut(key) {
            None | Some(0) => false,
            Some(&mut ALWAYS) => true,
            Some(n) => {
                *n -= 1;
                true
            }
        };
        self.faults += wrong as u64;
        self.log.push(format!("{key}{}", if wrong { " (goes wrong)" } else { "" }));
        wrong
    }
    fn graphql(&mut self, q: &Request, root: graphql::Root) -> Reply {
        let r = match q.kind.as_deref().map(|k| k.split(';').next().unwrap().trim()) {
            Some("application/json") => graphql::answer(&q.body, KNOWN, root),
            _ => Err("the content type is not JSON".into()),
        };
        match r {
            Ok(data) => Reply::Body(200, "application/json", json!({ "data": data }).to_string()),
            Err(e) => {
                self.log.push(format!("answered with the error {e}"));
                Reply::Body(400, "application/json", json!({"errors": [{"message": e}]}).to_string())
            }
        }
    }
    /// Whether the next demand for a thing is met, and with how many requests; the faults are then used up.
    fn next(left: &mut HashMap<String, u32>, key: &str) -> (bool, u32) {
        match left.get_mut(key) {
            None => (true, 1),
            Some(&mut ALWAYS) => (false, 3),
            Some(n) if *n >= 3 => {
                *n -= 3;
                (false, 3)
            }
            Some(n) => (true, std::mem::take(n) + 1),
        }
    }
}
pub type Net = Rc<RefCell<World>>;
fn some_faults(r: &mut Rng, long: bool) -> u32 {
    match r.below(10) {
        0..=4 => 0,
        5 | 6 => 1,
        7 => 2,
        8 if long => 3 + r.below(4) as u32,
        _ => ALWAYS,
    }
}
/// From here on the functions run in the process and ask this network.
fn plug(node: &Rc<RefCell<Node>>, net: &Net, r: &mut Rng) {
    let (node, net, mut r) = (node.clone(), net.clone(), Rng::new(r.next()));
    hook(Some(Hook {
        pauses: Box::new(move || if r.bool() { 0 } else { r.below(4) }),
        run: Box::new(move |c: Call| {
            let path = format!("{}/network{}", mon::repo_dir(), c.module);
            node.borrow_mut().call(&path, c.name, &c.args, &mut |q| net.borrow_mut().reply(q))
        }),
    }))
}
pub fn text58(r: &mut Rng) -> String {
    let mut b = [0; 32];
    b.iter_mut().for_each(|b| *b = r.next() as u8);
    b[31] &= 0x3f; // below the modulus
    crate::c17::b58(16, &[&[1u8][..], &b].concat())
}
fn norm(b: &ExternalTransitionJson) -> String {
    serde_json::to_string(b).unwrap()
}
/// A network of the first kind; some of the blocks it lists are not stored, or not blocks.
pub fn v1_world(sh: &mut Shard, base: &J, long: bool) -> (World, Vec<Info>) {
    let mut w = World::new(Rng::new(sh.rng.next()));
    let r = &mut sh.rng;
    let n = if r.chance(1, 3) { r.below(10) } else { 8 + r.below(14) };
    let mut pool: Vec<Info> = vec![];
    let top = if r.chance(1, 4) { u32::MAX as u64 - r.below(30) } else { 30 + r.below(400_000) };
    for i in 0..n + 4 {
        let height = match pool.last() {
            Some(p) if r.chance(1, 4) => p.height,
            _ => (top - r.below(30)) as usize,
        };
        let b = Info { height, hash: text58(r), time: 1_000 * r.below(1_000_000) + i };
        let key = block_key(height, &b.hash);
        if !r.chance(1, 8) {
            let mut j = base.clone();
            let s = &mut j["protocol_state"];
            s["previous_state_hash"] = text58(r).into();
            s["body"]["consensus_state"]["blockchain_length"] = height.to_string().into();
            s["body"]["consensus_state"]["total_currency"] = r.next().to_string().into();
            s["body"]["blockchain_state"]["timestamp"] = (r.next() >> 1).to_string().into();
            let junk = r.chance(1, 12);
            let stored = if junk {
                Stored::Junk(r.pick(&["{}", "null", "[]", "\"\"", "7", r#"{"error":"x"}"#]))
            } else if r.chance(1, 6) {
                Stored::Block(serde_json::to_string_pretty(&j).unwrap())
            } else {
                Stored::Block(j.to_string())
            };
            w.store.insert(key.clone(), stored);
        } else {
            w.left.insert(key.clone(), ALWAYS);
        }
        if !w.left.contains_key(&key) && r.chance(1, 3) {
            w.left.insert(key, some_faults(r, long));
        }
        if i < n {
            w.list.push(b.clone())
        }
        pool.push(b);
    }
    w.left.insert("list".into(), some_faults(r, long));
    (w, pool)
}
pub fn stored(w: &World, b: &Info) -> Option<String> {
    match w.store.get(&block_key(b.height, &b.hash)) {
        Some(Stored::Block(t)) => Some(norm(&serde_json::from_str(t).expect("a block of the monitor's own"))),
        _ => None,
    }
}
/// The ten blocks heard of last.
fn latest(w: &World) -> Vec<Info> {
    let mut l = w.list.clone();
    l.sort_by_key(|b| std::cmp::Reverse(b.time));
    l.truncate(10);
    l
}
fn counts_fit(net: &World, want: &BTreeMap<String, (u32, u32)>) -> Result<(), String> {
    if let Some(s) = net.strange.first() {
        return Err(format!("something else was asked of the network: {s}"));
    }
    for (k, n) in &net.seen {
        if !want.contains_key(k) {
            return Err(format!("{n} requests for {k}, which nobody asked for"));
        }
    }
    for (k, (least, most)) in want {
        let n = *net.seen.get(k).unwrap_or(&0);
        if n < *least || n > *most {
            return Err(format!("{n} requests for {k} instead of {least} to {most}"));
        }
    }
    Ok(())
}
fn short(l: &[String]) -> String {
    l.iter().map(|b| format!("{:016x}", fnv(b.as_bytes()))).collect::<Vec<_>>().join(" ")
}

#[derive(Debug, Clone)]
enum Op {
    Listen(usize),
    Poll,
    Query(usize, String),
}
fn v1(sh: &mut Shard, node: &Rc<RefCell<Node>>, base: &J) {
    let (w, pool) = v1_world(sh, base, true);
    let r = &mut sh.rng;
    let chans = 1 + r.below(3) as usize;
    let closed: Vec<bool> = (0..chans).map(|_| r.chance(1, 8)).collect();
    let mut ops = vec![];
    if !r.chance(1, 6) {
        ops.push(Op::Listen(0))
    }
    for _ in 0..1 + r.below(5) {
        ops.push(match r.below(8) {
            0 => Op::Listen(r.below(chans as u64) as usize),
            1 | 2 => Op::Poll,
            k => {
                let b = r.pick(&pool).clone();
                match k {
                    3 => Op::Query(r.pick(&pool).height, b.hash),
                    4 => Op::Query(b.height, text58(r)),
                    _ => Op::Query(b.height, b.hash),
                }
            }
        })
    }
    // what has to come of it
    let (mut left, mut lists) = (w.left.clone(), w.left.clone());
    let mut want: Vec<Vec<String>> = vec![vec![]; chans];
    let mut asks: BTreeMap<String, (u32, u32)> = BTreeMap::new();
    let mut results = vec![];
    let mut to: Option<usize> = None;
    let mut loose = false;
    for op in &ops {
        // a thing that is not stored never comes
        let mut demand = |h: usize, hash: &str| {
            let key = block_key(h, hash);
            let a = asks.entry(key.clone()).or_insert((0, 0));
            match w.store.get(&key) {
                None => {
                    a.0 += 3;
                    a.1 += 3;
                    None
                }
                Some(s) => {
                    let (ok, n) = World::next(&mut left, &key);
                    a.0 += n;
                    a.1 += n;
                    match s {
                        Stored::Junk(_) => {
                            // whether it is asked for again is left open
                            loose = true;
                            None
                        }
                        Stored::Block(_) if ok => stored(&w, &Info { height: h, hash: hash.into(), time: 0 }),
                        _ => None,
                    }
                }
            }
        };
        results.push(match (op, to) {
            (Op::Listen(c), _) => {
                to = Some(*c);
                true
            }
            (_, None) => true,
            (Op::Query(h, hash), Some(c)) => match demand(*h, hash) {
                None => false,
                Some(_) if closed[c] => false,
                Some(b) => {
                    want[c].push(b);
                    true
                }
            },
            (Op::Poll, Some(c)) => {
                let (ok, n) = World::next(&mut lists, "list");
                if ok {
                    for b in latest(&w) {
                        if let Some(b) = demand(b.height, &b.hash) {
                            if !closed[c] {
                                want[c].push(b)
                            }
                        }
                    }
                    loose |= closed[c];
                }
                let a = asks.entry("list".into()).or_insert((0, 0));
                a.0 += n;
                a.1 += n;
                ok
            }
        });
    }
    let case = format!("v1 backend, receivers that are gone {closed:?}, operations {ops:?}, list {:?}, faults {:?}", latest(&w).iter().map(|b| format!("{} {}", b.height, b.hash)).collect::<Vec<_>>(), w.left);
    sh.case(|| case.clone());
    let net: Net = Rc::new(RefCell::new(w));
    plug(node, &net, &mut sh.rng);
    let got: Vec<RefCell<Vec<String>>> = (0..chans).map(|_| Default::default()).collect();
    let outcome = RefCell::new(vec![]);
    let mut exec = Exec::default();
    let mut senders = vec![];
    for (i, gone) in closed.iter().enumerate() {
        let (tx, mut rx) = mpsc::channel(1 + sh.rng.below(3) as usize);
        senders.push(tx);
        if *gone {
            continue;
        }
        let mut r = Rng::new(sh.rng.next());
        let got = &got[i];
        exec.add("receiver", async move {
            while let Some(b) = rx.recv().await {
                got.borrow_mut().push(norm(&b));
                pause(r.below(4)).await
            }
        })
    }
    let (o, out) = (ops.clone(), &outcome);
    exec.add("operations", async move {
        let mut backend = NonConsensusGraphQLV1Backend::new();
        for op in o {
            let r = match op {
                Op::Listen(c) => {
                    backend.set_block_responder(senders[c].clone());
                    Ok(())
                }
                Op::Poll => backend.poll_latest_once().await,
                Op::Query(height, state_hash) => backend.query_block(&QueryBlockRequest { height, state_hash }).await,
            };
            out.borrow_mut().push(r.map_err(|e| e.to_string()))
        }
    });
    let end = mon::guarded(|| exec.run(&mut sh.rng, &|| false));
    match end {
        Ok(End::Done) => {}
        Ok(e) => sh.violation(&format!("the backend does not get on: {e:?}")),
        Err(e) => sh.violation(&format!("the backend panicked: {e}")),
    }
    drop(exec);
    hook(None);
    let net = net.borrow();
    for (i, (w, g)) in results.iter().zip(outcome.borrow().iter()).enumerate() {
        if *w != g.is_ok() {
            sh.violation(&format!("operation {i}, {:?}, gave {g:?}; the network saw {:?}", ops[i], net.log))
        }
        sh.count(if *w { "operations that succeed" } else { "operations that fail" });
    }
    for (c, (w, g)) in want.iter().zip(&got).enumerate() {
        if *w != *g.borrow() {
            sh.violation(&format!("receiver {c} got the blocks {} instead of {}; the network saw {:?}", short(&g.borrow()), short(w), net.log))
        }
        sh.count_n("blocks delivered", w.len() as u64);
    }
    if loose {
        asks.values_mut().for_each(|a| {
            a.0 = 0;
            a.1 = a.1.max(3) * 3
        })
    }
    if let Err(e) = counts_fit(&net, &asks) {
        sh.violation(&format!("{e}; the network saw {:?}", net.log))
    }
    sh.count_n("faults", net.faults);
    sh.sample(|| json!({"operations": format!("{ops:?}"), "network saw": net.log.clone(), "delivered": want.iter().map(Vec::len).collect::<Vec<_>>()}));
    sh.observed(fnv(case.as_bytes()), net.seen.len() > 0);
}

/// A frontier that writes down what it is given, and asks for more.
struct Recorder {
    got: Rc<RefCell<Vec<String>>>,
    asked: Rc<RefCell<Vec<Info>>>,
    pool: Vec<Info>,
    ask: u32,
    r: Rng,
    to: Option<mpsc::Sender<QueryBlockRequest>>,
}
#[async_trait::async_trait(?Send)]
impl TransitionFrontier for Recorder {
    type Block = ExternalTransitionJson;
    async fn add_block(&mut self, block: Self::Block) -> anyhow::Result<()> {
        self.got.borrow_mut().push(norm(&block));
        pause(self.r.below(3)).await;
        if self.ask > 0 && self.r.chance(1, 3) {
            let b = self.r.pick(&self.pool).clone();
            if self.to.as_ref().unwrap().try_send(QueryBlockRequest { height: b.height, state_hash: b.hash.clone() }).is_ok() {
                self.ask -= 1;
                self.asked.borrow_mut().push(b)
            }
        }
        if self.r.chance(1, 6) {
            anyhow::bail!("not this one")
        }
        Ok(())
    }
    fn set_block_requester(&mut self, sender: mpsc::Sender<QueryBlockRequest>) {
        self.to = Some(sender)
    }
}
fn v1_processor(sh: &mut Shard, node: &Rc<RefCell<Node>>, base: &J) {
    let (mut w, pool) = v1_world(sh, base, false);
    if sh.rng.chance(3, 4) {
        w.left.remove("list");
    }
    let polls = 1 + sh.rng.below(2);
    let case = format!("v1 backend in a processor, {polls} polls, list {:?}, faults {:?}", latest(&w).iter().map(|b| format!("{} {}", b.height, b.hash)).collect::<Vec<_>>(), w.left);
    sh.case(|| case.clone());
    let listed = w.left.get("list") != Some(&ALWAYS);
    let left = w.left.clone();
    let net: Net = Rc::new(RefCell::new(w));
    plug(node, &net, &mut sh.rng);
    let (got, asked) = (Rc::new(RefCell::new(vec![])), Rc::new(RefCell::new(vec![])));
    let frontier = Recorder { got: got.clone(), asked: asked.clone(), pool: pool.clone(), ask: sh.rng.below(4) as u32, r: Rng::new(sh.rng.next()), to: None };
    let p = NetworkMessageProcessor::<_, ExternalTransitionJson, _, _>::new(frontier, NonConsensusGraphQLV1Backend::new());
    let outcome = RefCell::new(vec![]);
    let mut exec = Exec::default();
    exec.add("run", p.run());
    let mut r = Rng::new(sh.rng.next());
    let (p2, out) = (&p, &outcome);
    exec.add("polls", async move {
        for _ in 0..polls {
            pause(r.below(6)).await;
            let o = p2.nonconsensus_ops().await.poll_latest_once().await;
            out.borrow_mut().push(o.map_err(|e| e.to_string()))
        }
    });
    match mon::guarded(|| exec.run(&mut sh.rng, &|| false)) {
        Ok(End::Stuck(s)) if s == ["run"] => {}
        Ok(e) => sh.violation(&format!("the processor does not get on: {e:?}")),
        Err(e) => sh.violation(&format!("the processor panicked: {e}")),
    }
    drop(exec);
    hook(None);
    let net = net.borrow();
    let mut asks: BTreeMap<String, (u32, u32)> = BTreeMap::new();
    let fetched = |b: &Info, asks: &mut BTreeMap<String, (u32, u32)>| {
        let key = block_key(b.height, &b.hash);
        let a = asks.entry(key.clone()).or_insert((0, 0));
        let k = left.get(&key).copied().unwrap_or(0);
        let here = net.store.contains_key(&key) && k != ALWAYS;
        if matches!(net.store.get(&key), Some(Stored::Junk(_))) {
            a.1 += 3
        } else if here {
            let first = if a.1 == 0 { k } else { 0 };
            a.0 += 1 + first;
            a.1 += 1 + first
        } else {
            a.0 += 3;
            a.1 += 3
        }
        if here {
            stored(&net, b)
        } else {
            None
        }
    };
    let mut polled = vec![];
    for o in outcome.borrow().iter() {
        if o.is_ok() != listed {
            sh.violation(&format!("a poll gave {o:?}; the network saw {:?}", net.log))
        }
        if listed {
            polled.extend(latest(&net).iter().filter_map(|b| fetched(b, &mut asks)))
        }
    }
    let more: Vec<String> = asked.borrow().iter().filter_map(|b| fetched(b, &mut asks)).collect();
    let k = left.get("list").copied().unwrap_or(0);
    let n = if listed { k + polls as u32 } else { 3 * polls as u32 };
    asks.insert("list".into(), (n, n));
    let got = got.borrow();
    let (mut a, mut b) = (got.clone(), [polled.clone(), more.clone()].concat());
    a.sort();
    b.sort();
    if a != b {
        sh.violation(&format!("the frontier got {} instead of {} polled and {} asked for; the network saw {:?}", short(&got), short(&polled), short(&more), net.log))
    }
    let mut it = got.iter();
    if !polled.iter().all(|p| it.any(|g| g == p)) {
        sh.violation(&format!("the polled blocks {} came in another order: {}", short(&polled), short(&got)))
    }
    if let Err(e) = counts_fit(&net, &asks) {
        sh.violation(&format!("{e}; the network saw {:?}", net.log))
    }
    sh.count_n("blocks a frontier polled", polled.len() as u64);
    sh.count_n("blocks a frontier asked for", more.len() as u64);
    sh.count_n("faults", net.faults);
    sh.observed(fnv(case.as_bytes()), !got.is_empty());
}

fn daemon(r: &mut Rng, keys: &[Proof]) -> Daemon {
    let state = c24::told(r);
    daemon_with(r, keys, state)
}
pub fn daemon_with(r: &mut Rng, keys: &[Proof], state: ProtocolState) -> Daemon {
    let mut chain = vec![];
    let mut genesis = J::Null;
    for i in 0..1 + r.below(3) {
        let s = if i == 0 { state.clone() } else { c24::told(r) };
        let mut o = J::Object(c24::state(r, &s).o);
        let b = o["blockchainState"].as_object_mut().unwrap();
        let ledger = b.remove("genesisLedgerHash").unwrap();
        if i == 0 {
            genesis = ledger
        }
        b.insert("stagedLedgerProofEmitted".into(), r.bool().into());
        for (place, name) in [("consensusState", "coinbaseReceiver"), ("consensusState", "snarkedLedgerHash")] {
            o[place].as_object_mut().unwrap().remove(name);
        }
        for e in ["stakingEpochData", "nextEpochData"] {
            for n in ["epoch", "blockHeight"] {
                o["consensusState"][e].as_object_mut().unwrap().remove(n);
            }
        }
        chain.push(json!({"protocolState": o, "stateHash": text58(r), "creator": "x"}));
    }
    let genesis = json!({"stateHash": text58(r), "protocolState": {"previousStateHash": text58(r), "blockchainState": {"snarkedLedgerHash": genesis, "stagedLedgerHash": text58(r)}}});
    let (mut accounts, mut proofs) = (BTreeMap::new(), BTreeMap::new());
    for k in keys {
        if !r.chance(1, 10) {
            // the same account has another place and content at every node
            let mut p = proof(r);
            p.address = k.address.clone();
            let mut j = p.json.clone();
            j["publicKey"] = p.address.clone().into();
            j["balance"] = json!({"total": "5"});
            accounts.insert(p.address.clone(), j);
            proofs.insert(p.address.clone(), p);
        }
    }
    Daemon { state, chain, genesis, accounts, proofs }
}
/// Whether an answer is what a node has for these accounts.
fn fits(d: &J, n: &Daemon, tracked: &[String]) -> Result<(), String> {
    let chain = d["bestChain"].as_array().ok_or("there is no best chain")?;
    let prev = |c: &[J]| c.iter().map(|b| b["protocolState"]["previousStateHash"].clone()).collect::<Vec<_>>();
    if prev(chain) != prev(&n.chain) {
        return Err("the best chain is another one".into());
    }
    let mut d = d.clone();
    for t in tracked {
        if !n.accounts.contains_key(t) {
            match d.as_object_mut().unwrap().remove(t) {
                Some(J::Null) => {}
                o => return Err(format!("the unknown account {t} is {o:?}")),
            }
        }
    }
    let ps: Vec<Proof> = tracked.iter().filter_map(|t| n.proofs.get(t).cloned()).collect();
    match read(&d) {
        Ok(Ok(b)) if b.0 == n.state && all_same(&b.1, &ps) => Ok(()),
        Ok(Ok(b)) if b.0 == n.state => Err(format!("there are {} proofs, not those of the {} tracked accounts", b.1.len(), ps.len())),
        Ok(Ok(b)) => Err(format!("the state is {:?}", b.0)),
        Ok(Err(e)) => Err(format!("it is not read: {e}")),
        Err(e) => Err(format!("reading it panics: {e}")),
    }
}
pub fn endpoints(r: &mut Rng) -> Vec<String> {
    ["http://localhost:3085/graphql", "http://localhost:3086/graphql", "https://node.example/graphql", "https://node.example/graphql?network=berkeley", "http://10.0.0.7:3085/"][r.below(5) as usize..].iter().map(|s| s.to_string()).collect()
}
pub fn some<T: Clone>(r: &mut Rng, of: &[T]) -> Vec<T> {
    let mut v: Vec<T> = of.iter().filter(|_| r.chance(2, 3)).cloned().collect();
    if !v.is_empty() && r.chance(1, 8) {
        let again = r.pick(&v).clone();
        v.push(again)
    }
    v
}
pub fn unique(mut v: Vec<String>) -> Vec<String> {
    v.sort();
    v.dedup();
    v
}
fn berkeley(sh: &mut Shard, node: &Rc<RefCell<Node>>) {
    let mut w = World::new(Rng::new(sh.rng.next()));
    let r = &mut sh.rng;
    let keys: Vec<Proof> = (0..r.below(5)).map(|_| proof(r)).collect();
    let names: Vec<String> = keys.iter().map(|k| k.address.clone()).collect();
    let urls = endpoints(r);
    for u in &urls {
        w.daemons.insert(u.clone(), daemon(r, &keys));
        if r.chance(1, 3) {
            w.left.insert(u.clone(), some_faults(r, true));
        }
    }
    let net: Net = Rc::new(RefCell::new(w));
    plug(node, &net, r);
    let mut backend = NonConsensusGraphQLBerkeleyBackend::new();
    let (mut to, mut open): (Option<mpsc::Receiver<J>>, bool) = (None, false);
    let (mut list, mut tracked): (Vec<String>, Vec<String>) = (vec![], vec![]);
    let mut listens = false;
    let mut text = String::new();
    for i in 0..3 + sh.rng.below(6) {
        let r = &mut sh.rng;
        let k = if i < 3 && !r.chance(1, 10) { i } else { r.below(8) };
        match k {
            0 => {
                let l = some(r, &urls);
                text.push_str(&format!("endpoints {l:?}; "));
                list = unique(l.clone());
                backend.set_api_list(l.into_iter());
                continue;
            }
            1 => {
                let (tx, rx) = mpsc::channel(16);
                backend.set_block_responder(tx);
                open = !r.chance(1, 10);
                to = open.then_some(rx);
                listens = true;
                text.push_str(if open { "responder; " } else { "responder that is gone; " });
                continue;
            }
            2 => {
                let l = some(r, &names);
                text.push_str(&format!("{} accounts; ", l.len()));
                tracked = unique(l.clone());
                backend.set_tracking_accounts(l.into_iter());
                continue;
            }
            3 => {
                // time passes
                if !urls.is_empty() {
                    let u = r.pick(&urls).clone();
                    let d = daemon(r, &keys);
                    net.borrow_mut().daemons.insert(u, d);
                }
                continue;
            }
            _ => {}
        }
        let poll = k < 6;
        text.push_str(if poll { "poll; " } else { "query; " });
        sh.case(|| format!("berkeley backend, {text}faults {:?}", net.borrow().left));
        let before = net.borrow().seen.clone();
        let mut left = net.borrow().left.clone();
        let request = QueryBlockRequest { height: sh.rng.below(1000) as usize, state_hash: text58(&mut sh.rng) };
        let result = RefCell::new(None);
        let mut exec = Exec::default();
        exec.add("operation", async {
            let o = match poll {
                true => backend.poll_latest_once().await,
                false => backend.query_block(&request).await,
            };
            *result.borrow_mut() = Some(o.map_err(|e| e.to_string()))
        });
        match mon::guarded(|| exec.run(&mut sh.rng, &|| false)) {
            Ok(End::Done) => {}
            Ok(e) => sh.violation(&format!("the backend does not get on: {e:?}")),
            Err(e) => sh.violation(&format!("the backend panicked: {e}")),
        }
        drop(exec);
        let got = result.into_inner().unwrap();
        let mut items = vec![];
        while let Some(Ok(j)) = to.as_mut().map(|rx| rx.try_recv()) {
            items.push(j)
        }
        let n = net.borrow();
        let log = || format!("the network saw {:?}", n.log);
        if let Some(s) = n.strange.first() {
            sh.violation(&format!("something else was asked of the network: {s}"))
        }
        let asked: Vec<&String> = if listens { list.iter().collect() } else { vec![] };
        let mut good = vec![];
        for (u, m) in &n.seen {
            let m = m - before.get(u).unwrap_or(&0);
            if m > 0 && !asked.contains(&u) {
                sh.violation(&format!("{m} requests to {u}, which is not on the list of endpoints; {}", log()))
            }
        }
        let mut all = true;
        for u in &asked {
            let (ok, m) = World::next(&mut left, u);
            let seen = n.seen.get(*u).unwrap_or(&0) - before.get(*u).unwrap_or(&0);
            all &= ok;
            if seen != m && (seen > 0 || got.is_ok()) {
                sh.violation(&format!("{seen} requests to {u} instead of {m}; {}", log()))
            }
            if ok && seen > 0 {
                good.push(*u)
            }
        }
        let well = all && (open || asked.is_empty());
        if well != got.is_ok() {
            sh.violation(&format!("the operation gave {got:?}; {}", log()))
        }
        let mut rest = good.clone();
        for j in &items {
            let Some(i) = rest.iter().position(|u| fits(j, &n.daemons[*u], &tracked).is_ok()) else {
                let why: Vec<_> = rest.iter().map(|u| format!("{u}: {}", fits(j, &n.daemons[*u], &tracked).unwrap_err())).collect();
                sh.violation(&format!("what was delivered is not what any of the endpoints answered ({why:?}), or that came before: {j}; {}", log()))
            };
            rest.remove(i);
        }
        if open && !rest.is_empty() {
            sh.violation(&format!("the answer of {rest:?} was not delivered; {}", log()))
        }
        sh.count_n("chains delivered", items.len() as u64);
        sh.count_n("chains delivered with accounts", if tracked.is_empty() { 0 } else { items.len() as u64 });
        sh.count(if well { "operations that succeed" } else { "operations that fail" });
        if !listens {
            sh.count("operations without a responder")
        }
    }
    hook(None);
    sh.count_n("faults", net.borrow().faults);
    sh.observed(fnv(format!("{text}{:?}", net.borrow().log).as_bytes()), true);
}
/// All of it: a poll ends up in the real frontier.
fn berkeley_processor(sh: &mut Shard, node: &Rc<RefCell<Node>>) {
    let mut w = World::new(Rng::new(sh.rng.next()));
    let r = &mut sh.rng;
    let keys: Vec<Proof> = (0..r.below(5)).map(|_| proof(r)).collect();
    let urls = endpoints(r);
    let url = r.pick(&urls).clone();
    let mut d = daemon(r, &keys);
    let tracked: Vec<String> = some(r, &d.proofs.keys().cloned().collect::<Vec<_>>());
    let faults = some_faults(r, false);
    w.left.insert(url.clone(), faults);
    d.chain.truncate(1 + r.below(2) as usize);
    w.daemons.insert(url.clone(), d.clone());
    sh.case(|| format!("berkeley backend in a processor, endpoint {url}, {} accounts, {faults} faults", tracked.len()));
    let net: Net = Rc::new(RefCell::new(w));
    plug(node, &net, &mut sh.rng);
    let mut backend = NonConsensusGraphQLBerkeleyBackend::new();
    backend.set_tracking_accounts(tracked.clone().into_iter());
    backend.set_api_list([url.clone()].into_iter());
    let p = NetworkMessageProcessor::<_, _, _, _>::new(NaiveTransitionFrontier::<ProtocolState, MerkleProofBerkeleyNet>::new(), backend);
    let result = RefCell::new(None);
    let mut exec = Exec::default();
    exec.add("run", p.run());
    exec.add("poll", async {
        let o = p.nonconsensus_ops().await.poll_latest_once().await;
        *result.borrow_mut() = Some(o.map_err(|e| e.to_string()))
    });
    match mon::guarded(|| exec.run(&mut sh.rng, &|| false)) {
        Ok(End::Stuck(s)) if s == ["run"] => {}
        Ok(e) => sh.violation(&format!("the processor does not get on: {e:?}")),
        Err(e) => sh.violation(&format!("the processor panicked: {e}")),
    }
    drop(exec);
    hook(None);
    let got = result.into_inner().unwrap();
    let ok = faults != ALWAYS;
    if got.is_ok() != ok {
        sh.violation(&format!("the poll gave {got:?}; the network saw {:?}", net.borrow().log))
    }
    let mut want: Vec<(Vec<ProtocolState>, Vec<Proof>)> = vec![];
    want.push(match ok {
        true => (vec![d.state.clone()], unique(tracked).iter().map(|t| d.proofs[t].clone()).collect()),
        false => (vec![], vec![]),
    });
    let f = crate::exec::now(p.transition_frontier());
    if f.get_best_chain().0 != want[0].0 || !all_same(f.get_sparse_merkle_ledger(), &want[0].1) {
        sh.violation(&format!("the frontier holds {} blocks and {} proofs, not the {} and {} of the node; the network saw {:?}", f.get_best_chain().0.len(), f.get_sparse_merkle_ledger().len(), want[0].0.len(), want[0].1.len(), net.borrow().log))
    }
    sh.count(if ok { "frontiers fed from a node" } else { "frontiers not fed" });
    sh.observed(fnv(format!("{:?}", net.borrow().log).as_bytes()), ok);
}
pub fn run() {
    let run = mon::start(
        "C31",
        "exploration",
        "each history of operations with its network counts once",
        &[
            "the backends and the processor are compiled from their real source for this machine, with stand-ins for the bindings to JavaScript that call the real JavaScript in Node",
            "the network is the monitor's: a block store, a list of blocks, and nodes that answer GraphQL queries",
        ],
    );
    let base: J = serde_json::from_str(include_str!("block.json")).unwrap();
    run.par(mon::threads(), move |sh| {
        let node = Rc::new(RefCell::new(Node::start()));
        let n = if sh.thorough() { 6_000 } else { 150 };
        for _ in 0..n {
            sh.beat();
            v1(sh, &node, &base);
            v1_processor(sh, &node, &base);
            berkeley(sh, &node);
            berkeley(sh, &node);
            berkeley_processor(sh, &node);
        }
    });
    for k in ["operations that succeed", "operations that fail", "blocks delivered", "blocks a frontier polled", "chains delivered", "chains delivered with accounts", "frontiers fed from a node", "faults"] {
        run.require(k, 200);
    }
    for k in ["blocks a frontier asked for", "operations without a responder", "frontiers not fed"] {
        run.require(k, 20);
    }
    run.finish()
}
