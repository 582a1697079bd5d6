//! The first wallet: its connection to a proxy, which tells how a node is, and what its page sees of the chain. The whole
//! crate is compiled from its real source; the proxy, its streams and the page are the monitor's.
use crate::c31::{block_key, stored, v1_world, World, ALWAYS};
use crate::exec::{pause, End, Exec};
use crate::node::*;
use crate::processor::js::graphql_api_v1::*;
use crate::processor::*;
use futures::io::{AsyncRead, AsyncWrite};
use js_sys::Uint8Array;
use libp2p::swarm::SwarmEvent;
use libp2p::{world, PeerId, World as Outside};
use mina_rs_base::types::*;
use mina_serialization_types::json::ProtocolStateJson;
use mon::{fnv, Rng, Shard};
use mvp_wallet::js_exports as wallet;
use serde_json::{json, Value as J};
use std::cell::RefCell;
use std::io;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll};
use wasm_bindgen::{hook, Call, Hook, JsValue};

#[derive(Clone, Debug, PartialEq)]
pub struct Status {
    pub connected: bool,
    pub texts: [String; 4],
    pub uptime: i64,
}
pub const NAMES: [&str; 4] = ["peer_id", "sync_status", "protocol_state_hash", "git_commit"];
pub fn text_of(r: &mut Rng) -> String {
    match r.below(6) {
        0 => String::new(),
        1 => r.pick(&["Synced", "Catchup", "é😀\"\\\n", "null", " ", "\u{0}"]).to_string(),
        2 => (0..r.below(400)).map(|_| (b' ' + r.below(95) as u8) as char).collect(),
        3 if r.chance(1, 8) => "x".repeat(r.range(8_000, 20_000)),
        _ => (0..20).map(|_| (b'0' + r.below(43) as u8) as char).collect(),
    }
}
fn status(r: &mut Rng) -> Status {
    let any = r.next() as i64;
    let uptime = *r.pick(&[0, 1, -1, 127, 128, 300, i32::MAX as i64 + 1, i64::MAX, i64::MIN, any, any >> 20]);
    Status { connected: r.bool(), texts: [text_of(r), text_of(r), text_of(r), text_of(r)], uptime }
}
fn as_json(s: &Status) -> Vec<(String, J)> {
    let mut m: Vec<(String, J)> = NAMES.iter().zip(&s.texts).map(|(n, t)| (n.to_string(), json!(t))).collect();
    m.push(("connected".into(), json!(s.connected)));
    m.push(("uptime_minutes".into(), json!(s.uptime)));
    m
}
fn object(m: &[(String, J)], r: &mut Rng) -> String {
    let sep = *r.pick(&["", " ", "\n  "]);
    format!("{{{}}}", m.iter().map(|(k, v)| format!("{sep}{}:{sep}{v}", json!(k))).collect::<Vec<_>>().join(","))
}
fn base64(b: &[u8]) -> String {
    const C: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    b.chunks(3)
        .map(|c| {
            let n = (0..3).fold(0u32, |n, i| n << 8 | *c.get(i).unwrap_or(&0) as u32);
            (0..4).map(|i| if i > c.len() { '=' } else { C[(n >> (18 - 6 * i) & 63) as usize] as char }).collect::<String>()
        })
        .collect()
}
/// A line of the proxy's answer, and the status in it if there is one.
fn line(r: &mut Rng) -> (String, Option<Status>) {
    let s = status(r);
    let mut m = as_json(&s);
    for i in (1..m.len()).rev() {
        m.swap(i, r.below(i as u64 + 1) as usize)
    }
    match r.below(12) {
        0 => (String::new(), None),
        1 => (r.pick(&["hello", "{}", "multistream 1.0", "####", "=", "A", "ÄÖ", "AAAA*AAA"]).to_string(), None),
        2 => (object(&m, r).replace('\n', " "), None),
        3 => (base64(r.pick(&["", "{}", "null", "[]", "true", "{\"connected\":true}", "x"]).as_bytes()), None),
        4 => {
            let i = r.below(m.len() as u64) as usize;
            match r.below(3) {
                0 => drop(m.remove(i)),
                1 => m[i].1 = J::Null,
                _ => m[i].1 = json!(["1", {"a": 1}]),
            }
            (base64(object(&m, r).as_bytes()), None)
        }
        5 => {
            let t = object(&m, r);
            (base64(&t.as_bytes()[..t.len() - 1]), None)
        }
        _ => {
            if r.chance(1, 4) {
                m.insert(r.below(m.len() as u64) as usize, ("version".into(), json!({"major": 1})))
            }
            let pad = |r: &mut Rng| r.pick(&["", "", "", " ", "\t", "  "]).to_string();
            (format!("{}{}{}", pad(r), base64(object(&m, r).as_bytes()), pad(r)), Some(s))
        }
    }
}

#[derive(Default)]
struct Told {
    /// how many statuses are complete in what was read
    complete: usize,
    emitted: Vec<(String, Vec<u8>)>,
    late: Option<String>,
    /// the page's emitter, and how often it was replaced
    current: Option<JsValue>,
    replaced: u64,
    written: Vec<u8>,
    closed: bool,
    dialled: Vec<String>,
    opened: Vec<(PeerId, Vec<u8>)>,
}
type Shared = Arc<Mutex<Told>>;
/// A stream that gives its chunks, sometimes after a while, and then ends.
struct Script {
    told: Shared,
    chunks: std::collections::VecDeque<Vec<u8>>,
    /// how many bytes were read, and with how many of them each status is complete
    done: usize,
    at: Vec<usize>,
    base: usize,
    wait: bool,
    r: Rng,
    fails: bool,
    after: u32,
}
impl AsyncRead for Script {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, to: &mut [u8]) -> Poll<io::Result<usize>> {
        {
            let mut t = self.told.lock().unwrap();
            if t.emitted.len() != t.complete && t.late.is_none() {
                t.late = Some(format!("{} statuses are complete when more is read, but {} were told", t.complete, t.emitted.len()))
            }
        }
        if self.wait && self.r.chance(2, 3) {
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        self.wait = self.r.chance(1, 3);
        match self.chunks.pop_front() {
            None => {
                self.after += 1;
                let all = self.base + self.at.len();
                self.told.lock().unwrap().complete = all;
                if self.after > 1_000 {
                    panic!("the wallet goes on reading a stream that has ended, and nothing else of the page runs any more")
                }
                Poll::Ready(if self.fails { Err(io::ErrorKind::ConnectionReset.into()) } else { Ok(0) })
            }
            Some(mut b) => {
                let k = b.len().min(to.len());
                to[..k].copy_from_slice(&b[..k]);
                if k < b.len() {
                    self.chunks.push_front(b.split_off(k))
                }
                self.done += k;
                let n = self.base + self.at.iter().filter(|a| **a <= self.done).count();
                self.told.lock().unwrap().complete = n;
                Poll::Ready(Ok(k))
            }
        }
    }
}
impl AsyncWrite for Script {
    fn poll_write(self: Pin<&mut Self>, _: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> {
        self.told.lock().unwrap().written.extend(b);
        Poll::Ready(Ok(b.len()))
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_close(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        self.told.lock().unwrap().closed = true;
        Poll::Ready(Ok(()))
    }
}
/// What a message of the event says, by the numbers of its fields.
fn decode(mut b: &[u8]) -> Option<Status> {
    fn int(b: &mut &[u8]) -> Option<u64> {
        let mut n = 0u64;
        for i in 0..10 {
            let (x, rest) = b.split_first()?;
            *b = rest;
            n |= ((x & 127) as u64) << (7 * i);
            if *x < 128 {
                return Some(n);
            }
        }
        None
    }
    let mut s = Status { connected: false, texts: Default::default(), uptime: 0 };
    while !b.is_empty() {
        match int(&mut b)? {
            8 => s.connected = int(&mut b)? == 1,
            48 => s.uptime = int(&mut b)? as i64,
            t @ (18 | 26 | 34 | 42) => {
                let n = int(&mut b)? as usize;
                s.texts[(t as usize - 18) / 8] = String::from_utf8(b.get(..n)?.to_vec()).ok()?;
                b = &b[n..]
            }
            _ => return None,
        }
    }
    Some(s)
}
fn request_of(address: &str) -> Vec<u8> {
    let mut b = vec![];
    if !address.is_empty() {
        b.push(10);
        let n = address.len();
        if n > 127 {
            b.extend([n as u8 | 128, (n >> 7) as u8]);
        } else {
            b.push(n as u8);
        }
        b.extend(address.as_bytes())
    }
    b
}
fn response(mut b: &[u8]) -> Option<(bool, String)> {
    let (mut good, mut message) = (false, String::new());
    while let [tag, n, rest @ ..] = b {
        b = rest;
        match tag {
            8 => good = *n == 1,
            18 => {
                let k = if *n > 127 {
                    let m = *b.first()? as usize;
                    b = &b[1..];
                    (*n as usize & 127) | m << 7
                } else {
                    *n as usize
                };
                message = String::from_utf8(b.get(..k)?.to_vec()).ok()?;
                b = &b[k..]
            }
            _ => return None,
        }
    }
    b.is_empty().then_some((good, message))
}
/// From here on the imported functions end up here.
fn page(told: &Shared) {
    let told = told.clone();
    let run = move |c: Call| {
        if (c.module, c.name) == ("method", "emit") {
            let bytes = match &c.args[2] {
                JsValue::List(l) => l.iter().map(|v| v.as_f64().unwrap() as u8).collect(),
                v => format!("{v:?}").into_bytes(),
            };
            let mut t = told.lock().unwrap();
            if t.current.as_ref() != Some(&c.args[0]) && t.late.is_none() {
                t.late = Some(format!("{:?} is told something, but {:?} is the page's emitter", c.args[0], t.current))
            }
            t.emitted.push((c.args[1].as_string().unwrap(), bytes))
        }
        Ok(JsValue::Undefined)
    };
    hook(Some(Hook { pauses: Box::new(|| 0), run: Box::new(run) }))
}
fn connection(sh: &mut Shard, emitter: &mut Option<JsValue>) {
    let told: Shared = Arc::new(Mutex::new(Told { current: emitter.clone(), ..Told::default() }));
    page(&told);
    let r = &mut sh.rng;
    let good = ["/ip4/127.0.0.1/tcp/4001/ws", "/dns4/proxy.example/tcp/443/wss/p2p/12D3KooWx", "/ip6/::1/tcp/8302", "/dns/a/tcp/80/ws"];
    let bad = ["", "localhost:80", "/ip4/300.1.1.1/tcp/1", "http://a/", "/", "/ip4", "/tcp/99999", "/ip4/1.2.3.4/ws/x"];
    let address = if r.chance(1, 6) { *r.pick(&bad) } else { *r.pick(&good) };
    let mut bytes = request_of(address);
    let junk = r.chance(1, 12);
    if junk {
        match r.below(3) {
            0 => bytes.push(10),
            1 => bytes = vec![10, 2, 0xff, 0xfe],
            _ => bytes = vec![10, 200, 1, 47],
        }
    }
    let dial = !r.chance(1, 8);
    let mut peers: Vec<PeerId> = vec![];
    for _ in 0..if r.chance(1, 8) { 0 } else { 1 + r.below(3) } {
        // the same one comes back, or is connected to twice
        peers.push(if !peers.is_empty() && r.chance(1, 3) { *r.pick(&peers) } else { PeerId(r.next()) })
    }
    let mut events = vec![];
    for p in &peers {
        if r.chance(1, 3) {
            events.push(SwarmEvent::Dialing(*p))
        }
        events.push(SwarmEvent::ConnectionEstablished { peer_id: *p, num_established: 1 });
        if r.chance(1, 4) {
            events.push(SwarmEvent::ConnectionClosed { peer_id: *p, num_established: 0 })
        }
    }
    if peers.is_empty() {
        events.push(SwarmEvent::OutgoingConnectionError { peer_id: None, error: libp2p::swarm::DialError })
    }
    // what each stream gives
    let mut want = vec![];
    let mut streams = std::collections::VecDeque::new();
    let mut texts = vec![];
    for _ in &peers {
        if r.chance(1, 12) {
            streams.push_back(None);
            continue;
        }
        let base = want.len();
        let lines: Vec<_> = (0..r.below(9)).map(|_| line(r)).collect();
        let fails = r.chance(1, 5);
        let mut all = vec![];
        // where each status is complete
        let mut at = vec![];
        for (i, (t, s)) in lines.iter().enumerate() {
            all.extend(t.as_bytes());
            let last = i + 1 == lines.len() && r.chance(1, 3);
            let end = all.len() + 1;
            if !last {
                all.extend(r.pick(&["\n", "\n", "\r\n", "\n\n"]).as_bytes());
            }
            if let Some(s) = s {
                if last && fails {
                    // cut short
                } else {
                    // without an end, it is complete when the stream ends
                    at.push(if last { usize::MAX } else { end + (all[end - 1] == b'\r') as usize });
                    want.push(s.clone())
                }
            }
        }
        let mut chunks = std::collections::VecDeque::new();
        let mut done = 0;
        while done < all.len() {
            let n = match r.below(4) {
                0 => 1,
                1 => r.range(1, 40),
                2 => r.range(1, 3_000),
                _ => all.len(),
            }
            .min(all.len() - done);
            let end = done + n;
            chunks.push_back(all[done..end].to_vec());
            done = end
        }
        texts.push(lines.iter().map(|l| l.0.chars().take(60).collect::<String>()).collect::<Vec<_>>());
        streams.push_back(Some((chunks, base, fails, r.next(), at)))
    }
    let n_streams = streams.iter().flatten().count();
    let case = format!("request {}, dialled {dial}, events {events:?}, lines {texts:?}", mon::hex(&bytes));
    sh.case(|| case.clone());
    let (t1, t2) = (told.clone(), told.clone());
    let whole = Rc::new(RefCell::new(streams));
    let emitting = emitter.is_some();
    world(Some(Outside {
        dial: Box::new(move |a| {
            t1.lock().unwrap().dialled.push(a.to_string());
            dial.then(|| events.clone())
        }),
        open: Box::new(move |p, protocol| {
            let mut t = t2.lock().unwrap();
            t.opened.push((p, protocol.to_vec()));
            let (chunks, base, fails, seed, mut at) = whole.borrow_mut().pop_front()??;
            if !emitting {
                at.clear()
            }
            t.complete = if emitting { base } else { 0 };
            Some(Box::new(Script { told: t2.clone(), chunks, done: 0, at, base: t.complete, wait: false, r: Rng::new(seed), fails, after: 0 }) as Box<dyn libp2p::Stream>)
        }),
    }));
    mvp_net::p2p::BUILT.with(|b| b.borrow_mut().clear());
    let got = RefCell::new(None);
    let mut exec = Exec::default();
    let request = Uint8Array::from(&bytes[..]);
    exec.add("connect", async {
        let g = wallet::connect(request).await.map(|b| b.to_vec()).map_err(|e| e.text().to_string());
        *got.borrow_mut() = Some(g)
    });
    if emitting && sh.rng.chance(1, 3) {
        let mut r = Rng::new(sh.rng.next());
        let told = told.clone();
        exec.add("page", async move {
            for _ in 0..r.below(4) {
                pause(r.below(12)).await;
                let e = JsValue::Other(format!("emitter {}", r.next()));
                let mut t = told.lock().unwrap();
                (t.current, t.replaced) = (Some(e.clone()), t.replaced + 1);
                drop(t);
                wallet::set_event_emitter(e.into())
            }
        });
    }
    let end = match mon::guarded(|| exec.run(&mut sh.rng, &|| false)) {
        Ok(e) => e,
        Err(e) => sh.violation(&format!("the connection brings the wallet down: {e}")),
    };
    drop(exec);
    world(None);
    let t = told.lock().unwrap();
    *emitter = t.current.clone();
    sh.count_n("emitters replaced", t.replaced);
    let got = got.into_inner();
    let success = |g: &Result<Vec<u8>, String>| match g {
        Ok(b) => match response(b) {
            Some((good, message)) => good && message.is_empty(),
            None => mon::violation(&format!("the answer to the page is no response: {}", mon::hex(b))),
        },
        Err(_) => false,
    };
    if junk || bad.contains(&address) {
        sh.count("requests refused");
        match &got {
            Some(g) if !success(g) && t.dialled.is_empty() && t.emitted.is_empty() => {}
            g => sh.violation(&format!("{address:?} is dialled as {:?} and gave {g:?}", t.dialled)),
        }
        sh.observed(fnv(&bytes), false);
        return;
    }
    if t.dialled != [address] {
        sh.violation(&format!("{:?} are dialled", t.dialled))
    }
    let built = mvp_net::p2p::BUILT.with(|b| b.borrow().clone());
    if !matches!(built[..], [(Some("mainnet"), Some(d))] if d.as_secs() > 0) {
        sh.violation(&format!("the transport is built as {built:?}"))
    }
    if !dial {
        sh.count("dials that fail");
        match &got {
            Some(g) if !success(g) => {}
            g => sh.violation(&format!("nothing could be dialled, but the page got {g:?}")),
        }
        return;
    }
    match (&end, &got) {
        (End::Stuck(_), None) => {}
        (End::Done, Some(g)) if success(g) || peers.is_empty() => {}
        e => sh.violation(&format!("the connection ends as {e:?}")),
    }
    let opened: Vec<(PeerId, Vec<u8>)> = peers.iter().map(|p| (*p, b"/mina-proxy/node-status".to_vec())).collect();
    if t.opened != opened {
        sh.violation(&format!("streams {:?} are opened instead of {opened:?}", t.opened))
    }
    if let Some(l) = &t.late {
        sh.violation(l)
    }
    if !t.written.is_empty() || (n_streams > 0 && !t.closed) {
        sh.violation(&format!("the request is {:?} and its end {}", t.written, if t.closed { "told" } else { "not told" }))
    }
    if emitter.is_none() {
        if !t.emitted.is_empty() {
            sh.violation("an event without an emitter")
        }
        sh.count("connections without an emitter");
        return;
    }
    let seen: Vec<_> = t.emitted.iter().map(|(n, b)| (n.clone(), decode(b))).collect();
    let want: Vec<_> = want.into_iter().map(|s| ("update".to_string(), Some(s))).collect();
    if seen != want {
        sh.violation(&format!("the page is told {seen:?} instead of {want:?}"))
    }
    sh.count("connections");
    sh.count_n("statuses told", seen.len() as u64);
    sh.count_n("streams that ended", n_streams as u64);
    sh.sample(|| json!({"case": case.chars().take(300).collect::<String>(), "told": seen.len()}));
    sh.observed(fnv(format!("{case}{seen:?}").as_bytes()), !seen.is_empty());
}

type Twin = NetworkMessageProcessor<<NonConsensusGraphQLV1Backend as NonConsensusNetworkingOps>::Block, <NaiveTransitionFrontier<ProtocolStateLegacy, MerkleProofMainnet> as TransitionFrontier>::Block, NaiveTransitionFrontier<ProtocolStateLegacy, MerkleProofMainnet>, NonConsensusGraphQLV1Backend>;
/// The exported functions steer the wallet's one processor as its own interface steers another that sees the same.
fn frontier(sh: &mut Shard, node: &Rc<RefCell<Node>>, twin: &Twin, base: &J) {
    // commands with a signature of nobody keep a block out
    let mut base = base.clone();
    if sh.rng.chance(3, 4) {
        base["staged_ledger_diff"]["diff"][0]["commands"] = json!([])
    }
    let (w, pool) = v1_world(sh, &base, false);
    let left = w.left.clone();
    let blocks: Vec<(usize, String, Option<String>)> = pool
        .iter()
        .map(|b| {
            let here = left.get(&block_key(b.height, &b.hash)) != Some(&ALWAYS);
            let s = stored(&w, b).filter(|_| here).map(|t| {
                let j: J = serde_json::from_str(&t).unwrap();
                j["protocol_state"]["previous_state_hash"].as_str().unwrap().to_string()
            });
            (b.height, b.hash.clone(), s)
        })
        .collect();
    let net: Rc<RefCell<World>> = Rc::new(RefCell::new(w));
    {
        let (node, net, mut r) = (node.clone(), net.clone(), Rng::new(sh.rng.next()));
        hook(Some(Hook {
            pauses: Box::new(move || if r.bool() { 0 } else { r.below(4) }),
            run: Box::new(move |c: Call| match c.module {
                m if m.starts_with("inline:") || m == "console" => Ok(JsValue::Undefined),
                m => {
                    let path = format!("{}/network{m}", mon::repo_dir());
                    node.borrow_mut().call(&path, c.name, &c.args, &mut |q| net.borrow_mut().reply(q))
                }
            }),
        }))
    }
    let mut r2 = Rng::new(sh.rng.next());
    let counts = RefCell::new(vec![]);
    sh.case(|| format!("a page, blocks {blocks:?}, faults {left:?}"));
    let mut exec = Exec::default();
    exec.add("run", wallet::run_processor());
    exec.add("twin", twin.run());
    exec.add("page", async {
        let r = &mut r2;
        for _ in 0..6 {
            if r.bool() {
                let (height, hash, want) = r.pick(&blocks).clone();
                net.borrow_mut().left = left.clone();
                let got = wallet::fetch_block_previous_state_hash(height, hash.clone()).await.map_err(|e| e.text().to_string());
                if got.clone().ok() != want {
                    mon::violation(&format!("the block before {hash} at {height} is {want:?}, but the page gets {got:?}"))
                }
                counts.borrow_mut().push(if want.is_some() { "blocks before" } else { "blocks before that cannot be had" });
                continue;
            }
            let (mut results, mut seen) = (vec![], vec![]);
            for mine in [false, true] {
                {
                    let mut n = net.borrow_mut();
                    n.left = left.clone();
                    n.seen.clear();
                }
                results.push(match mine {
                    true => wallet::poll_latest_blocks_once().await.is_ok(),
                    false => twin.nonconsensus_ops().await.poll_latest_once().await.is_ok(),
                });
                pause(80).await;
                seen.push(net.borrow().seen.clone())
            }
            if results[0] != results[1] || seen[0] != seen[1] {
                mon::violation(&format!("a poll of the page gives {} with the requests {:?}, one of a processor {} with {:?}", results[1], seen[1], results[0], seen[0]))
            }
            counts.borrow_mut().push(if results[0] { "polls of the wallet" } else { "polls of the wallet that fail" });
            let (hash, state) = (wallet::get_best_chain_state_hash().await, wallet::get_best_chain_state_json().await);
            let t = twin.transition_frontier().await;
            let chain = t.get_best_chain();
            let want = (
                chain.state_hash().map(|h| h.to_string()),
                chain.top().map(|s| {
                    let j: ProtocolStateJson = s.clone().into();
                    serde_json::to_value(&j).unwrap()
                }),
            );
            let state = state.map(|t| serde_json::from_str::<J>(&t).unwrap_or_else(|e| mon::violation(&format!("the state of the page is no JSON, {e}: {t}"))));
            if (hash.clone(), state) != want {
                mon::violation(&format!("the page sees the best block {hash:?}, but the frontier has {:?}, or the states differ", want.0))
            }
            counts.borrow_mut().push(if hash.is_some() { "views of a chain" } else { "views of no chain" })
        }
    });
    match mon::guarded(|| exec.run(&mut sh.rng, &|| false)) {
        Ok(End::Stuck(s)) if s == ["run", "twin"] => {}
        Ok(e) => sh.violation(&format!("the wallet does not get on: {e:?}")),
        Err(e) => sh.violation(&format!("the wallet panicked: {e}")),
    }
    drop(exec);
    for c in counts.into_inner() {
        sh.count(c)
    }
    let seen = net.borrow().log.clone();
    sh.observed(fnv(format!("{seen:?}").as_bytes()), true);
}
/// A block whose hash is no number of the field, from whoever the wallet asks.
fn hash_beyond(sh: &mut Shard, base: &J) {
    let mut j = base.clone();
    j["staged_ledger_diff"]["diff"][0]["commands"] = json!([]);
    let top = 0x40 + sh.rng.below(0xc0) as u8;
    j["protocol_state"]["previous_state_hash"] = crate::c17::b58(16, &[&[1u8][..], &[0xff; 31], &[top]].concat()).into();
    sh.case(|| format!("a block after {}", j["protocol_state"]["previous_state_hash"]));
    let block: mina_serialization_types::json::ExternalTransitionJson = serde_json::from_value(j).unwrap();
    let seen = mon::guarded(|| {
        let Ok(b) = ExternalTransition::try_from(block) else { return false };
        let mut f = NaiveTransitionFrontier::<ProtocolStateLegacy, MerkleProofMainnet>::new();
        crate::exec::now(f.add_block(b)).is_ok() && f.get_best_chain().state_hash().is_some()
    });
    match seen {
        Err(e) if e.contains("into Fp") => sh.finding_or_violation("hash-not-below-modulus", "a block with a hash that is not below the modulus is taken in, and then brings the wallet down"),
        Err(e) => sh.violation(&format!("a block with a hash beyond the modulus: {e}")),
        Ok(_) => {}
    }
}
pub fn run() {
    let run = mon::start(
        "C33",
        "exploration",
        "each connection with the lines of its streams, and each history of polls and requests, counts once",
        &[
            "the wallet's whole crate is compiled from its real source for this machine, with stand-ins for the bindings to JavaScript, libp2p and the generated protocol buffers",
            "streams end, or fail; lines of the proxy are UTF-8",
        ],
    );
    let base: J = serde_json::from_str(include_str!("../../web-mon/src/block.json")).unwrap();
    // the wallet has one processor and one emitter, for the one thread of a page
    run.par(1, move |sh| {
        if wallet::init_logger().is_err() {
            mon::violation("the logger is not set")
        }
        let node = Rc::new(RefCell::new(Node::start()));
        let mut emitter = None;
        let twin = Twin::new(NaiveTransitionFrontier::new(), NonConsensusGraphQLV1Backend::new());
        for i in 0..if sh.thorough() { 60_000 } else { 3_000 } {
            sh.beat();
            if i >= 100 && (emitter.is_none() || sh.rng.chance(1, 20)) {
                page(&Default::default());
                let e = JsValue::Other(format!("emitter {i}"));
                wallet::set_event_emitter(e.clone().into());
                emitter = Some(e)
            }
            connection(sh, &mut emitter);
            if i % 20 == 0 {
                frontier(sh, &node, &twin, &base)
            }
            if i % 500 == 0 {
                hash_beyond(sh, &base)
            }
        }
    });
    for k in ["connections", "statuses told", "streams that ended", "requests refused", "dials that fail"] {
        run.require(k, 200);
    }
    for k in ["connections without an emitter", "emitters replaced", "polls of the wallet", "polls of the wallet that fail", "views of a chain", "blocks before", "blocks before that cannot be had"] {
        run.require(k, 20);
    }
    run.finish()
}
