//! The transport of the peer-to-peer network: built by the real builder over a stand-in of libp2p, it talks through
//! pipes in memory, in virtual time, to peers of the monitor, which work out the key of the private network themselves.
use crate::p2p::{TransportBuilder, TransportConfig, MAINNET_CONFIG};
use blake2::digest::{Update, VariableOutput};
use libp2p::{identity::Keypair, pnet::PreSharedKey, world, How, Multiaddr, PeerId, Socket, Transport, TransportError};
use mon::{fnv, guarded, Shard};
use std::cell::RefCell;
use std::rc::Rc;
use std::time::Duration;
use tokio::io::DuplexStream;

const MAINNET: &[u8] = b"/coda/0.0.1/5f704cc0c82e0ed70e873f0893d7e06f148524e3f0bdae2afb02e7819a0c24d1";
const MAINNET_KEY: &str = "2d56a5c43c84e52771a1ec2baaabc28609510b84312eb4ed0c725a8f25afb688";
const MPLEX: &[u8] = b"/coda/mplex/1.0.0";
const NAMES: [&[u8]; 7] = [MPLEX, b"/mplex/6.7.0", b"/coda/mplex/1.0.1", b"/coda/mplex/1.0.0/", b"/coda/mplex", b"", b"/yamux/1.0.0"];

#[derive(Clone, PartialEq)]
struct Cfg {
    rendezvous: Vec<u8>,
    mplex: &'static [u8],
}
fn key(rendezvous: &[u8]) -> [u8; 32] {
    let mut h = blake2::Blake2bVar::new(32).unwrap();
    h.update(rendezvous);
    h.finalize_boxed()[..].try_into().unwrap()
}
fn text(b: &[u8]) -> String {
    String::from_utf8_lossy(b).chars().take(90).collect()
}
impl Cfg {
    fn show(&self) -> String {
        format!("{:?} ({} bytes), {:?}", text(&self.rendezvous), self.rendezvous.len(), text(self.mplex))
    }
    fn any(sh: &mut Shard) -> Cfg {
        let rendezvous = match sh.rng.below(6) {
            0 => MAINNET.to_vec(),
            1 => vec![],
            2 => b"/coda/0.0.1/".iter().copied().chain((0..64).map(|_| *sh.rng.pick(b"0123456789abcdef"))).collect(),
            3 => {
                let n = *sh.rng.pick(&[127usize, 128, 129, 255, 256, 257, 31, 32, 33, 64]);
                sh.rng.bytes(n)
            }
            _ => {
                let n = sh.rng.range(0, 300);
                sh.rng.bytes(n)
            }
        };
        Cfg { rendezvous, mplex: if sh.rng.bool() { MPLEX } else { *sh.rng.pick(&NAMES) } }
    }
    /// The same, or with a small or great difference.
    fn near(&self, sh: &mut Shard) -> Cfg {
        let mut c = self.clone();
        let r = &mut c.rendezvous;
        match sh.rng.below(10) {
            0 if !r.is_empty() => {
                let i = sh.rng.below(r.len() as u64) as usize;
                r[i] ^= 1 << sh.rng.below(8)
            }
            1 => drop(r.pop()),
            2 => r.push(*sh.rng.pick(&[0u8, b' ', b'\n', b'/', 1])),
            3 => c = Cfg { mplex: *sh.rng.pick(&NAMES), ..c },
            4 => c = Cfg::any(sh),
            5 if sh.rng.bool() => c.rendezvous = MAINNET.to_vec(),
            _ => {}
        }
        c
    }
}
struct Node {
    builder: TransportBuilder,
    known: Option<PeerId>,
    cfg: Cfg,
    timeout: Duration,
    story: String,
}
/// Builds a builder by some of the ways to do it, and says what it should be.
fn node(sh: &mut Shard) -> Node {
    let plain = Cfg { rendezvous: vec![], mplex: MPLEX };
    let kp = Keypair::generate_ed25519();
    let id = PeerId::from(kp.public());
    let (builder, known, cfg, mut story) = match sh.rng.below(4) {
        0 => (TransportBuilder::new(), None, plain, "new".to_string()),
        1 => (TransportBuilder::default(), None, plain, "default".to_string()),
        2 => (TransportBuilder::new_with_key(kp), Some(id), plain, "new_with_key".to_string()),
        _ => {
            let c = Cfg::any(sh);
            (TransportBuilder::new_with_key_and_config(kp, &real(sh, &c)), Some(id), c.clone(), format!("new_with_key_and_config({})", c.show()))
        }
    };
    let mut n = Node { builder, known, cfg, timeout: Duration::from_secs(60), story: String::new() };
    for _ in 0..sh.rng.below(5) {
        match sh.rng.below(6) {
            0 | 1 => {
                n.cfg = Cfg::any(sh);
                story += &format!(" with_config({})", n.cfg.show());
                n.builder = n.builder.with_config(&real(sh, &n.cfg))
            }
            2 => {
                n.cfg = Cfg { rendezvous: MAINNET.to_vec(), mplex: MPLEX };
                story += " with_mainnet_config";
                n.builder = n.builder.with_mainnet_config()
            }
            3 | 4 => {
                n.timeout = Duration::from_millis(*sh.rng.pick(&[1u64, 20, 999, 1000, 5_000, 61_000, 3_600_000]));
                story += &format!(" with_timeout({:?})", n.timeout);
                n.builder = n.builder.with_timeout(n.timeout)
            }
            _ => {
                // what happens to a copy does not matter here
                let c = Cfg::any(sh);
                let other = n.builder.clone().with_timeout(Duration::from_secs(1)).with_config(&real(sh, &c));
                story += " copied";
                if sh.rng.bool() {
                    n.builder = n.builder.clone()
                }
                drop(other)
            }
        }
    }
    n.story = story;
    n
}
/// A configuration of the program, checked by its key.
fn real<'a>(sh: &mut Shard, c: &'a Cfg) -> TransportConfig<'a> {
    let t = if c.rendezvous == MAINNET && c.mplex == MPLEX && sh.rng.bool() {
        MAINNET_CONFIG.clone()
    } else if c.rendezvous.is_empty() && c.mplex == MPLEX && sh.rng.bool() {
        TransportConfig::default()
    } else if c.mplex == MPLEX && sh.rng.bool() {
        TransportConfig { rendezvous_string: &c.rendezvous, ..Default::default() }
    } else {
        TransportConfig { rendezvous_string: &c.rendezvous, mplex_protocol_name: c.mplex }
    };
    if guarded(|| t.get_shared_key()) != Ok(PreSharedKey::new(key(&c.rendezvous))) {
        sh.violation(&format!("the key of the private network of {} is another one", c.show()))
    }
    sh.count("keys");
    t
}
#[derive(Clone, Debug, Default)]
struct Script {
    /// milliseconds before each step of the other side, `None` for ever
    waits: [Option<u64>; 3],
}
/// The other side of a connection; gives whom it found, and the connection.
async fn peer(io: DuplexStream, cfg: Cfg, me: Keypair, dialer: bool, ws: bool, s: Script) -> std::io::Result<(PeerId, Socket)> {
    let wait = |w: Option<u64>| async move {
        match w {
            Some(0) => {}
            Some(n) => tokio::time::sleep(Duration::from_millis(n)).await,
            None => std::future::pending().await,
        }
    };
    let mut c = Socket::new(io, ws, dialer);
    if ws && !dialer {
        if c.receive_raw(16).await? != b"GET / HTTP/1.1\r\n" {
            return Err(std::io::Error::new(std::io::ErrorKind::Other, "no websocket"));
        }
        c.send_raw(b"HTTP/1.1 101 Sw\n").await?;
    }
    wait(s.waits[0]).await;
    c.private(&key(&cfg.rendezvous)).await?;
    wait(s.waits[1]).await;
    let own = world::random();
    let k = c.secure(&own, &me.public().0, &me.sign(&own)).await?;
    wait(s.waits[2]).await;
    c.negotiate(cfg.mplex).await?;
    Ok((libp2p::identity::PublicKey(k).to_peer_id(), c))
}
type Dials = Rc<RefCell<Vec<(String, u16, DuplexStream)>>>;

fn case(sh: &mut Shard, dials: &Dials) {
    world::ENTROPY.with(|e| e.set(sh.rng.next()));
    world::NO_DNS.with(|d| d.set(false));
    dials.borrow_mut().clear();
    let mut n = match guarded(|| node(sh)) {
        Ok(n) => n,
        Err(p) => sh.violation(&format!("a builder panicked: {p}")),
    };
    let story = n.story.clone();
    sh.case(|| story.clone());
    if sh.rng.chance(1, 12) {
        world::NO_DNS.with(|d| d.set(true));
        match guarded(|| n.builder.clone().build().map(|_| ())) {
            Ok(Err(e)) if e.kind() == std::io::ErrorKind::NotFound => sh.count("no_resolver"),
            r => sh.violation(&format!("without a name resolver the transport was {r:?}")),
        }
        world::NO_DNS.with(|d| d.set(false));
    }
    let copy = n.builder.clone();
    let (t, id) = match guarded(|| n.builder.build()) {
        Ok(Ok(x)) => x,
        Ok(Err(e)) => sh.violation(&format!("building failed: {e}")),
        Err(p) => sh.violation(&format!("building panicked: {p}")),
    };
    if n.known.is_some_and(|k| k != id) {
        sh.violation(&format!("built for {id}, the key is that of {:?}", n.known))
    }
    if n.known.is_none() {
        let other = TransportBuilder::new().build().map(|x| x.1);
        if other.as_ref().map_or(true, |o| *o == id) {
            sh.violation("two builders without a key have one identity")
        }
    }
    n.known = Some(id);
    let me = Keypair::generate_ed25519();
    let my_id = PeerId::from(me.public());
    let mine = n.cfg.near(sh);
    let same = mine == n.cfg;
    let mut script = Script { waits: [Some(0); 3] };
    let ms = n.timeout.as_millis() as u64;
    let slow = sh.rng.below(4);
    if slow < 2 {
        for w in script.waits.iter_mut() {
            *w = if sh.rng.bool() { Some(0) } else { Some(sh.rng.below(ms) * if slow == 0 { 1 } else { 0 } / 3) }
        }
        if slow == 1 {
            let i = sh.rng.below(3) as usize;
            script.waits[i] = *sh.rng.pick(&[None, Some(ms + 10), Some(ms.saturating_sub(10)), Some(ms * 2 + 5)]);
        }
    }
    let takes = script.waits.iter().try_fold(0, |a, w| w.map(|w| a + w));
    let in_time = match takes {
        Some(t) if t + 5 < ms => Some(true),
        Some(t) if t <= ms + 5 && ms > 0 && t > 0 => None,
        Some(0) => Some(true),
        _ => Some(false),
    };
    let ws = sh.rng.chance(1, 3);
    let dial = sh.rng.below(4) > 0;
    let (host, port) = (format!("10.{}.{}.{}", sh.rng.below(256), sh.rng.below(256), sh.rng.below(256)), sh.rng.range(1, 65535) as u16);
    let named = sh.rng.bool();
    let fate = sh.rng.below(12);
    let name = if fate == 0 { "nobody.test" } else { "seed.test" };
    let h2 = host.clone();
    world::RESOLVE.with(|r| *r.borrow_mut() = Some(Box::new(move |n| (n == "seed.test").then(|| h2.clone()))));
    let d2 = dials.clone();
    world::DIAL.with(|d| {
        *d.borrow_mut() = Some(Box::new(move |h, p| {
            if fate == 1 {
                return Err(std::io::Error::new(std::io::ErrorKind::ConnectionRefused, "refused"));
            }
            let (a, b) = tokio::io::duplex(16384);
            d2.borrow_mut().push((h.to_string(), p, b));
            Ok(a)
        }))
    });
    let addr = format!("{}/tcp/{port}{}", if named { format!("/dns4/{name}") } else { format!("/ip4/{host}") }, if ws { "/ws" } else { "" });
    let tell = format!("{story}; {} a peer of {} with {script:?}", if dial { format!("dials {addr},") } else { format!("accepts ({}) from", if ws { "websocket" } else { "tcp" }) }, mine.show());
    sh.case(|| tell.clone());
    let rt = tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().unwrap();
    let out: Result<(), String> = rt.block_on(async {
        let t0 = tokio::time::Instant::now();
        let no = |e: TransportError| match e {
            TransportError::NotSupported => std::io::Error::new(std::io::ErrorKind::Other, "not supported"),
            TransportError::Other(e) => e,
        };
        let (opened, other) = if dial {
            let f = t.open(How::Dial(addr.parse().unwrap())).map_err(|_| format!("{addr} is not supported"))?;
            let mut d = dials.borrow_mut();
            if (named && fate == 0) || fate == 1 {
                drop(d);
                return match f.await {
                    Err(_) => {
                        sh.count("unreachable");
                        Ok(())
                    }
                    Ok(_) => Err("connected to nobody".into()),
                };
            }
            match (d.pop(), d.is_empty()) {
                (Some((h, p, io)), true) if h == host && p == port => (f, io),
                x => return Err(format!("dialed {:?}", x.0.map(|x| (x.0, x.1)))),
            }
        } else {
            let (a, b) = tokio::io::duplex(16384);
            (t.open(How::Accept(Socket::new(a, ws, false))).map_err(|_| "an incoming connection is not supported".to_string())?, b)
        };
        // when each side is through, in virtual time
        let node_side = async {
            let r = opened.await.map_err(no);
            (r, t0.elapsed())
        };
        let (c2, m2, s2) = (mine.clone(), me.clone(), script.clone());
        let peer_side = async {
            let limit = Duration::from_millis(3 * ms + 10_000);
            tokio::time::timeout(limit, peer(other, c2, m2, !dial, ws, s2)).await.map_err(|_| "waits for ever".to_string()).and_then(|r| r.map_err(|e| e.to_string()))
        };
        // an abandoned connection is closed at once
        let ((r, took), p) = {
            let node_side = async {
                let (r, t) = node_side.await;
                (r.map_err(|e| (e.kind(), e.to_string())), t)
            };
            tokio::join!(node_side, peer_side)
        };
        match (r, same, in_time) {
            (Ok(_), false, _) => Err(format!("a connection between {} and {}", n.cfg.show(), mine.show())),
            (Err((k, e)), true, Some(true)) => Err(format!("a peer of the same network was refused after {took:?}: {k} {e}")),
            (Ok(_), true, Some(false)) => Err(format!("connected after {took:?}, beyond the timeout of {:?}", n.timeout)),
            (Err((k, e)), _, _) => {
                if took > n.timeout + Duration::from_millis(2) {
                    return Err(format!("gave up only after {took:?}, the timeout is {:?}", n.timeout));
                }
                if same && in_time == Some(false) && (k != std::io::ErrorKind::TimedOut || took + Duration::from_millis(2) < n.timeout) {
                    return Err(format!("gave up after {took:?} of {:?}: {k} {e}", n.timeout));
                }
                sh.count(if same { "timeouts" } else { "strangers_refused" });
                Ok(())
            }
            (Ok((who, mut mux)), true, _) => {
                let (seen, mut c) = p.map_err(|e| format!("connected with a peer that is not: {e}"))?;
                if who != my_id {
                    return Err(format!("connected with {my_id}, reported as {who}"));
                }
                if seen != id {
                    return Err(format!("the peer sees {seen}, the transport is {id}"));
                }
                let say = [&fnv(tell.as_bytes()).to_le_bytes()[..], b"hello"].concat();
                let e = |e: std::io::Error| e.to_string();
                mux.0.send(&say).await.map_err(e)?;
                c.send(b"back").await.map_err(e)?;
                if c.receive().await.map_err(e)? != say || mux.0.receive().await.map_err(e)? != b"back" {
                    return Err("other bytes arrive".into());
                }
                sh.count("connections");
                if ws {
                    sh.count("websockets")
                }
                if takes != Some(0) {
                    sh.count("slow_connections")
                }
                Ok(())
            }
        }
    });
    if let Err(e) = out {
        sh.violation(&e)
    }
    // two transports of the program, one of them the copy
    if sh.rng.bool() {
        let o = node(sh);
        let agree = o.cfg == n.cfg;
        let tell = format!("{story} and {}", o.story);
        sh.case(|| tell.clone());
        let with_copy = sh.rng.chance(1, 3);
        let (u, uid) = if with_copy { copy.clone().build() } else { o.builder.build() }.unwrap_or_else(|e| sh.violation(&format!("building failed: {e}")));
        if with_copy && uid != id {
            sh.violation(&format!("the copy is {uid}, not {id}"))
        }
        let agree = agree || with_copy;
        let rt = tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().unwrap();
        let got = rt.block_on(async {
            let (a, b) = tokio::io::duplex(16384);
            let (x, y) = (t.open(How::Accept(Socket::new(a, false, true))), u.open(How::Accept(Socket::new(b, false, false))));
            let (Ok(x), Ok(y)) = (x, y) else { return None };
            let (x, y) = tokio::join!(x, y);
            Some((x.ok().map(|x| x.0), y.ok().map(|x| x.0)))
        });
        let want = if agree { Some((Some(uid), Some(id))) } else { Some((None, None)) };
        if got != want {
            sh.violation(&format!("two transports {} one network found {got:?}", if agree { "of" } else { "not of" }))
        }
        sh.count(if agree { "pairs_connected" } else { "pairs_apart" });
    }
    sh.observed(fnv(tell.as_bytes()), true);
    sh.sample(|| serde_json::json!({ "case": tell }));
}
pub fn run() {
    let r = mon::start("C30", "exploration", "distinct (builder calls, address, peer, delays), judged by peers of the monitor", &[
        "libp2p is a stand-in with pipes in memory and simple cryptography, which keeps the order and the conditions of the layers",
        "the key of the main network's string was worked out outside (Python's hashlib)",
    ]);
    for (k, n) in [("keys", 500), ("connections", 300), ("strangers_refused", 200), ("timeouts", 50), ("slow_connections", 50), ("websockets", 50), ("unreachable", 30), ("no_resolver", 50), ("pairs_connected", 50), ("pairs_apart", 50)] {
        r.require(k, n);
    }
    if mon::hex(&key(MAINNET)) != MAINNET_KEY {
        panic!("harness: BLAKE2b");
    }
    if MAINNET_CONFIG.rendezvous_string != MAINNET || MAINNET_CONFIG.mplex_protocol_name != MPLEX {
        mon::violation("the configuration of the main network is another one")
    }
    r.par(mon::threads(), move |sh| {
        let dials: Dials = Default::default();
        for _ in 0..if sh.thorough() { 1_000_000 } else { 15_000 } {
            case(sh, &dials)
        }
    });
    r.finish();
}
