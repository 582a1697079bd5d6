//! The message processor between network and frontier, with a network and a frontier of the monitor, under a scheduler
//! that picks the next task at random: every event is logged, and the log is judged when nothing can go on any more.
use crate::exec::{pause, End, Exec};
use crate::processor::*;
use mon::{fnv, Rng, Shard};
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::rc::Rc;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;
use tokio::sync::mpsc::{self, Sender};

/// A block as the network has it: which source sent it, its number there, and whether it can be converted.
#[derive(Clone, Debug, PartialEq)]
struct NB {
    source: u32,
    seq: u32,
    good: bool,
}
struct FB(NB);
impl TryFrom<NB> for FB {
    type Error = String;
    fn try_from(b: NB) -> Result<Self, String> {
        match b.good {
            true => Ok(FB(b)),
            false => Err("no block".into()),
        }
    }
}
#[derive(Clone, Debug, PartialEq)]
enum Ev {
    Sent(u32, u32, bool),
    Begin(u32, u32),
    End(u32, u32),
    Asked(u64),
    Query(u64),
    Answered(u64),
    Read(u64),
    Returned,
}
const REPLY: u32 = 100;
/// How one side sends to the other from inside its call.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Way {
    Never,
    /// if there is room
    Try,
    /// by another task
    Later,
    Wait,
}
struct Plan {
    asks: Way,
    replies: Way,
    add_pauses: u64,
    query_pauses: u64,
    add_fails: u64,
    query_fails: u64,
    /// the query goes on only after another block was added
    needs_block: bool,
    seed: u64,
}
#[derive(Default)]
struct Shared {
    log: RefCell<Vec<Ev>>,
    /// sends that another task does
    later: RefCell<Vec<(Option<(Sender<NB>, NB)>, Option<(Sender<QueryBlockRequest>, u64)>)>>,
    adding: Cell<bool>,
    querying: Cell<bool>,
    asking: Cell<bool>,
    replying: Cell<bool>,
    added: Cell<u64>,
    set: Cell<(u32, u32)>,
    blocks: RefCell<Option<Sender<NB>>>,
    requests: RefCell<Option<Sender<QueryBlockRequest>>>,
    wrong: RefCell<Option<String>>,
    added_note: tokio::sync::Notify,
}
impl Shared {
    fn ev(&self, e: Ev) {
        self.log.borrow_mut().push(e)
    }
    fn wrong(&self, m: impl Into<String>) {
        self.wrong.borrow_mut().get_or_insert(m.into());
    }
}
fn request(n: u64) -> QueryBlockRequest {
    QueryBlockRequest { height: n as usize, state_hash: format!("3N{n}") }
}
struct Net {
    s: Rc<Shared>,
    p: Rc<Plan>,
    seq: u32,
}
impl NonConsensusNetworkingOps for Net {
    type Block = NB;
    fn set_block_responder(&mut self, sender: Sender<NB>) {
        let (a, b) = self.s.set.get();
        self.s.set.set((a + 1, b));
        *self.s.blocks.borrow_mut() = Some(sender);
    }
    async fn query_block(&mut self, q: &QueryBlockRequest) -> anyhow::Result<()> {
        let s = self.s.clone();
        if s.querying.replace(true) {
            s.wrong("two queries at once")
        }
        let n = q.height as u64;
        if q.state_hash != format!("3N{n}") {
            s.wrong(format!("request {n} arrived with hash {}", q.state_hash))
        }
        s.ev(Ev::Query(n));
        pause(n.wrapping_mul(self.p.seed) % (self.p.query_pauses + 1)).await;
        if self.p.needs_block {
            let seen = s.added.get();
            while s.added.get() == seen && s.blocks.borrow().is_some() {
                s.added_note.notified().await
            }
        }
        let sender = s.blocks.borrow().clone();
        if let Some(tx) = sender {
            let b = NB { source: REPLY, seq: self.seq, good: n % 5 != 4 };
            match self.p.replies {
                Way::Never => {}
                Way::Try => {
                    if tx.try_send(b.clone()).is_ok() {
                        s.ev(Ev::Sent(REPLY, b.seq, b.good));
                        self.seq += 1;
                    }
                }
                Way::Later => {
                    self.seq += 1;
                    s.later.borrow_mut().push((Some((tx, b)), None))
                }
                Way::Wait => {
                    self.seq += 1;
                    s.replying.set(true);
                    s.ev(Ev::Sent(REPLY, b.seq, b.good));
                    if tx.send(b).await.is_err() {
                        s.wrong("the channel of blocks was closed")
                    }
                    s.replying.set(false);
                }
            }
        }
        s.ev(Ev::Answered(n));
        s.querying.set(false);
        match self.p.query_fails > 0 && n % self.p.query_fails == 0 {
            true => Err(anyhow::anyhow!("query {n} failed")),
            false => Ok(()),
        }
    }
}
struct Frontier {
    s: Rc<Shared>,
    p: Rc<Plan>,
    /// equal except while a block is added
    a: u64,
    b: u64,
    asked: u64,
}
impl TransitionFrontier for Frontier {
    type Block = FB;
    fn set_block_requester(&mut self, sender: Sender<QueryBlockRequest>) {
        let (a, b) = self.s.set.get();
        self.s.set.set((a, b + 1));
        *self.s.requests.borrow_mut() = Some(sender);
    }
    async fn add_block(&mut self, b: FB) -> anyhow::Result<()> {
        let (s, b) = (self.s.clone(), b.0);
        if s.adding.replace(true) {
            s.wrong("two blocks are added at once")
        }
        s.ev(Ev::Begin(b.source, b.seq));
        self.a += 1;
        pause((b.seq as u64 + 1).wrapping_mul(self.p.seed >> 8) % (self.p.add_pauses + 1)).await;
        let sender = s.requests.borrow().clone();
        // replies and the blocks a query waits for do not ask again
        if let (Some(tx), true) = (sender, b.source < 50) {
            let n = self.asked;
            match self.p.asks {
                Way::Never => {}
                Way::Try => {
                    if tx.try_send(request(n)).is_ok() {
                        s.ev(Ev::Asked(n));
                        self.asked += 1
                    }
                }
                Way::Later => {
                    self.asked += 1;
                    s.later.borrow_mut().push((None, Some((tx, n))))
                }
                Way::Wait => {
                    self.asked += 1;
                    s.asking.set(true);
                    let permit = tx.reserve().await;
                    s.ev(Ev::Asked(n));
                    match permit {
                        Ok(p) => p.send(request(n)),
                        Err(_) => s.wrong("the channel of requests was closed"),
                    }
                    s.asking.set(false);
                }
            }
        }
        self.b += 1;
        s.ev(Ev::End(b.source, b.seq));
        s.added.set(s.added.get() + 1);
        s.added_note.notify_one();
        s.adding.set(false);
        match self.p.add_fails > 0 && b.seq as u64 % self.p.add_fails == 0 {
            true => Err(anyhow::anyhow!("block refused")),
            false => Ok(()),
        }
    }
}
type P = NetworkMessageProcessor<NB, FB, Frontier, Net>;

/// What arrived against what was sent.
fn judge(log: &[Ev]) -> Result<(u64, u64), String> {
    let mut sent: HashMap<u32, Vec<u32>> = HashMap::new();
    let mut begun: HashMap<u32, Vec<u32>> = HashMap::new();
    let (mut asked, mut queried) = (vec![], vec![]);
    let (mut open, mut query) = (None, None);
    let mut returned = false;
    for e in log {
        match e {
            Ev::Sent(s, n, good) => {
                if *good {
                    sent.entry(*s).or_default().push(*n)
                }
            }
            Ev::Begin(s, n) => {
                if open.replace((*s, *n)).is_some() {
                    return Err(format!("block {n} of {s} is added while another one is"));
                }
                begun.entry(*s).or_default().push(*n)
            }
            Ev::End(s, n) => {
                if open.take() != Some((*s, *n)) {
                    return Err("a block ends that did not begin".into());
                }
            }
            Ev::Asked(n) => asked.push(*n),
            Ev::Query(n) => {
                if query.replace(*n).is_some() {
                    return Err(format!("query {n} begins while another one runs"));
                }
                queried.push(*n)
            }
            Ev::Answered(n) => {
                if query.take() != Some(*n) {
                    return Err("a query ends that did not begin".into());
                }
            }
            Ev::Read(_) => {}
            Ev::Returned => returned = true,
        }
        if returned && matches!(e, Ev::Begin(..) | Ev::Query(_)) {
            return Err("something arrives after the processor returned".into());
        }
    }
    if open.is_some() || query.is_some() {
        return Err("the processor returned in the middle of something".into());
    }
    let mut blocks = 0;
    for s in sent.keys().chain(begun.keys()) {
        let none = vec![];
        let (a, b) = (sent.get(s).unwrap_or(&none), begun.get(s).unwrap_or(&none));
        if a != b {
            return Err(format!("source {s} sent the blocks {a:?} and the frontier got {b:?}"));
        }
        blocks += a.len() as u64;
    }
    if asked != queried {
        return Err(format!("the frontier asked for {asked:?} and the network was asked for {queried:?}"));
    }
    Ok((blocks / 2, asked.len() as u64))
}
fn plan(r: &mut Rng, asks: Way, replies: Way) -> Plan {
    Plan {
        asks,
        replies,
        add_pauses: r.below(4),
        query_pauses: r.below(4),
        add_fails: r.below(4),
        query_fails: r.below(4),
        needs_block: false,
        seed: r.next(),
    }
}
fn one(sh: &mut Shard) {
    let mut r = sh.rng.clone();
    sh.rng.next();
    let ways = [Way::Never, Way::Try, Way::Later, Way::Wait];
    let (asks, replies) = loop {
        let w = (*r.pick(&ways), *r.pick(&ways));
        // both sides waiting for each other is looked at elsewhere
        if w != (Way::Wait, Way::Wait) {
            break w;
        }
    };
    let mut p = plan(&mut r, asks, replies);
    let sources = 1 + r.below(4) as u32;
    let each = 1 + r.below(12) as u32;
    let requests_outside = r.chance(1, 3);
    // queries that take until another block arrives: the loops do not stand in each other's way
    p.needs_block = asks != Way::Wait && replies == Way::Never && r.chance(1, 3);
    let readers = r.below(3);
    let runs = if r.chance(1, 5) { 2 } else { 1 };
    let what = format!("{sources} sources of {each} blocks, {readers} readers, {runs} runs, asks {asks:?}, replies {replies:?}, add {} query {} pauses, failures {} {}, needs block {}", p.add_pauses, p.query_pauses, p.add_fails, p.query_fails, p.needs_block);
    sh.case(|| what.clone());
    let (needs, s) = (p.needs_block, Rc::new(Shared::default()));
    let p = Rc::new(p);
    let proc = P::new(Frontier { s: s.clone(), p: p.clone(), a: 0, b: 0, asked: 0 }, Net { s: s.clone(), p, seq: 0 });
    if s.set.get() != (1, 1) {
        sh.violation(&format!("the channels were handed out {:?} times", s.set.get()))
    }
    let (proc, s) = (&proc, &s);
    let live = Rc::new(Cell::new(sources + requests_outside as u32));
    let over = &Cell::new(false);
    let mut ex = Exec::default();
    for _ in 0..runs {
        ex.add("run", async move {
            proc.run().await;
            s.ev(Ev::Returned)
        });
    }
    for i in 0..sources {
        let (tx, live, mut rr) = (s.blocks.borrow().clone().unwrap(), live.clone(), Rng::new(r.next()));
        ex.add("source", async move {
            for n in 0..each {
                pause(rr.below(5)).await;
                let b = NB { source: i, seq: n, good: !rr.chance(1, 6) };
                s.ev(Ev::Sent(i, n, b.good));
                if tx.send(b).await.is_err() {
                    s.wrong("the channel of blocks was closed")
                }
            }
            live.set(live.get() - 1);
        });
    }
    if requests_outside {
        let (tx, live, mut rr) = (s.requests.borrow().clone().unwrap(), live.clone(), Rng::new(r.next()));
        ex.add("requests", async move {
            for n in 0..6 {
                pause(rr.below(5)).await;
                let n = 1000 + n;
                // the order among senders is theirs: log when it is in
                let permit = tx.reserve().await;
                s.ev(Ev::Asked(n));
                match permit {
                    Ok(p) => p.send(request(n)),
                    Err(_) => s.wrong("the channel of requests was closed"),
                }
            }
            live.set(live.get() - 1);
        });
    }
    for _ in 0..readers {
        let mut rr = Rng::new(r.next());
        ex.add("reader", async move {
            let mut last = 0;
            for _ in 0..8 {
                pause(rr.below(6)).await;
                let g = proc.transition_frontier().await;
                if g.a != g.b || s.adding.get() {
                    s.wrong(format!("a reader sees the frontier in the middle of a block: {} {}", g.a, g.b))
                }
                if g.a < last {
                    s.wrong("the frontier goes back")
                }
                last = g.a;
                pause(rr.below(3)).await;
                if g.a != last || s.adding.get() {
                    s.wrong("a block is added while a reader holds the frontier")
                }
                s.ev(Ev::Read(g.a));
                drop(g);
                if rr.chance(1, 3) {
                    let n = proc.nonconsensus_ops().await;
                    if s.querying.get() {
                        s.wrong("a reader holds the network while a query runs")
                    }
                    pause(rr.below(2)).await;
                    drop(n);
                }
                if rr.chance(1, 4) {
                    let mut n = proc.nonconsensus_ops_mut().await;
                    let seq = std::mem::replace(&mut n.seq, u32::MAX);
                    pause(rr.below(2)).await;
                    if n.seq != u32::MAX || s.querying.get() {
                        s.wrong("someone else changed the network while it was held")
                    }
                    n.seq = seq;
                }
            }
        });
    }
    // does what was left for later
    for asks in [true, false] {
        let mut rr = Rng::new(r.next());
        let live = live.clone();
        ex.add("helper", async move {
            while !over.get() {
                let next = {
                    let mut l = s.later.borrow_mut();
                    let at = l.iter().position(|(_, q)| q.is_some() == asks);
                    at.map(|i| l.remove(i))
                };
                let Some(next) = next else {
                    pause(1).await;
                    continue;
                };
                live.set(live.get() + 1);
                pause(rr.below(3)).await;
                match next {
                    (Some((tx, b)), _) => {
                        s.ev(Ev::Sent(b.source, b.seq, b.good));
                        if tx.send(b).await.is_err() {
                            s.wrong("the channel of blocks was closed")
                        }
                    }
                    (_, Some((tx, n))) => {
                        let permit = tx.reserve().await;
                        s.ev(Ev::Asked(n));
                        match permit {
                            Ok(p) => p.send(request(n)),
                            Err(_) => s.wrong("the channel of requests was closed"),
                        }
                    }
                    _ => {}
                }
                live.set(live.get() - 1);
            }
        });
    }
    // closes the channels when nothing was going on for long
    let lv = live.clone();
    ex.add("closer", async move {
        let mut idle = 0;
        while idle < 200 {
            idle += 1;
            if needs && s.querying.get() {
                // the query that waits for a block gets one more
                if idle > 20 {
                    let tx = s.blocks.borrow().clone().unwrap();
                    let n = s.log.borrow().len() as u32;
                    s.ev(Ev::Sent(50, n, true));
                    let _ = tx.send(NB { source: 50, seq: n, good: true }).await;
                    idle = 0;
                }
            } else if lv.get() > 0 || s.adding.get() || s.querying.get() || !s.later.borrow().is_empty() {
                idle = 0
            }
            pause(1).await
        }
        over.set(true);
        s.blocks.borrow_mut().take();
        s.requests.borrow_mut().take();
        s.added_note.notify_waiters();
        s.added_note.notify_one();
    });
    let end = ex.run(&mut r, &|| false);
    let steps = ex.steps;
    drop(ex);
    let log = s.log.borrow();
    if let Some(w) = s.wrong.borrow().clone() {
        sh.violation(&format!("{w} ({what}): {log:?}"))
    }
    if end != End::Done {
        sh.violation(&format!("{end:?} for ever ({what}): {log:?}"))
    }
    match judge(&log) {
        Err(e) => sh.violation(&format!("{e} ({what}): {log:?}")),
        Ok((b, q)) => {
            sh.count_n("blocks delivered", b);
            sh.count_n("requests delivered", q);
        }
    }
    sh.count("histories");
    sh.count_n("steps scheduled", steps);
    if needs {
        sh.count("histories with queries that wait for blocks");
    }
    if requests_outside && asks != Way::Never {
        sh.count("histories with several askers");
    }
    if runs > 1 {
        sh.count("histories with two runs");
    }
    sh.observed(fnv(format!("{log:?}").as_bytes()), log.len() > 10);
    sh.sample(|| serde_json::json!({"plan": what, "events": log.len()}));
}
/// A frontier that waits to ask for a block, and a network that waits to answer.
fn both_wait(sh: &mut Shard) {
    let mut r = sh.rng.clone();
    sh.rng.next();
    let p = plan(&mut r, Way::Wait, Way::Wait);
    let s = Rc::new(Shared::default());
    let p = Rc::new(p);
    let proc = P::new(Frontier { s: s.clone(), p: p.clone(), a: 0, b: 0, asked: 0 }, Net { s: s.clone(), p, seq: 0 });
    let (proc, s) = (&proc, &s);
    let mut ex = Exec::default();
    ex.add("run", proc.run());
    for i in 0..4 {
        let tx = s.blocks.borrow().clone().unwrap();
        ex.add("source", async move {
            for n in 0..6 {
                s.ev(Ev::Sent(i, n, true));
                let _ = tx.send(NB { source: i, seq: n, good: true }).await;
            }
        });
    }
    sh.case(|| "four sources, a frontier that waits to ask, a network that waits to answer".into());
    let end = ex.run(&mut r, &|| false);
    drop(ex);
    let log = s.log.borrow();
    if let Some(w) = s.wrong.borrow().clone() {
        sh.violation(&format!("{w}: {log:?}"))
    }
    // the channels stay open, so the processor itself does not end
    let all = log.iter().filter(|e| matches!(e, Ev::End(..))).count() == 24 + log.iter().filter(|e| matches!(e, Ev::Sent(REPLY, _, true))).count();
    if end == End::Stuck(vec!["run"]) && all {
        sh.count("histories in which both wait and all arrives");
    } else if s.asking.get() && s.replying.get() {
        sh.finding_or_violation("ask-while-adding", &format!("the frontier waits to ask while the network waits to answer: {:?}", &log[log.len().saturating_sub(12)..]));
        sh.count("histories in which both wait for ever");
    } else {
        sh.violation(&format!("{end:?} although not both wait: {log:?}"))
    }
    sh.observed(fnv(format!("{log:?}").as_bytes()), true);
}
/// Sources in threads of their own.
fn threads(sh: &mut Shard) {
    let mut r = sh.rng.clone();
    sh.rng.next();
    let p = Rc::new(plan(&mut r, Way::Try, Way::Try));
    let s = Rc::new(Shared::default());
    let proc = P::new(Frontier { s: s.clone(), p: p.clone(), a: 0, b: 0, asked: 0 }, Net { s: s.clone(), p, seq: 0 });
    let tx = s.blocks.borrow_mut().take().unwrap();
    let n = 1 + r.below(4) as u32;
    let alive = Arc::new(AtomicUsize::new(n as usize));
    let hs: Vec<_> = (0..n)
        .map(|i| {
            let (tx, alive, seed) = (tx.clone(), alive.clone(), r.next());
            std::thread::spawn(move || {
                let mut rr = Rng::new(seed);
                let mut sent = vec![];
                for k in 0..40 {
                    if rr.chance(1, 4) {
                        std::thread::sleep(std::time::Duration::from_micros(rr.below(60)))
                    }
                    let good = !rr.chance(1, 6);
                    sent.push(Ev::Sent(i, k, good));
                    if tx.blocking_send(NB { source: i, seq: k, good }).is_err() {
                        break;
                    }
                }
                drop(tx);
                alive.fetch_sub(1, Ordering::SeqCst);
                sent
            })
        })
        .collect();
    drop(tx);
    sh.case(|| format!("{n} sources in threads"));
    let (proc, sr) = (&proc, &s);
    let mut ex = Exec::default();
    ex.add("run", async move {
        proc.run().await;
        sr.ev(Ev::Returned)
    });
    ex.add("closer", async move {
        // requests end when the frontier has every block: the block loop ends by itself
        while sr.added.get() < u64::MAX && !sr.log.borrow().is_empty() | true {
            if alive.load(Ordering::SeqCst) == 0 {
                sr.requests.borrow_mut().take();
                break;
            }
            std::thread::yield_now();
            pause(1).await
        }
    });
    let began = std::time::Instant::now();
    let end = ex.run(&mut r, &|| began.elapsed().as_secs() < 30);
    drop(ex);
    let mut log: Vec<Ev> = hs.into_iter().flat_map(|h| h.join().unwrap()).collect();
    log.extend(s.log.borrow().iter().cloned());
    if let Some(w) = s.wrong.borrow().clone() {
        sh.violation(&format!("{w}: {log:?}"))
    }
    if end != End::Done {
        sh.violation(&format!("{end:?} although every source is done: {log:?}"))
    }
    match judge(&log) {
        Err(e) => sh.violation(&format!("{e}: {log:?}")),
        Ok((b, _)) => sh.count_n("blocks delivered from threads", b),
    }
    sh.observed(fnv(format!("{log:?}").as_bytes()), true);
}
pub fn run() {
    let run = mon::start(
        "C26",
        "exploration",
        "each history counts once by its log",
        &[
            "the processor is compiled from its real source with the language's own async traits; network and frontier are the monitor's",
            "network and frontier do not both wait to send to the other from inside their calls (recorded as a finding)",
        ],
    );
    run.par(mon::threads(), |sh| {
        let n = if sh.thorough() { 120_000 } else { 6_000 };
        for i in 0..n {
            if i % 32 == 0 {
                sh.beat();
            }
            one(sh);
            if i % 64 == 0 {
                both_wait(sh);
                threads(sh);
            }
        }
    });
    for k in ["blocks delivered", "requests delivered", "blocks delivered from threads"] {
        run.require(k, 5000);
    }
    for k in ["histories with queries that wait for blocks", "histories with several askers", "histories with two runs"] {
        run.require(k, 500);
    }
    run.finish()
}
