//! The block crawler: its real program runs as a process of its own in a scratch folder, against a server of the
//! monitor on the loopback address. Histories of runs, with answers that change, runs that are killed or run out of
//! file space, are judged by a model of the two folders it keeps and by the log of the server.
use mina_rs_base::types::ExternalTransition;
use mina_rs_base::JsonSerializationType;
use mon::{fnv, guarded, Rng, Shard};
use serde_json::{json, Value as J};
use std::collections::{BTreeMap, BTreeSet};
use std::io::{Read, Write};
use std::net::{TcpListener, TcpStream};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

const GRAPHQL: &str = "https://graphql.minaexplorer.com/";
const STORE: &str = "https://storage.googleapis.com/mina_network_block_data/";
type Files = BTreeMap<String, J>;

#[derive(Clone, Debug)]
enum Ans {
    /// status and text
    Text(u16, String),
    Close,
    Cut,
}
#[derive(Default)]
struct St {
    /// requests of runs that were killed may come late
    run: usize,
    list: Option<String>,
    answers: BTreeMap<String, Ans>,
    log: Vec<(String, String, String)>,
    inflight: usize,
    most: usize,
    /// answers wait until so many requests are open
    hold: usize,
    held_in_vain: bool,
    gets: usize,
    kill_at: usize,
    kill_now: bool,
}
struct Server {
    addr: String,
    st: Arc<(Mutex<St>, Condvar)>,
}
fn serve(mut c: TcpStream, st: &(Mutex<St>, Condvar)) -> std::io::Result<()> {
    let mut b = vec![];
    let mut buf = [0; 4096];
    let (head, mut body) = loop {
        let n = c.read(&mut buf)?;
        if n == 0 {
            return Ok(());
        }
        b.extend(&buf[..n]);
        if let Some(p) = b.windows(4).position(|w| w == b"\r\n\r\n") {
            break (String::from_utf8_lossy(&b[..p]).into_owned(), b[p + 4..].to_vec());
        }
    };
    let len = head.lines().find_map(|l| l.strip_prefix("Content-Length: ")).and_then(|x| x.parse().ok()).unwrap_or(0usize);
    while body.len() < len {
        let n = c.read(&mut buf)?;
        if n == 0 {
            return Ok(());
        }
        body.extend(&buf[..n]);
    }
    let mut w = head.split(' ');
    let (method, url) = (w.next().unwrap_or("").to_string(), w.next().unwrap_or("").to_string());
    let post = method == "POST";
    let run = head.lines().find_map(|l| l.strip_prefix("X-Run: ")).and_then(|x| x.parse().ok()).unwrap_or(0usize);
    let (m, cv) = st;
    let mut g = m.lock().unwrap();
    if g.run != run {
        return Ok(());
    }
    g.log.push((method, url.clone(), String::from_utf8_lossy(&body).into_owned()));
    let a = if post {
        match &g.list {
            Some(l) => Ans::Text(200, l.clone()),
            None => Ans::Close,
        }
    } else {
        g.gets += 1;
        g.inflight += 1;
        g.most = g.most.max(g.inflight);
        cv.notify_all();
        if g.kill_at == g.gets {
            g.kill_now = true;
        }
        let end = Instant::now() + Duration::from_secs(20);
        while g.most < g.hold && !g.kill_now {
            let left = end.saturating_duration_since(Instant::now());
            if left.is_zero() {
                g.held_in_vain = true;
                break;
            }
            g = cv.wait_timeout(g, left).unwrap().0;
        }
        if g.hold > 0 && !g.kill_now {
            // time for those that come too early
            drop(g);
            std::thread::sleep(Duration::from_millis(15));
            g = m.lock().unwrap();
        }
        g.inflight -= 1;
        g.answers.get(&url).cloned().unwrap_or(Ans::Text(404, "<?xml version='1.0'?><Error><Code>NoSuchKey</Code></Error>".into()))
    };
    drop(g);
    match a {
        Ans::Text(s, t) => c.write_all(format!("HTTP/1.1 {s} .\r\nContent-Length: {}\r\n\r\n{t}", t.len()).as_bytes()),
        Ans::Cut => c.write_all(b"HTTP/1.1 200 .\r\nContent-Length: 4000\r\n\r\n{\"protocol_state\": {"),
        Ans::Close => Ok(()),
    }
}
impl Server {
    fn new() -> Server {
        let l = TcpListener::bind("127.0.0.1:0").expect("the loopback address");
        let addr = l.local_addr().unwrap().to_string();
        let st = Arc::new((Mutex::new(St::default()), Condvar::new()));
        let s2 = st.clone();
        std::thread::spawn(move || {
            for c in l.incoming().flatten() {
                let s3 = s2.clone();
                std::thread::spawn(move || {
                    let _ = serve(c, &s3);
                });
            }
        });
        Server { addr, st }
    }
}
struct Scratch(PathBuf);
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
/// What is in one of the folders; `Err` for a file that does not hold JSON.
fn folder(p: &Path) -> Result<BTreeMap<String, Result<J, String>>, String> {
    let mut m = BTreeMap::new();
    let Ok(d) = std::fs::read_dir(p) else { return Ok(m) };
    for e in d {
        let e = e.map_err(|e| e.to_string())?;
        let b = std::fs::read(e.path()).map_err(|e| e.to_string())?;
        m.insert(e.file_name().to_string_lossy().into_owned(), serde_json::from_slice(&b).map_err(|x| format!("{x} ({} bytes)", b.len())));
    }
    Ok(m)
}
fn show(f: &BTreeMap<String, Result<J, String>>) -> String {
    f.iter().map(|(k, v)| format!("{k}:{}", v.as_ref().map_or_else(|e| e.clone(), |j| format!("{:016x}", fnv(j.to_string().as_bytes()))))).collect::<Vec<_>>().join(" ")
}

fn kept(m: &Files) -> BTreeMap<String, Result<J, String>> {
    m.iter().map(|(k, v)| (k.clone(), Ok(v.clone()))).collect()
}

pub struct Base {
    good: Vec<J>,
}
fn bases() -> Base {
    let mut good = vec![];
    for f in ["mainnet-77748-3NKaBJsN1SehD6iJwRwJSFmVzJg5DXSUQVgnMxtH4eer4aF5BrDK", "mainnet-77749-3NK3P5bJHhqR7xkZBquGGfq3sERUeXNYNma5YXRMjgCNsTJRZpgL", "mainnet-147571-3NKwrze6FvGQCCF6L7Q2JLvwgnsm56hwSny9kUyjbSUr8oqu1MGp", "mainnet-113267-3NKtqqstB6h8SVNQCtspFisjUwCTqoQ6cC1KGvb6kx6n2dqKkiZS"] {
        let t = std::fs::read_to_string(format!("{}/protocol/test-fixtures/src/data/{f}.json", mon::repo_dir())).expect("shipped block");
        let mut j: J = serde_json::from_str(&t).expect("shipped block");
        j.as_object_mut().unwrap().remove("scheduled_time");
        // whether a text is a block is C17's matter, here only what the crawler makes of it
        let is_block = guarded(|| serde_json::from_value::<<ExternalTransition as JsonSerializationType>::T>(j.clone()).is_ok());
        if is_block == Ok(true) {
            good.push(j);
        }
    }
    Base { good }
}
/// The text served for a block, and the JSON to keep if it is JSON at all, with whether it is a block.
fn answer(r: &mut Rng, base: &Base) -> (Ans, Option<(bool, J)>) {
    let mut j = r.pick(&base.good).clone();
    let mut is_block = true;
    match r.below(10) {
        0 => return (Ans::Close, None),
        1 => return (r.pick(&[Ans::Cut, Ans::Text(404, "<Error/>".into()), Ans::Text(200, String::new()), Ans::Text(200, "{\"protocol_state\":".into()), Ans::Text(500, "oops".into())]).clone(), None),
        2 => {
            j = r.pick(&[json!(null), json!(5), json!("x"), json!([]), json!(true), json!([{"scheduled_time": "1"}]), json!({}), json!({"protocol_state": {}})]).clone();
            is_block = false
        }
        3 | 4 => {
            is_block = false;
            let b = &mut j["protocol_state"]["body"];
            match r.below(6) {
                0 => b["consensus_state"]["blockchain_length"] = json!({"scheduled_time": "3"}),
                1 => b["blockchain_state"] = json!(7),
                2 => drop(b.as_object_mut().unwrap().remove("constants")),
                3 => drop(j.as_object_mut().unwrap().remove("protocol_state")),
                4 => j["staged_ledger_diff"] = json!({"diff": []}),
                _ => j["protocol_state"]["previous_state_hash"] = json!(null),
            }
        }
        _ => {
            // another block each time
            let h = r.pick(&base.good)["protocol_state"]["previous_state_hash"].clone();
            j["protocol_state"]["previous_state_hash"] = h;
        }
    }
    let mut sent = j.clone();
    if let Some(o) = sent.as_object_mut() {
        if r.bool() {
            o.insert("scheduled_time".into(), r.pick(&[json!("1646030984964"), json!(5), json!({"a": []}), json!(null)]).clone());
        }
    }
    let t = if r.bool() { sent.to_string() } else { serde_json::to_string_pretty(&sent).unwrap() };
    (Ans::Text(if r.chance(1, 10) { 206 } else { 200 }, t), Some((is_block, j)))
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Whole,
    /// killed when so many blocks were asked for
    Kill(usize),
    /// files end at so many KiB, by a signal or by an error
    Full(u64, bool),
    NoList,
}
fn history(sh: &mut Shard, srv: &Server, base: &Base, exe: &str) {
    let dir = Scratch(std::env::temp_dir().join(format!("crawl-{}-{}-{:x}", std::process::id(), sh.index, sh.rng.next())));
    std::fs::create_dir_all(&dir.0).unwrap();
    let n = sh.rng.range(1, 13);
    let mut names = BTreeSet::new();
    while names.len() < n {
        let h = if sh.rng.chance(1, 2) && !names.is_empty() { names.iter().next().map(|x: &(u64, String)| x.0).unwrap() } else { sh.rng.range(0, 400_000) as u64 };
        let s: String = format!("3N{}{}", if sh.rng.bool() { 'K' } else { 'L' }, (0..sh.rng.range(1, 48)).map(|_| *sh.rng.pick(&['a', 'Z', '9', 'k', 'u', '3'])).collect::<String>());
        names.insert((h, s));
    }
    let world: Vec<(u64, String)> = names.into_iter().collect();
    let file = |b: &(u64, String)| format!("mainnet-{}-{}.json", b.0, b.1);
    let (mut done, mut failed) = (Files::new(), Files::new());
    let mut crashed = false;
    let mut story = vec![];
    let mut last: BTreeMap<String, (Ans, Option<(bool, J)>)> = BTreeMap::new();
    for round in 0..sh.rng.range(2, 5) {
        // which blocks the network names, in which order, and what it has of each
        let mut list = world.clone();
        list.retain(|_| sh.rng.chance(4, 5));
        for i in (1..list.len()).rev() {
            let k = sh.rng.below(i as u64 + 1) as usize;
            list.swap(i, k);
        }
        let mut answers = BTreeMap::new();
        let mut what: BTreeMap<String, Option<(bool, J)>> = BTreeMap::new();
        for b in &list {
            let f = file(b);
            if !last.contains_key(&f) || sh.rng.chance(1, 2) {
                last.insert(f.clone(), answer(&mut sh.rng, base));
            }
            let (a, w) = last[&f].clone();
            answers.insert(format!("{STORE}{f}"), a);
            what.insert(f, w);
        }
        let kind = match sh.rng.below(9) {
            0 | 1 => Kind::Kill(sh.rng.range(1, list.len() + 1)),
            2 | 3 => Kind::Full(sh.rng.range(1, 60) as u64, sh.rng.bool()),
            4 if round > 0 => Kind::NoList,
            _ => Kind::Whole,
        };
        let limit = sh.rng.range(1, 500).to_string();
        let c = if sh.rng.chance(1, 3) { None } else { Some(sh.rng.range(1, 12)) };
        let most = c.unwrap_or(8);
        let todo: BTreeSet<String> = list.iter().map(&file).filter(|f| !done.contains_key(f)).collect();
        let hold = if kind == Kind::Whole && sh.rng.chance(1, 3) { most.min(todo.len()) } else { 0 };
        let text = json!({"data": {"blocks": list.iter().map(|b| if sh.rng.chance(1, 4) { json!({"stateHash": b.1, "blockHeight": b.0, "x": 1}) } else { json!({"blockHeight": b.0, "stateHash": b.1}) }).collect::<Vec<_>>()}}).to_string();
        let listing = match kind {
            Kind::NoList => sh.rng.pick(&[None, Some("{\"errors\": [{\"message\": \"no\"}]}".to_string()), Some("<html>".into()), Some("{\"data\": null}".into()), Some("{\"data\": {\"blocks\": [{\"blockHeight\": \"1\"}]}}".into())]).clone(),
            _ => Some(text),
        };
        let run = {
            let mut g = srv.st.0.lock().unwrap();
            let run = g.run + 1;
            *g = St { run, list: listing, answers, hold, kill_at: if let Kind::Kill(k) = kind { k } else { 0 }, ..St::default() };
            run
        };
        story.push(format!("run {round}: {kind:?}, {most} at once, {}", list.iter().map(|b| format!("{}={}", file(b), match &what[&file(b)] { None => "unavailable".to_string(), Some((true, _)) => "block".into(), Some((false, j)) => format!("no block {}", j.to_string().chars().take(40).collect::<String>()) })).collect::<Vec<_>>().join(" ")));
        let tell = story.join("; ");
        sh.case(|| tell.clone());
        let mut args: Vec<String> = if sh.rng.bool() { vec!["-l".into(), limit.clone()] } else { vec![format!("--limit={limit}")] };
        if let Some(c) = c {
            args.extend(if sh.rng.bool() { vec!["-c".into(), c.to_string()] } else { vec!["--concurrency".into(), c.to_string()] })
        }
        let mut cmd = match kind {
            Kind::Full(k, sig) => {
                let mut x = Command::new("bash");
                x.arg("-c").arg(format!("{}ulimit -c 0; ulimit -f {k}; exec \"$0\" \"$@\"", if sig { "" } else { "trap '' XFSZ; " })).arg(exe);
                x
            }
            _ => Command::new(exe),
        };
        cmd.args(&args).current_dir(&dir.0).env("STANDIN_HTTP", &srv.addr).env("STANDIN_RUN", run.to_string()).env_remove("RUST_LOG").stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null());
        let mut child = cmd.spawn().unwrap_or_else(|e| panic!("harness: {exe}: {e}"));
        let t0 = Instant::now();
        let status = loop {
            if let Some(s) = child.try_wait().unwrap() {
                break s;
            }
            if srv.st.0.lock().unwrap().kill_now {
                // any time between the request and the end of the run
                std::thread::sleep(Duration::from_micros(sh.rng.below(30_000) * sh.rng.below(2)));
                let _ = child.kill();
                break child.wait().unwrap();
            }
            if t0.elapsed() > Duration::from_secs(120) {
                let _ = child.kill();
                sh.violation("the crawler neither asks nor ends")
            }
            std::thread::sleep(Duration::from_millis(1));
        };
        sh.beat();
        // open answers end first
        let t1 = Instant::now();
        while srv.st.0.lock().unwrap().inflight > 0 && t1.elapsed() < Duration::from_secs(30) {
            std::thread::sleep(Duration::from_millis(1));
        }
        let g = srv.st.0.lock().unwrap();
        let complete = status.success();
        macro_rules! say {
            ($m:expr) => {
                sh.violation(&format!("{} [{status}]", $m))
            };
        }
        // ---- requests
        let posts: Vec<_> = g.log.iter().filter(|l| l.0 == "POST").collect();
        if posts.len() != 1 || g.log[0].0 != "POST" || posts[0].1 != GRAPHQL {
            say!(format!("the list of blocks was not asked for once and first: {:?}", g.log.iter().map(|l| (&l.0, &l.1)).collect::<Vec<_>>()))
        }
        let q = serde_json::from_str::<J>(&posts[0].2).ok().and_then(|j| j["query"].as_str().map(|s| s.split_whitespace().collect::<Vec<_>>().join(" "))).unwrap_or_default();
        let qn = q.replace(' ', "");
        if !qn.contains(&format!("blocks(limit:{limit},sortBy:RECEIVEDTIME_DESC){{")) || !qn.contains("blockHeight") || !qn.contains("stateHash") {
            say!(format!("asked for {limit} blocks with {q:?}"))
        }
        let mut asked = BTreeMap::new();
        for l in g.log.iter().filter(|l| l.0 == "GET") {
            *asked.entry(l.1.strip_prefix(STORE).map_or_else(|| l.1.clone(), |s| s.to_string())).or_insert(0) += 1;
        }
        if let Some((f, n)) = asked.iter().find(|(f, n)| !todo.contains(*f) || **n != 1) {
            say!(format!("{f} was asked for {n} times, it is {}", if done.contains_key(f) { "checked already" } else if todo.contains(f) { "to be asked for once" } else { "not listed" }))
        }
        if g.most > most {
            say!(format!("{} requests at once, {most} are allowed", g.most))
        }
        if g.held_in_vain {
            say!(format!("only {} requests at once, {hold} could have been", g.most))
        }
        if hold > 1 {
            sh.count("full_concurrency")
        }
        sh.count_n("blocks_asked_for", asked.len() as u64);
        // ---- what is kept
        let (d, f) = match (folder(&dir.0.join("output/succeeded")), folder(&dir.0.join("output/failed"))) {
            (Ok(d), Ok(f)) => (d, f),
            e => say!(format!("{e:?}")),
        };
        // what an interrupted write may leave beside them
        crashed |= kind != Kind::NoList && !complete;
        let clean = |m: BTreeMap<String, Result<J, String>>| -> BTreeMap<String, Result<J, String>> { m.into_iter().filter(|(k, _)| !crashed || k.ends_with(".json")).collect() };
        let (d, f) = (clean(d), clean(f));
        match kind {
            Kind::NoList => {
                if complete || !asked.is_empty() {
                    say!("without a list of blocks the run went on or was reported as a success")
                }
                if d != kept(&done) || f != kept(&failed) {
                    say!(format!("without a list of blocks the folders changed: {} / {}", show(&d), show(&f)))
                }
                sh.count("runs_without_a_list");
            }
            Kind::Whole => {
                if !complete {
                    say!("an undisturbed run failed")
                }
                if asked.len() != todo.len() {
                    say!(format!("only {:?} were asked for, out of {todo:?}", asked.keys().collect::<Vec<_>>()))
                }
            }
            _ => {}
        }
        if kind != Kind::NoList && complete {
            for t in &todo {
                failed.remove(t);
                match &what[t] {
                    Some((true, j)) => drop(done.insert(t.clone(), j.clone())),
                    Some((false, j)) => drop(failed.insert(t.clone(), j.clone())),
                    None => sh.count("unavailable"),
                }
            }
            if d != kept(&done) {
                say!(format!("blocks kept as good: {}; they should be {:?}", show(&d), done.keys().collect::<Vec<_>>()))
            }
            if f != kept(&failed) {
                say!(format!("blocks kept as bad: {}; they should be {:?}", show(&f), failed.keys().collect::<Vec<_>>()))
            }
            sh.count_n("kept_good", done.len() as u64);
            sh.count_n("kept_bad", failed.len() as u64);
            sh.count("runs");
            if crashed {
                sh.count("runs_after_a_crash")
            }
        } else if kind != Kind::NoList {
            sh.count(match kind {
                Kind::Kill(_) => "killed_runs",
                _ => "runs_out_of_space",
            });
            for (name, old) in &done {
                if d.get(name) != Some(&Ok(old.clone())) {
                    say!(format!("{name}, checked by an earlier run, was lost or changed: {}", show(&d)))
                }
            }
            for (name, got) in &d {
                if !done.contains_key(name) && !(todo.contains(name) && matches!(&what[name], Some((true, j)) if got.as_ref() == Ok(j))) {
                    say!(format!("an interrupted run left {name} among the good blocks, which later runs will not look at again, but it is {}", match got { Err(e) => format!("no JSON: {e}"), Ok(_) => "another JSON".into() }))
                }
            }
            for (name, got) in &f {
                let old = failed.get(name).is_some_and(|o| got.as_ref() == Ok(o));
                let new = todo.contains(name) && matches!(&what[name], Some((false, j)) if got.as_ref() == Ok(j));
                if !old && !new {
                    say!(format!("an interrupted run left {name} among the bad blocks, but it is {}", match got { Err(e) => format!("no JSON: {e}"), Ok(_) => "another JSON".into() }))
                }
            }
            for name in failed.keys() {
                if !todo.contains(name) && !f.contains_key(name) {
                    say!(format!("{name} was not listed but vanished from the bad blocks"))
                }
            }
            done = d.into_iter().map(|(k, v)| (k, v.unwrap())).collect();
            failed = f.into_iter().map(|(k, v)| (k, v.unwrap())).collect();
        }
    }
    sh.observed(fnv(story.join(";").as_bytes()), story.len() > 1);
    sh.sample(|| json!({"history": story.iter().map(|s| s.chars().take(200).collect::<String>()).collect::<Vec<_>>()}));
}
pub fn run() {
    let r = mon::start("C29", "exploration", "distinct histories of at least two runs of the real program, judged by folders and server log", &[
        "the HTTP client is a stand-in that sends every request to the monitor's server, the program is the real one",
        "hashes in answers are made of letters and digits; no block holds a key that is not below its modulus (finding of C16)",
        "whether a text is a block is decided by the types (C17)",
    ]);
    for k in ["runs", "killed_runs", "runs_out_of_space", "runs_after_a_crash", "runs_without_a_list", "kept_good", "kept_bad", "unavailable", "full_concurrency"] {
        r.require(k, 30);
    }
    let exe = std::env::current_exe().unwrap().with_file_name("crawler-run").to_string_lossy().into_owned();
    r.par(mon::threads(), move |sh| {
        let (srv, base) = (Server::new(), bases());
        if base.good.len() < 2 {
            sh.violation("the shipped blocks are no blocks to the types")
        }
        for _ in 0..if sh.thorough() { 1_800 } else { 90 } {
            history(sh, &srv, &base, &exe)
        }
    });
    r.finish();
}
