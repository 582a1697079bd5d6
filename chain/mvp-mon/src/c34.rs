//! The MVP wallet's page for its proxy: what it asks of the module, and what it shows of what it is told.
use crate::c33::{text_of, Status, NAMES};
use mon::{fnv, Rng, Shard};
use serde_json::{json, Value as J};
use std::io::{BufRead, BufReader, Write};
use std::process::*;

struct Page {
    child: Child,
    to: ChildStdin,
    from: BufReader<ChildStdout>,
}
impl Page {
    fn start() -> Page {
        let mut c = Command::new("node").arg("-e").arg(include_str!("pages.js")).arg(mon::repo_dir()).env_remove("NODE_OPTIONS").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().unwrap_or_else(|e| {
            eprintln!("HARNESS-ERROR: node does not start: {e}");
            exit(2)
        });
        Page { to: c.stdin.take().unwrap(), from: BufReader::new(c.stdout.take().unwrap()), child: c }
    }
    fn history(&mut self, ops: &[J]) -> J {
        let mut line = String::new();
        let sent = writeln!(self.to, "{}", json!(ops)).and_then(|_| self.to.flush());
        match sent.and_then(|_| self.from.read_line(&mut line)) {
            Ok(1..) => serde_json::from_str(&line).unwrap(),
            _ => {
                let _ = self.child.wait();
                mon::violation("the page ended its process")
            }
        }
    }
}
fn int(n: u64, b: &mut Vec<u8>) {
    let mut n = n;
    while n > 127 {
        b.push(n as u8 | 128);
        n >>= 7
    }
    b.push(n as u8)
}
/// Any of the encodings of a status.
fn encode(s: &Status, r: &mut Rng) -> Vec<u8> {
    let mut parts: Vec<Vec<u8>> = vec![];
    let explicit = r.chance(1, 4);
    if s.connected || explicit {
        parts.push(vec![8, s.connected as u8])
    }
    for (i, t) in s.texts.iter().enumerate() {
        if !t.is_empty() || explicit {
            let mut b = vec![18 + 8 * i as u8];
            int(t.len() as u64, &mut b);
            b.extend(t.as_bytes());
            parts.push(b)
        }
    }
    if s.uptime != 0 || explicit {
        let mut b = vec![48];
        int(s.uptime as u64, &mut b);
        parts.push(b)
    }
    if r.chance(1, 4) {
        // of a later version of the message
        let k = 7 + r.below(300);
        let mut b = vec![];
        match r.below(4) {
            0 => {
                int(k << 3, &mut b);
                int(r.next() >> r.below(64), &mut b)
            }
            1 => {
                int(k << 3 | 1, &mut b);
                b.extend(r.next().to_le_bytes())
            }
            2 => {
                int(k << 3 | 2, &mut b);
                let n = r.below(200);
                int(n, &mut b);
                (0..n).for_each(|_| b.push(r.next() as u8))
            }
            _ => {
                int(k << 3 | 5, &mut b);
                b.extend((r.next() as u32).to_le_bytes())
            }
        }
        parts.push(b)
    }
    if r.chance(1, 2) {
        for i in (1..parts.len()).rev() {
            parts.swap(i, r.below(i as u64 + 1) as usize)
        }
    }
    parts.concat()
}
fn broken(s: &Status, r: &mut Rng) -> Vec<u8> {
    let mut b = encode(s, r);
    match r.below(3) {
        0 => b.extend([18, 200, 1, b'x']),
        1 => b.extend([167, 1]),
        _ => b.extend([48, 255]),
    }
    b
}
fn text(r: &mut Rng) -> String {
    match r.below(6) {
        0 => (0..r.range(1, 9)).map(|_| r.pick(&['\u{7f}', '\u{80}', '\u{7ff}', '\u{800}', '\u{d7ff}', '\u{e000}', '\u{ffff}', '\u{10000}', '\u{fffff}', '\u{10ffff}'])).collect(),
        _ => text_of(r),
    }
}
fn address(r: &mut Rng) -> String {
    match r.below(4) {
        0 => r.pick(&["", "/ip4/127.0.0.1/tcp/23333/ws", "é", "😀", "\u{7ff}\u{800}\u{ffff}\u{10000}\u{10ffff}", "\u{0}", " /x "]).to_string(),
        1 => (0..r.below(300)).map(|_| r.pick(&['a', '/', '"', '\\', 'ß', '漢', '🦀', '\n'])).collect(),
        _ => format!("/dns4/{}/tcp/{}/ws", text_of(r).trim(), r.below(70_000)),
    }
}
fn history(sh: &mut Shard, page: &mut Page) {
    let r = &mut sh.rng;
    let pool: Vec<String> = (0..1 + r.below(6)).map(|i| format!("12D3Koo{}{i}", r.pick(&["W", "é", "\"<b>", "x y", "漢"]))).collect();
    let (mut ops, mut connects, mut alerts, mut looks) = (vec![], vec![], vec![], vec![]);
    let mut address_now = None;
    let (mut loaded, mut listening) = (false, false);
    let mut peers: Vec<Status> = vec![];
    let (mut told, mut no_message) = (0, 0);
    let soon = r.chance(2, 3);
    for i in 0..r.range(6, 30) {
        match if soon && i < 3 { i as u64 } else { r.below(16) } {
            0 => {
                ops.push(json!(["load", null]));
                loaded = true
            }
            1 => {
                let a = address(r);
                ops.push(json!(["address", a]));
                address_now = Some(a)
            }
            2 | 3 => {
                // the address that the page starts with is its own
                let Some(a) = &address_now else { continue };
                let fails = r.chance(1, 4);
                ops.push(json!(["connect", fails.then_some("not reached")]));
                if loaded {
                    connects.push(json!({"address": a, "heard": true}));
                    listening = true;
                    peers.clear();
                    if fails {
                        alerts.push("not reached")
                    }
                }
            }
            4 => ops.push(json!(["update", hex(&broken(&peers.first().cloned().unwrap_or(Status { connected: true, texts: [text_of(r), text_of(r), text_of(r), text_of(r)], uptime: 1 }), r))])),
            _ => {
                let any = r.next() as i64;
                let uptime = *r.pick(&[0, 1, 127, 128, 300, 16_384, i32::MAX as i64, i32::MAX as i64 + 1, u32::MAX as i64 + 1, -1, i64::MAX, i64::MIN, any, any >> 20, any >> 40]);
                let s = Status { connected: r.bool(), texts: [r.pick(&pool).clone(), text(r), text(r), text(r)], uptime };
                ops.push(json!(["update", hex(&encode(&s, r))]));
                if listening {
                    told += 1;
                    match peers.iter_mut().find(|p| p.texts[0] == s.texts[0]) {
                        Some(p) => *p = s,
                        None => peers.push(s),
                    }
                }
            }
        }
        if ops.last().is_some_and(|o| o[0] == "update") && !listening {
            no_message += 1
        }
        if r.chance(1, 3) {
            ops.push(json!(["look", null]));
            looks.push(peers.clone())
        }
    }
    let case = json!(ops).to_string();
    sh.case(|| case.clone());
    let seen = page.history(&ops);
    if let Some(e) = seen["error"].as_str() {
        sh.violation(&format!("the page fails: {e}"))
    }
    let asked: Vec<J> = (seen["connects"].as_array().into_iter().flatten())
        .map(|c| json!({"address": address_of(c["bytes"].as_str().unwrap_or("")), "heard": c["heard"]}))
        .collect();
    if asked != connects {
        sh.violation(&format!("the module is asked for {} instead of {}", json!(asked), json!(connects)))
    }
    let got = seen["alerts"].as_array().unwrap();
    if got.len() != alerts.len() || got.iter().any(|a| !a.as_str().unwrap().contains("not reached")) {
        sh.violation(&format!("the user is told {got:?} of {} connections that fail", alerts.len()))
    }
    for (n, (l, want)) in seen["looks"].as_array().unwrap().iter().zip(&looks).enumerate() {
        let rows: Vec<Vec<&str>> = l["rows"].as_array().unwrap().iter().map(|r| r.as_array().unwrap().iter().map(|c| c.as_str().unwrap()).collect()).collect();
        let mut left = want.clone();
        let heads = rows.first().cloned().unwrap_or_default();
        for row in rows.iter().skip(1) {
            let cell = |name: &str| heads.iter().position(|h| *h == name).and_then(|i| row.get(i)).copied().unwrap_or("(no such column)");
            let fits = |s: &Status| {
                let same = |name: &str, t: &str| cell(name) == t.trim_matches(blank);
                same("id", &s.texts[0])
                    && NAMES[1..].iter().zip(&s.texts[1..]).all(|(n, t)| same(n, t))
                    && (same("connected", &s.connected.to_string()) || (!s.connected && cell("connected").is_empty()))
                    && (same("uptime_minutes", &s.uptime.to_string()) || (s.uptime == 0 && cell("uptime_minutes").is_empty()))
            };
            match left.iter().position(fits) {
                Some(i) => drop(left.remove(i)),
                None => sh.violation(&format!("look {n} shows the row {row:?}, but the peers are {left:?}")),
            }
        }
        if !left.is_empty() {
            sh.violation(&format!("look {n} does not show {left:?}"))
        }
        let text = l["text"].as_str().unwrap();
        let numbers: Vec<usize> = text.split("Peers(").nth(1).unwrap_or_default().split(')').next().unwrap().split(|c: char| !c.is_ascii_digit()).filter_map(|t| t.parse().ok()).collect();
        let counts = [want.iter().filter(|p| p.connected).count(), want.len()];
        if numbers != counts {
            sh.violation(&format!("look {n} counts {numbers:?} peers instead of {counts:?}"))
        }
        sh.count("looks");
        sh.count_n("rows", want.len() as u64)
    }
    if seen["looks"].as_array().unwrap().len() != looks.len() {
        sh.violation("a look is missing")
    }
    sh.count_n("connects", connects.len() as u64);
    sh.count_n("statuses told", told);
    sh.count_n("messages before anything listens", no_message);
    sh.sample(|| json!({"ops": ops.len(), "connects": connects.len()}));
    sh.observed(fnv(case.as_bytes()), looks.iter().any(|l| !l.is_empty()));
}
/// What JavaScript's trim takes away.
fn blank(c: char) -> bool {
    c.is_whitespace() || c == '\u{feff}'
}
pub fn run() {
    let run = mon::start(
        "C34",
        "exploration",
        "each history of clicks and messages counts once",
        &["the page's component, template and codecs are the real ones; its module, emitter, browser and Vue's runtime are stand-ins", "the proxy gives every peer an id that is no plain number"],
    );
    run.par(8, move |sh| {
        let mut page = Page::start();
        for _ in 0..if sh.thorough() { 12_000 } else { 400 } {
            sh.beat();
            history(sh, &mut page)
        }
    });
    for k in ["looks", "rows", "connects", "statuses told"] {
        run.require(k, 1_000);
    }
    run.finish()
}

/// All of them: the common one cuts what is long, for it is for messages.
fn hex(b: &[u8]) -> String {
    use std::fmt::Write;
    b.iter().fold(String::with_capacity(b.len() * 2), |mut s, x| {
        let _ = write!(s, "{x:02x}");
        s
    })
}

/// The address a connect request carries; nothing if it is none.
fn address_of(hex: &str) -> Option<String> {
    fn number(b: &mut &[u8]) -> Option<u64> {
        let mut n = 0;
        for shift in (0..64).step_by(7) {
            let (first, rest) = b.split_first()?;
            *b = rest;
            n |= u64::from(first & 127) << shift;
            if *first < 128 {
                return Some(n);
            }
        }
        None
    }
    let b: Option<Vec<u8>> = (0..hex.len()).step_by(2).map(|i| u8::from_str_radix(hex.get(i..i + 2)?, 16).ok()).collect();
    let (b, mut address) = (b?, String::new());
    let mut b = &b[..];
    while !b.is_empty() {
        if number(&mut b)? != 10 {
            return None;
        }
        let n = number(&mut b)? as usize;
        address = String::from_utf8(b.get(..n)?.to_vec()).ok()?;
        b = &b[n..];
    }
    Some(address)
}
