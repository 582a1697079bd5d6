//! What the pages of the browser wallets ask for, and what their node is then asked: the real exported functions with
//! a node made up by the monitor, which parses what it gets as GraphQL and answers, or does not.
use crate::c25::{proof, Proof};
use crate::c31::{daemon_with, endpoints, some, World, ALWAYS};
use crate::exec::{now, pause, End, Exec};
use crate::graphql;
use crate::node::*;
use crate::processor::js::graphql_api_berkeley::*;
use crate::processor::*;
use crate::{js_exports as berkeley, logger, mvp_payment as mvp, payment};
use js_sys::Array;
use mina_rs_base::types::*;
use mon::{fnv, Rng, Shard};
use serde_json::{json, Map, Value as J};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;
use wasm_bindgen::{hook, Call, Hook, JsError, JsValue};

const LOCAL: &str = "http://localhost:3085/graphql";
/// One request that the node got, and what came of it: an answer, or nothing of use.
#[derive(Clone, Debug)]
struct Seen {
    url: String,
    what: String,
    args: BTreeMap<String, String>,
    reply: Option<J>,
    used: bool,
}
#[derive(Default)]
struct Page {
    seen: Vec<Seen>,
    /// requests that no node understands
    strange: Vec<String>,
    console: Vec<String>,
    world: Option<World>,
}
type Shared = Rc<RefCell<Page>>;
/// Arguments as texts; what is null is not there.
fn flat(args: &Map<String, J>) -> Result<BTreeMap<String, String>, String> {
    let mut out = BTreeMap::new();
    for (n, v) in args {
        let number = ["fee", "amount", "nonce", "validUntil"].contains(&n.as_str());
        let text = match v {
            J::Null => continue,
            J::String(s) if number => s.parse::<u64>().map_err(|_| format!("{n} is the text {s:?}"))?.to_string(),
            J::String(s) if s.starts_with('\u{1}') => return Err(format!("{n} is not a text")),
            J::String(s) => s.clone(),
            J::Number(x) if number && x.is_u64() => x.to_string(),
            v => return Err(format!("{n} is {v}")),
        };
        out.insert(n.clone(), text);
    }
    Ok(out)
}
fn nodes_answer(r: &mut Rng, what: &str, args: &BTreeMap<String, String>) -> J {
    let get = |k: &str| args.get(k).cloned().unwrap_or_default();
    match what {
        "sendPayment" => json!({"payment": {
            "id": format!("Av{:x}", r.next()), "hash": format!("5J{:x}", r.next()), "nonce": r.below(1000), "memo": get("memo"), "fee": get("fee"), "amount": get("amount"),
            "to": get("to"), "from": get("from"), "kind": "PAYMENT", "isDelegation": false,
        }}),
        "account" => match r.chance(1, 8) {
            true => J::Null,
            false => json!({
                "balance": {"total": r.next().to_string(), "liquid": "0", "locked": "0", "unknown": "0", "blockHeight": r.below(1 << 32).to_string()},
                "inferredNonce": r.below(1 << 32).to_string(), "nonce": r.below(1 << 32).to_string(), "locked": r.bool(), "publicKey": get("publicKey"),
            }),
        },
        _ => json!({"publicKey": get("publicKey"), "account": {"publicKey": get("publicKey"), "locked": r.bool(), "nonce": "7"}}),
    }
}
/// Takes a request for what it says.
fn understand(r: &mut Rng, kind: Option<&str>, body: &str) -> Result<(String, BTreeMap<String, String>, J), String> {
    if kind.map(|k| k.split(';').next().unwrap().trim()) != Some("application/json") {
        return Err(format!("the content type is {kind:?}"));
    }
    let mut asked = vec![];
    let mut root = |name: &str, args: &std::collections::HashMap<String, J>| {
        let input = match name {
            "sendPayment" | "lockAccount" | "unlockAccount" => match (args.len(), args.get("input")) {
                (1, Some(J::Object(o))) => o.clone(),
                _ => return Err(format!("{name} is given {args:?}")),
            },
            "account" => args.clone().into_iter().collect(),
            _ => return Err(format!("Cannot query field {name}")),
        };
        let args = flat(&input)?;
        let a = nodes_answer(r, name, &args);
        asked.push((name.to_string(), args));
        Ok(a)
    };
    let got = match graphql::answer_to("mutation", body, &[], &mut root) {
        Ok(d) if asked.iter().all(|a| a.0 != "account") => Ok(d),
        _ => {
            asked.clear();
            let mut root = |name: &str, args: &std::collections::HashMap<String, J>| match name {
                "account" => {
                    let args = flat(&args.clone().into_iter().collect())?;
                    let a = nodes_answer(r, name, &args);
                    asked.push((name.to_string(), args));
                    Ok(a)
                }
                _ => Err(format!("Cannot query field {name}")),
            };
            graphql::answer_to("query", body, &[], &mut root)
        }
    };
    let data = match got {
        Ok(d) => d,
        Err(e) => return Err(e),
    };
    match asked.len() {
        1 => {
            let (n, a) = asked.pop().unwrap();
            Ok((n, a, data))
        }
        n => Err(format!("it asks for {n} things")),
    }
}
fn plug(node: &Rc<RefCell<Node>>, page: &Shared, r: &mut Rng) {
    let (node, page, mut r, mut r2) = (node.clone(), page.clone(), Rng::new(r.next()), Rng::new(r.next()));
    let pauses = Box::new(move || if r.bool() { 0 } else { r.below(4) });
    let run = Box::new(move |c: Call| {
        let mut p = page.borrow_mut();
        match c.module {
            "console" => {
                p.console.push(c.args.iter().map(|a| a.as_string().unwrap_or_default()).collect());
                Ok(JsValue::Undefined)
            }
            "reqwest" => {
                let text = |i: usize| c.args[i].as_string();
                let (url, kind, body) = (text(0).unwrap(), text(1), text(2).unwrap());
                let said = if c.name == "POST" { understand(&mut r2, kind.as_deref(), &body) } else { Err("no POST".into()) };
                let (what, args, data) = match said {
                    Ok(s) => s,
                    Err(e) => {
                        p.strange.push(format!("{e}: {} {url} {body}", c.name));
                        return Ok(JsValue::List(vec![400f64.into(), json!({"errors": [{"message": e}]}).to_string().into()]));
                    }
                };
                let (status, body, reply) = match r2.below(16) {
                    0 => (0, None, None),
                    1 => (200, None, None),
                    2 => (*r2.pick(&[200, 502]), Some("<html>Bad Gateway</html>".to_string()), None),
                    3 => (*r2.pick(&[200, 503]), Some(String::new()), None),
                    4 => (200, Some(format!("{}}}", json!({ "data": data }))), None),
                    5 => {
                        let t = json!({ "data": data }).to_string();
                        (200, Some(t[..t.len() - 1].to_string()), None)
                    }
                    6 | 7 => {
                        let e = json!([{"message": format!("Couldn't do it: \"{}\"", r2.below(1000)), "path": [what]}]);
                        let a = match r2.below(4) {
                            0 => json!({"errors": e, "data": null}),
                            1 => json!({ "errors": e }),
                            2 => json!({"errors": e, "data": data}),
                            _ => json!({"data": {what.as_str(): null}, "errors": e, "extensions": {"cost": r2.below(9)}}),
                        };
                        (200, Some(a.to_string()), Some(a))
                    }
                    8 => {
                        let a = json!({ "data": data });
                        (200, Some(serde_json::to_string_pretty(&a).unwrap()), Some(a))
                    }
                    _ => {
                        let a = json!({ "data": data });
                        (200, Some(a.to_string()), Some(a))
                    }
                };
                p.seen.push(Seen { url, what, args, reply, used: false });
                match status {
                    0 => Err("error sending request".into()),
                    s => Ok(JsValue::List(vec![(s as f64).into(), body.map_or(JsValue::Undefined, JsValue::Str)])),
                }
            }
            m => {
                let path = if m.starts_with("inline:") { m.to_string() } else { format!("{}/network{m}", mon::repo_dir()) };
                node.borrow_mut().call(&path, c.name, &c.args, &mut |q| match p.world.as_mut() {
                    Some(w) => w.reply(q),
                    None => Reply::Lost("no network"),
                })
            }
        }
    });
    hook(Some(Hook { pauses, run }))
}

const HOSTILE: &[&str] = &[
    "\"", "\\", "\\\"", "\"}) { account { locked } } sendPayment(input: {fee: \"1", "line\nline", "tab\tcr\r", "nul\u{0}x", "é\u{2028}\u{feff}", "😀", "{}", "{{0}}", "$x", "%22", "#", "'", "\"\"\"", "\\u0022", "\u{7f}", "a\u{1}",
];
/// What somebody may type.
fn words(r: &mut Rng) -> String {
    let mut s = String::new();
    for _ in 0..r.below(4) {
        match r.below(3) {
            0 => s.push_str(r.pick(HOSTILE)),
            _ => (0..r.below(9)).for_each(|_| s.push((b' ' + r.below(95) as u8) as char)),
        }
    }
    s
}
fn address(r: &mut Rng) -> String {
    const C: &[u8] = b"123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
    match r.chance(1, 5) {
        true => words(r),
        false => format!("B62q{}", (0..51).map(|_| *r.pick(C) as char).collect::<String>()),
    }
}
/// A number as pages give them, and what it stands for if it is one below the limit.
fn number(r: &mut Rng, bits: u32) -> (JsValue, Option<u64>) {
    let max = if bits == 64 { u64::MAX } else { (1 << bits) - 1 };
    let n = match r.below(6) {
        0 => r.below(3),
        1 => max - r.below(3),
        2 => 1 << r.below(bits as u64),
        3 => (1 << 53) - r.below(3),
        _ => r.next() >> r.below(64),
    } & max;
    match r.below(16) {
        0..=4 => (JsValue::Str(n.to_string()), Some(n)),
        5..=7 => (JsValue::Big(n.to_string()), Some(n)),
        8..=11 => {
            let n = n & ((1 << 53) - 1);
            (JsValue::Num(n as f64), Some(n))
        }
        12 => (JsValue::Str(format!("{}{n}", r.pick(&["0", "000"]))), Some(n)),
        13 => (JsValue::Num(*r.pick(&[-1.0, 0.5, 1.5, f64::NAN, f64::INFINITY, 1e21, -1e-9, 1e300, 3e-7])), None),
        14 => (JsValue::Big(r.pick(&["-1", "18446744073709551616", "-18446744073709551615", "340282366920938463463374607431768211456"]).to_string()), None),
        _ => (r.pick(&["1.5", "1,5", "-1", "abc", "0x1F", "1e3", "18446744073709551616", "99999999999999999999999", "1 000", "5 ", " 5", "NaN", "１", "\"", "1\n"]).to_string().into(), None),
    }
}
/// A text for a number that leaves it open, or none.
fn nothing(r: &mut Rng) -> JsValue {
    r.pick(&[JsValue::Undefined, JsValue::Null]).clone()
}
#[derive(Debug, Clone)]
struct Op {
    mvp: bool,
    what: &'static str,
    url: String,
    texts: Vec<String>,
    payment: Vec<(String, JsValue)>,
    /// none if it must be refused
    args: Option<BTreeMap<String, String>>,
}
fn op(r: &mut Rng) -> Op {
    let mvp = r.bool();
    let url = match mvp {
        true => LOCAL.to_string(),
        false => r.pick(&[LOCAL, "http://127.0.0.1:3085/graphql", "https://node.example/graphql?network=berkeley", "http://[::1]:3085/"]).to_string(),
    };
    let mut o = Op { mvp, what: "", url, texts: vec![], payment: vec![], args: None };
    let mut args = BTreeMap::new();
    match r.below(if mvp { 7 } else { 6 }) {
        0 => {
            o.what = "lockAccount";
            o.texts = vec![address(r)];
            args.insert("publicKey".to_string(), o.texts[0].clone());
            o.args = Some(args);
        }
        1 | 2 => {
            o.what = "unlockAccount";
            o.texts = vec![address(r), words(r)];
            args.insert("publicKey".to_string(), o.texts[0].clone());
            args.insert("password".to_string(), o.texts[1].clone());
            o.args = Some(args);
        }
        3..=5 => {
            o.what = "sendPayment";
            let mut good = true;
            for k in ["to", "from"] {
                let a = address(r);
                args.insert(k.into(), a.clone());
                o.payment.push((k.into(), a.into()));
            }
            for k in ["fee", "amount"] {
                let (mut v, mut n) = number(r, 64);
                if r.chance(1, 30) {
                    (v, n) = (if r.bool() { nothing(r) } else { JsValue::Bool(true) }, None)
                }
                good &= n.is_some();
                args.insert(k.into(), n.unwrap_or(0).to_string());
                o.payment.push((k.into(), v));
            }
            match r.below(3) {
                0 => o.payment.push(("nonce".into(), nothing(r))),
                1 => {
                    let any = r.next() as u32;
                    let n = *r.pick(&[0, 1, u32::MAX, any, 1 << 31]);
                    args.insert("nonce".into(), n.to_string());
                    o.payment.push(("nonce".into(), n.into()));
                }
                _ => {}
            }
            match r.below(3) {
                0 => o.payment.push(("memo".into(), nothing(r))),
                1 => {
                    let m = words(r);
                    args.insert("memo".into(), m.clone());
                    o.payment.push(("memo".into(), m.into()));
                }
                _ => {}
            }
            match r.below(4) {
                0 => o.payment.push(("validUntil".into(), if r.bool() { "".into() } else { nothing(r) })),
                1 | 2 => {
                    // at times a number, but too large
                    let bits = if r.chance(1, 5) { 64 } else { 32 };
                    let (v, n) = number(r, bits);
                    good &= n.is_some_and(|n| n <= u32::MAX as u64);
                    args.insert("validUntil".into(), n.unwrap_or(0).to_string());
                    o.payment.push(("validUntil".into(), v));
                }
                _ => {}
            }
            // the order of an object's members tells nothing
            for i in (1..o.payment.len()).rev() {
                o.payment.swap(i, r.below(i as u64 + 1) as usize)
            }
            o.args = good.then_some(args);
        }
        _ => {
            o.what = "account";
            o.texts = vec![address(r)];
            args.insert("publicKey".to_string(), o.texts[0].clone());
            o.args = Some(args);
        }
    }
    o
}
async fn perform(o: Op) -> Result<String, JsError> {
    let t = |i: usize| o.texts[i].clone();
    let obj = JsValue::Object(o.payment.clone());
    match (o.mvp, o.what) {
        (false, "lockAccount") => berkeley::lock_account(o.url.clone(), t(0)).await,
        (false, "unlockAccount") => berkeley::unlock_account(o.url.clone(), t(0), t(1)).await,
        (false, _) => berkeley::send_payment(o.url.clone(), obj.into()).await,
        (true, "lockAccount") => mvp::lock_account(t(0)).await,
        (true, "unlockAccount") => mvp::unlock_account(t(0), t(1)).await,
        (true, "account") => mvp::account_info(t(0)).await,
        (true, _) => mvp::send_payment(obj.into()).await,
    }
}
/// An empty memo and none are the same payment.
fn same(a: &BTreeMap<String, String>, b: &BTreeMap<String, String>) -> bool {
    let f = |m: &BTreeMap<String, String>| {
        let mut m = m.clone();
        if m.get("memo").is_some_and(|t| t.is_empty()) {
            m.remove("memo");
        }
        m
    };
    f(a) == f(b)
}
/// Whether an answer tells what is asked for.
fn tells(what: &str, a: &J) -> bool {
    if !a["errors"].is_null() {
        return true;
    }
    let has = |p: &str| a.pointer(p).is_some_and(|v| !v.is_null());
    match what {
        "sendPayment" => has("/data/sendPayment/payment/id"),
        "account" => a.pointer("/data/account") == Some(&J::Null) || has("/data/account/balance/total") && has("/data/account/inferredNonce") && has("/data/account/locked"),
        w => has(&format!("/data/{w}/account/locked")),
    }
}
fn pages(sh: &mut Shard, node: &Rc<RefCell<Node>>) {
    let ops: Vec<Op> = (0..1 + sh.rng.below(3)).map(|_| op(&mut sh.rng)).collect();
    sh.case(|| format!("pages at the same time: {ops:?}"));
    let page: Shared = Default::default();
    plug(node, &page, &mut sh.rng);
    let out = RefCell::new(vec![None; ops.len()]);
    let mut exec = Exec::default();
    for (i, o) in ops.iter().enumerate() {
        let (o, out) = (o.clone(), &out);
        let n = sh.rng.below(6);
        exec.add("page", async move {
            pause(n).await;
            let r = perform(o).await.map_err(|e| e.text().to_string());
            out.borrow_mut()[i] = Some(r)
        });
    }
    match mon::guarded(|| exec.run(&mut sh.rng, &|| false)) {
        Ok(End::Done) => {}
        Ok(e) => sh.violation(&format!("a page never gets its answer: {e:?}")),
        Err(e) => sh.violation(&format!("a page brings the wallet down: {e}; the node was asked {:?}", page.borrow().seen)),
    }
    drop(exec);
    let mut page = page.borrow_mut();
    if let Some(s) = page.strange.first() {
        sh.violation(&format!("the node does not understand what it is asked, {s}"))
    }
    for (o, got) in ops.iter().zip(out.into_inner()) {
        let got = got.unwrap();
        let Some(args) = &o.args else {
            sh.count("payments refused");
            if got.is_ok() {
                sh.violation(&format!("{o:?} is no payment, but got {got:?}"))
            }
            continue;
        };
        let fits = |s: &Seen| match (&s.reply, &got) {
            (None, Err(_)) => true,
            (Some(a), Ok(t)) => serde_json::from_str::<J>(t).is_ok_and(|t| t == *a),
            _ => false,
        };
        let mine: Vec<usize> = (0..page.seen.len()).filter(|i| !page.seen[*i].used && page.seen[*i].url == o.url && page.seen[*i].what == o.what && same(&page.seen[*i].args, args)).collect();
        if mine.is_empty() {
            sh.violation(&format!("{o:?} was not asked of the node (and gave {got:?}), which saw {:?}", page.seen))
        }
        let Some(i) = mine.into_iter().find(|i| fits(&page.seen[*i])) else { sh.violation(&format!("{o:?} gave {got:?}, but the node saw {:?}", page.seen)) };
        page.seen[i].used = true;
        match &page.seen[i].reply {
            None => sh.count("answers that cannot be had"),
            Some(a) if !tells(o.what, a) => sh.violation(&format!("{o:?} does not ask for what it is about: the answer is {a}")),
            Some(_) => sh.count("answers given back"),
        }
        sh.count(o.what);
        for (k, c) in [("nonce", "payments with nonce"), ("memo", "payments with memo"), ("validUntil", "payments with validUntil")] {
            if args.contains_key(k) {
                sh.count(c)
            }
        }
        if o.texts.iter().chain(args.values()).any(|t| t.contains('"') || t.contains('\\')) {
            sh.count("requests with quotes in texts")
        }
    }
    if let Some(s) = page.seen.iter().find(|s| !s.used) {
        sh.violation(&format!("the node was asked something else or twice: {s:?} of {:?}", page.seen))
    }
    sh.sample(|| json!({"asked": page.seen.iter().map(|s| format!("{} {:?}", s.what, s.args)).collect::<Vec<_>>()}));
    sh.observed(fnv(format!("{ops:?}{:?}", page.seen).as_bytes()), !page.seen.is_empty());
}

/// The log that the wallet shows has every record of debug and above once, whole and in order.
fn logs(sh: &mut Shard, node: &Rc<RefCell<Node>>) {
    let page: Shared = Default::default();
    plug(node, &page, &mut sh.rng);
    let r = &mut sh.rng;
    let mut said = vec![];
    let before = logger::get_log_text();
    let clear = r.chance(3, 4);
    if clear {
        logger::clear_log();
        if !logger::get_log_text().is_empty() {
            mon::violation("the log is not empty after it was cleared")
        }
    }
    for _ in 0..r.below(12) {
        use log::Level::*;
        let level = *r.pick(&[Error, Warn, Info, Debug, Trace]);
        let (target, text) = (r.pick(&["wallet", "a::b::c", "", "x y"]).to_string(), words(r));
        match r.bool() {
            true => log::log!(target: &target, level, "{text}"),
            // a call that no macro has looked at
            false => log::logger().log(&log::Record::builder().level(level).target(&target).args(format_args!("{text}")).build()),
        }
        if level != Trace {
            said.push(format!("[{level}][{target}]: {text}"))
        }
    }
    let want = format!("{}{}", if clear { "" } else { &before }, said.iter().map(|s| format!("\n{s}")).collect::<String>());
    let got = logger::get_log_text();
    sh.case(|| format!("log {said:?}"));
    if got.trim_start_matches('\n') != want.trim_start_matches('\n') {
        sh.violation(&format!("the log is {got:?} instead of {want:?}"))
    }
    if page.borrow().console != said {
        sh.violation(&format!("the console got {:?} instead of {said:?}", page.borrow().console))
    }
    sh.count_n("log records", said.len() as u64);
    sh.observed(fnv(got.as_bytes()), !said.is_empty());
}

type Twin = NetworkMessageProcessor<J, <NaiveTransitionFrontier<ProtocolState, MerkleProofBerkeleyNet> as TransitionFrontier>::Block, NaiveTransitionFrontier<ProtocolState, MerkleProofBerkeleyNet>, NonConsensusGraphQLBerkeleyBackend>;
/// The exported functions steer the wallet's one processor as its own interface steers another that sees the same.
fn frontier(sh: &mut Shard, node: &Rc<RefCell<Node>>, twin: &Twin) {
    let r = &mut sh.rng;
    let keys: Vec<Proof> = (0..r.below(5)).map(|_| proof(r)).collect();
    let urls = endpoints(r);
    let page: Shared = Default::default();
    page.borrow_mut().world = Some(World::new(Rng::new(r.next())));
    plug(node, &page, r);
    let mut r2 = Rng::new(r.next());
    let (counts, p) = (RefCell::new(vec![]), page.clone());
    let list = |l: &[String]| l.iter().map(|s| JsValue::Str(s.clone())).collect::<Array>();
    let mut exec = Exec::default();
    exec.add("run", berkeley::run_processor());
    exec.add("twin", twin.run());
    exec.add("page", async {
        let r = &mut r2;
        // of several endpoints each may be asked first, so that they tell the same
        let mut several = false;
        for n in 0..20 {
            match if n == 0 { 0 } else { r.below(6) } {
                0 => {
                    let l = match r.below(6) {
                        0 => vec![],
                        1 | 2 => some(r, &urls),
                        _ => vec![r.pick(&urls).clone()],
                    };
                    several = l.len() > 1;
                    if several {
                        let mut p = p.borrow_mut();
                        let d = &mut p.world.as_mut().unwrap().daemons;
                        if let Some(one) = urls.iter().find_map(|u| d.get(u)).cloned() {
                            d.extend(urls.iter().map(|u| (u.clone(), one.clone())))
                        }
                    }
                    twin.nonconsensus_ops_mut().await.set_api_list(l.clone().into_iter());
                    if !matches!(berkeley::set_api_list(list(&l)).await, Ok(true)) {
                        mon::violation("setting the endpoints failed")
                    }
                }
                1 => {
                    let l = some(r, &keys.iter().map(|k| k.address.clone()).collect::<Vec<_>>());
                    twin.nonconsensus_ops_mut().await.set_tracking_accounts(l.clone().into_iter());
                    if !matches!(berkeley::set_tracking_accounts(list(&l)).await, Ok(true)) {
                        mon::violation("setting the accounts failed")
                    }
                }
                2 => {
                    let best = twin.transition_frontier().await.get_best_chain().top().cloned();
                    let state = match best {
                        // one that the rules prefer, often
                        Some(mut s) if !r.chance(1, 4) => {
                            let n = &mut s.body.consensus_state.blockchain_length.0;
                            *n = n.saturating_add(r.below(4) as u32);
                            s
                        }
                        _ => crate::c24::told(r),
                    };
                    let (u, d) = (r.pick(&urls).clone(), daemon_with(r, &keys, state));
                    let at = if several { urls.clone() } else { vec![u] };
                    p.borrow_mut().world.as_mut().unwrap().daemons.extend(at.into_iter().map(|u| (u, d.clone())));
                }
                _ => {
                    let fault = r.chance(1, 4);
                    let mut results = vec![];
                    let mut seen = vec![];
                    for mine in [false, true] {
                        {
                            let mut p = p.borrow_mut();
                            let w = p.world.as_mut().unwrap();
                            w.left.clear();
                            if fault {
                                w.left.extend(urls.iter().map(|u| (u.clone(), ALWAYS)));
                            }
                            w.seen.clear();
                        }
                        results.push(match mine {
                            true => berkeley::poll_latest_blocks_once().await.is_ok(),
                            false => twin.nonconsensus_ops().await.poll_latest_once().await.is_ok(),
                        });
                        pause(60).await;
                        let mut s = p.borrow().world.as_ref().unwrap().seen.iter().map(|s| format!("{s:?}")).collect::<Vec<_>>();
                        if several {
                            s.sort();
                        }
                        seen.push(s)
                    }
                    if several && results[0] && seen[0].len() > 1 {
                        counts.borrow_mut().push("polls of several endpoints")
                    }
                    if results[0] != results[1] || seen[0] != seen[1] && (!several || results[0]) {
                        mon::violation(&format!("a poll of the page gives {} with the requests {:?}, one of a processor {} with {:?}", results[1], seen[1], results[0], seen[0]))
                    }
                    counts.borrow_mut().push(if results[0] { "polls of the wallet" } else { "polls of the wallet that fail" });
                }
            }
            let (hash, state, proofs) = (berkeley::get_best_chain_state_hash().await, berkeley::get_best_chain_state().await.is_some(), berkeley::get_sparse_merkle_ledger().await.length() as usize);
            let t = twin.transition_frontier().await;
            let want = (t.get_best_chain().state_hash().map(|h| h.to_string()), t.get_best_chain().top().is_some(), t.get_sparse_merkle_ledger().len());
            if (hash.clone(), state, proofs) != want {
                mon::violation(&format!("the page sees the best block {hash:?}, a state {state} and {proofs} accounts, but the frontier has {want:?}"))
            }
            counts.borrow_mut().push(if hash.is_some() { "views of a chain" } else { "views of no chain" });
            if proofs > 0 {
                counts.borrow_mut().push("views of accounts")
            }
        }
    });
    match mon::guarded(|| exec.run(&mut sh.rng, &|| false)) {
        Ok(End::Stuck(s)) if s == ["run", "twin"] => {}
        Ok(e) => sh.violation(&format!("the wallet does not get on: {e:?}")),
        Err(e) => sh.violation(&format!("the wallet panicked: {e}")),
    }
    drop(exec);
    for c in counts.into_inner() {
        sh.count(c)
    }
    let hash = now(berkeley::get_best_chain_state_hash());
    sh.observed(fnv(format!("{hash:?}{:?}", page.borrow().world.as_ref().unwrap().seen).as_bytes()), true);
}
pub fn run() {
    let run = mon::start(
        "C32",
        "exploration",
        "each set of page requests with what the node saw and answered counts once",
        &[
            "the exported functions are compiled from their real source for this machine, with stand-ins for the bindings to JavaScript that call the real JavaScript in Node, and for reqwest",
            "the node is the monitor's and takes requests as the GraphQL grammar says",
        ],
    );
    run.par(mon::threads(), move |sh| {
        let node = Rc::new(RefCell::new(Node::start()));
        plug(&node, &Default::default(), &mut sh.rng);
        if sh.index == 0 {
            if berkeley::init_logger().is_err() || log::max_level() != log::LevelFilter::Debug {
                mon::violation("the logger is not set, or to another level")
            }
            let twin = Twin::new(NaiveTransitionFrontier::new(), NonConsensusGraphQLBerkeleyBackend::new());
            for _ in 0..if sh.thorough() { 2_000 } else { 150 } {
                sh.beat();
                frontier(sh, &node, &twin);
                logs(sh, &node);
            }
            return;
        }
        for _ in 0..if sh.thorough() { 80_000 } else { 5_000 } {
            sh.beat();
            pages(sh, &node);
        }
    });
    for k in ["sendPayment", "lockAccount", "unlockAccount", "account", "payments refused", "payments with nonce", "payments with memo", "payments with validUntil", "requests with quotes in texts", "answers given back", "answers that cannot be had", "log records"] {
        run.require(k, 200);
    }
    for k in ["polls of the wallet", "polls of the wallet that fail", "polls of several endpoints", "views of a chain", "views of accounts"] {
        run.require(k, 20);
    }
    run.finish()
}
