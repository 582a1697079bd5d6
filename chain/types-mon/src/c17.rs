//! The JSON form of blocks: a schema written independently of the types states the form
//! of every leaf, and the shipped blocks that exist in JSON pin the schema itself.
use crate::c16::block;
use crate::tree::*;
use mina_serialization_types::{json::*, v1::*};
use mon::{fnv, guarded, Rng, Shard};
use serde_json::{json, Value as J};
use std::collections::HashMap;
use std::rc::Rc;

/// Form of a value in JSON.
#[derive(Debug)]
pub enum S {
    Rec(Vec<(String, String, Rc<S>)>),
    Tup(Vec<Rc<S>>),
    List(Rc<S>),
    Opt(Rc<S>),
    /// list-tagged variants; the flag says that a tuple of arguments is spread in the list
    Sum(bool, Vec<(String, String, Vec<Rc<S>>)>),
    Hash(u8),
    Raw(u8),
    Leaf(&'static str),
}
/// Blocks in JSON. `a=b` is a field named a in the types and b in JSON; `@n` is the base58check form of a
/// hash with version byte n (hex), `#n` that of bare bytes; `<..>` are list-tagged variants.
const SCHEMA: &str = r#"
block = {protocol_state:pstate, protocol_state_proof:b64proof, staged_ledger_diff:{diff:(prediff,?prediff)},
  delta_transition_chain_proof:(@05,[@05])}
pstate = {previous_state_hash:@10, body:{genesis_state_hash:@10,
  blockchain_state:{staged_ledger_hash:{non_snark:{ledger_hash:@05,aux_hash:#0e,pending_coinbase_aux:#0f},pending_coinbase_hash:@0c},
    snarked_ledger_hash:@05,genesis_ledger_hash:@05,snarked_next_available_token:u64,timestamp:u64},
  consensus_state:{blockchain_length:u32,epoch_count:u32,min_window_density:u32,sub_window_densities:[u32],last_vrf_output:b64,
    total_currency:u64,curr_global_slot:{slot_number:u32,slots_per_epoch:u32},global_slot_since_genesis:u32,
    staking_epoch_data:epoch,next_epoch_data:epoch,has_ancestor_in_same_checkpoint_window:bool,
    block_stake_winner:pk,block_creator:pk,coinbase_receiver:pk,supercharge_coinbase:bool},
  constants:{k:u32,slots_per_epoch:u32,slots_per_sub_window:u32,delta:u32,genesis_state_timestamp:u64}}}
epoch = {ledger:{hash:@05,total_currency:u64},seed:@0d,start_checkpoint:@10,lock_checkpoint:@10,epoch_length:u32}
prediff = {completed_works:[{fee:amt,proofs:<One(snark)|Two(snark,snark)>,prover:pk}],
  commands:[{data:<SignedCommand=Signed_command(command)>,status:status}],
  coinbase:<Zero|One(?ft)|Two(?ft,?ft)>,
  internal_command_balances:[<CoinBase=Coinbase({coinbase_receiver_balance:u64,fee_transfer_receiver_balance:?u64})|FeeTransfer=Fee_transfer({receiver1_balance:u64,receiver2_balance:?u64})>]}
ft = {receiver_pk:pk,fee:amt}
command = {payload:{common:{fee:amt,fee_token:u64,fee_payer_pk:pk,nonce:xu32,valid_until:xu32,memo:#14},
    body:<!PaymentPayload=Payment({source_pk:pk,receiver_pk:pk,token_id:u64,amount:u64})|StakeDelegation=Stake_delegation(<SetDelegate=Set_delegate({delegator:pk,new_delegate:pk})>)>},
  signer:pk,signature:sig}
status = <Applied({fee_payer_account_creation_fee_paid:?u64,receiver_account_creation_fee_paid:?u64,created_token:?u64},bal)|Failed(fail,bal)>
bal = {fee_payer_balance:?u64,source_balance:?u64,receiver_balance:?u64}
fail = <Predicate|Source_not_present|Receiver_not_present|Amount_insufficient_to_create_account|Cannot_pay_creation_fee_in_token|Source_insufficient_balance|Source_minimum_balance_violation|Receiver_already_exists|Not_token_owner|Mismatched_token_permissions|Overflow|Signed_command_on_snapp_account|Snapp_account_not_present|Update_not_permitted|Incorrect_nonce>
snark = {statement:{source:@05,target:@05,supply_increase:u64,pending_coinbase_stack_state:{source:stack,target:stack},
    fee_excess:(fe,fe),next_available_token_before:u64,next_available_token_after:u64,sok_digest:str},transaction_snark_proof=proof:proof}
stack = {data_stack=data:@17,state_stack=state:{init:@18,curr:@18}}
fe = {token:u64,amount:{magnitude:amt,sgn:<Pos|Neg>}}
proof = {statement:{proof_state:{deferred_values:{plonk:{alpha:chal,beta:(num,num),gamma:(num,num),zeta:chal},combined_inner_product:shift,b:shift,xi:chal,
      bulletproof_challenges:c18,which_branch:char},
    sponge_digest_before_evaluations:(num,num,num,num),me_only:{sg:pt,old_bulletproof_challenges:(c17,c17)}},
    pass_through:{app_state:unit,sg:[pt],old_bulletproof_challenges:[c18]}},
  prev_evals:(evals,evals),prev_x_hat:pt,
  proof:{messages:{l_comm:[pt],r_comm:[pt],o_comm:[pt],z_comm:[pt],t_comm:{unshifted:[ecp],shifted:ecp}},
    openings:{proof:{lr:[(pt,pt)],z_1:hex,z_2:hex,delta:pt,sg:pt},evals:(evals,evals)}}}
chal = <!ScalarChallenge=Scalar_challenge((num,num))>
shift = <ShiftedValue=Shifted_value(hex)>
pt = (hex,hex)
ecp = <!Infinite|Finite(pt)>
pre = {prechallenge:chal}
c17 = (pre,pre,pre,pre,pre,pre,pre,pre,pre,pre,pre,pre,pre,pre,pre,pre,pre)
c18 = (pre,pre,pre,pre,pre,pre,pre,pre,pre,pre,pre,pre,pre,pre,pre,pre,pre,pre)
evals = {l:[hex],r:[hex],o:[hex],z:[hex],t:[hex],f:[hex],sigma1:[hex],sigma2:[hex]}
"#;
const LEAVES: &[&str] = &["u64", "u32", "xu32", "amt", "bool", "pk", "sig", "b64", "b64proof", "hex", "num", "str", "char", "unit"];

pub struct Schema {
    pub root: Rc<S>,
}
impl Schema {
    pub fn load() -> Schema {
        let mut src: Vec<(String, String)> = vec![];
        for line in SCHEMA.lines() {
            match line.split_once(" = ") {
                Some((n, d)) if !line.starts_with(' ') => src.push((n.into(), d.into())),
                _ if !line.trim().is_empty() => src.last_mut().unwrap().1.push_str(line),
                _ => {}
            }
        }
        let src: HashMap<String, String> = src.into_iter().collect();
        let mut done = HashMap::new();
        let root = named("block", &src, &mut done);
        Schema { root }
    }
}
fn named(n: &str, src: &HashMap<String, String>, done: &mut HashMap<String, Rc<S>>) -> Rc<S> {
    if let Some(l) = LEAVES.iter().find(|l| **l == n) {
        return Rc::new(S::Leaf(l));
    }
    if let Some(s) = done.get(n) {
        return s.clone();
    }
    let d: Vec<char> = src.get(n).unwrap_or_else(|| die(&format!("schema: no {n}"))).chars().filter(|c| !c.is_whitespace()).collect();
    let mut p = 0;
    let s = parse(&d, &mut p, src, done);
    if p != d.len() {
        die(&format!("schema {n}: junk at {p}"))
    }
    done.insert(n.into(), s.clone());
    s
}
fn word(d: &[char], p: &mut usize) -> String {
    let s = *p;
    while *p < d.len() && (d[*p].is_alphanumeric() || d[*p] == '_') {
        *p += 1
    }
    d[s..*p].iter().collect()
}
fn eat(d: &[char], p: &mut usize, c: char) -> bool {
    let y = d.get(*p) == Some(&c);
    *p += y as usize;
    y
}
fn names(d: &[char], p: &mut usize) -> (String, String) {
    let a = word(d, p);
    let b = if eat(d, p, '=') { word(d, p) } else { a.clone() };
    (a, b)
}
fn parse(d: &[char], p: &mut usize, src: &HashMap<String, String>, done: &mut HashMap<String, Rc<S>>) -> Rc<S> {
    let mut list = |p: &mut usize, close: char| {
        let mut v = vec![];
        loop {
            v.push(parse(d, p, src, done));
            if eat(d, p, close) {
                return v;
            }
            if !eat(d, p, ',') {
                die(&format!("schema: {close} expected at {p}"))
            }
        }
    };
    let version = |p: &mut usize| u8::from_str_radix(&word(d, p), 16).unwrap_or_else(|_| die("schema: version"));
    if eat(d, p, '(') {
        Rc::new(S::Tup(list(p, ')')))
    } else if eat(d, p, '[') {
        Rc::new(S::List(list(p, ']').remove(0)))
    } else if eat(d, p, '?') {
        Rc::new(S::Opt(parse(d, p, src, done)))
    } else if eat(d, p, '@') {
        Rc::new(S::Hash(version(p)))
    } else if eat(d, p, '#') {
        Rc::new(S::Raw(version(p)))
    } else if eat(d, p, '{') {
        let mut f = vec![];
        loop {
            let (a, b) = names(d, p);
            if !eat(d, p, ':') {
                die(&format!("schema: : expected after {a}"))
            }
            f.push((a, b, parse(d, p, src, done)));
            if eat(d, p, '}') {
                return Rc::new(S::Rec(f));
            }
            if !eat(d, p, ',') {
                die("schema: , expected")
            }
        }
    } else if eat(d, p, '<') {
        let spread = !eat(d, p, '!');
        let mut f = vec![];
        loop {
            let (a, b) = names(d, p);
            let args = if eat(d, p, '(') { list2(d, p, src, done) } else { vec![] };
            f.push((a, b, args));
            if eat(d, p, '>') {
                return Rc::new(S::Sum(spread, f));
            }
            if !eat(d, p, '|') {
                die("schema: | expected")
            }
        }
    } else {
        let n = word(d, p);
        named(&n, src, done)
    }
}
fn list2(d: &[char], p: &mut usize, src: &HashMap<String, String>, done: &mut HashMap<String, Rc<S>>) -> Vec<Rc<S>> {
    let mut v = vec![];
    loop {
        v.push(parse(d, p, src, done));
        if eat(d, p, ')') {
            return v;
        }
        if !eat(d, p, ',') {
            die("schema: ) expected")
        }
    }
}
pub fn b58(version: u8, data: &[u8]) -> String {
    bs58::encode(data).with_check_version(version).into_string()
}
pub fn amount_text(n: u64) -> String {
    let (q, mut r) = (n / 1_000_000_000, n % 1_000_000_000);
    if r == 0 {
        return q.to_string();
    }
    let mut w = 9;
    while r % 10 == 0 {
        r /= 10;
        w -= 1;
    }
    format!("{q}.{r:0w$}")
}
fn bytes(j: &J) -> Vec<u8> {
    j.as_array().unwrap_or_else(|| die("bytes expected")).iter().map(|x| x.as_u64().unwrap() as u8).collect()
}
pub fn unwrap_versions(mut j: &J) -> &J {
    while let (Some(t), Some(_), 2) = (j.get("t"), j.get("version"), j.as_object().map_or(0, |o| o.len())) {
        j = t;
    }
    j
}
/// The JSON that the tree of a typed value must have. `proof` is the encoding of the proof of the block.
pub fn expected(s: &S, tree: &J, proof: &str) -> J {
    let j = unwrap_versions(tree);
    match s {
        S::Rec(f) => J::Object(f.iter().map(|(a, b, s)| (b.clone(), expected(s, j.get(a).unwrap_or_else(|| die(&format!("no field {a}"))), proof))).collect()),
        S::Tup(v) => {
            let a = j.as_array().unwrap_or_else(|| die("tuple expected"));
            if !(a.len() == v.len() || a.len() == v.len() + 1 && a[v.len()].is_null()) {
                die("tuple length")
            }
            J::Array(v.iter().zip(a).map(|(s, x)| expected(s, x, proof)).collect())
        }
        S::List(s) => J::Array(j.as_array().unwrap_or_else(|| die("list expected")).iter().map(|x| expected(s, x, proof)).collect()),
        S::Opt(s) => {
            if j.is_null() {
                J::Null
            } else {
                expected(s, j, proof)
            }
        }
        S::Sum(_, vs) => {
            let (n, arg) = match j {
                J::String(n) => (n.as_str(), &J::Null),
                J::Object(o) if o.len() == 1 => {
                    let (n, x) = o.iter().next().unwrap();
                    (n.as_str(), x)
                }
                _ => die(&format!("variant expected: {}", short(&j.to_string()))),
            };
            let (_, b, args) = vs.iter().find(|v| v.0 == n).unwrap_or_else(|| die(&format!("unknown variant {n}")));
            let mut out = vec![J::String(b.clone())];
            match args.len() {
                0 => {}
                1 => out.push(expected(&args[0], arg, proof)),
                _ => out.extend(args.iter().zip(arg.as_array().unwrap()).map(|(s, x)| expected(s, x, proof))),
            }
            J::Array(out)
        }
        S::Hash(v) => {
            let mut d = vec![1];
            d.extend(bytes(j));
            J::String(b58(*v, &d))
        }
        S::Raw(v) => J::String(b58(*v, &bytes(j))),
        S::Leaf(l) => match *l {
            "u64" | "u32" => J::String(j.as_u64().unwrap().to_string()),
            "xu32" => J::String((j.as_i64().unwrap() as i32 as u32).to_string()),
            "amt" => J::String(amount_text(j.as_u64().unwrap())),
            "bool" | "num" => j.clone(),
            "pk" => {
                let mut d = vec![1, 1];
                d.extend(bytes(&j["x"]));
                d.push(j["is_odd"].as_bool().unwrap() as u8);
                J::String(b58(0xcb, &d))
            }
            "sig" => {
                let mut d = vec![1];
                d.extend(bytes(&j[0]));
                d.extend(bytes(&j[1]));
                J::String(b58(0x9a, &d))
            }
            "b64" => J::String(base64::encode_config(bytes(j), base64::URL_SAFE)),
            "b64proof" => J::String(proof.into()),
            "hex" => J::String(format!("0x{}", mon::hex(&bytes(j)))),
            "str" => J::String(String::from_utf8(bytes(j)).unwrap_or_else(|_| die("ascii expected"))),
            "char" => J::String((j.as_u64().unwrap() as u8 as char).to_string()),
            _ => J::Null,
        },
    }
}
/// First difference between two JSON trees.
pub fn diff(a: &J, b: &J, path: &str) -> Option<String> {
    match (a, b) {
        (J::Object(x), J::Object(y)) => {
            for (k, v) in x {
                match y.get(k) {
                    None => return Some(format!("{path}/{k} missing")),
                    Some(w) => {
                        if let Some(d) = diff(v, w, &format!("{path}/{k}")) {
                            return Some(d);
                        }
                    }
                }
            }
            y.keys().find(|k| !x.contains_key(*k)).map(|k| format!("{path}/{k} is extra"))
        }
        (J::Array(x), J::Array(y)) if x.len() == y.len() => x.iter().zip(y).enumerate().find_map(|(i, (v, w))| diff(v, w, &format!("{path}/{i}"))),
        _ => (a != b).then(|| format!("{path}: {} instead of {}", short(&b.to_string()), short(&a.to_string()))),
    }
}
fn proof64(t: &ExternalTransitionV1) -> String {
    let mut b = vec![];
    bin_prot::to_writer(&mut b, &t.t.protocol_state_proof).unwrap_or_else(|e| die(&format!("proof not written: {e}")));
    base64::encode_config(b, base64::URL_SAFE)
}
/// What JSON does not carry is read as its default.
fn carried(mut t: ExternalTransitionV1) -> ExternalTransitionV1 {
    t.t.current_protocol_version.t = mina_serialization_types::protocol_version::ProtocolVersion { major: 2, minor: 0, patch: 0 };
    t.t.proposed_protocol_version_opt = None;
    t
}
/// One step into JSON: (schema, pointer) of every position, weighted towards leaves.
fn places<'a>(s: &'a S, j: &J, path: &mut Vec<String>, out: &mut Vec<(&'a S, Vec<String>)>) {
    if out.len() > 4000 {
        return;
    }
    out.push((s, path.clone()));
    let mut go = |s: &'a S, k: String, j: &J, path: &mut Vec<String>, out: &mut Vec<_>| {
        path.push(k);
        places(s, j, path, out);
        path.pop();
    };
    match s {
        S::Rec(f) => f.iter().for_each(|(_, b, s)| go(s, b.clone(), &j[b], path, out)),
        S::Tup(v) => v.iter().enumerate().for_each(|(i, s)| go(s, i.to_string(), &j[i], path, out)),
        S::List(s) => j.as_array().unwrap().iter().enumerate().for_each(|(i, x)| go(s, i.to_string(), x, path, out)),
        S::Opt(s) if !j.is_null() => {
            out.pop();
            places(s, j, path, out)
        }
        S::Opt(_) => {
            out.pop();
        }
        S::Sum(_, vs) => {
            let args = &vs.iter().find(|v| Some(v.1.as_str()) == j[0].as_str()).unwrap().2;
            args.iter().enumerate().for_each(|(i, s)| go(s, (i + 1).to_string(), &j[i + 1], path, out))
        }
        _ => {}
    }
}
fn pick_char(r: &mut Rng, s: &str, alphabet: &[u8]) -> String {
    let mut b = s.as_bytes().to_vec();
    let i = r.below(b.len() as u64) as usize;
    loop {
        let c = *r.pick(alphabet);
        if c != b[i] {
            b[i] = c;
            return String::from_utf8(b).unwrap();
        }
    }
}
const B58: &[u8] = b"123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
/// Damage to a base58check text whose payload is `version + data`.
pub fn bad_b58(r: &mut Rng, s: &str, fixed_len: bool) -> String {
    let d = bs58::decode(s).with_check(None).into_vec().unwrap_or_else(|_| die("base58"));
    match r.below(if fixed_len { 9 } else { 6 }) {
        0 | 1 => pick_char(r, s, B58),
        2 => pick_char(r, s, b"0OIl+/ _-"),
        3 => {
            // another kind of thing
            let v = loop {
                let v = *r.pick(&[0x05, 0x0c, 0x0d, 0x0e, 0x0f, 0x10, 0x11, 0x14, 0x15, 0x17, 0x18, 0x9a, 0xcb, d[0] ^ 0x80, d[0].wrapping_add(1)]);
                if v != d[0] {
                    break v;
                }
            };
            b58(v, &d[1..])
        }
        4 => {
            let n = s.len();
            let cut = 1 + r.below(n as u64 - 1) as usize;
            s[..cut].into()
        }
        5 => format!("{s}{}", *r.pick(B58) as char),
        6 => b58(d[0], &d[1..d.len() - 1]),
        7 => {
            let mut x = d[1..].to_vec();
            x.push(r.below(256) as u8);
            b58(d[0], &x)
        }
        _ => {
            // inner version byte
            let mut x = d[1..].to_vec();
            x.truncate(r.below(3) as usize);
            b58(d[0], &x)
        }
    }
}
/// A damaged copy of a place of the given form, which must be refused; None when the place offers nothing.
fn corrupt(r: &mut Rng, s: &S, j: &J) -> Option<J> {
    let t = j.as_str().unwrap_or("");
    let txt = |x: &str| Some(J::String(x.into()));
    if r.chance(1, 12) {
        // another JSON kind altogether
        let other = [json!(true), json!(17), json!("x"), json!([]), json!({}), json!([[]])];
        let o = r.pick(&other).clone();
        let same = match s {
            S::Leaf("bool") => o.is_boolean(),
            S::Leaf("num") => o.is_number(),
            S::Leaf("str") => o.is_string(),
            S::Leaf("char") => o == json!("x"),
            S::List(_) => o.is_array(),
            S::Opt(_) => true,
            S::Rec(f) => o.is_object() && f.iter().all(|x| matches!(*x.2, S::Opt(_))),
            _ => false,
        };
        return (!same).then_some(o);
    }
    match s {
        S::Rec(f) => {
            let f: Vec<_> = f.iter().filter(|f| !matches!(*f.2, S::Opt(_) | S::Leaf("unit"))).collect();
            if f.is_empty() {
                return None;
            }
            let k = &r.pick(&f).1;
            let mut o = j.as_object().unwrap().clone();
            let v = o.remove(k).unwrap();
            match r.below(3) {
                0 => {}
                1 => {
                    o.insert(k.to_uppercase() + "_", v);
                }
                _ => {
                    o.insert(k.clone(), J::Null);
                }
            }
            Some(J::Object(o))
        }
        S::Tup(_) => {
            let mut a = j.as_array().unwrap().clone();
            if r.bool() {
                a.pop();
            } else {
                a.push(J::Null);
            }
            Some(J::Array(a))
        }
        S::Sum(_, vs) => {
            let mut a = j.as_array().unwrap().clone();
            let args = vs.iter().find(|v| Some(v.1.as_str()) == a[0].as_str()).unwrap().2.len();
            match r.below(7) {
                0 => a.clear(),
                1 => return Some(a[0].clone()),
                2 => a[0] = json!("Nonsense"),
                3 => a[0] = json!(a[0].as_str().unwrap().to_lowercase()),
                4 if args > 0 => a.truncate(1),
                5 if args > 0 => a.push(J::Null),
                6 => a[0] = json!(0),
                _ => return None,
            }
            Some(J::Array(a))
        }
        S::Hash(_) => txt(&bad_b58(r, t, true)),
        S::Raw(_) => txt(&bad_b58(r, t, false)),
        S::Leaf(l) => match *l {
            "u64" => txt(r.pick(&["-1", "18446744073709551616", "184467440737095516150", "", " 1", "1 ", "1.0", "0x10", "1e3", "１", "abc"])),
            "u32" | "xu32" => txt(r.pick(&["-1", "4294967296", "18446744073709551615", "", " 1", "1 ", "1.0", "0x10", "1e3", "x"])),
            "amt" => txt(r.pick(&["-1", "-0.5", "18446744074", "18446744073.709551616", "0.0000000001", "1.2.3", "1.5 ", " 1.5", "", ".", "abc", "1,5", "1e3", "0.-5", "18446744073709551616"])),
            "bool" => Some([json!("true"), json!(0), J::Null, json!("")][r.below(4) as usize].clone()),
            "pk" | "sig" => txt(&bad_b58(r, t, true)),
            "b64" => txt(&match r.below(3) {
                0 => format!("{t}*"),
                1 => format!("{t}A"),
                _ => format!("{t}===="),
            }),
            "b64proof" => {
                let mut b = base64::decode_config(t, base64::URL_SAFE).unwrap();
                match r.below(5) {
                    0 => return txt(&format!("{t}*")),
                    1 => return txt(&pick_char(r, t, b" ?!")),
                    2 => {
                        b.pop();
                    }
                    3 => b.push(0),
                    _ => b.truncate(r.below(b.len() as u64) as usize),
                }
                txt(&base64::encode_config(b, base64::URL_SAFE))
            }
            "hex" => txt(&match r.below(7) {
                0 => t[..t.len() - 1].to_string(),
                1 => t[..t.len() - 2].to_string(),
                2 => format!("{t}00"),
                3 => format!("{t}0"),
                4 => pick_char(r, &t[2..], b"gGxz -_"),
                5 => format!("0x{t}"),
                _ => ["", "0x", "0"][r.below(3) as usize].to_string(),
            }),
            "num" => Some([json!("1"), json!(1.5), json!(9223372036854775808u64), J::Null, json!(1e300)][r.below(5) as usize].clone()),
            "char" => txt(r.pick(&["", "ab", "é", "\u{1}\u{1}", "\u{fffd}"])),
            _ => None,
        },
        _ => None,
    }
}
fn replace(j: &mut J, path: &[String], f: J) {
    match path.split_first() {
        None => *j = f,
        Some((k, rest)) => {
            let next = match j {
                J::Object(o) => o.get_mut(k),
                J::Array(a) => a.get_mut(k.parse::<usize>().unwrap()),
                _ => None,
            };
            replace(next.unwrap_or_else(|| die("no such place")), rest, f)
        }
    }
}
fn get<'a>(j: &'a J, path: &[String]) -> &'a J {
    path.iter().fold(j, |j, k| if j.is_array() { &j[k.parse::<usize>().unwrap()] } else { &j[k.as_str()] })
}
fn read(s: &str) -> Result<Result<ExternalTransitionV1, String>, String> {
    guarded(|| {
        let mut d = serde_json::Deserializer::from_str(s);
        d.disable_recursion_limit();
        let r: Result<ExternalTransitionJson, _> = serde::Deserialize::deserialize(&mut d);
        r.map(|x| x.into()).map_err(|e| e.to_string())
    })
}
fn one(sh: &mut Shard, sc: &Schema, t: &ExternalTransitionV1, what: &'static str) -> J {
    let tree = serde_json::to_value(t).unwrap();
    let want = expected(&sc.root, &tree, &proof64(t));
    let text = match guarded(|| {
        let j: ExternalTransitionJson = t.clone().into();
        serde_json::to_string(&j).map_err(|e| e.to_string())
    }) {
        Ok(Ok(s)) => s,
        e => sh.violation(&format!("{what}: not written as JSON: {}", short(&format!("{e:?}")))),
    };
    sh.case(|| format!("{what} {}", &text[..text.len().min(100_000)]));
    let got = json_text(&text).unwrap_or_else(|e| sh.violation(&format!("{what}: what was written is not JSON: {e}")));
    if let Some(d) = diff(&want, &got, "") {
        sh.violation(&format!("{what}: JSON form differs at {d}"))
    }
    match read(&text) {
        Ok(Ok(u)) => {
            if u != carried(t.clone()) {
                let (a, b) = (serde_json::to_value(carried(t.clone())).unwrap(), serde_json::to_value(u).unwrap());
                sh.violation(&format!("{what}: JSON reads back as another value: {:?}", diff(&a, &b, "")))
            }
        }
        e => sh.violation(&format!("{what}: JSON that was written is not read: {}", short(&format!("{e:?}")))),
    }
    // the native type has the same form
    let n = guarded(|| {
        let n: mina_rs_base::types::ExternalTransition = t.clone().into();
        let j: ExternalTransitionJson = n.clone().into();
        let same = serde_json::to_string(&j).unwrap() == text;
        let back = mina_rs_base::JsonSerializationType::try_from_json(&text).map(|m: mina_rs_base::types::ExternalTransition| {
            let v: ExternalTransitionV1 = m.into();
            v == carried(t.clone())
        });
        (same, back.unwrap_or(false))
    });
    match n {
        Ok((true, true)) => {}
        e => sh.violation(&format!("{what}: JSON of the native type: (same text, same value) = {e:?}")),
    }
    sh.observed(fnv(text.as_bytes()), true);
    sh.count("blocks in JSON");
    got
}
fn damage(sh: &mut Shard, sc: &Schema, j: &J, n: usize) {
    let mut at = vec![];
    places(&sc.root, j, &mut vec![], &mut at);
    for _ in 0..n {
        // spread over the forms, not over the many challenges and field elements
        let mut pick = sh.rng.below(at.len() as u64) as usize;
        for _ in 0..3 {
            if matches!(at[pick].0, S::Leaf("num" | "hex")) {
                pick = sh.rng.below(at.len() as u64) as usize;
            }
        }
        let (s, path) = &at[pick];
        let old = get(j, path);
        let Some(bad) = corrupt(&mut sh.rng, s, old) else { continue };
        if &bad == old {
            continue;
        }
        let mut k = j.clone();
        replace(&mut k, path, bad.clone());
        let text = k.to_string();
        sh.case(|| format!("{} := {}", path.join("/"), bad));
        match read(&text) {
            Ok(Err(_)) => sh.count("malformed JSON refused"),
            Ok(Ok(_)) => sh.violation(&format!("malformed JSON accepted: {} instead of {} at {}", short(&bad.to_string()), short(&old.to_string()), path.join("/"))),
            Err(e) => sh.violation(&format!("malformed JSON panics: {} at {}: {e}", short(&bad.to_string()), path.join("/"))),
        }
        sh.observed(fnv(text.as_bytes()), true);
    }
}
fn shipped(sh: &mut Shard, sc: &Schema, i: u64) {
    let dir = format!("{}/protocol/test-fixtures/src/data", mon::repo_dir());
    let mut names: Vec<_> = std::fs::read_dir(&dir).unwrap_or_else(|_| die("no shipped blocks")).filter_map(|e| e.ok()?.file_name().into_string().ok()).filter(|n| n.starts_with("mainnet-") && n.ends_with(".json")).collect();
    names.sort();
    for (k, n) in names.iter().enumerate() {
        if k as u64 % mon::threads() as u64 != i {
            continue;
        }
        let text = std::fs::read_to_string(format!("{dir}/{n}")).unwrap();
        sh.case(|| format!("shipped {n}"));
        let t = match read(&text) {
            Ok(Ok(t)) => t,
            e => sh.violation(&format!("shipped {n} is not read: {}", short(&format!("{e:?}")))),
        };
        let mut want = json_text(&text).unwrap();
        want.as_object_mut().unwrap().remove("scheduled_time");
        let j: ExternalTransitionJson = t.clone().into();
        let got = json_text(&serde_json::to_string(&j).unwrap()).unwrap();
        if let Some(d) = diff(&want, &got, "") {
            sh.violation(&format!("shipped {n}: written differently at {d}"))
        }
        // the schema reads the shipped block the same way
        let tree = serde_json::to_value(&t).unwrap();
        let ascii = !text.contains('\u{fffd}');
        if ascii {
            if let Some(d) = diff(&want, &expected(&sc.root, &tree, &proof64(&t)), "") {
                die(&format!("schema differs from shipped {n} at {d}"))
            }
            damage(sh, sc, &got, 300);
        }
        // the same block is shipped in binary too
        let hash = n.trim_end_matches(".json").rsplit('-').next().unwrap();
        if let Ok(h) = std::fs::read(format!("{dir}/{hash}.hex")) {
            let b = ::hex::decode(h.trim_ascii()).unwrap();
            let mut u: ExternalTransitionV1 = bin_prot::from_reader_strict(b.as_slice()).unwrap_or_else(|e| sh.violation(&format!("{hash}: {e}")));
            // a block may have been proved twice
            u.t.protocol_state_proof = t.t.protocol_state_proof.clone();
            if carried(u.clone()) != t {
                let d = diff(&serde_json::to_value(&t).unwrap(), &serde_json::to_value(carried(u)).unwrap(), "");
                sh.violation(&format!("shipped {n}: JSON and binary forms are different blocks: {d:?}"))
            }
            sh.count("shipped in both forms");
        }
        sh.observed(fnv(text.as_bytes()), true);
        sh.count("shipped JSON blocks");
    }
}
/// Bytes that are not UTF-8 have no JSON form.
fn not_utf8(sh: &mut Shard) {
    let v: Vec<u8> = vec![0x61, 0x80 | sh.rng.below(128) as u8];
    let r = guarded(|| {
        let t: ByteVecV1 = mina_serialization_types::common::ByteVec(v.clone()).into();
        let j: ByteVecJson = t.into();
        let b = serde_json::to_vec(&j).unwrap();
        serde_json::from_slice::<ByteVecJson>(&b).map(|x| x.0 == v).unwrap_or(false)
    });
    if r != Ok(true) {
        sh.finding_or_violation("json-bytes-not-utf8", "bytes that are not UTF-8 are written as JSON that cannot be read")
    }
}
pub fn run() {
    let run = mon::start(
        "C17",
        "exploration",
        "a block counts as distinct by the hash of its JSON text; malformed texts count once each",
        &[
            "the schema in the monitor states the JSON form; it is itself compared with the blocks that the repository ships",
            "values of bytes carried as JSON strings are ASCII (others are a recorded finding)",
            "versions of the protocol are not carried in JSON and read as 2.0.0",
        ],
    );
    let done = std::sync::Arc::new(std::sync::atomic::AtomicU64::new(0));
    run.par(mon::threads(), move |sh| {
        let sc = Schema::load();
        shipped(sh, &sc, done.fetch_add(1, std::sync::atomic::Ordering::SeqCst));
        not_utf8(sh);
        let blocks = if sh.thorough() { 6000 } else { 400 };
        for i in 0..blocks {
            sh.beat();
            let fuel = [200, 1500, 5000][sh.rng.below(3) as usize];
            let t = block(&mut sh.rng, fuel, true);
            let j = one(sh, &sc, &t, "block");
            damage(sh, &sc, &j, if fuel == 200 { 60 } else { 25 });
            if i < 1 {
                sh.sample(|| json!({"commands": t.t.staged_ledger_diff.t.diff.t.0.t.t.commands.len(), "json": short(&j.to_string())}));
            }
        }
    });
    run.require("shipped JSON blocks", 6);
    run.require("shipped in both forms", 2);
    run.require("blocks in JSON", 500);
    run.require("malformed JSON refused", 5000);
    run.finish()
}
