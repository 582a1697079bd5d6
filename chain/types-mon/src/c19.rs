//! Text forms of hashes, keys, memos, outputs and field elements. What a text denotes is worked out from its
//! base58, base64 or hex content; reading must give exactly that, and writing must give exactly that text.
use crate::c17::{b58, bad_b58};

use mina_crypto::hash::*;
use mina_crypto::hex::HexEncodable;
use mina_rs_base::consensus_state::VrfOutputTruncated;
use mina_rs_base::numbers::{BigInt256, Char};
use mina_rs_base::protocol_state_proof::FieldElementVec;
use mina_rs_base::user_commands::memo::SignedCommandMemo;
use mina_serialization_types::common::HashV1;
use mina_serialization_types::signatures::CompressedCurvePoint;
use mon::{fnv, guarded, Rng, Shard};
use serde_json::json;
use std::fmt::{Debug, Display};
use std::str::FromStr;

/// 2^254 + 0x224698fc094cf91b992d30ed00000001, little endian
pub const MODULUS: [u8; 32] = [
    1, 0, 0, 0, 0xed, 0x30, 0x2d, 0x99, 0x1b, 0xf9, 0x4c, 0x09, 0xfc, 0x98, 0x46, 0x22, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0x40,
];
pub fn below_modulus(b: &[u8; 32]) -> bool {
    b.iter().rev().lt(MODULUS.iter().rev())
}
#[derive(Clone, PartialEq, Debug)]
enum Want {
    Is(Vec<u8>),
    /// may be refused or be this
    Maybe(Vec<u8>),
    No,
}
use Want::*;

/// One textual form: its name, how a text is judged, how content is written, and a generator of content.
struct Form {
    name: &'static str,
    judge: fn(&str) -> Want,
    text: fn(&[u8]) -> String,
    content: fn(&mut Rng) -> Vec<u8>,
    read: fn(&str) -> Result<Vec<u8>, String>,
    write: fn(&[u8]) -> String,
    /// 0 base58, 1 base64, 2 hex, 3 one character
    alphabet: u8,
}
fn open58(v: u8, s: &str) -> Option<Vec<u8>> {
    let d = bs58::decode(s).with_check(Some(v)).into_vec().ok()?;
    Some(d[1..].to_vec())
}
fn hash_judge<const V: u8>(s: &str) -> Want {
    match open58(V, s) {
        Some(d) if d.len() == 33 && d[0] == 1 => Is(d[1..].to_vec()),
        // version bytes are not checked, and may take more than one byte
        Some(d) if d.len() >= 33 && d[0] != 1 => Maybe(d[d.len() - 32..].to_vec()),
        _ => No,
    }
}
fn hash_text<const V: u8>(b: &[u8]) -> String {
    let mut d = vec![1];
    d.extend_from_slice(b);
    b58(V, &d)
}
fn raw_judge<const V: u8>(s: &str) -> Want {
    open58(V, s).map_or(No, Is)
}
fn raw_text<const V: u8>(b: &[u8]) -> String {
    b58(V, b)
}
fn b32(r: &mut Rng) -> Vec<u8> {
    match r.below(6) {
        0 => vec![r.below(3) as u8; 32],
        1 => vec![0xff; 32],
        2 => {
            let mut v = vec![0; 32];
            v[r.below(32) as usize] = 1 << r.below(8);
            v
        }
        _ => r.bytes(32),
    }
}
fn anyb(r: &mut Rng) -> Vec<u8> {
    let n = *r.pick(&[0, 1, 2, 5, 31, 32, 32, 32, 33, 34, 64, 100]);
    match r.below(4) {
        0 => vec![r.below(2) as u8; n],
        _ => r.bytes(n),
    }
}
fn strs<T: FromStr + for<'a> TryFrom<&'a str>>(s: &str) -> Result<T, String>
where
    T: PartialEq + Debug,
{
    let a = T::from_str(s).ok();
    let b = T::try_from(s).ok();
    if a != b {
        mon::violation(&format!("from_str gave {a:?} and try_from {b:?} for {s:?}"))
    }
    a.ok_or_else(|| "refused".into())
}
fn shown<T: Display + Clone>(t: T) -> String
where
    String: TryFrom<T> + for<'a> TryFrom<&'a T>,
{
    let s = t.to_string();
    let a = String::try_from(&t).ok();
    let b = String::try_from(t).ok();
    if a.as_ref() != Some(&s) || b.as_ref() != Some(&s) {
        mon::violation(&format!("to_string gave {s:?}, conversion to String {a:?} and {b:?}"))
    }
    s
}
macro_rules! hash32 {
    ($t:ty, $v:literal) => {
        Form {
            name: stringify!($t),
            judge: hash_judge::<$v>,
            text: hash_text::<$v>,
            content: b32,
            read: |s| strs::<$t>(s).map(|h| HashV1::from(h).t.to_vec()),
            write: |b| {
                let a: [u8; 32] = b.try_into().unwrap();
                shown(<$t>::from(HashV1::new(a)))
            },
            alphabet: 0,
        }
    };
}
macro_rules! bytes58 {
    ($t:ident, $v:literal, $content:expr) => {
        Form {
            name: stringify!($t),
            judge: raw_judge::<$v>,
            text: raw_text::<$v>,
            content: $content,
            read: |s| strs::<$t>(s).map(|h| h.0),
            write: |b| shown($t(b.to_vec())),
            alphabet: 0,
        }
    };
}
const URL64: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";
fn to64(b: &[u8]) -> String {
    let mut s = String::new();
    for c in b.chunks(3) {
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..4 {
            s.push(if i <= c.len() { URL64[(n >> (18 - 6 * i) & 63) as usize] as char } else { '=' });
        }
    }
    s
}
fn from64(s: &str) -> Want {
    let t = s.trim_end_matches('=');
    let mut bits = vec![];
    for c in t.bytes() {
        match URL64.iter().position(|x| *x == c) {
            Some(p) => bits.extend((0..6).rev().map(|i| p >> i & 1)),
            None => return No,
        }
    }
    let v: Vec<u8> = bits.chunks_exact(8).map(|c| c.iter().fold(0, |a, b| a << 1 | *b as u8)).collect();
    if to64(&v) == s {
        Is(v)
    } else if to64(&v).trim_end_matches('=') == t {
        // only the padding is unusual
        Maybe(v)
    } else {
        No
    }
}
fn hex_judge(s: &str, whole: bool) -> Want {
    let t = s.strip_prefix("0x").or_else(|| s.strip_prefix("\\x")).unwrap_or(s);
    let ok = if whole { t.len() == 64 } else { t.len() % 64 == 0 };
    let nib = |c: u8| (c as char).to_digit(16);
    if !ok || t.bytes().any(|c| nib(c).is_none()) {
        return No;
    }
    Is(t.as_bytes().chunks(2).map(|c| (nib(c[0]).unwrap() * 16 + nib(c[1]).unwrap()) as u8).collect())
}
fn to_hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
fn vrf58_judge(s: &str) -> Want {
    match open58(0x15, s) {
        Some(d) if !d.is_empty() && d[0] as usize == d.len() - 1 => match d[0] {
            0..=127 => Is(d[1..].to_vec()),
            // longer than a vrf output; the protocol writes the length in several bytes
            _ => Maybe(d[1..].to_vec()),
        },
        _ => No,
    }
}
pub fn vrf58_text(b: &[u8]) -> String {
    let mut d = vec![b.len() as u8];
    d.extend_from_slice(b);
    b58(0x15, &d)
}
fn point_judge(s: &str) -> Want {
    match open58(0xcb, s) {
        Some(d) if d.len() == 35 && d[..2] == [1, 1] && d[34] < 2 && below_modulus(d[2..34].try_into().unwrap()) => Is(d[2..].to_vec()),
        _ => No,
    }
}
fn forms() -> Vec<Form> {
    vec![
        hash32!(StateBodyHash, 0x11),
        hash32!(StateHash, 0x10),
        hash32!(LedgerHash, 0x05),
        hash32!(ChainHash, 0x05),
        hash32!(CoinBaseHash, 0x0c),
        hash32!(EpochSeed, 0x0d),
        hash32!(VrfOutputHash, 0x15),
        bytes58!(AuxHash, 0x0e, anyb),
        bytes58!(PendingCoinbaseAuxHash, 0x0f, anyb),
        bytes58!(SignedCommandMemo, 0x14, anyb),
        Form {
            name: "CompressedCurvePoint",
            judge: point_judge,
            text: |b| {
                let mut d = vec![1, 1];
                d.extend_from_slice(b);
                b58(0xcb, &d)
            },
            content: |r| loop {
                let mut v = b32(r);
                v[31] &= 0x7f;
                if r.chance(1, 6) {
                    // next to the modulus
                    v = MODULUS.to_vec();
                    v[0] = 0;
                    if r.bool() {
                        v[r.below(31) as usize] ^= 1;
                    }
                }
                if below_modulus(&v.clone().try_into().unwrap()) {
                    v.push(r.below(2) as u8);
                    return v;
                }
            },
            read: |s| {
                strs::<CompressedCurvePoint>(s).map(|p| {
                    let mut v = p.x.to_vec();
                    v.push(p.is_odd as u8);
                    v
                })
            },
            write: |b| shown(CompressedCurvePoint { x: b[..32].try_into().unwrap(), is_odd: b[32] == 1 }),
            alphabet: 0,
        },
        Form {
            name: "VrfOutputTruncated in base58",
            judge: vrf58_judge,
            text: vrf58_text,
            content: anyb,
            read: |s| VrfOutputTruncated::from_base58_str(s).map(|v| v.0).map_err(|e| e.to_string()),
            write: |b| VrfOutputTruncated(b.to_vec()).to_base58_string().unwrap_or_else(|e| e.to_string()),
            alphabet: 0,
        },
        Form {
            name: "VrfOutputTruncated in base64",
            judge: from64,
            text: to64,
            content: anyb,
            read: |s| {
                let a = strs::<VrfOutputTruncated>(s);
                if VrfOutputTruncated::from_base64_str(s).ok() != a.clone().ok() {
                    mon::violation(&format!("from_base64_str and from_str differ on {s:?}"))
                }
                a.map(|v| v.0)
            },
            write: |b| {
                let v = VrfOutputTruncated(b.to_vec());
                let s = shown(v.clone());
                if v.to_base64_string().ok().as_ref() != Some(&s) {
                    mon::violation("to_base64_string and to_string differ")
                }
                s
            },
            alphabet: 1,
        },
        Form {
            name: "BigInt256",
            judge: |s| hex_judge(s, true),
            text: to_hex,
            content: b32,
            read: |s| BigInt256::try_from_hex(s).map(|b| b.0.to_vec()).map_err(|e| e.to_string()),
            write: |b| BigInt256(b.try_into().unwrap()).to_hex_string(),
            alphabet: 2,
        },
        Form {
            name: "FieldElementVec",
            judge: |s| hex_judge(s, false),
            text: to_hex,
            content: |r| (0..r.below(5)).flat_map(|_| b32(r)).collect(),
            read: |s| {
                FieldElementVec::try_from_hex(s).map(|v| v.0.iter().flat_map(|b| b.0).collect()).map_err(|e| e.to_string())
            },
            write: |b| FieldElementVec(b.chunks(32).map(|c| BigInt256(c.try_into().unwrap())).collect()).to_hex_string(),
            alphabet: 2,
        },
        Form {
            name: "Char",
            judge: |s| match s.as_bytes() {
                [c] => Is(vec![*c]),
                _ => No,
            },
            text: |b| (b[0] as char).to_string(),
            content: |r| vec![r.below(128) as u8],
            read: |s| strs::<Char>(s).map(|c| vec![c.0]),
            write: |b| shown(Char(b[0])),
            alphabet: 3,
        },
    ]
}
fn read_text(sh: &mut Shard, f: &Form, s: &str) {
    sh.case(|| format!("{} from the text {s:?}", f.name));
    let want = (f.judge)(s);
    let got = guarded(|| (f.read)(s));
    let ok = match (&want, &got) {
        (Is(v) | Maybe(v), Ok(Ok(g))) => v == g,
        (Maybe(_) | No, Ok(Err(_))) => true,
        _ => false,
    };
    if !ok {
        sh.violation(&format!("{} read the text {s:?} as {got:?}, expected {want:?}", f.name))
    }
    sh.count(match want {
        Is(_) => "texts read",
        Maybe(_) => "texts in unusual spelling",
        No => "texts refused",
    });
    sh.observed(fnv(format!("{}{s}", f.name).as_bytes()), true);
}
fn broken(r: &mut Rng, f: &Form, s: &str) -> String {
    let mut cs: Vec<char> = s.chars().collect();
    let at = r.below(cs.len() as u64 + 1) as usize;
    if f.alphabet == 0 && !s.is_empty() && r.chance(3, 4) {
        return bad_b58(r, s, s.len() > 8);
    }
    let odd: &[char] = match f.alphabet {
        0 => &['0', 'O', 'I', 'l', '1', 'z', ' ', 'é', '\0'],
        1 => &['+', '/', '=', '-', '_', 'A', ' ', 'é', '\n'],
        2 => &['g', 'x', '0', 'F', 'f', ' ', '\\', 'é', '-', '\u{ff11}'],
        _ => &['a', 'é', '\u{80}', '\0'],
    };
    match r.below(6) {
        0 => cs.insert(at, *r.pick(odd)),
        1 => {
            if at < cs.len() {
                cs.remove(at);
            }
        }
        2 => {
            if at < cs.len() {
                cs[at] = *r.pick(odd)
            }
        }
        3 => cs.truncate(at),
        4 => {
            let k = if f.alphabet == 2 { 2 } else { 1 };
            cs = cs.into_iter().rev().skip(k).rev().collect();
        }
        _ if f.alphabet == 2 => {
            let p = *r.pick(&["0x", "\\x", "0X", "x", "0x0x", "\\\\x"]);
            let up = r.bool();
            let t: String = cs.into_iter().collect();
            return format!("{p}{}", if up { t.to_uppercase() } else { t });
        }
        _ => cs.reverse(),
    }
    cs.into_iter().collect()
}
fn form(sh: &mut Shard, forms: &[Form], k: usize) {
    let f = &forms[k];
    let v = (f.content)(&mut sh.rng);
    sh.case(|| format!("{} holding {}", f.name, mon::hex(&v)));
    let want = (f.text)(&v);
    let got = guarded(|| (f.write)(&v));
    if got.as_ref() != Ok(&want) {
        sh.violation(&format!("{} holding {} is written {got:?}, not {want:?}", f.name, mon::hex(&v)))
    }
    sh.count("values written");
    read_text(sh, f, &want);
    if f.alphabet == 2 {
        let p = *sh.rng.pick(&["0x", "\\x"]);
        read_text(sh, f, &format!("{p}{want}"));
    }
    for _ in 0..3 {
        let s = broken(&mut sh.rng, f, &want);
        read_text(sh, f, &s);
    }
    // the text of another kind of thing
    let o = &forms[sh.rng.below(forms.len() as u64) as usize];
    let v = (o.content)(&mut sh.rng);
    read_text(sh, f, &(o.text)(&v));
}
/// Values outside the field have no address.
fn outside(sh: &mut Shard) {
    let mut x = [0u8; 32];
    x.copy_from_slice(&sh.rng.bytes(32));
    x[31] |= 0x40 | (sh.rng.below(2) as u8) << 7;
    if sh.rng.chance(1, 3) {
        x = MODULUS;
        x[0] = x[0].wrapping_add(sh.rng.below(3) as u8);
    }
    let p = CompressedCurvePoint { x, is_odd: sh.rng.bool() };
    sh.case(|| format!("{p:?}"));
    let got = guarded(|| String::try_from(&p).map_err(|e| e.to_string()));
    match got {
        Ok(Err(_)) if !below_modulus(&x) => sh.count("keys outside the field refused"),
        Ok(Ok(_)) if below_modulus(&x) => {}
        g => sh.violation(&format!("the key {p:?}, outside the field, was written {g:?}")),
    }
}
/// Memos carry up to 32 bytes of text.
fn memo(sh: &mut Shard) {
    let n = sh.rng.below(40) as usize;
    let t: String = match sh.rng.below(3) {
        0 => (0..n).map(|_| *sh.rng.pick(&['a', 'é', '語', '🦀', '\0', ' '])).collect(),
        _ => (0..n).map(|_| (32 + sh.rng.below(95) as u8) as char).collect(),
    };
    sh.case(|| format!("memo text {t:?}"));
    let got = guarded(|| SignedCommandMemo::try_from_text(&t).map(|m| (m.0.clone(), m.to_text())).ok());
    let mut raw = vec![1, t.len() as u8];
    raw.extend(t.bytes());
    let want = match t.len() {
        0..=32 => {
            raw.resize(34, 0);
            Some((raw, t.clone()))
        }
        _ => None,
    };
    if got.as_ref() != Ok(&want) {
        sh.violation(&format!("the memo text {t:?} became {got:?}, expected {want:?}"))
    }
    // a memo that did not come from text: its text is what it holds, never a panic
    let v = anyb(&mut sh.rng);
    sh.case(|| format!("memo bytes {}", mon::hex(&v)));
    let len = *v.get(1).unwrap_or(&0) as usize;
    let held = v.get(2..).unwrap_or(&[]);
    let want = String::from_utf8_lossy(&held[..len.min(held.len())]).into_owned();
    let got = guarded(|| SignedCommandMemo(v.clone()).to_text());
    if got.as_ref() != Ok(&want) {
        sh.violation(&format!("the memo {} has the text {got:?}, expected {want:?}", mon::hex(&v)))
    }
    sh.count("memos");
    sh.observed(fnv(t.as_bytes()), true);
}
/// Numbers in any radix become field elements when they are below the modulus.
fn radix(sh: &mut Shard) {
    let r = &mut sh.rng;
    let base = *r.pick(&[2u32, 3, 8, 10, 10, 10, 16, 16, 36]);
    let mut le = [0u8; 32];
    match r.below(5) {
        0 => {
            le = MODULUS;
            le[0] = le[0].wrapping_add(r.below(3) as u8).wrapping_sub(1);
        }
        1 => le[..8].copy_from_slice(&r.bytes(8)),
        2 => le = [0xff; 32],
        _ => {
            le.copy_from_slice(&r.bytes(32));
            le[31] &= 0x7f;
        }
    }
    // digits by repeated division
    let mut n = le;
    let mut s = vec![];
    while n.iter().any(|b| *b != 0) || s.is_empty() {
        let mut rem = 0u32;
        for b in n.iter_mut().rev() {
            let x = rem << 8 | *b as u32;
            *b = (x / base) as u8;
            rem = x % base;
        }
        s.push(std::char::from_digit(rem, base).unwrap());
    }
    for _ in 0..r.below(4) {
        s.push('0')
    }
    let mut t: String = s.iter().rev().collect();
    if r.chance(1, 4) {
        t = t.to_uppercase()
    }
    let mut want = if below_modulus(&le) { Is(le.to_vec()) } else { No };
    if r.chance(1, 5) {
        let bad = ["", "-1", " 1", "1 ", "1.0", "é"];
        t = match r.below(3) {
            0 => (*r.pick(&bad)).into(),
            1 => format!("{t}{}", std::char::from_digit(base.min(35), 36).unwrap_or('!')),
            _ => format!("{t}!"),
        };
        want = No;
        if base == 36 && t.chars().all(|c| c.is_ascii_alphanumeric()) && !t.is_empty() {
            return; // every digit is one in this radix
        }
    }
    sh.case(|| format!("number {t:?} in radix {base}"));
    let got = guarded(|| Field::from_str_radix(&t, base).map(|f| <[u8; 32]>::from(f).to_vec()).ok());
    let w = match &want {
        Is(v) => Some(v.clone()),
        _ => None,
    };
    if got.as_ref() != Ok(&w) {
        sh.violation(&format!("the number {t:?} in radix {base} was read as {got:?}, expected {want:?}"))
    }
    sh.count("numbers as field elements");
    sh.observed(fnv(t.as_bytes()), true);
}
pub fn run() {
    let run = mon::start(
        "C19",
        "exploration",
        "each text counts once per kind",
        &[
            "base58check is decoded with the bs58 stand-in, which is exercised against the shipped blocks",
            "inner version bytes other than 1 and missing base64 padding may be refused or ignored",
            "characters of Char are ASCII (others are a recorded finding of the JSON form)",
        ],
    );
    run.par(mon::threads(), |sh| {
        let all = forms();
        let n = if sh.thorough() { 40_000 } else { 2500 };
        for i in 0..n {
            sh.beat();
            for k in 0..all.len() {
                form(sh, &all, k)
            }
            outside(sh);
            for _ in 0..4 {
                memo(sh);
                radix(sh);
            }
            if i < 1 {
                for f in &all {
                    let v = (f.content)(&mut sh.rng);
                    sh.sample(|| json!({"kind": f.name, "text": (f.text)(&v)}));
                }
            }
        }
    });
    for k in ["texts read", "texts refused", "values written", "memos", "numbers as field elements", "keys outside the field refused"] {
        run.require(k, 1000);
    }
    run.finish()
}
