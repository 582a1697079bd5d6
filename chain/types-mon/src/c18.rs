//! Amounts in text and block times, against exact arithmetic done on the digits.
use crate::c17::amount_text;
use mina_rs_base::numbers::{Amount, BlockTime};
use mina_serialization_types::common::*;
use mon::{fnv, guarded, Rng, Shard};
use serde_json::json;
use std::str::FromStr;

/// What a text denotes, in units of 1e-9.
#[derive(PartialEq, Debug)]
enum Sense {
    /// digits, optionally a point and one to nine digits: this many
    Exactly(u64),
    /// unusual spelling: may be refused, but not read as anything else
    IfAny(u64),
    No,
}
fn sense(s: &str) -> Sense {
    let (unsigned, odd) = match s.strip_prefix('+') {
        Some(r) => (r, true),
        None => (s, false),
    };
    let (q, f) = match unsigned.split_once('.') {
        Some((q, f)) => (q, Some(f)),
        None => (unsigned, None),
    };
    let digits = |x: &str| x.bytes().all(|c| c.is_ascii_digit());
    let frac = f.unwrap_or("");
    if !digits(q) || !digits(frac) || q.is_empty() && frac.is_empty() {
        return Sense::No;
    }
    let odd = odd || q.is_empty() || f == Some("") || frac.len() > 9;
    if frac.bytes().skip(9).any(|c| c != b'0') {
        return Sense::No;
    }
    let mut n: u128 = 0;
    for c in q.bytes().chain(frac.bytes().chain(std::iter::repeat(b'0')).take(9)) {
        n = n * 10 + (c - b'0') as u128;
        if n > u64::MAX as u128 {
            return Sense::No;
        }
    }
    match odd {
        true => Sense::IfAny(n as u64),
        false => Sense::Exactly(n as u64),
    }
}
fn value(r: &mut Rng) -> u64 {
    match r.below(8) {
        0 => r.below(3),
        1 => (r.below(1 << 34)).wrapping_mul(1_000_000_000),
        2 => r.below(1 << 34) * 1_000_000_000 + r.below(1_000_000_000),
        3 => 10u64.pow(r.below(20) as u32).wrapping_sub(r.below(2)),
        4 => r.below(10_000_000_000),
        5 => u64::MAX - r.below(3_000_000_000),
        6 => r.below(1 << 10) * 10u64.pow(r.below(16) as u32),
        _ => r.next() >> r.below(64),
    }
}
/// A value written out in nine decimals, without help from the code under test.
fn full(n: u64) -> String {
    let mut d: Vec<u8> = format!("{n:0>10}").into_bytes();
    let p = d.len() - 9;
    d.insert(p, b'.');
    String::from_utf8(d).unwrap()
}
fn text(r: &mut Rng) -> String {
    let digits = |r: &mut Rng, n: u64| (0..r.below(n)).map(|_| (b'0' + r.below(10) as u8) as char).collect::<String>();
    let mut s = match r.below(6) {
        0 => full(value(r)),
        1 => amount_text(value(r)),
        2 => {
            let (a, b) = (digits(r, 24), digits(r, 14));
            format!("{a}.{b}")
        }
        3 => digits(r, 24),
        4 => {
            let z = "0".repeat(r.below(30) as usize);
            format!("{z}{}", amount_text(value(r)))
        }
        _ => {
            // around the largest amount
            let n = u64::MAX as u128 - 3 + r.below(8) as u128;
            let s = n.to_string();
            let p = s.len() - 9;
            format!("{}.{}", &s[..p], &s[p..])
        }
    };
    for _ in 0..*r.pick(&[0, 0, 1, 1, 2]) {
        let mut cs: Vec<char> = s.chars().collect();
        let at = r.below(cs.len() as u64 + 1) as usize;
        let odd = ['+', '-', '.', ' ', ',', 'e', 'x', '_', '\u{663}', '٫', '\n', '0', '5', '\0'];
        match r.below(3) {
            0 => cs.insert(at, *r.pick(&odd)),
            1 if at < cs.len() => {
                cs.remove(at);
            }
            _ if at < cs.len() => cs[at] = *r.pick(&odd),
            _ => {}
        }
        s = cs.into_iter().collect();
    }
    s
}
fn judge(sh: &mut Shard, what: &str, s: &str, got: Result<Result<u64, String>, String>) {
    let want = sense(s);
    let bad = match (&want, &got) {
        (_, Err(p)) => Some(format!("panicked: {p}")),
        (Sense::Exactly(n), Ok(Ok(m))) | (Sense::IfAny(n), Ok(Ok(m))) if n == m => None,
        (Sense::IfAny(_), Ok(Err(_))) | (Sense::No, Ok(Err(_))) => None,
        (_, Ok(g)) => Some(format!("read as {g:?}")),
    };
    if let Some(b) = bad {
        sh.case(|| format!("{what} text {s:?}"));
        sh.violation(&format!("{what}: the text {s:?}, which denotes {want:?} units, was {b}"));
    }
    sh.count(match want {
        Sense::Exactly(_) => "texts of amounts",
        Sense::IfAny(_) => "texts in unusual spelling",
        Sense::No => "texts that are no amount",
    });
    sh.observed(fnv(format!("{what}{s}").as_bytes()), true);
}
fn texts(sh: &mut Shard) {
    let s = text(&mut sh.rng);
    sh.case(|| format!("amount text {s:?}"));
    let g = guarded(|| Amount::from_str(&s).map(|a| a.0).map_err(|e| e.to_string()));
    judge(sh, "Amount", &s, g);
    let j = serde_json::to_string(&s).unwrap();
    let g = guarded(|| serde_json::from_str::<DecimalJson>(&j).map(|a| a.0).map_err(|e| e.to_string()));
    judge(sh, "decimal in JSON", &s, g);
}
fn values(sh: &mut Shard) {
    let n = value(&mut sh.rng);
    sh.case(|| format!("amount {n}"));
    let t = Amount(n).to_string();
    let want = full(n);
    if t != want {
        sh.violation(&format!("Amount({n}) is written {t:?}, not {want:?}"))
    }
    if Amount::from_str(&t) != Ok(Amount(n)) {
        sh.violation(&format!("Amount({n}) is not read back from {t:?}"))
    }
    let t = serde_json::to_string(&DecimalJson(n)).unwrap();
    let want = format!("\"{}\"", amount_text(n));
    if t != want {
        sh.violation(&format!("the decimal {n} is written {t}, not {want}"))
    }
    if serde_json::from_str::<DecimalJson>(&t).ok() != Some(DecimalJson(n)) {
        sh.violation(&format!("the decimal {n} is not read back from {t}"))
    }
    sh.count("amounts written");
    sh.observed(fnv(&n.to_le_bytes()), true);
}
/// Integers are strings of digits in JSON.
fn integers(sh: &mut Shard) {
    let n = value(&mut sh.rng);
    let mut s = match sh.rng.below(4) {
        0 => (n as u32).to_string(),
        1 => (u32::MAX as u64 - 2 + sh.rng.below(5)).to_string(),
        2 => (u64::MAX as u128 - 2 + sh.rng.below(5) as u128).to_string(),
        _ => n.to_string(),
    };
    if sh.rng.chance(1, 3) {
        let mut cs: Vec<char> = s.chars().collect();
        let at = sh.rng.below(cs.len() as u64 + 1) as usize;
        cs.insert(at, *sh.rng.pick(&['+', '-', '.', ' ', 'e', '_', '0', '9', '\u{663}']));
        s = cs.into_iter().collect();
    }
    if sh.rng.chance(1, 40) {
        s.clear()
    }
    sh.case(|| format!("integer text {s:?}"));
    let plain = s.strip_prefix('+').unwrap_or(&s);
    let val = if !plain.is_empty() && plain.bytes().all(|c| c.is_ascii_digit()) { plain.parse::<u128>().ok() } else { None };
    let j = serde_json::to_string(&s).unwrap();
    for (what, max, got) in [
        ("u32", u32::MAX as u128, guarded(|| serde_json::from_str::<U32Json>(&j).map(|x| x.0 as u64).ok())),
        ("u64", u64::MAX as u128, guarded(|| serde_json::from_str::<U64Json>(&j).map(|x| x.0).ok())),
    ] {
        let want = val.filter(|v| *v <= max).map(|v| v as u64);
        let fine = match &got {
            Ok(g) => *g == want || g.is_none() && s.starts_with('+'),
            Err(_) => false,
        };
        if !fine {
            sh.violation(&format!("the {what} text {s:?} was read as {got:?}, expected {want:?}"))
        }
        // a number in JSON is not a string of digits
        if guarded(|| serde_json::from_str::<U64Json>(&n.to_string()).is_ok()) != Ok(false) {
            sh.violation("a bare JSON number was taken for an integer in text")
        }
    }
    if serde_json::to_string(&U64Json(n)).unwrap() != format!("\"{n}\"") || serde_json::to_string(&U32Json(n as u32)).unwrap() != format!("\"{}\"", n as u32) {
        sh.violation(&format!("the integer {n} is not written in its decimal digits"))
    }
    sh.count("integers");
    sh.observed(fnv(j.as_bytes()), true);
}
/// Days since 1970 to a date, by the civil calendar rules alone.
fn civil(mut days: i64) -> (i64, i64, i64) {
    let leap = |y: i64| y % 4 == 0 && (y % 100 != 0 || y % 400 == 0);
    let mut y = 1970;
    // 400 years are 146097 days
    y += 400 * days.div_euclid(146_097);
    days = days.rem_euclid(146_097);
    loop {
        let n = if leap(y) { 366 } else { 365 };
        if days < n {
            break;
        }
        days -= n;
        y += 1;
    }
    let lens = [31, if leap(y) { 29 } else { 28 }, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31];
    let mut m = 0;
    while days >= lens[m] {
        days -= lens[m];
        m += 1;
    }
    (y, m as i64 + 1, days + 1)
}
const LAST: u64 = 253_402_300_799_999; // the end of the year 9999
fn times(sh: &mut Shard) {
    let r = &mut sh.rng;
    let ms = match r.below(5) {
        0 => r.below(100_000),
        1 => 1_500_000_000_000 + r.below(700_000_000_000),
        2 => LAST - r.below(100_000_000),
        3 => {
            // next to midnight
            let d = r.below(2_000_000) * 86_400_000;
            d.saturating_sub(r.below(2)) + r.below(2)
        }
        _ => r.below(LAST + 1),
    }
    .min(LAST);
    sh.case(|| format!("block time {ms} ms"));
    let secs = ms / 1000;
    let got = guarded(|| {
        let t = BlockTime::from_unix_epoch_millis(ms);
        let d = t.datetime();
        let s = BlockTime::from_unix_epoch(secs);
        (
            t.epoch_millis(),
            s.epoch_millis(),
            d.unix_timestamp_nanos(),
            d.offset().is_utc(),
            (d.year() as i64, d.month() as u8 as i64, d.day() as i64),
            (d.hour() as u64, d.minute() as u64, d.second() as u64, d.millisecond() as u64),
        )
    });
    let of_day = secs % 86_400;
    let want = (
        ms,
        secs * 1000,
        ms as i128 * 1_000_000,
        true,
        civil((secs / 86_400) as i64),
        (of_day / 3600, of_day / 60 % 60, of_day % 60, ms % 1000),
    );
    if got.as_ref() != Ok(&want) {
        sh.violation(&format!("block time {ms} ms is {got:?}, not {want:?}"))
    }
    sh.count("block times");
    sh.observed(fnv(&ms.to_be_bytes()), true);
}
pub fn run() {
    let run = mon::start(
        "C18",
        "exploration",
        "each text, value or time counts once by its content",
        &[
            "texts with a leading plus, an empty whole or fractional part or superfluous zero decimals may be read or refused",
            "block times after the year 9999 have no date and are not judged",
        ],
    );
    run.par(mon::threads(), |sh| {
        let n = if sh.thorough() { 6_000_000 } else { 400_000 };
        for i in 0..n {
            if i % 256 == 0 {
                sh.beat()
            }
            texts(sh);
            match i % 3 {
                0 => values(sh),
                1 => integers(sh),
                _ => times(sh),
            }
            if i < 2 {
                let s = text(&mut sh.rng);
                sh.sample(|| json!({"text": s, "sense": format!("{:?}", sense(&s))}));
            }
        }
    });
    for k in ["texts of amounts", "texts in unusual spelling", "texts that are no amount", "amounts written", "integers", "block times"] {
        run.require(k, 5000);
    }
    run.finish()
}
