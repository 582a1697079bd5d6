//! C07: layout-driven decoding yields the tree the layout describes, and the
//! tree can be navigated by name and position.
use crate::lmodel::*;
use crate::model::gen_i64;
use bin_prot::value::Index;
use bin_prot::{BinProtRule, Deserializer, Layout, Value};
use mon::*;
use serde::Deserialize;
use serde_json::json;

fn navigate(sh: &mut Shard, v: &Value, depth: usize) {
    if depth == 0 {
        return;
    }
    let fail = |sh: &Shard, what: String| -> ! { sh.violation(&format!("navigation: {what} on {v:?}")) };
    match v {
        Value::Record(m) => {
            for (k, x) in m {
                match k.index_into(v) {
                    Some(y) if veq(x, y) => {}
                    o => fail(sh, format!("field {k:?} gave {o:?}")),
                }
                match guarded(|| v[k.as_str()].clone()) {
                    Ok(y) if veq(x, &y) => {}
                    o => fail(sh, format!("[{k:?}] gave {o:?}")),
                }
                sh.count("navigate_field");
            }
            let mut misses = vec![String::new(), format!("{}?", m.iter().map(|x| x.0.as_str()).collect::<String>())];
            for (k, _) in m {
                // names close to a present one
                misses.push(k.chars().map(|c| if c.is_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect());
                misses.push(format!("{k} "));
                misses.push(format!("{k}a"));
                misses.push(format!("a{k}"));
                misses.push(k.trim().to_string());
                misses.push(k.chars().rev().skip(1).collect::<Vec<_>>().into_iter().rev().collect());
                misses.push(k.chars().skip(1).collect());
                misses.push(k.replace('_', ""));
                misses.push(k.replace('\'', "_"));
            }
            for miss in misses {
                if m.iter().any(|x| x.0 == miss) {
                    continue;
                }
                if miss.index_into(v).is_some() {
                    fail(sh, format!("absent field {miss:?} was found"));
                }
                sh.count("navigate_absent");
            }
            if 0usize.index_into(v).is_some() {
                fail(sh, "a record answered to a position".into());
            }
            for (_, x) in m {
                navigate(sh, x, depth - 1);
            }
        }
        Value::Tuple(xs) | Value::List(xs) => {
            for (i, x) in xs.iter().enumerate() {
                match (i.index_into(v), i < 3) {
                    (Some(y), _) if veq(x, y) => {}
                    (o, _) => fail(sh, format!("position {i} gave {o:?}")),
                }
                sh.count("navigate_position");
                if i < 6 {
                    navigate(sh, x, depth - 1);
                }
            }
            if xs.len().index_into(v).is_some() || usize::MAX.index_into(v).is_some() {
                fail(sh, "a position past the end was found".into());
            }
            if guarded(|| v[xs.len()].clone()).is_ok() {
                fail(sh, "indexing past the end did not panic".into());
            }
            if "a".index_into(v).is_some() {
                fail(sh, "a sequence answered to a name".into());
            }
        }
        Value::Sum { value, .. } => {
            // a variant is transparent: its payload is addressed directly
            if let Value::Tuple(xs) = &**value {
                for (i, x) in xs.iter().enumerate() {
                    match i.index_into(v) {
                        Some(y) if veq(x, y) => {}
                        o => fail(sh, format!("variant argument {i} gave {o:?}")),
                    }
                    sh.count("navigate_variant");
                }
                if xs.len().index_into(v).is_some() {
                    fail(sh, "an absent variant argument was found".into());
                }
            }
            navigate(sh, value, depth - 1);
        }
        Value::Option(o) => {
            match (guarded(|| v.inner()), o) {
                (Ok(None), None) => {}
                (Ok(Some(a)), Some(b)) if veq(&a, b) => {}
                (a, _) => fail(sh, format!("inner() gave {a:?}")),
            }
            sh.count("navigate_option");
            if let Some(x) = o {
                navigate(sh, x, depth - 1);
            }
        }
        Value::Polyvar { value, .. } => navigate(sh, value, depth - 1),
        _ => {
            if 0usize.index_into(v).is_some() || "a".index_into(v).is_some() {
                fail(sh, "a leaf answered to an index".into());
            }
            if guarded(|| v.inner()).is_ok() {
                fail(sh, "inner() of a non-option did not panic".into());
            }
        }
    }
}
fn tree(sh: &mut Shard) {
    let d = sh.rng.range(0, 5);
    let l = gen_l(&mut sh.rng, d, false);
    let js = to_json(&l);
    // through a rule or through a whole layout file
    let rule: BinProtRule = if sh.rng.bool() {
        serde_json::from_value(js.clone()).unwrap_or_else(|e| sh.violation(&format!("layout {js} was not parsed: {e}")))
    } else {
        let file = json!({"layout_loc": "a.ml:1", "version_opt": 1, "type_decl": "type t", "bin_io_derived": true, "bin_prot_rule": js});
        let lay: Layout = serde_json::from_str(&file.to_string()).unwrap_or_else(|e| sh.violation(&format!("layout {js} was not parsed: {e}")));
        lay.bin_prot_rule
    };
    for _ in 0..3 {
        let mut f = 600;
        let v = gen_v(&mut sh.rng, &l, &mut f);
        let mut w = vec![];
        // typed values may have been read from the same stream before the layout
        let before: Vec<(i64, String)> = if sh.rng.bool() { vec![] } else { (0..sh.rng.range(1, 4)).map(|_| (gen_i64(&mut sh.rng), crate::model::gen_string(&mut sh.rng))).collect() };
        for (a, b) in &before {
            crate::model::enc_int(&mut w, *a);
            crate::model::enc_nat0(&mut w, b.len() as u64);
            w.extend(b.as_bytes());
        }
        venc(&mut w, &l, &v);
        let n = w.len();
        let k = sh.rng.range(0, 20);
        w.extend(sh.rng.bytes(k));
        sh.case(|| format!("layout {js} bytes {}", hex(&w)));
        let got = guarded(|| {
            let mut de = Deserializer::from_reader(w.as_slice());
            let mut typed = vec![];
            for _ in &before {
                typed.push(<(i64, String)>::deserialize(&mut de)?);
            }
            let mut de = de.with_layout(&rule);
            let v = Value::deserialize(&mut de)?;
            let left = de.rdr.buffer().len();
            Ok::<_, bin_prot::error::Error>((v, left, typed))
        });
        match got {
            Ok(Ok((g, left, typed))) => {
                if typed != before {
                    sh.violation(&format!("the typed values before the layout were read as {typed:?}"));
                }
                if !before.is_empty() {
                    sh.count("typed_then_layout");
                }
                if !veq(&g, &v) {
                    sh.violation(&format!("decoded tree {g:?} differs from the described tree {v:?}"));
                }
                if w.len() < 8000 && left != w.len() - n {
                    sh.violation(&format!("{} bytes left unread instead of {}", left, w.len() - n));
                }
                navigate(sh, &g, 5);
            }
            o => sh.violation(&format!("conforming bytes were not decoded: {o:?}")),
        }
        sh.count("trees");
        sh.observed(fnv(&w) ^ fnv(js.to_string().as_bytes()), n > 1);
    }
    if d >= 3 {
        sh.sample(|| json!({"layout": js.to_string().chars().take(200).collect::<String>()}));
    }
}
#[derive(Deserialize, Debug)]
struct Inner {
    yes: bool,
    num: i16,
}
#[derive(Deserialize, Debug)]
struct Hybrid {
    a: i32,
    b: Value,
    c: bool,
    d: Vec<i64>,
    e: Option<Inner>,
    f: (bool, i64),
    g: String,
    h: f64,
}
/// Typed structs with loosely typed parts, fields matched by name.
fn hybrid(sh: &mut Shard) {
    let d = sh.rng.range(0, 3);
    let lb = gen_l(&mut sh.rng, d, false);
    let li = || L::Int("Int");
    let skip = loop {
        // ignored fields: anything without variants
        let l = gen_l(&mut sh.rng, 2, false);
        let s = format!("{l:?}");
        if !s.contains("Sum") && !s.contains("Poly") && !s.contains("CMod") {
            break l;
        }
    };
    let mut fields: Vec<(String, L)> = vec![
        ("a".into(), li()), ("b".into(), lb), ("c".into(), L::Bool), ("d".into(), L::List(Box::new(L::Int("Int64")))),
        ("e".into(), L::Option(Box::new(L::Record(vec![("num".into(), li()), ("other".into(), L::String), ("yes".into(), L::Bool)])))),
        ("f".into(), L::Tuple(vec![L::Bool, li()])), ("g".into(), L::String), ("h".into(), L::Float), ("zz".into(), skip),
    ];
    for i in (1..fields.len()).rev() {
        let j = sh.rng.below(i as u64 + 1) as usize;
        fields.swap(i, j);
    }
    let l = L::Record(fields);
    let mut f = 200;
    let mut v = gen_v(&mut sh.rng, &l, &mut f);
    let s = crate::model::gen_string(&mut sh.rng);
    if let Value::Record(m) = &mut v {
        for (k, x) in m.iter_mut() {
            match k.as_str() {
                "a" if sh.rng.chance(3, 4) => *x = Value::Int(gen_i64(&mut sh.rng) as i32 as i64),
                "g" => *x = Value::List(chars(s.as_bytes())),
                "e" => {
                    if let Value::Option(Some(r)) = x {
                        if let Value::Record(m) = &mut **r {
                            if sh.rng.chance(3, 4) {
                                m[0].1 = Value::Int(gen_i64(&mut sh.rng) as i16 as i64);
                            }
                        }
                    }
                }
                _ => {}
            }
        }
    }
    let mut w = vec![];
    venc(&mut w, &l, &v);
    let js = to_json(&l);
    let rule: BinProtRule = serde_json::from_value(js.clone()).unwrap();
    sh.case(|| format!("hybrid layout {js} bytes {}", hex(&w)));
    let int = |v: &Value| if let Value::Int(n) = v { *n } else { panic!() };
    let inner_ok = match &v["e"] {
        Value::Option(Some(r)) => i16::try_from(int(&r["num"])).is_ok(),
        _ => true,
    };
    let fits = i32::try_from(int(&v["a"])).is_ok() && inner_ok;
    let got = guarded(|| Hybrid::deserialize(&mut Deserializer::from_reader(w.as_slice()).with_layout(&rule)));
    match got {
        Ok(Ok(h)) => {
            let e_ok = match (&v["e"], &h.e) {
                (Value::Option(None), None) => true,
                (Value::Option(Some(r)), Some(i)) => int(&r["num"]) == i.num as i64 && r["yes"] == Value::Bool(i.yes),
                _ => false,
            };
            let ok = fits
                && h.a as i64 == int(&v["a"])
                && veq(&h.b, &v["b"])
                && v["c"] == Value::Bool(h.c)
                && v["d"] == Value::List(h.d.iter().map(|x| Value::Int(*x)).collect())
                && e_ok
                && v["f"] == Value::Tuple(vec![Value::Bool(h.f.0), Value::Int(h.f.1)])
                && h.g == s
                && veq(&v["h"], &Value::Float(h.h));
            if !ok {
                sh.violation(&format!("typed view {h:?} differs from {v:?}"));
            }
            sh.count("hybrid_ok");
        }
        Ok(Err(_)) if !fits => sh.count("hybrid_out_of_range_refused"),
        o => sh.violation(&format!("typed view of layout data failed: {o:?} for {v:?}")),
    }
    sh.observed(fnv(&w) ^ 5, true);
}
/// Navigation through hand-built variants holding records and lists.
fn built(sh: &mut Shard) {
    let n = sh.rng.range(0, 4);
    let rec: Vec<(String, Value)> = (0..n).map(|i| (format!("k{i}"), Value::Int(gen_i64(&mut sh.rng)))).collect();
    let v = Value::Sum { name: "A".into(), index: 3, value: Box::new(Value::Record(rec.clone())) };
    sh.case(|| format!("{v:?}"));
    for (k, x) in &rec {
        if k.index_into(&v) != Some(x) || guarded(|| v[k.clone()].clone()).ok().as_ref() != Some(x) {
            sh.violation(&format!("field {k} through a variant of {v:?}"));
        }
    }
    if "k9".index_into(&v).is_some() || guarded(|| v["k9"].clone()).is_ok() {
        sh.violation(&format!("absent field found in {v:?}"));
    }
    let xs: Vec<Value> = rec.iter().map(|x| x.1.clone()).collect();
    let v = Value::Sum { name: "A".into(), index: 3, value: Box::new(Value::List(xs.clone())) };
    for i in 0..n + 2 {
        if i.index_into(&v) != xs.get(i) {
            sh.violation(&format!("position {i} through a variant of {v:?}"));
        }
    }
    sh.count("built_variants");
    sh.observed(fnv(format!("{v:?}").as_bytes()), n > 0);
}
/// A sum whose other constructors have numbers no byte of the wire can mean:
/// only the constructor with exactly the number read may be chosen.
fn decoys(sh: &mut Shard) {
    let i = sh.rng.below(256) as i64;
    let mut far: Vec<i64> = vec![i + 256, i - 256, i + 512, i + 65536, i - 65536, i + (1 << 24), i32::MIN as i64 + i];
    for k in (1..far.len()).rev() {
        far.swap(k, sh.rng.below(k as u64 + 1) as usize);
    }
    far.truncate(sh.rng.range(1, 7));
    let declared = sh.rng.bool();
    let at = sh.rng.below(far.len() as u64 + 1) as usize;
    let mut ctors: Vec<_> = far.iter().enumerate().map(|(k, n)| json!({"ctor_name": format!("Far{k}"), "index": n, "ctor_args": [["Bool"]]})).collect();
    if declared {
        ctors.insert(at, json!({"ctor_name": "Near", "index": i, "ctor_args": [["Bool"]]}));
    }
    let js = json!(["Sum", ctors]);
    sh.case(|| format!("layout {js}, constructor {i} on the wire"));
    let rule: BinProtRule = serde_json::from_value(js.clone()).unwrap_or_else(|e| sh.violation(&format!("layout {js} was not parsed: {e}")));
    let w = [i as u8, 1];
    let want = Value::Sum { name: "Near".into(), index: i as u8, value: Box::new(Value::Tuple(vec![Value::Bool(true)])) };
    match (declared, guarded(|| Value::deserialize(&mut Deserializer::from_reader(&w[..]).with_layout(&rule)))) {
        (true, Ok(Ok(v))) if veq(&v, &want) => sh.count("far_constructors_passed_over"),
        (false, Ok(Err(_))) => sh.count("far_constructors_refused"),
        (_, o) => sh.violation(&format!("constructor {i} under {js} gave {o:?}")),
    }
    sh.observed(fnv(js.to_string().as_bytes()), true);
}
/// Lists and strings that need each size class of the length prefix, followed by something else.
fn long(sh: &mut Shard) {
    let elements = [L::Bool, L::Char, L::Int("Int"), L::Option(Box::new(L::Bool)), L::Tuple(vec![L::Bool, L::Int("Int")]), L::String];
    for (i, n) in [127usize, 128, 255, 256, 4096, 32767, 32768, 65535, 65536, 70_001, 300_003].into_iter().enumerate() {
        if i % 8 != sh.index as usize % 8 {
            continue;
        }
        for e in &elements {
            let body = if let L::String = e {
                (L::String, Value::List(chars(&sh.rng.bytes(n))))
            } else {
                let mut v = vec![];
                for _ in 0..n {
                    v.push(gen_v(&mut sh.rng, e, &mut 3));
                }
                (L::List(Box::new(e.clone())), Value::List(v))
            };
            let l = L::Tuple(vec![L::Bool, body.0, L::Int("Int")]);
            let v = Value::Tuple(vec![Value::Bool(true), body.1, Value::Int(sh.rng.next() as i64)]);
            let rule: BinProtRule = serde_json::from_value(to_json(&l)).unwrap_or_else(|e| sh.violation(&format!("layout {l:?} was not parsed: {e}")));
            let mut w = vec![];
            venc(&mut w, &l, &v);
            sh.case(|| format!("{n} elements under the layout {l:?}"));
            let got = guarded(|| {
                let v = Value::deserialize(&mut Deserializer::from_reader(w.as_slice()).with_layout(&rule))?;
                let mut back = vec![];
                bin_prot::to_writer(&mut back, &v)?;
                Ok::<_, bin_prot::error::Error>((v, back))
            });
            match got {
                Ok(Ok((g, back))) if veq(&g, &v) && back == w => sh.count("long_lists"),
                Ok(Ok(_)) => sh.violation(&format!("{n} elements under the layout {l:?} became another tree or other bytes")),
                o => sh.violation(&format!("{n} elements under the layout {l:?} gave {:?}", o.map(|r| r.map(|_| ())))),
            }
            sh.observed(fnv(&w), true);
            sh.beat();
        }
    }
}
pub fn run() {
    let r = start("C07", "exploration",
        "distinct (layout, wire bytes) pairs decoded into trees, typed views and navigations",
        &["layout rules the library documents as unsupported are excluded", "between a custom type and the reference that names it there is no other reference", "list elements occupy at least one byte"]);
    for k in ["trees", "navigate_field", "navigate_position", "navigate_variant", "navigate_option", "navigate_absent", "hybrid_ok", "hybrid_out_of_range_refused", "built_variants"] {
        r.require(k, 500);
    }
    r.require("long_lists", 60);
    r.require("far_constructors_passed_over", 2000);
    r.require("far_constructors_refused", 2000);
    r.par(8, |sh| {
        long(sh);
        let n = if sh.thorough() { 450_000 } else { 10_000 };
        for i in 0..n {
            tree(sh);
            if i % 3 == 0 {
                hybrid(sh);
                built(sh);
                decoys(sh);
            }
        }
    });
    r.finish();
}
