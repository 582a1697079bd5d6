//! Independent reference model of layout-described values: layout trees, their
//! JSON form, conforming values, reference encoder and reference decoder.
use crate::model::{caml_hash_ref, enc_int, enc_nat0, gen_i64, Cur, DErr};
use bin_prot::Value;
use mon::Rng;
use serde_json::{json, Value as J};

#[derive(Clone, Debug, PartialEq)]
pub enum L {
    Unit,
    Bool,
    String,
    Char,
    Float,
    /// "Int", "Int32", "Int64", "Native_int"
    Int(&'static str),
    Option(Box<L>),
    Record(Vec<(String, L)>),
    Tuple(Vec<L>),
    /// (name, wire index, args)
    Sum(Vec<(String, u8, Vec<L>)>),
    Poly(Vec<(String, u32, Vec<L>)>),
    List(Box<L>),
    /// resolved reference: module path, type name, target
    Ref(String, Box<L>),
    /// reference to a custom vector: path, length, element
    CVec(&'static str, usize, Box<L>),
    /// reference to a custom 32-byte field
    CField(&'static str),
    /// several custom encoded 32-byte parts under one reference: path, shape
    CMod(&'static str, u8),
    /// rules the library documents as unsupported: decoding reports an error
    Bad(BadRule),
}
#[derive(Clone, Debug, PartialEq)]
pub enum BadRule {
    Nat0,
    Bigstring,
    Hashtable(Box<L>, Box<L>),
    Vec(usize, Box<L>),
    TypeVar(String),
    SelfRef(Vec<L>),
    TypeAbs(Vec<String>, Box<L>),
    TypeClosure(Vec<(String, L)>, Box<L>),
    Unresolved(Vec<L>, String),
    /// a polymorphic variant with an inherited row
    Inherited(Box<L>, Vec<(String, u32, Vec<L>)>),
    /// custom rule whose module path the library does not know
    CustomUnknown(String, Vec<L>),
    /// known vector path without its element rule
    CVecNoElem(&'static str),
    /// custom rule with no enclosing reference at all (only at the root)
    BareCustom(Vec<L>),
}
pub const CVECS: &[(&str, usize)] = &[
    ("Pickles_type.Vector.Vector2", 2), ("Pickles_types.Vector.Vector2", 2), ("Pickles_types.Vector.Vector4", 4),
    ("Pickles_types.Vector.Vector8", 8), ("Pickles_types.Vector.Vector17", 17), ("Pickles_types.Vector.Vector18", 18),
];
pub const CFIELDS: &[&str] = &[
    "Ledger_hash0", "State_hash", "Pending_coinbase.Stack_hash", "State_body_hash", "Pending_coinbase.Hash_builder",
    "Snark_params.Make_inner_curve_scalar", "Snark_params.Tick", "Epoch_seed", "Zexe_backend.Zexe_backend_common.Stable.Field",
    "Pending_coinbase.Coinbase_stack",
];
pub const INTS: &[&str] = &["Int", "Int32", "Int64", "Native_int"];

fn name(r: &mut Rng) -> String {
    let n = r.range(1, 8);
    (0..n).map(|_| *r.pick(&['a', 'b', 'A', 'T', 't', '_', '0', '\'', 'é', ' ', '"', '.', '\u{1f600}'])).collect()
}
fn names(r: &mut Rng, n: usize) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    while v.len() < n {
        let s = name(r);
        if !v.contains(&s) {
            v.push(s);
        }
    }
    v
}
pub fn gen_l(r: &mut Rng, depth: usize, bad: bool) -> L {
    if bad && r.chance(1, 12) {
        return L::Bad(gen_bad(r, depth));
    }
    if depth == 0 || r.chance(1, 3) {
        return match r.below(11) {
            0 => L::Unit,
            1 => L::Bool,
            2 | 3 => L::String,
            4 => L::Char,
            5 => L::Float,
            6 if r.chance(1, 4) => L::CMod(*r.pick(CFIELDS), r.below(6) as u8),
            6 => L::CField(*r.pick(CFIELDS)),
            _ => L::Int(*r.pick(INTS)),
        };
    }
    match r.below(11) {
        0 => L::Option(Box::new(gen_l(r, depth - 1, bad))),
        1 | 2 => {
            let n = r.range(1, 4);
            let ns = names(r, n);
            L::Record(ns.into_iter().map(|k| (k, gen_l(r, depth - 1, bad))).collect())
        }
        3 => L::Tuple((0..r.range(1, 4)).map(|_| gen_l(r, depth - 1, bad)).collect()),
        4 | 5 => {
            let n = if r.chance(1, 15) { r.range(60, 255) } else { r.range(1, 5) };
            let ns = names(r, n);
            let mut v: Vec<(String, u8, Vec<L>)> = ns
                .into_iter()
                .enumerate()
                .map(|(i, k)| {
                    let a = (0..r.range(0, 3)).map(|_| if n > 10 { L::Bool } else { gen_l(r, depth - 1, bad) }).collect();
                    (k, i as u8, a)
                })
                .collect();
            // summands carry their wire index explicitly: list order is irrelevant
            if r.chance(1, 4) {
                for i in (1..v.len()).rev() {
                    let j = r.below(i as u64 + 1) as usize;
                    v.swap(i, j);
                }
            }
            L::Sum(v)
        }
        6 => {
            let n = r.range(1, 5);
            L::Poly(gen_rows(r, n, depth - 1, bad))
        }
        7 | 8 => loop {
            let e = gen_l(r, depth - 1, bad);
            if lmin(&e) > 0 {
                return L::List(Box::new(e));
            }
        },
        9 => L::Ref(if r.bool() { name(r) } else { String::new() }, Box::new(gen_l(r, depth - 1, bad))),
        _ => {
            let (p, n) = *r.pick(CVECS);
            L::CVec(p, n, Box::new(gen_l(r, if depth > 2 { 1 } else { depth - 1 }, bad)))
        }
    }
}
fn gen_rows(r: &mut Rng, n: usize, depth: usize, bad: bool) -> Vec<(String, u32, Vec<L>)> {
    let ns = names(r, n);
    let mut seen: Vec<u32> = vec![];
    ns.into_iter()
        .map(|k| {
            let mut h = match r.below(4) {
                0 => r.below(300) as u32,
                1 => r.next() as u32 & 0x7fff_ffff,
                _ => caml_hash_ref(&k),
            };
            while seen.contains(&h) {
                h = r.next() as u32 & 0x7fff_ffff;
            }
            seen.push(h);
            let a = (0..r.range(0, 3)).map(|_| gen_l(r, depth, bad)).collect();
            (k, h, a)
        })
        .collect()
}
pub fn gen_bad(r: &mut Rng, depth: usize) -> BadRule {
    let d = depth.min(1);
    let sub = |r: &mut Rng| Box::new(gen_l(r, d, false));
    match r.below(12) {
        0 => BadRule::Nat0,
        1 => BadRule::Bigstring,
        2 => BadRule::Hashtable(sub(r), sub(r)),
        3 => BadRule::Vec(r.range(0, 9), sub(r)),
        4 => BadRule::TypeVar(name(r)),
        5 => BadRule::SelfRef((0..r.range(0, 2)).map(|_| *sub(r)).collect()),
        6 => BadRule::TypeAbs((0..r.range(0, 2)).map(|_| name(r)).collect(), sub(r)),
        7 => BadRule::TypeClosure((0..r.range(0, 2)).map(|_| (name(r), *sub(r))).collect(), sub(r)),
        8 => BadRule::Unresolved((0..r.range(0, 2)).map(|_| *sub(r)).collect(), name(r)),
        9 => {
            let n = r.range(0, 2);
            BadRule::Inherited(sub(r), gen_rows(r, n, 0, false))
        }
        10 => BadRule::CustomUnknown(format!("Zz{}", name(r)), (0..r.range(0, 2)).map(|_| *sub(r)).collect()),
        _ => BadRule::CVecNoElem(r.pick(CVECS).0),
    }
}
pub fn has_bad(l: &L) -> bool {
    match l {
        L::Bad(_) => true,
        L::Option(x) | L::List(x) | L::Ref(_, x) | L::CVec(_, _, x) => has_bad(x),
        L::Record(v) => v.iter().any(|(_, x)| has_bad(x)),
        L::Tuple(v) => v.iter().any(has_bad),
        L::Sum(v) => v.iter().any(|(_, _, a)| a.iter().any(has_bad)),
        L::Poly(v) => v.iter().any(|(_, _, a)| a.iter().any(has_bad)),
        _ => false,
    }
}
pub fn lmin(l: &L) -> usize {
    match l {
        L::Record(v) => v.iter().map(|(_, x)| lmin(x)).sum(),
        L::Tuple(v) => v.iter().map(lmin).sum(),
        L::Ref(_, x) => lmin(x),
        _ => 1,
    }
}
// ------------------------------------------------------------------ JSON
/// The layout file form (yojson encoding of the OCaml type).
pub fn to_json(l: &L) -> J {
    let many = |v: &[L]| J::Array(v.iter().map(to_json).collect());
    match l {
        L::Unit => json!(["Unit"]),
        L::Bool => json!(["Bool"]),
        L::String => json!(["String"]),
        L::Char => json!(["Char"]),
        L::Float => json!(["Float"]),
        L::Int(k) => json!([k]),
        L::Option(x) => json!(["Option", to_json(x)]),
        L::Record(v) => json!(["Record", v.iter().map(|(k, x)| json!({"field_name": k, "field_rule": to_json(x)})).collect::<Vec<_>>()]),
        L::Tuple(v) => json!(["Tuple", many(v)]),
        L::Sum(v) => json!(["Sum", v.iter().map(|(k, i, a)| json!({"ctor_name": k, "index": i, "ctor_args": many(a)})).collect::<Vec<_>>()]),
        L::Poly(v) => json!(["Polyvar", rows(v)]),
        L::List(x) => json!(["List", to_json(x)]),
        L::Ref(p, x) => refj(p, to_json(x)),
        L::CVec(p, _, e) => refj(p, json!(["Custom", [to_json(e)]])),
        L::CField("") => json!(["Custom", []]),
        L::CField(p) => refj(p, json!(["Custom", []])),
        L::CMod(p, k) => refj(p, to_json(&cmod(*k))),
        L::Bad(b) => match b {
            BadRule::Nat0 => json!(["Nat0"]),
            BadRule::Bigstring => json!(["Bigstring"]),
            BadRule::Hashtable(k, v) => json!(["Hashtable", {"key_rule": to_json(k), "value_rule": to_json(v)}]),
            BadRule::Vec(n, x) => json!(["Vec", n, to_json(x)]),
            BadRule::TypeVar(s) => json!(["Type_var", s]),
            BadRule::SelfRef(v) => json!(["Self_reference", many(v)]),
            BadRule::TypeAbs(n, x) => json!(["Type_abstraction", n, to_json(x)]),
            BadRule::TypeClosure(b, x) => json!(["Type_closure", b.iter().map(|(k, x)| json!([k, to_json(x)])).collect::<Vec<_>>(), to_json(x)]),
            BadRule::Unresolved(v, id) => json!(["Reference", ["Unresolved", {"params": many(v), "layout_id": id}]]),
            BadRule::Inherited(x, v) => {
                let mut a = vec![json!(["Inherited", to_json(x)])];
                if let J::Array(t) = rows(v) {
                    a.extend(t);
                }
                json!(["Polyvar", a])
            }
            BadRule::CustomUnknown(p, v) => refj(p, json!(["Custom", many(v)])),
            BadRule::CVecNoElem(p) => refj(p, json!(["Custom", []])),
            BadRule::BareCustom(v) => json!(["Custom", many(v)]),
        },
    }
}
/// The content of a module with several custom parts (fields without a path of their own).
fn cmod(k: u8) -> L {
    let c = || L::CField("");
    match k {
        0 => L::Tuple(vec![c(), c()]),
        1 => L::Record(vec![("x".into(), c()), ("n".into(), L::Int("Int")), ("y".into(), c())]),
        2 => L::List(Box::new(c())),
        3 => L::Tuple(vec![L::Option(Box::new(c())), c()]),
        4 => L::Sum(vec![("A".into(), 0, vec![c(), c()]), ("B".into(), 1, vec![]), ("C".into(), 2, vec![L::Bool, c()])]),
        _ => L::Poly(vec![("A".into(), 7, vec![c(), L::Char, c()]), ("B".into(), 8, vec![])]),
    }
}
fn rows(v: &[(String, u32, Vec<L>)]) -> J {
    J::Array(v.iter().map(|(k, h, a)| json!(["Tagged", {"polyvar_name": k, "hash": h, "polyvar_args": a.iter().map(to_json).collect::<Vec<_>>()}])).collect())
}
fn refj(p: &str, target: J) -> J {
    // the optional attributes are sometimes absent in real layout files
    let mut o = json!({"source_type_decl": "t", "ref_rule": target});
    if !p.is_empty() {
        o["source_module_path"] = json!(p);
    }
    if p.len() % 2 == 0 {
        o["bin_io_derived"] = json!(true);
    }
    json!(["Reference", ["Resolved", o]])
}
// ---------------------------------------------------------------- values
pub fn chars(b: &[u8]) -> Vec<Value> {
    b.iter().map(|x| Value::Char(*x)).collect()
}
/// Limits the total amount of data generated.
pub fn gen_v(r: &mut Rng, l: &L, fuel: &mut i64) -> Value {
    *fuel -= 1;
    match l {
        L::Unit => Value::Unit,
        L::Bool => Value::Bool(r.bool()),
        L::String => {
            let n = match r.below(12) {
                0 => r.range(120, 140),
                1 if *fuel > 0 => r.range(250, 700),
                _ => r.range(0, 9),
            };
            *fuel -= n as i64;
            Value::List(chars(&r.bytes(n)))
        }
        L::Char => Value::Char(r.next() as u8),
        L::Float => Value::Float(f64::from_bits(match r.below(5) {
            0 => *r.pick(&[0, 1 << 63, 0x7ff0_0000_0000_0000, 0x7ff8_0000_0000_0001, 1]),
            _ => r.next(),
        })),
        L::Int("Int32") => Value::Int(gen_i64(r) as i32 as i64),
        L::Int(_) => Value::Int(gen_i64(r)),
        L::Option(x) => Value::Option(if r.bool() { Some(Box::new(gen_v(r, x, fuel))) } else { None }),
        L::Record(v) => Value::Record(v.iter().map(|(k, x)| (k.clone(), gen_v(r, x, fuel))).collect()),
        L::Tuple(v) => Value::Tuple(v.iter().map(|x| gen_v(r, x, fuel)).collect()),
        L::Sum(v) => {
            let (k, i, a) = &v[r.below(v.len() as u64) as usize];
            Value::Sum { name: k.clone(), index: *i, value: Box::new(Value::Tuple(a.iter().map(|x| gen_v(r, x, fuel)).collect())) }
        }
        L::Poly(v) => {
            let (k, h, a) = &v[r.below(v.len() as u64) as usize];
            Value::Polyvar { name: k.clone(), tag: *h, value: Box::new(Value::Tuple(a.iter().map(|x| gen_v(r, x, fuel)).collect())) }
        }
        L::List(x) => {
            let n = if *fuel <= 0 { r.range(0, 1) } else if r.chance(1, 25) { r.range(120, 300) } else { r.range(0, 4) };
            let mut v = vec![];
            for _ in 0..n {
                if *fuel < -50_000 {
                    break;
                }
                v.push(gen_v(r, x, fuel));
            }
            Value::List(v)
        }
        L::Ref(_, x) => gen_v(r, x, fuel),
        L::CVec(_, n, x) => {
            let mut v: Vec<Value> = (0..*n).map(|_| gen_v(r, x, fuel)).collect();
            v.push(Value::Unit);
            Value::Tuple(v)
        }
        L::CField(_) => Value::Tuple(chars(&r.bytes(32))),
        L::CMod(_, k) => gen_v(r, &cmod(*k), fuel),
        L::Bad(_) => Value::Unit,
    }
}
pub fn venc(o: &mut Vec<u8>, l: &L, v: &Value) {
    match (l, v) {
        (L::Unit, Value::Unit) => o.push(0),
        (L::Bool, Value::Bool(b)) => o.push(*b as u8),
        (L::String, Value::List(c)) => {
            enc_nat0(o, c.len() as u64);
            raw(o, c)
        }
        (L::Char, Value::Char(c)) => o.push(*c),
        (L::Float, Value::Float(f)) => o.extend(f.to_bits().to_le_bytes()),
        (L::Int(_), Value::Int(n)) => enc_int(o, *n),
        (L::Option(_), Value::Option(None)) => o.push(0),
        (L::Option(x), Value::Option(Some(v))) => {
            o.push(1);
            venc(o, x, v)
        }
        (L::Record(ls), Value::Record(vs)) => ls.iter().zip(vs).for_each(|((_, l), (_, v))| venc(o, l, v)),
        (L::Tuple(ls), Value::Tuple(vs)) => ls.iter().zip(vs).for_each(|(l, v)| venc(o, l, v)),
        (L::Sum(s), Value::Sum { index, value, .. }) => {
            o.push(*index);
            let (_, _, a) = s.iter().find(|x| x.1 == *index).unwrap();
            args(o, a, value)
        }
        (L::Poly(s), Value::Polyvar { tag, value, .. }) => {
            o.extend((tag << 1 | 1).to_le_bytes());
            let (_, _, a) = s.iter().find(|x| x.1 == *tag).unwrap();
            args(o, a, value)
        }
        (L::List(x), Value::List(vs)) => {
            enc_nat0(o, vs.len() as u64);
            vs.iter().for_each(|v| venc(o, x, v))
        }
        (L::Ref(_, x), v) => venc(o, x, v),
        (L::CVec(_, n, x), Value::Tuple(vs)) => {
            vs[..*n].iter().for_each(|v| venc(o, x, v));
            o.push(0)
        }
        (L::CField(_), Value::Tuple(c)) => raw(o, c),
        (L::CMod(_, k), v) => venc(o, &cmod(*k), v),
        (L::Bad(_), _) => o.push(0),
        x => panic!("layout/value mismatch {x:?}"),
    }
}
fn raw(o: &mut Vec<u8>, c: &[Value]) {
    for x in c {
        match x {
            Value::Char(b) => o.push(*b),
            _ => panic!("char expected"),
        }
    }
}
fn args(o: &mut Vec<u8>, a: &[L], v: &Value) {
    match v {
        Value::Tuple(vs) => a.iter().zip(vs).for_each(|(l, v)| venc(o, l, v)),
        _ => panic!("tuple expected"),
    }
}
/// Reference decoder; `odd` is set when the input uses a form on which the
/// specification leaves the reader latitude (untagged polyvar tags, 32-bit
/// integers out of range), so that no verdict is demanded there.
pub fn vdec(c: &mut Cur, l: &L, odd: &mut bool) -> Result<Value, DErr> {
    Ok(match l {
        L::Unit => match c.byte()? {
            0 => Value::Unit,
            _ => return Err(DErr::Bad),
        },
        L::Bool => Value::Bool(c.bool()?),
        L::String => {
            let n = usize::try_from(c.nat0()?).map_err(|_| DErr::Eof)?;
            Value::List(chars(c.take(n)?))
        }
        L::Char => Value::Char(c.byte()?),
        L::Float => Value::Float(f64::from_bits(u64::from_le_bytes(c.take(8)?.try_into().unwrap()))),
        L::Int(k) => {
            let n = c.int()?;
            if *k == "Int32" && i32::try_from(n).is_err() {
                *odd = true;
            }
            Value::Int(n)
        }
        L::Option(x) => Value::Option(if c.bool()? { Some(Box::new(vdec(c, x, odd)?)) } else { None }),
        L::Record(ls) => {
            let mut v = vec![];
            for (k, l) in ls {
                v.push((k.clone(), vdec(c, l, odd)?));
            }
            Value::Record(v)
        }
        L::Tuple(ls) => Value::Tuple(decs(c, ls, odd)?),
        L::Sum(s) => {
            let i = c.byte()?;
            let (k, _, a) = s.iter().find(|x| x.1 == i).ok_or(DErr::Bad)?;
            Value::Sum { name: k.clone(), index: i, value: Box::new(Value::Tuple(decs(c, a, odd)?)) }
        }
        L::Poly(s) => {
            let w = u32::from_le_bytes(c.take(4)?.try_into().unwrap());
            if w & 1 == 0 {
                *odd = true;
            }
            let (k, h, a) = s.iter().find(|x| x.1 == w >> 1).ok_or(DErr::Bad)?;
            Value::Polyvar { name: k.clone(), tag: *h, value: Box::new(Value::Tuple(decs(c, a, odd)?)) }
        }
        L::List(x) => {
            let n = c.nat0()?;
            let mut v = vec![];
            for _ in 0..n {
                v.push(vdec(c, x, odd)?);
            }
            Value::List(v)
        }
        L::Ref(_, x) => vdec(c, x, odd)?,
        L::CVec(_, n, x) => {
            let mut v = vec![];
            for _ in 0..*n {
                v.push(vdec(c, x, odd)?);
            }
            v.push(vdec(c, &L::Unit, odd)?);
            Value::Tuple(v)
        }
        L::CField(_) => Value::Tuple(chars(c.take(32)?)),
        L::CMod(_, k) => vdec(c, &cmod(*k), odd)?,
        L::Bad(_) => return Err(DErr::Bad),
    })
}
fn decs(c: &mut Cur, ls: &[L], odd: &mut bool) -> Result<Vec<Value>, DErr> {
    ls.iter().map(|l| vdec(c, l, odd)).collect()
}
/// Equality with floats compared by bit pattern.
pub fn veq(a: &Value, b: &Value) -> bool {
    let all = |a: &[Value], b: &[Value]| a.len() == b.len() && a.iter().zip(b).all(|(x, y)| veq(x, y));
    match (a, b) {
        (Value::Float(x), Value::Float(y)) => x.to_bits() == y.to_bits(),
        (Value::Option(Some(x)), Value::Option(Some(y))) => veq(x, y),
        (Value::Record(x), Value::Record(y)) => x.len() == y.len() && x.iter().zip(y).all(|((k, v), (j, w))| k == j && veq(v, w)),
        (Value::Tuple(x), Value::Tuple(y)) | (Value::List(x), Value::List(y)) => all(x, y),
        (Value::Sum { name: n, index: i, value: v }, Value::Sum { name: m, index: j, value: w }) => n == m && i == j && veq(v, w),
        (Value::Polyvar { name: n, tag: i, value: v }, Value::Polyvar { name: m, tag: j, value: w }) => n == m && i == j && veq(v, w),
        _ => a == b,
    }
}
// ------------------------------------------------- reading real layouts
/// Build the model from a layout file's JSON (independent of the crate).
pub fn from_json(j: &J) -> Result<L, String> {
    let a = j.as_array().ok_or("rule is not an array")?;
    let tag = a.first().and_then(|x| x.as_str()).ok_or("no tag")?;
    let many = |j: &J| -> Result<Vec<L>, String> { j.as_array().ok_or("array expected")?.iter().map(from_json).collect() };
    let s = |j: &J| j.as_str().map(|x| x.to_string()).ok_or("string expected".to_string());
    Ok(match (tag, a.len()) {
        ("Unit", 1) => L::Unit,
        ("Bool", 1) => L::Bool,
        ("String", 1) => L::String,
        ("Char", 1) => L::Char,
        ("Float", 1) => L::Float,
        ("Int" | "Int32" | "Int64" | "Native_int", 1) => L::Int(INTS.iter().find(|x| **x == tag).unwrap()),
        ("Option", 2) => L::Option(Box::new(from_json(&a[1])?)),
        ("List", 2) => L::List(Box::new(from_json(&a[1])?)),
        ("Tuple", 2) => L::Tuple(many(&a[1])?),
        ("Record", 2) => L::Record(
            a[1].as_array().ok_or("fields")?.iter().map(|f| Ok((s(&f["field_name"])?, from_json(&f["field_rule"])?))).collect::<Result<_, String>>()?,
        ),
        ("Sum", 2) => L::Sum(
            a[1].as_array()
                .ok_or("summands")?
                .iter()
                .map(|f| Ok((s(&f["ctor_name"])?, f["index"].as_u64().ok_or("index")? as u8, many(&f["ctor_args"])?)))
                .collect::<Result<_, String>>()?,
        ),
        ("Polyvar", 2) => L::Poly(
            a[1].as_array()
                .ok_or("rows")?
                .iter()
                .map(|t| {
                    if t[0].as_str() != Some("Tagged") {
                        return Err("inherited".to_string());
                    }
                    let f = &t[1];
                    Ok((s(&f["polyvar_name"])?, f["hash"].as_u64().ok_or("hash")? as u32, many(&f["polyvar_args"])?))
                })
                .collect::<Result<_, String>>()?,
        ),
        ("Reference", 2) if a[1][0].as_str() == Some("Resolved") => {
            let p = a[1][1]["source_module_path"].as_str().unwrap_or("").to_string();
            let t = &a[1][1]["ref_rule"];
            if t[0].as_str() == Some("Custom") {
                let args = many(&t[1])?;
                if let Some((k, n)) = CVECS.iter().find(|x| x.0 == p) {
                    return Ok(L::CVec(k, *n, Box::new(args.into_iter().next().ok_or("vector element")?)));
                }
                if let Some(k) = CFIELDS.iter().find(|x| **x == p) {
                    return Ok(L::CField(k));
                }
                return Err(format!("unknown custom {p}"));
            }
            L::Ref(p, Box::new(from_json(t)?))
        }
        x => return Err(format!("unsupported rule {x:?}")),
    })
}
