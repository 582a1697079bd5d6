//! Comparison of a value read under a protocol layout with the tree of a typed
//! value, and access to the layouts and blocks that the repository ships.
use crate::lmodel::{self, L};
use bin_prot::Value;
use serde::Deserialize;
use serde_json::Value as J;

pub fn json_file(rel: &str) -> J {
    let p = format!("{}/{rel}", mon::repo_dir());
    let s = std::fs::read_to_string(&p).unwrap_or_else(|e| die(&format!("cannot read {p}: {e}")));
    json_text(&s).unwrap_or_else(|e| die(&format!("{p}: {e}")))
}
pub fn json_text(s: &str) -> Result<J, serde_json::Error> {
    let mut d = serde_json::Deserializer::from_str(s);
    d.disable_recursion_limit();
    J::deserialize(&mut d)
}
pub fn die(m: &str) -> ! {
    eprintln!("HARNESS-ERROR: {m}");
    std::process::exit(2)
}
pub fn layout(name: &str) -> L {
    let j = json_file(&format!("protocol/layouts/{name}.json"));
    lmodel::from_json(&j["bin_prot_rule"]).unwrap_or_else(|e| die(&format!("layout {name}: {e}")))
}
/// Step through version wrappers and references.
pub fn peel(l: &L) -> &L {
    match l {
        L::Ref(_, x) => peel(x),
        L::Record(f) if f.len() == 2 && f[0].0 == "version" => peel(&f[1].1),
        x => x,
    }
}
/// The rule at a path of field names, tuple positions, `*` for the element of a list or option, and
/// `Ctor` for the first argument of a summand; version wrappers around it stay.
pub fn at<'a>(l: &'a L, path: &[&str]) -> &'a L {
    let Some((h, t)) = path.split_first() else { return l };
    let next = match peel(l) {
        L::Record(f) => f.iter().find(|x| x.0 == *h).map(|x| &x.1),
        L::Tuple(v) => h.parse::<usize>().ok().and_then(|i| v.get(i)),
        L::List(x) | L::Option(x) => Some(&**x),
        L::Sum(v) => v.iter().find(|x| x.0 == *h).and_then(|x| x.2.first()),
        L::Poly(v) => v.iter().find(|x| x.0 == *h).and_then(|x| x.2.first()),
        _ => None,
    };
    at(next.unwrap_or_else(|| die(&format!("layout has no {path:?}"))), t)
}
/// Layout names and Rust names of the same thing.
const ALIAS: &[(&str, &str)] = &[
    ("data", "datastack"),
    ("state", "statestack"),
    ("proof", "transactionsnarkproof"),
    ("infinity", "infinite"),
    ("payment", "paymentpayload"),
    ("vrfoutput", "lastvrfoutput"),
    ("feetokenl", "0token"),
    ("paymentpayload", "payment"),
];
pub fn norm(s: &str) -> String {
    s.chars().filter(|c| *c != '_').collect::<String>().to_lowercase()
}
pub fn same_name(layout: &str, rust: &str) -> bool {
    let (a, b) = (norm(layout), norm(rust));
    a == b || ALIAS.iter().any(|x| x.0 == a && x.1 == b)
}
/// Does the tree of a typed value say what the value read under the layout says?
/// The error names the first place where they differ.
pub fn matches(v: &Value, j: &J, path: &mut Vec<String>) -> Result<(), String> {
    let no = |path: &Vec<String>, m: &str| Err(format!("{m} at {}", path.join("/")));
    match (v, j) {
        (Value::Unit, J::Null) => Ok(()),
        (Value::Bool(a), J::Bool(b)) if a == b => Ok(()),
        (Value::Int(a), J::Number(n)) => {
            if n.as_i64() == Some(*a) || n.as_u64() == Some(*a as u64) {
                Ok(())
            } else {
                no(path, &format!("{a} is {n}"))
            }
        }
        (Value::Char(a), J::Number(n)) if n.as_u64() == Some(*a as u64) => Ok(()),
        (Value::Option(None), J::Null) => Ok(()),
        (Value::Option(Some(x)), j) if !j.is_null() => matches(x, j, path),
        (Value::Record(f), J::Array(a)) if f.len() == 4 && f[0].0 == "fee_token_l" && a.len() == 2 => {
            for (i, (_, x)) in f.iter().enumerate() {
                path.push(f[i].0.clone());
                matches(x, &a[i / 2][["token", "amount"][i % 2]], path)?;
                path.pop();
            }
            Ok(())
        }
        (Value::Record(f), J::Object(o)) => {
            if f.len() != o.len() {
                return no(path, &format!("{} fields, {} expected", o.len(), f.len()));
            }
            for (k, x) in f {
                let Some((_, y)) = o.iter().find(|(n, _)| same_name(k, n)) else {
                    return no(path, &format!("no field {k}"));
                };
                path.push(k.clone());
                matches(x, y, path)?;
                path.pop();
            }
            Ok(())
        }
        (Value::Tuple(a) | Value::List(a), J::Array(b)) => {
            // a 32-byte string of custom shape has no trailing unit
            if a.len() != b.len() {
                return no(path, &format!("{} elements, {} expected", b.len(), a.len()));
            }
            for (i, (x, y)) in a.iter().zip(b).enumerate() {
                path.push(i.to_string());
                matches(x, y, path)?;
                path.pop();
            }
            Ok(())
        }
        (Value::Sum { name, value, .. } | Value::Polyvar { name, value, .. }, j) => {
            let Value::Tuple(args) = &**value else { return no(path, "arguments") };
            path.push(name.clone());
            match j {
                J::String(s) => {
                    if !args.is_empty() || !same_name(name, s) {
                        return no(path, &format!("variant {s}"));
                    }
                }
                J::Object(o) if o.len() == 1 => {
                    let (s, x) = o.iter().next().unwrap();
                    if !same_name(name, s) {
                        return no(path, &format!("variant {s}"));
                    }
                    // a single tuple (or optional tuple) argument is written flat
                    let flat;
                    let inner = match args.as_slice() {
                        [Value::Option(Some(b))] => &**b,
                        [b] => b,
                        _ => &Value::Unit,
                    };
                    let args = match inner {
                        Value::Tuple(t) if x.is_array() && t.len() == x.as_array().unwrap().len() => {
                            flat = t.clone();
                            &flat
                        }
                        _ => args,
                    };
                    match args.len() {
                        0 => return no(path, "arguments"),
                        1 => matches(&args[0], x, path)?,
                        // inline records carry no field names in the layout
                        2 if x.get("new_delegate").is_some() => {
                            for (a, f) in args.iter().zip(["delegator", "new_delegate"]) {
                                path.push(f.into());
                                matches(a, &x[f], path)?;
                                path.pop();
                            }
                        }
                        _ => matches(&Value::Tuple(args.clone()), x, path)?,
                    }
                }
                _ => return no(path, "not a variant"),
            }
            path.pop();
            Ok(())
        }
        (v, j) => no(path, &format!("{} is {}", short(&format!("{v:?}")), short(&j.to_string()))),
    }
}
pub fn short(s: &str) -> String {
    s.chars().take(120).collect()
}
/// Visit every variant in a value.
pub fn sums<'a>(v: &'a Value, f: &mut impl FnMut(&'a str, &'a [Value])) {
    match v {
        Value::Option(Some(x)) => sums(x, f),
        Value::Record(r) => r.iter().for_each(|x| sums(&x.1, f)),
        Value::Tuple(a) | Value::List(a) => a.iter().for_each(|x| sums(x, f)),
        Value::Sum { name, value, .. } | Value::Polyvar { name, value, .. } => {
            if let Value::Tuple(a) = &**value {
                f(name, a)
            }
            sums(value, f)
        }
        _ => {}
    }
}
