//! C09: layout files are read faithfully and malformed ones are refused.
//! Oracle: an independent rendering of the parsed rule, compared structurally.
use crate::lmodel::*;
use bin_prot::{BinProtRule, Layout};
use mon::*;
use serde::Deserialize;
use serde_json::{json, Value as J};

/// What a correctly parsed rule exposes when serialized: external tags.
fn expect(l: &J) -> J {
    let a = l.as_array().unwrap();
    let tag = a[0].as_str().unwrap();
    let many = |j: &J| J::Array(j.as_array().unwrap().iter().map(expect).collect());
    let ctor = match tag {
        "Native_int" => "NativeInt",
        "Type_var" => "TypeVar",
        "Self_reference" => "SelfReference",
        "Type_abstraction" => "TypeAbstraction",
        "Type_closure" => "TypeClosure",
        t => t,
    };
    if a.len() == 1 {
        return json!(ctor);
    }
    let body = match tag {
        "Option" | "List" => expect(&a[1]),
        "Tuple" | "Self_reference" | "Custom" => many(&a[1]),
        "Record" => J::Array(a[1].as_array().unwrap().iter().map(|f| json!({"field_name": f["field_name"], "field_rule": expect(&f["field_rule"])})).collect()),
        "Sum" => J::Array(a[1].as_array().unwrap().iter().map(|f| json!({"ctor_name": f["ctor_name"], "index": f["index"], "ctor_args": many(&f["ctor_args"])})).collect()),
        "Polyvar" => J::Array(
            a[1].as_array()
                .unwrap()
                .iter()
                .map(|t| match t[0].as_str().unwrap() {
                    "Tagged" => json!({"Tagged": {"polyvar_name": t[1]["polyvar_name"], "hash": t[1]["hash"], "polyvar_args": many(&t[1]["polyvar_args"])}}),
                    _ => json!({"Inherited": expect(&t[1])}),
                })
                .collect(),
        ),
        "Hashtable" => json!({"key_rule": expect(&a[1]["key_rule"]), "value_rule": expect(&a[1]["value_rule"])}),
        "Reference" => match a[1][0].as_str().unwrap() {
            "Resolved" => {
                let o = &a[1][1];
                json!({"Resolved": {
                    "source_type_decl": o["source_type_decl"],
                    "source_module_path": o.get("source_module_path").cloned().unwrap_or(json!("")),
                    "bin_io_derived": o.get("bin_io_derived").cloned().unwrap_or(json!(false)),
                    "ref_rule": expect(&o["ref_rule"])}})
            }
            _ => json!({"Unresolved": {"params": many(&a[1][1]["params"]), "layout_id": a[1][1]["layout_id"]}}),
        },
        "Type_var" => a[1].clone(),
        "Vec" => json!([a[1], expect(&a[2])]),
        "Type_abstraction" => json!([a[1], expect(&a[2])]),
        "Type_closure" => json!([J::Array(a[1].as_array().unwrap().iter().map(|b| json!([b[0], expect(&b[1])])).collect()), expect(&a[2])]),
        t => panic!("no expectation for {t}"),
    };
    json!({ctor: body})
}
fn parse(j: &J, text: bool) -> Result<Result<J, String>, String> {
    guarded(|| {
        let r: Result<BinProtRule, _> = if text { serde_json::from_str(&j.to_string()) } else { serde_json::from_value(j.clone()) };
        r.map(|r| serde_json::to_value(&r).expect("rule renders")).map_err(|e| e.to_string())
    })
}
fn faithful(sh: &mut Shard) -> J {
    let d = sh.rng.range(0, 5);
    let l = match sh.rng.below(4) {
        0 => L::Bad(gen_bad(&mut sh.rng, 2)),
        _ => gen_l(&mut sh.rng, d, true),
    };
    let j = to_json(&l);
    sh.case(|| format!("layout {j}"));
    let want = expect(&j);
    let text = sh.rng.bool();
    match parse(&j, text) {
        Ok(Ok(got)) if got == want => sh.count("rules_parsed"),
        o => sh.violation(&format!("layout rule parsed as {o:?}, expected {want}")),
    }
    // as a whole file
    let ver = match sh.rng.below(3) {
        0 => json!(null),
        _ => json!(sh.rng.below(100) as i32 - 2),
    };
    let file = json!({"layout_loc": format!("f{}", sh.rng.below(9)), "version_opt": ver, "type_decl": "type t = int", "bin_io_derived": sh.rng.bool(), "bin_prot_rule": j});
    let mut wf = file.clone();
    wf["bin_prot_rule"] = want;
    match guarded(|| serde_json::from_str::<Layout>(&file.to_string()).map(|l| serde_json::to_value(&l).unwrap())) {
        Ok(Ok(g)) if g == wf => sh.count("files_parsed"),
        o => sh.violation(&format!("layout file parsed as {o:?}, expected {wf}")),
    }
    sh.observed(fnv(j.to_string().as_bytes()), d > 0);
    if d > 2 {
        sh.sample(|| json!({"layout": j.to_string().chars().take(200).collect::<String>()}));
    }
    j
}
/// Paths of every rule node inside a layout.
fn nodes(j: &J, path: &mut Vec<String>, out: &mut Vec<Vec<String>>) {
    // only descend where the schema says a rule sits
    let a = j.as_array().unwrap();
    out.push(path.clone());
    let tag = a[0].as_str().unwrap();
    let mut go = |p: &[&str], sub: &J, out: &mut Vec<Vec<String>>| {
        let k = path.len();
        path.extend(p.iter().map(|s| s.to_string()));
        nodes(sub, path, out);
        path.truncate(k);
    };
    match tag {
        "Option" | "List" => go(&["1"], &a[1], out),
        "Tuple" | "Self_reference" | "Custom" => a[1].as_array().unwrap().iter().enumerate().for_each(|(i, x)| go(&["1", &i.to_string()], x, out)),
        "Record" => a[1].as_array().unwrap().iter().enumerate().for_each(|(i, x)| go(&["1", &i.to_string(), "field_rule"], &x["field_rule"], out)),
        "Sum" => {
            for (i, x) in a[1].as_array().unwrap().iter().enumerate() {
                for (k, y) in x["ctor_args"].as_array().unwrap().iter().enumerate() {
                    go(&["1", &i.to_string(), "ctor_args", &k.to_string()], y, out);
                }
            }
        }
        "Reference" if a[1][0] == "Resolved" => go(&["1", "1", "ref_rule"], &a[1][1]["ref_rule"], out),
        "Vec" => go(&["2"], &a[2], out),
        _ => {}
    }
}
fn at<'a>(j: &'a mut J, p: &[String]) -> &'a mut J {
    p.iter().fold(j, |j, k| match k.parse::<usize>() {
        Ok(i) if j.is_array() => &mut j[i],
        _ => &mut j[k.as_str()],
    })
}
fn malformed(sh: &mut Shard, good: &J) {
    let mut out = vec![];
    nodes(good, &mut vec![], &mut out);
    let mut j = good.clone();
    let p = sh.rng.pick(&out).clone();
    let n = at(&mut j, &p);
    let tag = n[0].as_str().unwrap().to_string();
    let arr = n.as_array_mut().unwrap();
    let what = match sh.rng.below(8) {
        0 => {
            arr[0] = json!(format!("{tag}x"));
            "unknown tag"
        }
        1 => {
            arr[0] = json!(7);
            "tag is not a string"
        }
        2 => {
            arr.push(json!(["Bool"]));
            "too many items"
        }
        3 => {
            arr.clear();
            "empty rule"
        }
        4 => {
            *n = json!({"Bool": []});
            "rule is an object"
        }
        5 if arr.len() > 1 => {
            arr.truncate(1);
            "payload missing"
        }
        6 if arr.len() == 2 && tag != "Type_var" => {
            arr[1] = json!("oops");
            "payload of the wrong kind"
        }
        7 if arr.len() == 2 && arr[1].as_array().is_some_and(|v| !v.is_empty()) && matches!(tag.as_str(), "Record" | "Sum" | "Reference" | "Polyvar") => {
            let keys: &[&str] = match tag.as_str() {
                "Record" => &["field_name", "field_rule"],
                "Sum" => &["ctor_name", "index", "ctor_args"],
                "Polyvar" => &["polyvar_name", "hash", "polyvar_args"],
                _ => &["source_type_decl", "ref_rule"],
            };
            let k = *sh.rng.pick(keys);
            let o = match tag.as_str() {
                "Record" | "Sum" => &mut arr[1][0],
                "Polyvar" => {
                    if arr[1][0][0] != "Tagged" {
                        return;
                    }
                    &mut arr[1][0][1]
                }
                _ => {
                    if arr[1][0] != "Resolved" {
                        return;
                    }
                    &mut arr[1][1]
                }
            };
            match sh.rng.below(3) {
                0 => {
                    o.as_object_mut().unwrap().remove(k);
                    "required member missing"
                }
                1 => {
                    o[k] = json!({"x": 1});
                    "member of the wrong kind"
                }
                _ if k == "index" || k == "hash" => {
                    o[k] = sh.rng.pick(&[json!("0"), json!(1.5), json!(1i64 << 40), json!(null), json!(-5000000000i64)]).clone();
                    "number out of range"
                }
                _ => {
                    o[k] = json!(null);
                    "member is null"
                }
            }
        }
        _ => {
            arr[0] = json!(tag.to_lowercase());
            "tag in the wrong case"
        }
    };
    sh.case(|| format!("malformed layout ({what}) {j}"));
    let text = sh.rng.bool();
    match parse(&j, text) {
        Ok(Err(_)) => sh.count("malformed_refused"),
        Ok(Ok(g)) => sh.violation(&format!("malformed layout ({what} at {p:?}) was accepted as {g}")),
        Err(p) => sh.violation(&format!("malformed layout ({what}) caused a panic: {p}")),
    }
    sh.observed(fnv(j.to_string().as_bytes()), true);
}
/// Raw text damage: an error or a faithful parse, never a panic.
fn damaged(sh: &mut Shard, good: &J) {
    let mut b = good.to_string().into_bytes();
    for _ in 0..sh.rng.range(1, 3) {
        let i = sh.rng.below(b.len() as u64) as usize;
        match sh.rng.below(3) {
            0 => b[i] = *sh.rng.pick(b"[]{},\":0aN-."),
            1 => {
                b.remove(i);
            }
            _ => b.truncate(i.max(1)),
        }
        if b.is_empty() {
            return;
        }
    }
    sh.case(|| format!("damaged layout text {}", String::from_utf8_lossy(&b)));
    match guarded(|| serde_json::from_slice::<BinProtRule>(&b).map(|r| serde_json::to_value(&r).unwrap())) {
        Err(p) => sh.violation(&format!("damaged layout text caused a panic: {p}")),
        Ok(Err(_)) => sh.count("damaged_refused"),
        Ok(Ok(_)) => {
            if serde_json::from_slice::<J>(&b).is_err() {
                sh.violation("text that is not JSON was accepted as a layout");
            }
            sh.count("damaged_still_valid");
        }
    }
}
fn real(sh: &mut Shard) {
    for n in ["protocol_state", "verification_key", "external_transition", "snark_work"] {
        let p = format!("{}/protocol/layouts/{n}.json", repo_dir());
        let text = std::fs::read_to_string(&p).unwrap_or_default();
        let mut d = serde_json::Deserializer::from_str(&text);
        d.disable_recursion_limit();
        let Ok(j) = J::deserialize(&mut d) else { continue };
        sh.case(|| format!("layout file {n}"));
        let mut d = serde_json::Deserializer::from_str(&text);
        d.disable_recursion_limit();
        let want = expect(&j["bin_prot_rule"]);
        match guarded(|| Layout::deserialize(&mut d).map(|l| serde_json::to_value(&l.bin_prot_rule).unwrap())) {
            Ok(Ok(g)) if g == want => sh.count("real_layout_files"),
            o => sh.violation(&format!("layout file {n} was not read faithfully ({:?})", o.map(|r| r.map(|_| "different rule")))),
        }
        sh.observed(fnv(n.as_bytes()), true);
    }
}
pub fn run() {
    let r = start("C09", "exploration",
        "distinct layouts (valid, structurally malformed) handed to the layout parser",
        &["unknown extra members of JSON objects are ignored, as serde does", "the parsed rule is observed through its Serialize implementation"]);
    for k in ["rules_parsed", "files_parsed", "malformed_refused", "damaged_refused"] {
        r.require(k, 1000);
    }
    r.require("real_layout_files", 4);
    r.par(8, |sh| {
        if sh.index == 0 {
            real(sh);
        }
        let n = if sh.thorough() { 400_000 } else { 9_000 };
        for _ in 0..n {
            let j = faithful(sh);
            if j.to_string().len() < 20_000 {
                malformed(sh, &j);
                malformed(sh, &j);
                damaged(sh, &j);
            }
        }
    });
    r.finish();
}
