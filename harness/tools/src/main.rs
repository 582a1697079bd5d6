//! C12: the two command line tools, run as processes in scratch directories.
//! Oracle: reference encodings and decodings; a run that fails exits with an
//! error, prints no value and leaves the output file as it was.
#[path = "../../wire/src/hostile.rs"]
mod hostile;
#[path = "../../wire/src/lmodel.rs"]
#[allow(dead_code)]
mod lmodel;
#[path = "../../wire/src/model.rs"]
#[allow(dead_code)]
mod model;
use lmodel::*;
use model::*;
use mon::*;
use serde_json::json;
use std::io::Write;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

#[global_allocator]
static A: mon::MonAlloc = mon::MonAlloc;

struct Ran {
    code: Option<i32>,
    out: Vec<u8>,
    err: String,
}
fn bin(name: &str) -> PathBuf {
    std::env::current_exe().unwrap().parent().unwrap().join(name)
}
fn run(sh: &Shard, dir: &Path, tool: &str, args: &[&str], stdin: Option<&[u8]>) -> Ran {
    sh.case(|| format!("{tool} {args:?} stdin {:?}", stdin.map(hex)));
    let mut c = Command::new(bin(tool));
    c.args(args).current_dir(dir).env_remove("RUST_LOG").env("RUST_BACKTRACE", "0");
    c.stdin(if stdin.is_some() { Stdio::piped() } else { Stdio::null() }).stdout(Stdio::piped()).stderr(Stdio::piped());
    let mut p = c.spawn().expect("spawn");
    if let Some(b) = stdin {
        // the tool may stop reading early
        let _ = p.stdin.take().unwrap().write_all(b);
    }
    let o = p.wait_with_output().expect("wait");
    Ran { code: o.status.code(), out: o.stdout, err: String::from_utf8_lossy(&o.stderr).into_owned() }
}
fn bad(sh: &Shard, r: &Ran, msg: &str) -> ! {
    sh.violation(&format!("{msg}; exit {:?}, stdout {:?}, stderr {:?}", r.code, String::from_utf8_lossy(&r.out).chars().take(400).collect::<String>(), r.err.chars().take(400).collect::<String>()))
}

// --------------------------------------------------------- bin_prot_checker
const TESTS: &[&str] = &["nat0", "bool", "int", "int32", "int64", "enum", "record", "variant"];
fn default_wire(t: &str) -> Vec<u8> {
    match t {
        "nat0" => vec![1, 0],
        "bool" => vec![1],
        "int" | "int32" | "int64" => vec![0xfe, 0x39, 0x30],
        "enum" => vec![0],
        "record" => vec![15, 1, 2],
        _ => vec![0, 15],
    }
}
/// Reference reading of one test value: text that the tool prints.
fn read_ref(t: &str, c: &mut Cur) -> Result<String, DErr> {
    fn e(c: &mut Cur) -> Result<&'static str, DErr> {
        ["A", "B", "C"].get(c.byte()? as usize).copied().ok_or(DErr::Bad)
    }
    fn i32v(c: &mut Cur) -> Result<i64, DErr> {
        let n = c.int()?;
        if i32::try_from(n).is_err() { Err(DErr::Bad) } else { Ok(n) }
    }
    Ok(match t {
        "nat0" => {
            let n = c.nat0()?;
            for _ in 0..n {
                if c.byte()? != 0 {
                    return Err(DErr::Bad);
                }
            }
            n.to_string()
        }
        "bool" => c.bool()?.to_string(),
        "int" | "int32" => i32v(c)?.to_string(),
        "int64" => c.int()?.to_string(),
        "enum" => e(c)?.to_string(),
        "record" => {
            let a = i32v(c)?;
            let b = c.bool()?;
            format!("S {{ a: {a}, b: {b}, c: {} }}", e(c)?)
        }
        _ => match c.byte()? {
            0 => format!("A({})", i32v(c)?),
            1 => format!("B({})", c.bool()?),
            2 => format!("C({})", e(c)?),
            _ => return Err(DErr::Bad),
        },
    })
}
fn write_value(r: &mut Rng, t: &str) -> Vec<u8> {
    let mut o = vec![];
    match t {
        "nat0" => {
            let n = *r.pick(&[0u64, 1, 2, 127, 128, 300, 65535, 65536]);
            let n = if r.bool() { r.below(400) } else { n };
            enc_nat0(&mut o, n);
            o.extend(vec![0; n as usize]);
        }
        "bool" => o.push(r.below(2) as u8),
        "int" | "int32" => enc_int(&mut o, gen_i64(r) as i32 as i64),
        "int64" => enc_int(&mut o, gen_i64(r)),
        "enum" => o.push(r.below(3) as u8),
        "record" => {
            enc_int(&mut o, gen_i64(r) as i32 as i64);
            o.push(r.below(2) as u8);
            o.push(r.below(3) as u8);
        }
        _ => match r.below(3) {
            0 => {
                o.push(0);
                enc_int(&mut o, gen_i64(r) as i32 as i64);
            }
            1 => {
                o.push(1);
                o.push(r.below(2) as u8);
            }
            _ => {
                o.push(2);
                o.push(r.below(3) as u8);
            }
        },
    }
    o
}
fn checker(sh: &mut Shard, dir: &Path) {
    let t = *sh.rng.pick(TESTS);
    let tool = "bin_prot_checker";
    let f = dir.join("value.bin");
    let fs = f.to_str().unwrap().to_string();
    match sh.rng.below(8) {
        0 => {
            let r = run(sh, dir, tool, &["--test", t, "serialize"], None);
            if r.code != Some(0) || r.out != default_wire(t) {
                bad(sh, &r, &format!("serialize {t} to stdout should give {}", hex(&default_wire(t))));
            }
            sh.count("checker_serialize_stdout");
        }
        1 => {
            // an existing longer file is replaced, not overwritten in place
            let n = sh.rng.range(0, 40);
            if sh.rng.bool() {
                std::fs::write(&f, sh.rng.bytes(n)).unwrap();
            } else {
                let _ = std::fs::remove_file(&f);
            }
            let r = run(sh, dir, tool, &["--test", t, "--path", &fs, "serialize"], None);
            let got = std::fs::read(&f).unwrap_or_default();
            let text = String::from_utf8_lossy(&r.out).into_owned();
            let want = default_wire(t);
            if r.code != Some(0) || got != want || !text.contains(&format!("Wrote {} bytes", want.len())) {
                bad(sh, &r, &format!("serialize {t} to a file left {} there instead of {}", hex(&got), hex(&want)));
            }
            // and what was written is read back
            let r = run(sh, dir, tool, &["--test", t, "--path", &fs, "deserialize"], None);
            let text = read_ref(t, &mut Cur::new(&want)).unwrap();
            if r.code != Some(0) || String::from_utf8_lossy(&r.out) != format!("Deserialized value: {text}\n") {
                bad(sh, &r, &format!("the tool does not read back its own {t}: expected {text}"));
            }
            sh.count("checker_serialize_file");
        }
        k => {
            let v = write_value(&mut sh.rng, t);
            let w = if k < 5 {
                v
            } else {
                let o = write_value(&mut sh.rng, t);
                hostile::mutate(&mut sh.rng, &v, &o)
            };
            let want = read_ref(t, &mut Cur::new(&w));
            let by_file = sh.rng.bool();
            let r = if by_file {
                std::fs::write(&f, &w).unwrap();
                run(sh, dir, tool, &["--test", t, "--path", &fs, "deserialize"], None)
            } else {
                run(sh, dir, tool, &["--test", t, "deserialize"], Some(&w))
            };
            let out = String::from_utf8_lossy(&r.out).into_owned();
            match &want {
                Ok(text) => {
                    if r.code != Some(0) || out != format!("Deserialized value: {text}\n") {
                        bad(sh, &r, &format!("deserialize {t} of {} should print {text:?}", hex(&w)));
                    }
                    sh.count("checker_decoded");
                }
                Err(_) => {
                    if r.code == Some(0) || out.contains("Deserialized value") {
                        bad(sh, &r, &format!("deserialize {t} of the malformed {} should fail", hex(&w)));
                    }
                    sh.count("checker_refused");
                }
            }
            if by_file && std::fs::read(&f).ok().as_deref() != Some(&w[..]) {
                bad(sh, &r, "reading changed the input file");
            }
            sh.observed(fnv(&w) ^ fnv(t.as_bytes()), true);
            return;
        }
    }
    sh.observed(fnv(t.as_bytes()) ^ sh.evals, true);
}

// ------------------------------------------------------------ layout reader
fn hexs(r: &mut Rng, b: &[u8]) -> Vec<u8> {
    let style = r.below(3);
    b.iter()
        .flat_map(|x| {
            let s = match style {
                0 => format!("{x:02x}"),
                1 => format!("{x:02X}"),
                _ => if r.bool() { format!("{x:02x}") } else { format!("{x:02X}") },
            };
            s.into_bytes()
        })
        .collect()
}
fn is_hex(b: &[u8]) -> bool {
    b.len() % 2 == 0 && b.iter().all(|c| c.is_ascii_hexdigit())
}
fn layout(sh: &mut Shard, dir: &Path) {
    let tool = "bin-prot-layout-reader";
    let l = if sh.rng.chance(1, 12) {
        // deeper than the usual JSON recursion limit
        let mut l = gen_l(&mut sh.rng, 2, false);
        for _ in 0..sh.rng.range(50, 150) {
            l = match sh.rng.below(3) {
                0 => L::Tuple(vec![l]),
                1 => L::Option(Box::new(l)),
                _ => L::Record(vec![("f".into(), l)]),
            };
        }
        sh.count("deep_layouts");
        l
    } else {
        let d = sh.rng.range(0, 4);
        let bad = sh.rng.chance(1, 6);
        gen_l(&mut sh.rng, d, bad)
    };
    let v = if has_bad(&l) { None } else { Some(gen_v(&mut sh.rng, &l, &mut 120)) };
    let mut w = vec![];
    match &v {
        Some(v) => venc(&mut w, &l, v),
        None => w = sh.rng.bytes(20),
    }
    let hostile = sh.rng.chance(2, 5);
    if hostile {
        w = hostile::mutate(&mut sh.rng, &w.clone(), &w);
    }
    let lf = dir.join("layout.json");
    let bf = dir.join("data");
    let of = dir.join("out.txt");
    let mut file = json!({"layout_loc": "f", "version_opt": null, "type_decl": "t", "bin_io_derived": true, "bin_prot_rule": to_json(&l)}).to_string();
    let broken_layout = sh.rng.chance(1, 12);
    if broken_layout {
        match sh.rng.below(3) {
            0 => file.truncate({
                let mut n = sh.rng.below(file.len() as u64) as usize;
                while !file.is_char_boundary(n) {
                    n -= 1;
                }
                n
            }),
            1 => file = file.replace("\"bin_prot_rule\":[\"", "\"bin_prot_rule\":[\"No_such_rule_"),
            _ => file = file.replace("\"bin_prot_rule\"", "\"other\""),
        }
    }
    std::fs::write(&lf, &file).unwrap();
    let raw = sh.rng.bool();
    if raw && is_hex(&w) {
        // such bytes are read as text by design
        w.push(0xff);
    }
    let input = if raw { w.clone() } else { hexs(&mut sh.rng, &w) };
    std::fs::write(&bf, &input).unwrap();
    let to_file = sh.rng.bool();
    let round = sh.rng.bool();
    let before = if sh.rng.bool() {
        let n = sh.rng.range(0, 20_000);
        let b: Vec<u8> = vec![b'x'; n];
        std::fs::write(&of, &b).unwrap();
        Some(b)
    } else {
        let _ = std::fs::remove_file(&of);
        None
    };
    // reference verdict
    let mut odd = false;
    let mut c = Cur::new(&w);
    let dec = vdec(&mut c, &l, &mut odd);
    if odd || c.odd {
        sh.count("latitude_skipped");
        return;
    }
    let want: Option<String> = match &dec {
        _ if broken_layout => None,
        Err(_) => None,
        Ok(x) => {
            let mut again = vec![];
            venc(&mut again, &l, x);
            if round && again != w { None } else { Some(format!("{x:#?}")) }
        }
    };
    let missing = sh.rng.chance(1, 40);
    let (ls, bs, os) = (lf.to_str().unwrap().to_string(), if missing { "no-such-file".into() } else { bf.to_str().unwrap().to_string() }, of.to_str().unwrap().to_string());
    let mut args: Vec<&str> = vec![&ls, &bs];
    if to_file {
        args.push("-o");
        args.push(&os);
    }
    if round {
        args.push("-r");
    }
    let want = if missing { None } else { want };
    let r = run(sh, dir, tool, &args, None);
    sh.case(|| format!("layout {file} input {} ({}) args {args:?}", hex(&w), if raw { "raw" } else { "hex" }));
    let now = std::fs::read(&of).ok();
    match want {
        Some(text) => {
            let ok = r.code == Some(0)
                && if to_file { now.as_deref() == Some(text.as_bytes()) && r.out.is_empty() } else { r.out == format!("{text}\n").as_bytes() && now == before };
            if !ok {
                let f = now.map(|b| String::from_utf8_lossy(&b).into_owned());
                bad(sh, &r, &format!("expected the value {text} ({}), output file holds {f:?}", if to_file { "to a file" } else { "to stdout" }));
            }
            sh.count(if to_file { "reader_to_file" } else { "reader_to_stdout" });
            sh.count(if raw { "reader_raw" } else { "reader_hex" });
            if round {
                sh.count("reader_roundtrip_ok");
            }
        }
        None => {
            if r.code == Some(0) || !r.out.is_empty() {
                bad(sh, &r, "expected an error and no value");
            }
            if now != before {
                bad(sh, &r, "a failed run changed the output file");
            }
            sh.count(if broken_layout { "reader_bad_layout" } else if missing { "reader_missing_file" } else if dec.is_ok() { "reader_roundtrip_refused" } else { "reader_bad_bytes" });
        }
    }
    sh.observed(fnv(&input) ^ fnv(file.as_bytes()), true);
}
/// The layouts and recorded blocks that ship with the repository.
fn shipped(sh: &mut Shard, dir: &Path, which: usize) {
    let repo = repo_dir();
    let data = format!("{repo}/protocol/test-fixtures/src/data");
    let mut blocks: Vec<String> = std::fs::read_dir(&data).map(|d| d.filter_map(|e| e.ok()).map(|e| e.path().to_string_lossy().into_owned()).collect()).unwrap_or_default();
    blocks.retain(|b| b.ends_with(".hex") || b.ends_with("block1"));
    // pretty printing a block of megabytes takes gigabytes
    blocks.retain(|b| std::fs::metadata(b).map(|m| m.len() < 100_000).unwrap_or(false));
    blocks.sort();
    let Some(b) = blocks.get(which) else { return };
    let text = std::fs::read(b).unwrap();
    let bytes: Vec<u8> = if is_hex(&text) {
        text.chunks(2).map(|c| u8::from_str_radix(std::str::from_utf8(c).unwrap(), 16).unwrap()).collect()
    } else {
        text
    };
    static MODEL: std::sync::OnceLock<L> = std::sync::OnceLock::new();
    let lf = format!("{repo}/protocol/layouts/external_transition.json");
    let model = MODEL.get_or_init(|| {
        let s = std::fs::read_to_string(&lf).unwrap();
        let mut d = serde_json::Deserializer::from_str(&s);
        d.disable_recursion_limit();
        let j: serde_json::Value = serde::Deserialize::deserialize(&mut d).unwrap();
        from_json(&j["bin_prot_rule"]).unwrap()
    });
    let mut odd = false;
    let mut c = Cur::new(&bytes);
    let Ok(v) = vdec(&mut c, model, &mut odd) else { return };
    let mut again = vec![];
    venc(&mut again, model, &v);
    let round = again == bytes;
    let mut args = vec![lf.as_str(), b.as_str()];
    if round {
        args.push("--roundtrip");
    }
    let r = run(sh, dir, "bin-prot-layout-reader", &args, None);
    if r.code != Some(0) || r.out != format!("{v:#?}\n").as_bytes() {
        bad(sh, &r, &format!("recorded block {b} printed differently from the reference ({} bytes)", r.out.len()));
    }
    sh.count("recorded_blocks");
    sh.observed(fnv(b.as_bytes()), true);
}
fn main() {
    let r = start(
        "C12",
        "exploration",
        "one run of a command line tool as a process: exit status, standard output and output file compared with the reference",
        &["files of at most a few kilobytes, and the blocks that ship with the repository", "raw input that is itself valid hex text is read as hex, as documented"],
    );
    for (k, n) in [
        ("checker_serialize_stdout", 20), ("checker_serialize_file", 20), ("checker_decoded", 100), ("checker_refused", 50), ("reader_to_file", 50),
        ("reader_to_stdout", 50), ("reader_raw", 50), ("reader_hex", 50), ("reader_roundtrip_ok", 50), ("reader_roundtrip_refused", 3), ("reader_bad_bytes", 20),
        ("reader_bad_layout", 10), ("deep_layouts", 10),
    ] {
        r.require(k, n);
    }
    let root = std::env::temp_dir().join(format!("verif-c12-{}", std::process::id()));
    let root2 = root.clone();
    r.par(threads(), move |sh| {
        let dir = root2.join(format!("w{}", sh.index));
        std::fs::create_dir_all(&dir).unwrap();
        let n = if sh.thorough() { 12000 } else { 1000 };
        for _ in 0..n {
            checker(sh, &dir);
            layout(sh, &dir);
        }
        for i in 0..2 {
            if sh.thorough() || (i == 0 && sh.index < 4) {
                shipped(sh, &dir, sh.index * 2 + i);
            }
        }
        sh.sample(|| json!({"tool": "bin_prot_checker", "args": "--test record deserialize", "stdin": "0f0102", "stdout": "Deserialized value: S { a: 15, b: true, c: C }"}));
        std::fs::remove_dir_all(&dir).unwrap();
    });
    let _ = std::fs::remove_dir_all(&root);
    r.finish();
}
