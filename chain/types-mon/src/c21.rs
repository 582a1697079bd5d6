//! Wallet files: made here from the NaCl secret box and Argon2i, opened by the real code; the wallet that the
//! repository ships pins both.
use crate::c17::{b58, bad_b58};
use crate::c19::below_modulus;
use argon2::{Algorithm, Argon2, ParamsBuilder, Version};
use mina_secrets::secret_box::{Keypair, SecretBox};
use mon::{fnv, guarded, hex, repo_dir, Rng, Shard};
use proof_systems::mina_signer::ScalarField;
use proof_systems::o1_utils::FieldHelpers;
use serde_json::{json, Value as J};
use xsalsa20poly1305::aead::{generic_array::GenericArray, Aead};
use xsalsa20poly1305::{KeyInit, XSalsa20Poly1305};

#[derive(Clone, Debug)]
struct W {
    nonce: Vec<u8>,
    salt: Vec<u8>,
    mem: i64,
    ops: i64,
    pw: Vec<u8>,
    plain: Vec<u8>,
}
fn seal(w: &W) -> Vec<u8> {
    let mut p = ParamsBuilder::new();
    p.m_cost((w.mem / 1024) as u32).unwrap();
    p.t_cost(w.ops as u32).unwrap();
    let mut key = [0; 32];
    Argon2::new(Algorithm::Argon2i, Version::V0x13, p.params().unwrap()).hash_password_into(&w.pw, &w.salt, &mut key).unwrap();
    XSalsa20Poly1305::new(GenericArray::from_slice(&key)).encrypt(GenericArray::from_slice(&w.nonce), &w.plain).unwrap()
}
fn file(w: &W, cipher: &[u8]) -> J {
    json!({"box_primitive": "xsalsa20poly1305", "pw_primitive": "argon2i", "nonce": b58(2, &w.nonce), "pwsalt": b58(2, &w.salt),
        "pwdiff": [w.mem, w.ops], "ciphertext": b58(2, cipher)})
}
fn wallet(r: &mut Rng) -> W {
    let mut key = r.bytes(32);
    match r.below(5) {
        0 => key.iter_mut().skip(2).for_each(|b| *b = 0),
        1 => key[31] = 0,
        _ => {}
    }
    key[31] &= 0x3f;
    let mut plain = vec![*r.pick(&[1, 1, 1, 0])];
    plain.extend(key);
    let n = *r.pick(&[0, 1, 8, 20, 200]);
    W {
        nonce: r.bytes(24),
        salt: r.bytes(16),
        mem: *r.pick(&[8192, 9216, 16384, 65536, 10000]),
        ops: 1 + r.below(3) as i64,
        pw: r.bytes(n),
        plain,
    }
}
type Opened = Result<Result<(Vec<u8>, Result<String, String>), String>, String>;
/// The key in the file, and the secret key in hex.
fn open(text: &str, pw: &[u8]) -> Opened {
    guarded(|| {
        let sb = SecretBox::try_from(text).map_err(|e| format!("{e:?}"))?;
        let b = sb.get_private_key_bytes(pw).map_err(|e| format!("{e:?}"))?;
        let k = sb.get_keypair(pw).map(|k: Keypair| k.to_hex() + "/" + &k.get_address()).map_err(|e| format!("{e:?}"));
        Ok((b, k))
    })
}
fn genuine(sh: &mut Shard, w: &W, text: &str, j: &J) {
    let key = w.plain[1..].to_vec();
    let scalar = ScalarField::from_bytes(&key).unwrap();
    let kp = Keypair::from_secret(scalar);
    let mut be = key.clone();
    be.reverse();
    let want: Opened = Ok(Ok((key, Ok(hex(&be) + "/" + &kp.get_address()))));
    let got = open(text, &w.pw);
    if got != want {
        sh.violation(&format!("the wallet {text} opened as {got:?}, not {want:?}"))
    }
    let back = guarded(|| {
        let sb = SecretBox::try_from(text).map_err(|e| e.to_string())?;
        let s: String = sb.clone().try_into().map_err(|e: mina_secrets::secret_box::Error| e.to_string())?;
        let v: J = sb.try_into().map_err(|e: mina_secrets::secret_box::Error| e.to_string())?;
        Ok::<_, String>((s, v))
    });
    match &back {
        Ok(Ok((s, v))) if v == j && serde_json::from_str::<J>(s).ok().as_ref() == Some(j) => {
            if open(s, &w.pw) != want {
                sh.violation(&format!("the rewritten wallet {s} does not open like {text}"))
            }
        }
        _ => sh.violation(&format!("the wallet {text} is written {back:?}")),
    }
    sh.count("wallets opened");
    sh.observed(fnv(text.as_bytes()), true);
}
/// The wallet must not open.
fn refuse(sh: &mut Shard, what: &'static str, text: &str, pw: &[u8]) {
    sh.case(|| format!("{what}: {text} with password {}", hex(pw)));
    match open(text, pw) {
        Ok(Err(_)) => {}
        g => sh.violation(&format!("{what}: the wallet {text} opened with password {} as {g:?}", hex(pw))),
    }
    sh.count(what);
    sh.observed(fnv(format!("{text}{}", hex(pw)).as_bytes()), true);
}
fn damage(sh: &mut Shard, w: &W, cipher: &[u8], j: &J) {
    let flip = |r: &mut Rng, b: &[u8]| {
        let mut v = b.to_vec();
        let at = r.below(v.len() as u64) as usize;
        v[at] ^= 1 << r.below(8);
        v
    };
    let (a, b, c) = (flip(&mut sh.rng, cipher), flip(&mut sh.rng, &w.nonce), flip(&mut sh.rng, &w.salt));
    refuse(sh, "ciphertext altered", &file(w, &a).to_string(), &w.pw);
    refuse(sh, "nonce altered", &file(&W { nonce: b, ..w.clone() }, cipher).to_string(), &w.pw);
    refuse(sh, "salt altered", &file(&W { salt: c, ..w.clone() }, cipher).to_string(), &w.pw);
    // another password
    let mut pw = w.pw.clone();
    match sh.rng.below(3) {
        0 => pw.push(sh.rng.below(256) as u8),
        1 if !pw.is_empty() => {
            pw.pop();
        }
        _ if !pw.is_empty() => pw = flip(&mut sh.rng, &pw),
        _ => pw = vec![0],
    }
    refuse(sh, "another password", &j.to_string(), &pw);
    // other costs, numbers that do not fit, numbers that are no cost
    let n = sh.rng.below(3) as i64 + 1;
    let (m, o) = *sh.rng.pick(&[
        (w.mem + 1024 * n, w.ops), (w.mem, w.ops + n), (w.mem, w.ops + (n << 32)), (w.mem + (n << 42), w.ops), (w.mem, -w.ops), (-w.mem, w.ops),
        (0, w.ops), (w.mem, 0), (7168, w.ops), (i64::MIN, w.ops), (i64::MAX, w.ops), (w.mem, i64::MAX), (w.mem, i64::MIN), (w.mem - (1 << 42), w.ops), (w.mem, w.ops - (1 << 32)),
    ]);
    refuse(sh, "other costs", &file(&W { mem: m, ops: o, ..w.clone() }, cipher).to_string(), &w.pw);
    // lengths
    let k = sh.rng.below(24) as usize;
    let mut long = w.nonce.clone();
    long.push(0);
    let nonce = sh.rng.pick(&[w.nonce[..k].to_vec(), long]).clone();
    refuse(sh, "nonce of another length", &file(&W { nonce, ..w.clone() }, cipher).to_string(), &w.pw);
    let k = sh.rng.below(cipher.len() as u64) as usize;
    let cut = if sh.rng.bool() { cipher[..k].to_vec() } else { [cipher, &[7]].concat() };
    refuse(sh, "ciphertext of another length", &file(w, &cut).to_string(), &w.pw);
    let k = *sh.rng.pick(&[0, 1, 2, 7, 15, 49, 100]);
    let salt: Vec<u8> = w.salt.iter().cycle().take(k).copied().collect();
    refuse(sh, "salt of another length", &file(&W { salt, ..w.clone() }, cipher).to_string(), &w.pw);
    // the text
    let mut x = j.clone();
    let f = *sh.rng.pick(&["box_primitive", "pw_primitive", "nonce", "pwsalt", "pwdiff", "ciphertext"]);
    match (sh.rng.below(4), f) {
        (0, _) => {
            x.as_object_mut().unwrap().remove(f);
        }
        (1, "pwdiff") => x[f] = sh.rng.pick(&[json!([w.mem]), json!([w.mem, w.ops, 0]), json!([w.mem, 1.5]), json!([]), json!("x"), json!([w.mem, u64::MAX])]).clone(),
        (1, _) => x[f] = sh.rng.pick(&[json!(null), json!(1), json!([]), json!({})]).clone(),
        (_, "box_primitive" | "pw_primitive") => {
            x[f] = json!(sh.rng.pick(&["xsalsa20", "XSalsa20Poly1305", "argon2id", "argon2", "", "xsalsa20poly1305 ", "argon2i\0", "aes"]))
        }
        (_, "pwdiff") => x[f] = json!([w.ops, w.mem]),
        _ => {
            let s = x[f].as_str().unwrap().to_string();
            x[f] = json!(bad_b58(&mut sh.rng, &s, false))
        }
    }
    // the costs may be exchanged only when that makes them too small
    refuse(sh, "text altered", &x.to_string(), &w.pw);
    let t = j.to_string();
    let k = sh.rng.below(t.len() as u64) as usize;
    refuse(sh, "text cut short", &t[..k], &w.pw);
}
/// What the box holds is not a key.
fn not_a_key(sh: &mut Shard, w: &W) {
    let mut w = w.clone();
    let n = *sh.rng.pick(&[0, 1, 2, 32, 34, 65, 33]);
    w.plain = sh.rng.bytes(n);
    if n == 33 {
        w.plain[32] |= 0xc0
    }
    let t = file(&w, &seal(&w)).to_string();
    sh.case(|| format!("a box that holds {}: {t}", hex(&w.plain)));
    match open(&t, &w.pw) {
        Ok(Err(_)) if n == 0 => {}
        Ok(Ok((b, Err(_)))) if b == w.plain[1..] => {}
        g => sh.violation(&format!("the wallet {t}, which holds {} and so no key, opened as {g:?}", hex(&w.plain))),
    }
    sh.count("boxes that hold no key");
}
fn shipped(sh: &mut Shard) {
    let d = format!("{}/secrets/tests/data/test-wallet", repo_dir());
    let read = |s: &str| std::fs::read_to_string(format!("{d}{s}")).unwrap_or_else(|_| crate::tree::die("no shipped wallet"));
    let (t, p, a) = (read(""), read(".pswd"), read(".pub"));
    sh.case(|| format!("the shipped wallet {t}"));
    match open(&t, p.as_bytes()) {
        Ok(Ok((b, Ok(k)))) if k.ends_with(&format!("/{}", a.trim())) && b.len() == 32 && below_modulus(&b.clone().try_into().unwrap()) => {
            sh.count("shipped wallets")
        }
        g => sh.violation(&format!("the shipped wallet opened as {g:?}, not as {a}")),
    }
}
pub fn run() {
    let run = mon::start(
        "C21",
        "exploration",
        "each wallet text and password counts once",
        &[
            "Argon2i and the NaCl secret box are stand-ins written for the monitor; the shipped wallet, its password and its public key pin them",
            "password hash costs are kept small except in the shipped wallet",
        ],
    );
    let first = std::sync::Arc::new(std::sync::atomic::AtomicBool::new(true));
    run.par(mon::threads(), move |sh| {
        if first.swap(false, std::sync::atomic::Ordering::SeqCst) {
            shipped(sh)
        }
        let n = if sh.thorough() { 7_000 } else { 400 };
        for i in 0..n {
            sh.beat();
            let w = wallet(&mut sh.rng);
            let c = seal(&w);
            let j = file(&w, &c);
            let text = if sh.rng.bool() { j.to_string() } else { serde_json::to_string_pretty(&j).unwrap() };
            sh.case(|| format!("{w:?}\n{text}"));
            genuine(sh, &w, &text, &j);
            damage(sh, &w, &c, &j);
            not_a_key(sh, &w);
            if i < 1 {
                sh.sample(|| j.clone());
            }
        }
    });
    run.require("shipped wallets", 1);
    for k in [
        "wallets opened", "ciphertext altered", "nonce altered", "salt altered", "another password", "other costs", "nonce of another length",
        "ciphertext of another length", "salt of another length", "text altered", "text cut short", "boxes that hold no key",
    ] {
        run.require(k, 500);
    }
    run.finish()
}
