//! C06: polymorphic variants. Oracle: OCaml's hash_variant in unbounded
//! arithmetic; known finding: labels of five or more characters.
use crate::model::caml_hash_ref;
use bin_prot::{caml_hash_variant, error::Error, from_reader, to_writer, ReadBinProtExt, WriteBinProtExt};
use mon::*;
use serde::de::{self, EnumAccess, VariantAccess, Visitor};
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use std::cell::RefCell;

const FIRST: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz_";
const REST: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz_0123456789'";
fn label(r: &mut Rng, n: usize) -> String {
    (0..n).map(|i| *r.pick(if i == 0 { FIRST } else { REST }) as char).collect()
}
fn overflow(p: &str) -> bool {
    p.starts_with("attempt to ") && p.contains("with overflow")
}
const KEY: &str = "label-of-5-or-more-characters";
fn hash(sh: &mut Shard, l: &str) {
    let want = caml_hash_ref(l);
    sh.case(|| format!("label {l:?} expected hash {want}"));
    match guarded(|| caml_hash_variant(l)) {
        Ok(h) if h == want => sh.count(if l.len() > 4 { "long_labels_ok" } else { "label_hashes" }),
        Ok(h) => sh.violation(&format!("label {l:?} hashed to {h}, OCaml says {want}")),
        Err(p) if l.len() > 4 && overflow(&p) => sh.finding_or_violation(KEY, &format!("hashing label {l:?} panicked: {p}")),
        Err(p) => sh.violation(&format!("hashing label {l:?} panicked: {p}")),
    }
    sh.observed(fnv(l.as_bytes()), true);
}
thread_local! { static CUR: RefCell<(&'static [&'static str], Vec<usize>)> = const { RefCell::new((&[], vec![])) }; }
/// A polymorphic variant value: variant number and its arguments.
#[derive(Debug, PartialEq, Clone)]
struct P(usize, Vec<i64>);
impl Serialize for P {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        use serde::ser::{SerializeStructVariant, SerializeTupleVariant};
        let (labels, _) = CUR.with(|c| c.borrow().clone());
        let l = labels[self.0];
        match self.1.len() {
            0 => s.serialize_unit_variant("Polyvar", self.0 as u32, l),
            1 => s.serialize_newtype_variant("Polyvar", self.0 as u32, l, &self.1[0]),
            2 => {
                let mut q = s.serialize_tuple_variant("Polyvar", self.0 as u32, l, 2)?;
                for x in &self.1 {
                    q.serialize_field(x)?;
                }
                q.end()
            }
            n => {
                let mut q = s.serialize_struct_variant("Polyvar", self.0 as u32, l, n)?;
                for x in &self.1 {
                    q.serialize_field("f", x)?;
                }
                q.end()
            }
        }
    }
}
struct Args(usize);
impl<'de> Visitor<'de> for Args {
    type Value = Vec<i64>;
    fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "args")
    }
    fn visit_seq<A: de::SeqAccess<'de>>(self, mut a: A) -> Result<Vec<i64>, A::Error> {
        (0..self.0).map(|i| a.next_element()?.ok_or_else(|| de::Error::invalid_length(i, &"more"))).collect()
    }
}
struct PV;
struct Idx;
impl<'de> de::DeserializeSeed<'de> for Idx {
    type Value = u64;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<u64, D::Error> {
        d.deserialize_identifier(self)
    }
}
impl<'de> Visitor<'de> for Idx {
    type Value = u64;
    fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "index")
    }
    fn visit_u64<E: de::Error>(self, n: u64) -> Result<u64, E> {
        Ok(n)
    }
}
impl<'de> Visitor<'de> for PV {
    type Value = P;
    fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "polyvar")
    }
    fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<P, A::Error> {
        let (i, va) = a.variant_seed(Idx)?;
        let (_, ar) = CUR.with(|c| c.borrow().clone());
        let n = *ar.get(i as usize).ok_or_else(|| de::Error::custom("variant number out of range"))?;
        Ok(P(i as usize, match n {
            0 => {
                va.unit_variant()?;
                vec![]
            }
            1 => vec![va.newtype_variant()?],
            2 => va.tuple_variant(2, Args(2))?,
            n => va.struct_variant(&["a", "b", "c", "d"][..n], Args(n))?,
        }))
    }
}
impl<'de> Deserialize<'de> for P {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<P, D::Error> {
        let (labels, _) = CUR.with(|c| c.borrow().clone());
        d.deserialize_enum("Polyvar", labels, PV)
    }
}
fn enums(sh: &mut Shard, pool: &[&'static str]) {
    // usually few labels, at times more than an index of one byte can tell apart
    let n = if sh.rng.below(400) == 0 { sh.rng.range(200, 390) } else { sh.rng.range(1, 9) };
    let mut labels: Vec<&'static str> = vec![];
    let mut tags = vec![];
    while labels.len() < n {
        let l = *sh.rng.pick(pool);
        if !labels.contains(&l) && !(l.is_ascii() && tags.contains(&caml_hash_ref(l))) {
            labels.push(l);
            tags.push(if l.is_ascii() { caml_hash_ref(l) } else { u32::MAX });
        }
    }
    let ar: Vec<usize> = (0..n).map(|_| sh.rng.range(0, 4)).collect();
    let leaked: &'static [&'static str] = Box::leak(labels.clone().into_boxed_slice());
    CUR.with(|c| *c.borrow_mut() = (leaked, ar.clone()));
    if n > 256 {
        sh.count("types_with_over_256_labels");
    }
    for i in 0..n {
        if !labels[i].is_ascii() {
            continue; // never constructible on the OCaml side
        }
        let v = P(i, (0..ar[i]).map(|_| crate::model::gen_i64(&mut sh.rng)).collect());
        let mut want = (tags[i] << 1 | 1).to_le_bytes().to_vec();
        v.1.iter().for_each(|x| crate::model::enc_int(&mut want, *x));
        sh.case(|| format!("labels {labels:?} value {v:?}"));
        let mut got = vec![];
        match guarded(|| to_writer(&mut got, &v)) {
            Ok(Ok(())) if got == want => {}
            o => sh.violation(&format!("polymorphic variant {} written as {} ({o:?}) instead of {}", labels[i], hex(&got), hex(&want))),
        }
        match guarded(|| from_reader::<_, P>(want.as_slice())) {
            Ok(Ok(b)) if b == v => sh.count("variants_roundtrip"),
            o => sh.violation(&format!("polymorphic variant {} decoded to {o:?}", labels[i])),
        }
        sh.observed(fnv(&want) ^ fnv(labels[i].as_bytes()), true);
    }
    // undeclared tags
    for _ in 0..4 {
        let near = tags[sh.rng.below(n as u64) as usize];
        let tag = match sh.rng.below(8) {
            4 | 5 => (near ^ (1 << sh.rng.below(31))) & 0x7fff_ffff,
            6 => *sh.rng.pick(&[near << 1, near >> 1, near.swap_bytes(), !near, near & 0xffff, near & 0xff_ffff]) & 0x7fff_ffff,
            7 => (near & 0x00ff_ffff | (sh.rng.next() as u32) << 24) & 0x7fff_ffff,
            0 => sh.rng.below(n as u64 + 2) as u32, // looks like an index
            1 => tags[sh.rng.below(n as u64) as usize].wrapping_add(1) & 0x7fff_ffff,
            2 => caml_hash_ref(*sh.rng.pick(pool)),
            _ => sh.rng.next() as u32 & 0x7fff_ffff,
        };
        if tags.contains(&tag) {
            continue;
        }
        let mut b = (tag << 1 | 1).to_le_bytes().to_vec();
        b.extend(sh.rng.bytes(16).iter().map(|x| x & 0x7f));
        sh.case(|| format!("labels {labels:?} undeclared tag {tag}"));
        match guarded(|| from_reader::<_, P>(b.as_slice())) {
            Ok(Err(Error::UnknownPolyvarTag(t))) if t == tag => sh.count("unknown_tags_refused"),
            o => sh.violation(&format!("undeclared tag {tag} gave {o:?}")),
        }
    }
    unsafe { drop(Box::from_raw(leaked as *const [&'static str] as *mut [&'static str])) };
    CUR.with(|c| *c.borrow_mut() = (&[], vec![]));
}
/// A variant that is named by its number alone: one byte when the number fits, else the tag.
struct Numbered(u32, u8);
impl Serialize for Numbered {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        use serde::ser::{SerializeStructVariant, SerializeTupleVariant};
        match self.1 {
            0 => s.serialize_unit_variant("Numbered", self.0, "x"),
            1 => s.serialize_newtype_variant("Numbered", self.0, "x", &true),
            2 => {
                let mut q = s.serialize_tuple_variant("Numbered", self.0, "x", 1)?;
                q.serialize_field(&true)?;
                q.end()
            }
            _ => {
                let mut q = s.serialize_struct_variant("Numbered", self.0, "x", 1)?;
                q.serialize_field("f", &true)?;
                q.end()
            }
        }
    }
}
fn numbered(sh: &mut Shard) {
    let t = match sh.rng.below(3) {
        0 => sh.rng.below(600) as u32,
        1 => 1 << sh.rng.below(31),
        _ => sh.rng.next() as u32 & 0x7fff_ffff,
    };
    for kind in 0..4u8 {
        let mut want = if t < 256 { vec![t as u8] } else { (t << 1 | 1).to_le_bytes().to_vec() };
        if kind > 0 {
            want.push(1);
        }
        sh.case(|| format!("variant numbered {t}, form {kind}"));
        let mut got = vec![];
        match guarded(|| to_writer(&mut got, &Numbered(t, kind))) {
            Ok(Ok(())) if got == want => sh.count(if t < 256 { "numbered_as_index" } else { "numbered_as_tag" }),
            o => sh.violation(&format!("the variant numbered {t} was written as {} ({o:?}) instead of {}", hex(&got), hex(&want))),
        }
    }
    sh.observed(t as u64 ^ 0x55 << 40, true);
}
fn tags(sh: &mut Shard) {
    let t = match sh.rng.below(3) {
        0 => sh.rng.below(1 << 10) as u32,
        1 => 0x7fff_ffff - sh.rng.below(1 << 10) as u32,
        _ => sh.rng.next() as u32 & 0x7fff_ffff,
    };
    sh.case(|| format!("raw tag {t}"));
    let mut o = vec![];
    match guarded(|| o.bin_write_polyvar_tag(t)) {
        Ok(Ok(4)) if o == (t << 1 | 1).to_le_bytes() => {}
        r => sh.violation(&format!("tag {t} written as {} ({r:?})", hex(&o))),
    }
    match guarded(|| (&mut o.as_slice()).bin_read_polyvar_tag()) {
        Ok(Ok(b)) if b == t => sh.count("raw_tags"),
        r => sh.violation(&format!("tag {t} read back as {r:?}")),
    }
    sh.observed(t as u64, true);
}
pub fn run() {
    let r = start("C06", "exploration",
        "distinct labels hashed, distinct (label, encoding) pairs through the typed codec, distinct raw tags",
        &["labels are OCaml identifiers", "non-ASCII labels may be declared but are never values", "within one type no two labels hash to the same tag, as the OCaml compiler enforces"]);
    for k in ["label_hashes", "variants_roundtrip", "unknown_tags_refused", "raw_tags", "numbered_as_index", "numbered_as_tag"] {
        r.require(k, 1000);
    }
    r.par(8, |sh| {
        if sh.index == 0 {
            for a in FIRST {
                hash(sh, &(*a as char).to_string());
                for b in REST {
                    hash(sh, &format!("{}{}", *a as char, *b as char));
                }
            }
            hash(sh, "");
        }
        let mut pool: Vec<&'static str> = vec![];
        for i in 0..800 {
            let n = sh.rng.range(1, 4);
            let s = if i % 12 == 0 { sh.rng.pick(&["é", "ñu", "日", "αβ", "ü", "ÿA"]).to_string() } else { label(&mut sh.rng, n) };
            pool.push(Box::leak(s.into_boxed_str()));
        }
        let reps = if sh.thorough() { 900_000 } else { 30_000 };
        for i in 0..reps {
            let n = sh.rng.range(1, 4);
            let l = label(&mut sh.rng, n);
            hash(sh, &l);
            tags(sh);
            if i % 8 == 0 {
                numbered(sh);
            }
            if i % 2 == 0 {
                enums(sh, &pool);
            }
            if i % 64 == 0 {
                let n = sh.rng.range(5, 24);
                let l = label(&mut sh.rng, n);
                hash(sh, &l);
            }
        }
        sh.sample(|| serde_json::json!({"label": "Two", "hash": caml_hash_ref("Two"), "wire": hex(&(caml_hash_ref("Two") << 1 | 1).to_le_bytes())}));
    });
    r.finish();
}
