//! C10: the Versioned wrapper and its conversion macros. Oracle: the wire image
//! is the versions from the outermost to the innermost, then the value; every
//! conversion keeps the value, and wrapping sets exactly the declared versions.
#[path = "../../wire/src/model.rs"]
#[allow(dead_code)]
mod model;
use bin_prot::{from_reader, from_reader_strict, to_writer};
use model::{enc_int, enc_nat0, gen_i64, gen_string};
use mon::*;
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use std::fmt::Debug;
use versioned::*;

#[global_allocator]
static A: mon::MonAlloc = mon::MonAlloc;

#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
struct Rec {
    a: i64,
    b: Option<u32>,
    c: Vec<String>,
    d: Kind,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
enum Kind {
    #[default]
    X,
    Y(i32, i32),
    Z {
        p: bool,
        q: u64,
    },
}
trait Val: Clone + PartialEq + Debug + Serialize + DeserializeOwned + Default + 'static {
    fn gen(r: &mut Rng) -> Self;
    fn wire(&self, o: &mut Vec<u8>);
}
impl Val for () {
    fn gen(_: &mut Rng) -> Self {}
    fn wire(&self, o: &mut Vec<u8>) {
        o.push(0)
    }
}
impl Val for i64 {
    fn gen(r: &mut Rng) -> Self {
        gen_i64(r)
    }
    fn wire(&self, o: &mut Vec<u8>) {
        enc_int(o, *self)
    }
}
impl Val for u16 {
    fn gen(r: &mut Rng) -> Self {
        gen_i64(r) as u16
    }
    fn wire(&self, o: &mut Vec<u8>) {
        enc_int(o, *self as i64)
    }
}
impl Val for u32 {
    fn gen(r: &mut Rng) -> Self {
        gen_i64(r) as u32
    }
    fn wire(&self, o: &mut Vec<u8>) {
        enc_int(o, *self as i64)
    }
}
impl Val for bool {
    fn gen(r: &mut Rng) -> Self {
        r.bool()
    }
    fn wire(&self, o: &mut Vec<u8>) {
        o.push(*self as u8)
    }
}
impl Val for String {
    fn gen(r: &mut Rng) -> Self {
        gen_string(r)
    }
    fn wire(&self, o: &mut Vec<u8>) {
        enc_nat0(o, self.len() as u64);
        o.extend(self.bytes())
    }
}
impl<T: Val> Val for Option<T> {
    fn gen(r: &mut Rng) -> Self {
        r.bool().then(|| T::gen(r))
    }
    fn wire(&self, o: &mut Vec<u8>) {
        o.push(self.is_some() as u8);
        if let Some(x) = self {
            x.wire(o)
        }
    }
}
impl<T: Val> Val for Vec<T> {
    fn gen(r: &mut Rng) -> Self {
        (0..r.below(5)).map(|_| T::gen(r)).collect()
    }
    fn wire(&self, o: &mut Vec<u8>) {
        enc_nat0(o, self.len() as u64);
        self.iter().for_each(|x| x.wire(o))
    }
}
impl Val for Rec {
    fn gen(r: &mut Rng) -> Self {
        Rec { a: Val::gen(r), b: Val::gen(r), c: Val::gen(r), d: Val::gen(r) }
    }
    fn wire(&self, o: &mut Vec<u8>) {
        self.a.wire(o);
        self.b.wire(o);
        self.c.wire(o);
        self.d.wire(o);
    }
}
impl Val for Kind {
    fn gen(r: &mut Rng) -> Self {
        match r.below(3) {
            0 => Kind::X,
            1 => Kind::Y(gen_i64(r) as i32, gen_i64(r) as i32),
            _ => Kind::Z { p: r.bool(), q: gen_i64(r) as u64 },
        }
    }
    fn wire(&self, o: &mut Vec<u8>) {
        match self {
            Kind::X => o.push(0),
            Kind::Y(a, b) => {
                o.push(1);
                enc_int(o, *a as i64);
                enc_int(o, *b as i64);
            }
            Kind::Z { p, q } => {
                o.push(2);
                o.push(*p as u8);
                enc_int(o, *q as i64);
            }
        }
    }
}
fn check<T: Val, X: Clone + PartialEq + Debug + Serialize + DeserializeOwned>(
    sh: &mut Shard,
    what: &str,
    t: &T,
    vs: &[u16],
    built: X,
    split: impl Fn(X) -> (Vec<u16>, T),
    unwrap: impl Fn(X) -> T,
) {
    let mut want = vec![];
    for v in vs {
        enc_int(&mut want, *v as i64);
    }
    t.wire(&mut want);
    sh.case(|| format!("{what} versions (outermost first) {vs:?} value {t:?} wire {}", hex(&want)));
    let (gv, gt) = split(built.clone());
    if gv != vs || &gt != t {
        sh.violation(&format!("{what} of {t:?} produced versions {gv:?} and value {gt:?}, declared versions are {vs:?}"));
    }
    let u = unwrap(built.clone());
    if &u != t {
        sh.violation(&format!("unwrapping returned {u:?} for {t:?}"));
    }
    let mut got = vec![];
    match guarded(|| to_writer(&mut got, &built)) {
        Ok(Ok(())) if got == want => {}
        o => sh.violation(&format!("encoded as {} ({o:?}), wire format says {}", hex(&got), hex(&want))),
    }
    match guarded(|| from_reader_strict::<_, X>(want.as_slice())) {
        Ok(Ok(x)) if x == built => {}
        o => sh.violation(&format!("decoding {} returned {o:?}", hex(&want))),
    }
    // versions of other software: kept as they are on the wire
    let other: Vec<u16> = vs.iter().map(|_| gen_i64(&mut sh.rng) as u16).collect();
    let mut wire = vec![];
    for v in &other {
        enc_int(&mut wire, *v as i64);
    }
    t.wire(&mut wire);
    sh.case(|| format!("decoding {} (versions {other:?} value {t:?})", hex(&wire)));
    match guarded(|| from_reader::<_, X>(wire.as_slice())) {
        Ok(Ok(x)) => {
            let (gv, gt) = split(x.clone());
            if gv != other || &gt != t {
                sh.violation(&format!("decoded versions {gv:?} value {gt:?}, wire has {other:?} {t:?}"));
            }
            if (x == built) != (other == vs) {
                sh.violation(&format!("equality of {x:?} and {built:?} does not follow their versions"));
            }
            let mut again = vec![];
            if to_writer(&mut again, &x).is_err() || again != wire {
                sh.violation(&format!("re-encoded as {}", hex(&again)));
            }
            if &unwrap(x) != t {
                sh.violation("unwrapping a value with a foreign version lost the value");
            }
            sh.count("foreign_versions_kept");
        }
        o => sh.violation(&format!("decoding {} returned {o:?}", hex(&wire))),
    }
    sh.count("towers");
    sh.observed(fnv(&wire) ^ fnv(what.as_bytes()), true);
}
fn towers<T: Val, const A: u16, const B: u16, const C: u16, const D: u16>(sh: &mut Shard) {
    type V1<T, const A: u16> = Versioned<T, A>;
    type V2<T, const A: u16, const B: u16> = Versioned<V1<T, A>, B>;
    type V3<T, const A: u16, const B: u16, const C: u16> = Versioned<V2<T, A, B>, C>;
    type V4<T, const A: u16, const B: u16, const C: u16, const D: u16> = Versioned<V3<T, A, B, C>, D>;
    fn s1<T, const A: u16>(x: V1<T, A>) -> (Vec<u16>, T) {
        assert!(x.version() == x.version);
        (vec![x.version], x.t)
    }
    fn s2<T, const A: u16, const B: u16>(x: V2<T, A, B>) -> (Vec<u16>, T) {
        let (mut v, t) = s1(x.t);
        v.insert(0, x.version);
        (v, t)
    }
    fn s3<T, const A: u16, const B: u16, const C: u16>(x: V3<T, A, B, C>) -> (Vec<u16>, T) {
        let (mut v, t) = s2(x.t);
        v.insert(0, x.version);
        (v, t)
    }
    fn s4<T, const A: u16, const B: u16, const C: u16, const D: u16>(x: V4<T, A, B, C, D>) -> (Vec<u16>, T) {
        let (mut v, t) = s3(x.t);
        v.insert(0, x.version);
        (v, t)
    }
    let t = T::gen(&mut sh.rng);
    check(sh, "Versioned::new", &t, &[A], Versioned::<T, A>::new(t.clone()), s1, |x| x.inner());
    check(sh, "From, one level", &t, &[A], V1::<T, A>::from(t.clone()), s1, |x| {
        let (t,): (T,) = x.into();
        t
    });
    check(sh, "From, two levels", &t, &[B, A], V2::<T, A, B>::from(t.clone()), s2, |x| {
        let (t,): (T,) = x.into();
        t
    });
    check(sh, "From, three levels", &t, &[C, B, A], V3::<T, A, B, C>::from(t.clone()), s3, |x| {
        let (t,): (T,) = x.into();
        t
    });
    check(sh, "From, four levels", &t, &[D, C, B, A], V4::<T, A, B, C, D>::from(t.clone()), s4, |x| {
        let (t,): (T,) = x.into();
        t
    });
    check(sh, "new of new", &t, &[B, A], V2::<T, A, B>::new(V1::<T, A>::new(t.clone())), s2, |x| x.inner().inner());
    check(sh, "From of From", &t, &[B, A], V2::<T, A, B>::from(V1::<T, A>::from(t.clone())), s2, |x| {
        let (v,): (V1<T, A>,) = x.into();
        v.inner()
    });
    let d = T::default();
    check(sh, "default", &d, &[A], V1::<T, A>::default(), s1, |x| x.inner());
    check(sh, "default of default", &d, &[D, C, B, A], V4::<T, A, B, C, D>::default(), s4, |x| x.inner().inner().inner().inner());
}
fn types<const A: u16, const B: u16, const C: u16, const D: u16>(sh: &mut Shard) {
    towers::<(), A, B, C, D>(sh);
    towers::<bool, A, B, C, D>(sh);
    towers::<u16, A, B, C, D>(sh);
    towers::<u32, A, B, C, D>(sh);
    towers::<i64, A, B, C, D>(sh);
    towers::<String, A, B, C, D>(sh);
    towers::<Vec<Option<i64>>, A, B, C, D>(sh);
    towers::<Option<Rec>, A, B, C, D>(sh);
    towers::<Rec, A, B, C, D>(sh);
    towers::<Kind, A, B, C, D>(sh);
}

// ------------------------------------------------------------- the macros
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
struct Payload(u64, String);
impl_from_versioned!(Payload);
type PayloadV1 = Versioned<Payload, 3>;
type Payload2V1 = Versioned<Versioned<Payload, 4>, 5>;

#[derive(Debug, Clone, PartialEq, Eq)]
struct NewU64(u64);
#[derive(Debug, Clone, PartialEq, Eq)]
struct NewRec(Rec);
type U64V = Versioned<u64, 7>;
type U64V2 = Versioned<Versioned<u64, 200>, 40000>;
type U64V4 = Versioned<Versioned<Versioned<Versioned<u64, 1>, 2>, 3>, 4>;
type RecV3 = Versioned<Versioned<Versioned<Rec, 1>, 128>, 255>;
impl_from_for_newtype!(NewU64, U64V);
impl_from_for_newtype!(NewU64, U64V2);
impl_from_for_newtype!(NewU64, U64V4);
impl_from_for_newtype!(NewRec, RecV3);

#[derive(Debug, Clone, PartialEq, Eq)]
struct Plain {
    a: u64,
    b: u64,
}
#[derive(Debug, Clone, PartialEq, Eq)]
struct Json {
    b: String,
    a: String,
}
type PlainV = Versioned<(u64, u64), 9>;
impl From<Plain> for PlainV {
    fn from(p: Plain) -> Self {
        Versioned::new((p.a, p.b))
    }
}
impl From<PlainV> for Plain {
    fn from(p: PlainV) -> Self {
        assert_eq!(p.version, 9, "the proxy carries its version");
        Plain { a: p.t.0, b: p.t.1 }
    }
}
impl From<PlainV> for Json {
    fn from(p: PlainV) -> Self {
        assert_eq!(p.version, 9, "the proxy carries its version");
        Json { a: p.t.0.to_string(), b: p.t.1.to_string() }
    }
}
impl From<Json> for PlainV {
    fn from(j: Json) -> Self {
        Versioned::new((j.a.parse().unwrap(), j.b.parse().unwrap()))
    }
}
impl_from_with_proxy!(Plain, PlainV, Json);

#[derive(Debug, Clone, PartialEq, Eq)]
struct Outer(u64, u64);
#[derive(Debug, Clone, PartialEq, Eq)]
struct Inter {
    x: u64,
    y: u64,
}
impl From<Outer> for Inter {
    fn from(o: Outer) -> Self {
        Inter { x: o.0, y: o.1 }
    }
}
impl From<Inter> for Outer {
    fn from(o: Inter) -> Self {
        Outer(o.x, o.y)
    }
}
type InterV1 = Versioned<Inter, 300>;
type InterV2 = Versioned<Versioned<Inter, 300>, 2>;
impl_from_for_versioned_with_proxy!(Outer, Inter, InterV1);
impl_from_for_versioned_with_proxy!(Outer, Inter, InterV2);

#[derive(Debug, Clone, PartialEq, Eq)]
struct Generic<T>(T, u8);
impl<T> From<T> for Generic<T> {
    fn from(t: T) -> Self {
        Generic(t, 77)
    }
}
impl<T> From<Generic<T>> for (T,) {
    fn from(t: Generic<T>) -> Self {
        (t.0,)
    }
}
type GenInter = Generic<Inter>;
impl_from_for_generic_with_proxy!(Outer, Inter, GenInter);

fn macros(sh: &mut Shard) {
    let r = &mut sh.rng;
    let (a, b) = (gen_i64(r) as u64, gen_i64(r) as u64);
    let s = gen_string(r);
    let rec = Rec::gen(r);
    sh.case(|| format!("conversion macros on {a} {b} {s:?} {rec:?}"));
    let p = Payload(a, s.clone());
    let res = guarded(|| {
        let mut bad: Vec<String> = vec![];
        macro_rules! eq {
            ($w:literal, $x:expr, $y:expr) => {
                let (x, y) = ($x, $y);
                if x != y {
                    bad.push(format!("{}: {:?} instead of {:?}", $w, x, y));
                }
            };
        }
        eq!("impl_from_versioned", Payload::from(PayloadV1::from(p.clone())), p.clone());
        eq!("impl_from_versioned, two levels", Payload::from(Payload2V1::from(p.clone())), p.clone());
        eq!("impl_from_versioned, foreign version", Payload::from(Versioned::<Payload, 3> { version: 12, t: p.clone() }), p.clone());
        let v: U64V = NewU64(a).into();
        eq!("impl_from_for_newtype to versioned", (v.version, v.t), (7, a));
        eq!("impl_from_for_newtype from versioned", NewU64::from(v), NewU64(a));
        let v: U64V2 = NewU64(a).into();
        eq!("impl_from_for_newtype to two levels", (v.version, v.t.version, v.t.t), (40000, 200, a));
        eq!("impl_from_for_newtype from two levels", NewU64::from(v), NewU64(a));
        let v: U64V4 = NewU64(a).into();
        eq!("impl_from_for_newtype to four levels", (v.version, v.t.version, v.t.t.version, v.t.t.t.version, v.t.t.t.t), (4, 3, 2, 1, a));
        eq!("impl_from_for_newtype from four levels", NewU64::from(v), NewU64(a));
        let v: RecV3 = NewRec(rec.clone()).into();
        eq!("impl_from_for_newtype to three levels", (v.version, v.t.version, v.t.t.version, v.t.t.t.clone()), (255, 128, 1, rec.clone()));
        eq!("impl_from_for_newtype from three levels", NewRec::from(v), NewRec(rec.clone()));
        let pl = Plain { a, b };
        let j: Json = pl.clone().into();
        eq!("impl_from_with_proxy to json", j.clone(), Json { a: a.to_string(), b: b.to_string() });
        eq!("impl_from_with_proxy from json", Plain::from(j), pl.clone());
        let o = Outer(a, b);
        let v: InterV1 = o.clone().into();
        eq!("versioned proxy to", v.clone(), Versioned { version: 300, t: Inter { x: a, y: b } });
        eq!("versioned proxy from", Outer::from(v), o.clone());
        let v: InterV2 = o.clone().into();
        eq!("versioned proxy to two levels", v.clone(), Versioned { version: 2, t: Versioned { version: 300, t: Inter { x: a, y: b } } });
        eq!("versioned proxy from two levels", Outer::from(v), o.clone());
        let v: GenInter = o.clone().into();
        eq!("generic proxy to", v.clone(), Generic(Inter { x: a, y: b }, 77));
        eq!("generic proxy from", Outer::from(v), o.clone());
        bad
    });
    match res {
        Ok(b) if b.is_empty() => {}
        o => sh.violation(&format!("{o:?}")),
    }
    sh.count("macro_conversions");
    sh.observed(a ^ b.rotate_left(17) ^ fnv(s.as_bytes()), true);
}

fn main() {
    let r = start(
        "C10",
        "exploration",
        "a versioned tower (its type, declared versions, foreign wire versions and value) whose wrapping, unwrapping, wire image and decoding were all compared with the reference",
        &["towers of one to four levels, the depth the conversions support", "the value types are those listed in versioned-mon"],
    );
    r.require("towers", 5_000);
    r.require("foreign_versions_kept", 5_000);
    r.require("macro_conversions", 500);
    r.par(threads(), |sh| {
        let n = if sh.thorough() { 4000 } else { 60 };
        for _ in 0..n {
            types::<0, 1, 2, 3>(sh);
            types::<1, 1, 1, 1>(sh);
            types::<127, 128, 255, 256>(sh);
            types::<32767, 32768, 65534, 65535>(sh);
            types::<65535, 0, 32768, 127>(sh);
            types::<9, 300, 7, 40000>(sh);
            for _ in 0..20 {
                macros(sh);
            }
            sh.beat();
        }
        sh.sample(|| serde_json::json!({"type": "Versioned<Versioned<u16, 127>, 128>", "value": 5, "wire": "fe80007f05"}));
    });
    r.finish();
}
