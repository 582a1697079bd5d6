//! Concrete Rust types using serde's derive, with hand-written expected wire
//! bytes: the code paths real users of the crate go through.
use crate::model::*;
use mon::Rng;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
pub struct UnitS;
#[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
pub struct NewT(pub i32);
#[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
pub struct TupS(pub u16, pub String, pub Option<bool>);
#[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
pub struct Rec {
    pub first: i64,
    pub second: Vec<NewT>,
    pub third: Box<TupS>,
    pub key: [u8; 32],
    pub f: f64,
    pub g: f32,
}
#[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
pub enum Kind {
    Plain,
    New(Rec),
    Tup(char, u32, ()),
    Str { a: Option<Option<i16>>, b: Vec<Vec<u8>> },
    Last,
}
#[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
#[serde(rename = "Polyvar")]
pub enum Poly {
    #[serde(rename = "None")]
    A,
    #[serde(rename = "One")]
    B(u64),
    #[serde(rename = "\u{e9}")]
    Odd,
    #[serde(rename = "Two")]
    C(i8, String),
    #[serde(rename = "T")]
    D { x: bool, y: Kind },
}
#[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
pub struct Gen<A, B> {
    pub a: A,
    pub b: (B, A),
    pub set: BTreeSet<i32>,
    pub res: Result<B, String>,
    pub dur: std::time::Duration,
    pub ph: std::marker::PhantomData<A>,
    pub range: std::ops::Range<i32>,
    pub map: BTreeMap<u16, String>,
}
#[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
pub enum Chain {
    Nil,
    Cons(i32, Box<Chain>),
}

fn i(o: &mut Vec<u8>, n: i64) {
    enc_int(o, n)
}
fn st(o: &mut Vec<u8>, s: &str) {
    enc_nat0(o, s.len() as u64);
    o.extend(s.as_bytes());
}
pub trait Gold: Sized + Serialize + for<'d> Deserialize<'d> + PartialEq + std::fmt::Debug {
    fn gen(r: &mut Rng) -> Self;
    fn wire(&self, o: &mut Vec<u8>);
}
impl Gold for UnitS {
    fn gen(_: &mut Rng) -> Self {
        UnitS
    }
    fn wire(&self, o: &mut Vec<u8>) {
        o.push(0)
    }
}
impl Gold for NewT {
    fn gen(r: &mut Rng) -> Self {
        NewT(gen_i64(r) as i32)
    }
    fn wire(&self, o: &mut Vec<u8>) {
        i(o, self.0 as i64)
    }
}
impl Gold for TupS {
    fn gen(r: &mut Rng) -> Self {
        TupS(gen_i64(r) as u16, gen_string(r), match r.below(3) { 0 => None, 1 => Some(true), _ => Some(false) })
    }
    fn wire(&self, o: &mut Vec<u8>) {
        i(o, self.0 as i64);
        st(o, &self.1);
        match self.2 {
            None => o.push(0),
            Some(b) => o.extend([1, b as u8]),
        }
    }
}
fn finite64(r: &mut Rng) -> f64 {
    loop {
        let f = f64::from_bits(r.next());
        if !f.is_nan() {
            return f;
        }
    }
}
fn finite32(r: &mut Rng) -> f32 {
    loop {
        let f = f32::from_bits(r.next() as u32);
        if !f.is_nan() {
            return f;
        }
    }
}
impl Gold for Rec {
    fn gen(r: &mut Rng) -> Self {
        let n = match r.below(10) { 0 => r.range(126, 131), _ => r.range(0, 5) };
        let mut key = [0u8; 32];
        key.iter_mut().for_each(|b| *b = r.next() as u8);
        Rec { first: gen_i64(r), second: (0..n).map(|_| NewT::gen(r)).collect(), third: Box::new(TupS::gen(r)), key, f: finite64(r), g: finite32(r) }
    }
    fn wire(&self, o: &mut Vec<u8>) {
        i(o, self.first);
        enc_nat0(o, self.second.len() as u64);
        self.second.iter().for_each(|x| x.wire(o));
        self.third.wire(o);
        o.extend(self.key);
        o.extend(self.f.to_bits().to_le_bytes());
        o.extend(self.g.to_bits().to_le_bytes());
    }
}
impl Gold for Kind {
    fn gen(r: &mut Rng) -> Self {
        match r.below(5) {
            0 => Kind::Plain,
            1 => Kind::New(Rec::gen(r)),
            2 => Kind::Tup(r.next() as u8 as char, gen_i64(r) as u32, ()),
            3 => Kind::Str {
                a: match r.below(3) { 0 => None, 1 => Some(None), _ => Some(Some(gen_i64(r) as i16)) },
                b: (0..r.range(0, 4)).map(|_| { let n = r.range(0, 200); r.bytes(n) }).collect(),
            },
            _ => Kind::Last,
        }
    }
    fn wire(&self, o: &mut Vec<u8>) {
        match self {
            Kind::Plain => o.push(0),
            Kind::New(x) => {
                o.push(1);
                x.wire(o)
            }
            Kind::Tup(c, n, ()) => {
                o.push(2);
                o.push(*c as u32 as u8);
                i(o, *n as i64);
                o.push(0)
            }
            Kind::Str { a, b } => {
                o.push(3);
                match a {
                    None => o.push(0),
                    Some(None) => o.extend([1, 0]),
                    Some(Some(n)) => {
                        o.extend([1, 1]);
                        i(o, *n as i64)
                    }
                }
                enc_nat0(o, b.len() as u64);
                for x in b {
                    enc_nat0(o, x.len() as u64);
                    o.extend(x)
                }
            }
            Kind::Last => o.push(4),
        }
    }
}
fn tag(o: &mut Vec<u8>, l: &str) {
    o.extend((caml_hash_ref(l) << 1 | 1).to_le_bytes())
}
impl Gold for Poly {
    fn gen(r: &mut Rng) -> Self {
        match r.below(4) {
            0 => Poly::A,
            1 => Poly::B(gen_i64(r) as u64),
            2 => Poly::C(gen_i64(r) as i8, gen_string(r)),
            _ => Poly::D { x: r.bool(), y: Kind::gen(r) },
        }
    }
    fn wire(&self, o: &mut Vec<u8>) {
        match self {
            Poly::A => tag(o, "None"),
            Poly::B(n) => {
                tag(o, "One");
                i(o, *n as i64)
            }
            Poly::Odd => unreachable!(),
            Poly::C(a, s) => {
                tag(o, "Two");
                i(o, *a as i64);
                st(o, s)
            }
            Poly::D { x, y } => {
                tag(o, "T");
                o.push(*x as u8);
                y.wire(o)
            }
        }
    }
}
impl<A: Gold + Clone, B: Gold + Clone> Gold for Gen<A, B> {
    fn gen(r: &mut Rng) -> Self {
        Gen {
            a: A::gen(r),
            b: (B::gen(r), A::gen(r)),
            set: (0..r.range(0, 6)).map(|_| gen_i64(r) as i32).collect(),
            res: if r.bool() { Ok(B::gen(r)) } else { Err(gen_string(r)) },
            dur: std::time::Duration::new(gen_i64(r) as u64, r.below(1_000_000_000) as u32),
            ph: std::marker::PhantomData,
            range: (gen_i64(r) as i32)..(gen_i64(r) as i32),
            map: (0..r.range(0, 5)).map(|_| (gen_i64(r) as u16, gen_string(r))).collect(),
        }
    }
    fn wire(&self, o: &mut Vec<u8>) {
        self.a.wire(o);
        self.b.0.wire(o);
        self.b.1.wire(o);
        enc_nat0(o, self.set.len() as u64);
        self.set.iter().for_each(|x| i(o, *x as i64));
        match &self.res {
            Ok(b) => {
                o.push(0);
                b.wire(o)
            }
            Err(s) => {
                o.push(1);
                st(o, s)
            }
        }
        i(o, self.dur.as_secs() as i64);
        i(o, self.dur.subsec_nanos() as i64);
        o.push(0);
        i(o, self.range.start as i64);
        i(o, self.range.end as i64);
        enc_nat0(o, self.map.len() as u64);
        self.map.iter().for_each(|(k, v)| {
            i(o, *k as i64);
            st(o, v)
        });
    }
}
impl Gold for Chain {
    fn gen(r: &mut Rng) -> Self {
        let mut c = Chain::Nil;
        for _ in 0..r.range(0, 40) {
            c = Chain::Cons(gen_i64(r) as i32, Box::new(c));
        }
        c
    }
    fn wire(&self, o: &mut Vec<u8>) {
        match self {
            Chain::Nil => o.push(0),
            Chain::Cons(n, t) => {
                o.push(1);
                i(o, *n as i64);
                t.wire(o)
            }
        }
    }
}
impl<A: Gold, B: Gold> Gold for (A, B) {
    fn gen(r: &mut Rng) -> Self {
        (A::gen(r), B::gen(r))
    }
    fn wire(&self, o: &mut Vec<u8>) {
        self.0.wire(o);
        self.1.wire(o)
    }
}
impl<A: Gold> Gold for Vec<A> {
    fn gen(r: &mut Rng) -> Self {
        (0..r.range(0, 6)).map(|_| A::gen(r)).collect()
    }
    fn wire(&self, o: &mut Vec<u8>) {
        enc_nat0(o, self.len() as u64);
        self.iter().for_each(|x| x.wire(o))
    }
}
impl<A: Gold> Gold for Option<A> {
    fn gen(r: &mut Rng) -> Self {
        if r.bool() { Some(A::gen(r)) } else { None }
    }
    fn wire(&self, o: &mut Vec<u8>) {
        match self {
            None => o.push(0),
            Some(x) => {
                o.push(1);
                x.wire(o)
            }
        }
    }
}
