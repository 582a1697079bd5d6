//! Independent reference model of bin_prot: type descriptors, values, a
//! reference encoder and a reference decoder (written from the Jane Street
//! bin_prot specification, sharing no code with the crate under test).
use mon::Rng;
use std::sync::OnceLock;

#[derive(Clone, Debug, PartialEq)]
pub enum T {
    Unit,
    UnitStruct,
    Bool,
    U8,
    U16,
    U32,
    U64,
    I8,
    I16,
    I32,
    I64,
    F32,
    F64,
    Char,
    Str,
    Opt(Box<T>),
    Seq(Box<T>),
    /// hash table: bindings in the order they are written
    Map(Box<(T, T)>),
    Tuple(Vec<T>),
    TupleStruct(Vec<T>),
    Struct(Vec<T>),
    Newtype(Box<T>),
    Enum(Vec<V>),
    /// polymorphic variant: window [start, start+len) of the label pool
    Poly(usize, Vec<V>),
}
#[derive(Clone, Debug, PartialEq)]
pub enum V {
    Unit,
    Newtype(T),
    Tuple(Vec<T>),
    Struct(Vec<T>),
}
#[derive(Clone, Debug, PartialEq)]
pub enum M {
    Unit,
    Bool(bool),
    U(u64),
    I(i64),
    F32(u32),
    F64(u64),
    Char(char),
    Str(String),
    Opt(Option<Box<M>>),
    List(Vec<M>),
    Map(Vec<(M, M)>),
    Var(usize, Vec<M>),
}

/// Label pool for polymorphic variants. Labels of at most four ASCII
/// characters (longer ones are treated by the dedicated label monitor), with
/// non-ASCII labels interleaved: they may be declared but are never selected.
pub const LABELS: &[&str] = &[
    "None", "One", "Two", "Some", "A", "\u{e9}t\u{e9}", "Bc", "z9_", "Ok", "Err", "\u{3b1}", "X", "Yes", "No",
    "Add", "Sub", "tx", "\u{fc}ber", "blk", "P2p", "Foo", "Bar", "Baz", "q", "R", "Zzzz", "a_b", "T'", "\u{1f600}",
    "Mul", "Div", "Neg", "Fee", "Pay", "Del",
];
pub fn caml_hash_ref(label: &str) -> u32 {
    // typing/btype.ml hash_variant, in unbounded arithmetic modulo 2^31
    let mut acc: u64 = 0;
    for b in label.bytes() {
        acc = (acc * 223 + b as u64) & 0x7fff_ffff;
    }
    acc as u32
}
pub fn poly_labels(start: usize, n: usize) -> &'static [&'static str] {
    &LABELS[start..start + n]
}

static FIELDS: OnceLock<Vec<&'static str>> = OnceLock::new();
static VARS: OnceLock<Vec<&'static str>> = OnceLock::new();
pub fn field_names(n: usize) -> &'static [&'static str] {
    let v = FIELDS.get_or_init(|| (0..64).map(|i| &*Box::leak(format!("f{i}").into_boxed_str())).collect());
    &v[..n]
}
pub fn var_names(n: usize) -> &'static [&'static str] {
    let v = VARS.get_or_init(|| (0..256).map(|i| &*Box::leak(format!("V{i}").into_boxed_str())).collect());
    &v[..n]
}

// ----------------------------------------------------------- generation
pub fn gen_type(r: &mut Rng, depth: usize) -> T {
    let leaf = depth == 0 || r.chance(2, 5);
    if leaf {
        return match r.below(15) {
            0 => T::Unit,
            1 => T::UnitStruct,
            2 => T::Bool,
            3 => T::U8,
            4 => T::U16,
            5 => T::U32,
            6 => T::U64,
            7 => T::I8,
            8 => T::I16,
            9 => T::I32,
            10 => T::I64,
            11 => T::F32,
            12 => T::F64,
            13 => T::Char,
            _ => T::Str,
        };
    }
    let many = |r: &mut Rng, lo: usize| -> Vec<T> {
        let n = r.range(lo, 4);
        (0..n).map(|_| gen_type(r, depth - 1)).collect()
    };
    match r.below(10) {
        9 => T::Map(Box::new((gen_nonempty(r, (depth - 1).min(1)), gen_type(r, depth - 1)))),
        0 => T::Opt(Box::new(gen_type(r, depth - 1))),
        1 | 2 => T::Seq(Box::new(gen_nonempty(r, depth - 1))),
        3 => T::Tuple(many(r, 1)),
        4 => T::TupleStruct(many(r, 2)),
        5 => T::Struct(many(r, 1)),
        6 => T::Newtype(Box::new(gen_type(r, depth - 1))),
        7 => {
            let n = if r.chance(1, 12) { r.range(100, 256) } else { r.range(1, 6) };
            T::Enum((0..n).map(|_| gen_variant(r, if n > 10 { 0 } else { depth - 1 })).collect())
        }
        _ => {
            let n = r.range(1, 5);
            let start = r.range(0, LABELS.len() - n);
            if !LABELS[start..start + n].iter().any(|l| l.is_ascii()) {
                return T::Bool;
            }
            T::Poly(start, (0..n).map(|_| gen_variant(r, depth - 1)).collect())
        }
    }
}
/// Sequence elements always occupy at least one byte on the wire (a list of
/// zero-width elements has no meaningful bound on its length).
fn gen_nonempty(r: &mut Rng, depth: usize) -> T {
    loop {
        let t = gen_type(r, depth);
        if min_width(&t) > 0 {
            return t;
        }
    }
}
pub fn min_width(t: &T) -> usize {
    match t {
        T::Tuple(v) | T::TupleStruct(v) | T::Struct(v) => v.iter().map(min_width).sum(),
        T::Newtype(t) => min_width(t),
        _ => 1,
    }
}
fn gen_variant(r: &mut Rng, depth: usize) -> V {
    match r.below(4) {
        0 => V::Unit,
        1 => V::Newtype(gen_type(r, depth)),
        2 => V::Tuple((0..r.range(2, 3)).map(|_| gen_type(r, depth)).collect()),
        _ => V::Struct((0..r.range(1, 3)).map(|_| gen_type(r, depth)).collect()),
    }
}
/// Integers biased towards representation boundaries.
pub fn gen_i64(r: &mut Rng) -> i64 {
    match r.below(6) {
        0 => r.next() as i64,
        1 => (r.next() >> r.below(64)) as i64,
        2 => -((r.next() >> (1 + r.below(63))) as i64),
        3 => *r.pick(&[0, 1, -1, 127, 128, -128, -129, 255, 256, 32767, 32768, -32768, -32769, 65535, 65536, i32::MAX as i64, i32::MIN as i64, i32::MAX as i64 + 1, i32::MIN as i64 - 1, u32::MAX as i64, u32::MAX as i64 + 1, i64::MAX, i64::MIN]),
        _ => {
            let p = 1i64.wrapping_shl(r.below(64) as u32);
            let d = r.below(5) as i64 - 2;
            let v = p.wrapping_add(d);
            if r.bool() { v } else { v.wrapping_neg() }
        }
    }
}
pub fn gen_value(r: &mut Rng, t: &T) -> M {
    match t {
        T::Unit | T::UnitStruct => M::Unit,
        T::Bool => M::Bool(r.bool()),
        T::U8 => M::U(gen_i64(r) as u8 as u64),
        T::U16 => M::U(gen_i64(r) as u16 as u64),
        T::U32 => M::U(gen_i64(r) as u32 as u64),
        T::U64 => M::U(gen_i64(r) as u64),
        T::I8 => M::I(gen_i64(r) as i8 as i64),
        T::I16 => M::I(gen_i64(r) as i16 as i64),
        T::I32 => M::I(gen_i64(r) as i32 as i64),
        T::I64 => M::I(gen_i64(r)),
        T::F32 => M::F32(match r.below(4) { 0 => *r.pick(&[0, 0x8000_0000, 0x7f80_0000, 0xff80_0000, 1, 0x3f80_0000]), _ => r.next() as u32 }),
        T::F64 => M::F64(match r.below(4) { 0 => *r.pick(&[0, 1 << 63, 0x7ff0_0000_0000_0000, 0xfff0_0000_0000_0000, 1, 0x3ff0_0000_0000_0000]), _ => r.next() }),
        T::Char => M::Char(r.next() as u8 as char),
        T::Str => M::Str(gen_string(r)),
        T::Opt(t) => M::Opt(if r.bool() { Some(Box::new(gen_value(r, t))) } else { None }),
        T::Seq(t) => {
            let n = if r.chance(1, 60) { r.range(100, 300) } else { r.range(0, 4) };
            M::List((0..n).map(|_| gen_value(r, t)).collect())
        }
        T::Map(kv) => {
            let n = if r.chance(1, 60) { r.range(100, 300) } else { r.range(0, 4) };
            M::Map((0..n).map(|_| (gen_value(r, &kv.0), gen_value(r, &kv.1))).collect())
        }
        T::Tuple(v) | T::TupleStruct(v) | T::Struct(v) => M::List(v.iter().map(|t| gen_value(r, t)).collect()),
        T::Newtype(t) => gen_value(r, t),
        T::Enum(vs) => {
            let i = r.below(vs.len() as u64) as usize;
            M::Var(i, gen_variant_value(r, &vs[i]))
        }
        T::Poly(s, vs) => loop {
            let i = r.below(vs.len() as u64) as usize;
            if LABELS[s + i].is_ascii() {
                return M::Var(i, gen_variant_value(r, &vs[i]));
            }
        },
    }
}
fn gen_variant_value(r: &mut Rng, v: &V) -> Vec<M> {
    match v {
        V::Unit => vec![],
        V::Newtype(t) => vec![gen_value(r, t)],
        V::Tuple(ts) | V::Struct(ts) => ts.iter().map(|t| gen_value(r, t)).collect(),
    }
}
pub fn gen_string(r: &mut Rng) -> String {
    let n = match r.below(20) { 0 => r.range(120, 140), 1 => 0, 2 => r.range(250, 400), _ => r.range(0, 12) };
    // text that a reader might be tempted to tidy up at either end
    const ENDS: &[&str] = &["", "", "", "", "", "\u{feff}", " ", "\r\n", "\n", "\0", "\t", "\"", "\u{200b}", "\u{fffd}", "e\u{301}"];
    let (a, z) = (*r.pick(ENDS), *r.pick(ENDS));
    let mid: String = (0..n)
        .map(|_| match r.below(5) {
            0 => char::from_u32(r.below(0x80) as u32).unwrap(),
            1 => char::from_u32(0x80 + r.below(0x700) as u32).unwrap(),
            2 => *r.pick(&['\u{20ac}', '\u{d7ff}', '\u{e000}', '\u{1f600}', '\u{fffd}', '\0', '\u{10ffff}']),
            3 if r.chance(1, 8) => *r.pick(&['\r', '\n', '\u{feff}', ' ', '\u{301}']),
            _ => (b'a' + r.below(26) as u8) as char,
        })
        .collect();
    format!("{a}{mid}{z}")
}

// -------------------------------------------------------------- encoding
pub fn enc_int(o: &mut Vec<u8>, n: i64) {
    if (0..0x80).contains(&n) {
        o.push(n as u8);
    } else if (-0x80..0).contains(&n) {
        o.push(0xff);
        o.push(n as u8);
    } else if (-0x8000..0x8000).contains(&n) {
        o.push(0xfe);
        o.extend((n as i16).to_le_bytes());
    } else if (-0x8000_0000..0x8000_0000).contains(&n) {
        o.push(0xfd);
        o.extend((n as i32).to_le_bytes());
    } else {
        o.push(0xfc);
        o.extend(n.to_le_bytes());
    }
}
pub fn enc_nat0(o: &mut Vec<u8>, n: u64) {
    if n < 0x80 {
        o.push(n as u8);
    } else if n < 0x1_0000 {
        o.push(0xfe);
        o.extend((n as u16).to_le_bytes());
    } else if n < 0x1_0000_0000 {
        o.push(0xfd);
        o.extend((n as u32).to_le_bytes());
    } else {
        o.push(0xfc);
        o.extend(n.to_le_bytes());
    }
}
pub fn enc(o: &mut Vec<u8>, t: &T, m: &M) {
    match (t, m) {
        (T::Unit | T::UnitStruct, _) => o.push(0),
        (T::Bool, M::Bool(b)) => o.push(*b as u8),
        (T::U8, M::U(u)) => o.push(*u as u8),
        (T::U16 | T::U32 | T::U64, M::U(u)) => enc_int(o, *u as i64),
        (T::I8 | T::I16 | T::I32 | T::I64, M::I(i)) => enc_int(o, *i),
        (T::F32, M::F32(b)) => o.extend(b.to_le_bytes()),
        (T::F64, M::F64(b)) => o.extend(b.to_le_bytes()),
        (T::Char, M::Char(c)) => {
            assert!((*c as u32) < 256);
            o.push(*c as u32 as u8)
        }
        (T::Str, M::Str(s)) => {
            enc_nat0(o, s.len() as u64);
            o.extend(s.as_bytes())
        }
        (T::Opt(_), M::Opt(None)) => o.push(0),
        (T::Opt(t), M::Opt(Some(m))) => {
            o.push(1);
            enc(o, t, m)
        }
        (T::Seq(t), M::List(v)) => {
            enc_nat0(o, v.len() as u64);
            v.iter().for_each(|m| enc(o, t, m))
        }
        (T::Map(kv), M::Map(v)) => {
            enc_nat0(o, v.len() as u64);
            v.iter().for_each(|(k, m)| {
                enc(o, &kv.0, k);
                enc(o, &kv.1, m)
            })
        }
        (T::Tuple(ts) | T::TupleStruct(ts) | T::Struct(ts), M::List(v)) => ts.iter().zip(v).for_each(|(t, m)| enc(o, t, m)),
        (T::Newtype(t), m) => enc(o, t, m),
        (T::Enum(vs), M::Var(i, a)) => {
            o.push(*i as u8);
            enc_args(o, &vs[*i], a)
        }
        (T::Poly(s, vs), M::Var(i, a)) => {
            o.extend((caml_hash_ref(LABELS[s + i]) << 1 | 1).to_le_bytes());
            enc_args(o, &vs[*i], a)
        }
        _ => panic!("model type/value mismatch"),
    }
}
fn enc_args(o: &mut Vec<u8>, v: &V, a: &[M]) {
    match v {
        V::Unit => {}
        V::Newtype(t) => enc(o, t, &a[0]),
        V::Tuple(ts) | V::Struct(ts) => ts.iter().zip(a).for_each(|(t, m)| enc(o, t, m)),
    }
}

// -------------------------------------------------------------- decoding
pub struct Cur<'a> {
    pub b: &'a [u8],
    pub p: usize,
    /// the input used a form on which the format leaves the reader latitude
    pub odd: bool,
}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum DErr {
    Eof,
    Bad,
}
type DR<X> = Result<X, DErr>;
impl<'a> Cur<'a> {
    pub fn new(b: &'a [u8]) -> Self {
        Cur { b, p: 0, odd: false }
    }
    pub fn take(&mut self, n: usize) -> DR<&'a [u8]> {
        if n > self.b.len() - self.p {
            self.p = self.b.len();
            return Err(DErr::Eof);
        }
        let s = &self.b[self.p..self.p + n];
        self.p += n;
        Ok(s)
    }
    pub fn byte(&mut self) -> DR<u8> {
        Ok(self.take(1)?[0])
    }
    pub fn int(&mut self) -> DR<i64> {
        Ok(match self.byte()? {
            0xff => self.byte()? as i8 as i64,
            0xfe => i16::from_le_bytes(self.take(2)?.try_into().unwrap()) as i64,
            0xfd => i32::from_le_bytes(self.take(4)?.try_into().unwrap()) as i64,
            0xfc => i64::from_le_bytes(self.take(8)?.try_into().unwrap()),
            b if b < 0x80 => b as i64,
            _ => return Err(DErr::Bad),
        })
    }
    pub fn nat0(&mut self) -> DR<u64> {
        Ok(match self.byte()? {
            0xfe => u16::from_le_bytes(self.take(2)?.try_into().unwrap()) as u64,
            0xfd => u32::from_le_bytes(self.take(4)?.try_into().unwrap()) as u64,
            0xfc => u64::from_le_bytes(self.take(8)?.try_into().unwrap()),
            b if b < 0x80 => b as u64,
            _ => return Err(DErr::Bad),
        })
    }
    pub fn bool(&mut self) -> DR<bool> {
        match self.byte()? {
            0 => Ok(false),
            1 => Ok(true),
            _ => Err(DErr::Bad),
        }
    }
}
fn fit(n: i64, lo: i64, hi: i64) -> DR<i64> {
    if n < lo || n > hi { Err(DErr::Bad) } else { Ok(n) }
}
pub fn dec(c: &mut Cur, t: &T) -> DR<M> {
    Ok(match t {
        T::Unit | T::UnitStruct => match c.byte()? {
            0 => M::Unit,
            _ => return Err(DErr::Bad),
        },
        T::Bool => M::Bool(c.bool()?),
        T::U8 => M::U(c.byte()? as u64),
        T::U16 => M::U(fit(c.int()?, 0, u16::MAX as i64)? as u64),
        T::U32 => M::U(fit(c.int()?, 0, u32::MAX as i64)? as u64),
        T::U64 => M::U(c.int()? as u64),
        T::I8 => M::I(fit(c.int()?, i8::MIN as i64, i8::MAX as i64)?),
        T::I16 => M::I(fit(c.int()?, i16::MIN as i64, i16::MAX as i64)?),
        T::I32 => M::I(fit(c.int()?, i32::MIN as i64, i32::MAX as i64)?),
        T::I64 => M::I(c.int()?),
        T::F32 => M::F32(u32::from_le_bytes(c.take(4)?.try_into().unwrap())),
        T::F64 => M::F64(u64::from_le_bytes(c.take(8)?.try_into().unwrap())),
        T::Char => M::Char(c.byte()? as char),
        T::Str => {
            let n = c.nat0()?;
            let b = c.take(usize::try_from(n).map_err(|_| DErr::Eof)?)?;
            M::Str(String::from_utf8(b.to_vec()).map_err(|_| DErr::Bad)?)
        }
        T::Opt(t) => M::Opt(if c.bool()? { Some(Box::new(dec(c, t)?)) } else { None }),
        T::Seq(t) => {
            let n = c.nat0()?;
            let mut v = vec![];
            for _ in 0..n {
                v.push(dec(c, t)?);
            }
            M::List(v)
        }
        T::Map(kv) => {
            let n = c.nat0()?;
            let mut v = vec![];
            for _ in 0..n {
                let k = dec(c, &kv.0)?;
                v.push((k, dec(c, &kv.1)?));
            }
            M::Map(v)
        }
        T::Tuple(ts) | T::TupleStruct(ts) | T::Struct(ts) => {
            let mut v = vec![];
            for t in ts {
                v.push(dec(c, t)?);
            }
            M::List(v)
        }
        T::Newtype(t) => dec(c, t)?,
        T::Enum(vs) => {
            let i = c.byte()? as usize;
            let v = vs.get(i).ok_or(DErr::Bad)?;
            M::Var(i, dec_args(c, v)?)
        }
        T::Poly(s, vs) => {
            let w = u32::from_le_bytes(c.take(4)?.try_into().unwrap());
            c.odd |= w & 1 == 0;
            let tag = w >> 1;
            let i = (0..vs.len()).find(|i| LABELS[s + i].is_ascii() && caml_hash_ref(LABELS[s + i]) == tag).ok_or(DErr::Bad)?;
            M::Var(i, dec_args(c, &vs[i])?)
        }
    })
}
fn dec_args(c: &mut Cur, v: &V) -> DR<Vec<M>> {
    match v {
        V::Unit => Ok(vec![]),
        V::Newtype(t) => Ok(vec![dec(c, t)?]),
        V::Tuple(ts) | V::Struct(ts) => ts.iter().map(|t| dec(c, t)).collect(),
    }
}
/// Shape fingerprint (ignores payload data).
pub fn shape(t: &T) -> u64 {
    mon::fnv(format!("{t:?}").as_bytes())
}
