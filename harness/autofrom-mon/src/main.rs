//! C11: conversions derived with AutoFrom. Oracle: both sides derive serde with
//! transparent leaf newtypes, so a conversion is right exactly when the JSON
//! trees of source and target are equal (fields by name, elements by position)
//! and converting back gives the value that was started from.
use mina_serialization_types_macros::AutoFrom;
use mon::*;
use serde::Serialize;
use std::collections::{BTreeMap, VecDeque};
use std::fmt::Debug;
use versioned::Versioned;

#[global_allocator]
static A: mon::MonAlloc = mon::MonAlloc;

macro_rules! leaf {
    ($n:ident, $t:ty) => {
        #[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Serialize)]
        #[serde(transparent)]
        pub struct $n(pub $t);
        impl From<$t> for $n {
            fn from(x: $t) -> Self {
                $n(x)
            }
        }
        impl From<$n> for $t {
            fn from(x: $n) -> Self {
                x.0
            }
        }
    };
}
leaf!(I64, i64);
leaf!(Str, String);
leaf!(By, Vec<u8>);

trait Gen {
    fn gen(r: &mut Rng) -> Self;
}
impl Gen for i64 {
    fn gen(r: &mut Rng) -> Self {
        if r.chance(1, 4) { r.below(3) as i64 } else { r.next() as i64 }
    }
}
impl Gen for u8 {
    fn gen(r: &mut Rng) -> Self {
        r.next() as u8
    }
}
impl Gen for bool {
    fn gen(r: &mut Rng) -> Self {
        r.bool()
    }
}
impl Gen for String {
    fn gen(r: &mut Rng) -> Self {
        format!("s{:x}", r.next())
    }
}
impl Gen for &'static str {
    fn gen(r: &mut Rng) -> Self {
        r.pick(&["", "a", "bb", "ccc"])
    }
}
impl<T: Gen> Gen for Vec<T> {
    fn gen(r: &mut Rng) -> Self {
        let n = if r.chance(1, 20) { 300 } else { r.below(6) };
        (0..n).map(|_| T::gen(r)).collect()
    }
}
impl<T: Gen> Gen for VecDeque<T> {
    fn gen(r: &mut Rng) -> Self {
        Vec::gen(r).into()
    }
}
impl<T: Gen + Ord> Gen for BTreeMap<String, T> {
    fn gen(r: &mut Rng) -> Self {
        (0..r.below(4)).map(|_| (String::gen(r), T::gen(r))).collect()
    }
}
impl<T: Gen> Gen for Option<T> {
    fn gen(r: &mut Rng) -> Self {
        r.bool().then(|| T::gen(r))
    }
}
impl<T: Gen> Gen for Box<T> {
    fn gen(r: &mut Rng) -> Self {
        Box::new(T::gen(r))
    }
}
impl<T: Gen, U: Gen> Gen for (T, U) {
    fn gen(r: &mut Rng) -> Self {
        (T::gen(r), U::gen(r))
    }
}
impl<T: Gen, const N: usize> Gen for [T; N] {
    fn gen(r: &mut Rng) -> Self {
        std::array::from_fn(|_| T::gen(r))
    }
}
macro_rules! gen_struct {
    ($n:ident { $($f:ident),* }) => { impl Gen for $n { fn gen(r: &mut Rng) -> Self { $n { $($f: Gen::gen(r)),* } } } };
}
macro_rules! g {
    ($r:ident) => {
        Gen::gen($r)
    };
}

// ------------------------------------------------ structs with named fields
#[derive(Debug, Clone, PartialEq, Serialize, AutoFrom)]
#[auto_from(Target)]
#[auto_from(other::Target)]
pub struct Named {
    pub a: i64,
    pub b: i64,
    pub list: Vec<i64>,
    pub c: i64,
    pub maybe: Option<i64>,
    pub boxed: Box<i64>,
    pub list2: Vec<i64>,
    pub maybe2: Option<i64>,
    pub boxed2: Box<i64>,
    pub text: String,
    pub bytes: Vec<u8>,
}
gen_struct!(Named { a, b, list, c, maybe, boxed, list2, maybe2, boxed2, text, bytes });
#[derive(Debug, Clone, PartialEq, Serialize)]
pub struct Target {
    pub bytes: Vec<u8>,
    pub text: Str,
    pub boxed2: Box<I64>,
    pub maybe2: Option<I64>,
    pub list2: Vec<I64>,
    pub boxed: Box<I64>,
    pub maybe: Option<I64>,
    pub c: I64,
    pub list: Vec<I64>,
    pub b: I64,
    pub a: I64,
}
pub mod other {
    use super::*;
    #[derive(Debug, Clone, PartialEq, Serialize)]
    pub struct Target {
        pub b: I64,
        pub a: I64,
        pub c: I64,
        pub text: Str,
        pub list2: Vec<I64>,
        pub list: Vec<I64>,
        pub maybe2: Option<I64>,
        pub maybe: Option<I64>,
        pub boxed2: Box<I64>,
        pub boxed: Box<I64>,
        pub bytes: Vec<u8>,
    }
}
// one field of each kind alone: the generated lists of the other kinds are empty
macro_rules! single {
    ($n:ident, $t:ident, $f:ident, [$($a:tt)*], [$($b:tt)*]) => {
        #[derive(Debug, Clone, PartialEq, Serialize, AutoFrom)]
        #[auto_from($t)]
        pub struct $n {
            $f: $($a)*,
        }
        #[derive(Debug, Clone, PartialEq, Serialize)]
        pub struct $t {
            $f: $($b)*,
        }
        gen_struct!($n { $f });
    };
}
single!(OnlyPlain, OnlyPlainT, item, [i64], [I64]);
single!(OnlyVec, OnlyVecT, x, [Vec<i64>], [Vec<I64>]);
single!(OnlyOpt, OnlyOptT, x, [Option<i64>], [Option<I64>]);
single!(OnlyBox, OnlyBoxT, r#type, [Box<i64>], [Box<I64>]);

// nesting: fields that are themselves converted
#[derive(Debug, Clone, PartialEq, Serialize, AutoFrom)]
#[auto_from(OuterT)]
pub struct Outer {
    one: Named,
    many: Vec<Named>,
    maybe: Option<Choice>,
    boxed: Box<Choice>,
    pair: Tup,
    choices: Vec<Choice>,
}
gen_struct!(Outer { one, many, maybe, boxed, pair, choices });
#[derive(Debug, Clone, PartialEq, Serialize)]
pub struct OuterT {
    one: Target,
    many: Vec<Target>,
    maybe: Option<ChoiceT>,
    boxed: Box<ChoiceT>,
    pair: TupT,
    choices: Vec<ChoiceT>,
}
// versioned fields: a plain field becomes a versioned one of up to four levels
type Lev1<T> = Versioned<T, 1>;
type Lev2<T> = Versioned<Lev1<T>, 2>;
type Lev3<T> = Versioned<Lev2<T>, 3>;
type Lev4<T> = Versioned<Lev3<T>, 4>;
#[derive(Debug, Clone, PartialEq, Serialize, AutoFrom)]
#[auto_from(LevelsT)]
pub struct Levels {
    a: Named,
    b: Choice,
    c: Tup,
    d: Vec<Choice>,
    e: Option<Tup>,
    f: Box<Named>,
}
gen_struct!(Levels { a, b, c, d, e, f });
#[derive(Debug, Clone, PartialEq)]
pub struct LevelsT {
    a: Lev1<Target>,
    b: Lev2<ChoiceT>,
    c: Lev3<TupT>,
    d: Vec<Lev4<ChoiceT>>,
    e: Option<Lev2<TupT>>,
    f: Box<Lev4<Target>>,
}
impl Serialize for LevelsT {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        use serde::ser::SerializeStruct;
        // the versions must be the declared ones; then they are left out
        let d_ok = self.d.iter().all(|x| (x.version, x.t.version, x.t.t.version, x.t.t.t.version) == (4, 3, 2, 1));
        let ok = self.a.version == 1
            && (self.b.version, self.b.t.version) == (2, 1)
            && (self.c.version, self.c.t.version, self.c.t.t.version) == (3, 2, 1)
            && d_ok
            && self.e.as_ref().map_or(true, |x| (x.version, x.t.version) == (2, 1))
            && (self.f.version, self.f.t.version, self.f.t.t.version, self.f.t.t.t.version) == (4, 3, 2, 1);
        if !ok {
            return Err(serde::ser::Error::custom(format!("a version is not the declared one in {self:?}")));
        }
        let mut m = s.serialize_struct("L", 6)?;
        m.serialize_field("a", &self.a.t)?;
        m.serialize_field("b", &self.b.t.t)?;
        m.serialize_field("c", &self.c.t.t.t)?;
        m.serialize_field("d", &self.d.iter().map(|x| &x.t.t.t.t).collect::<Vec<_>>())?;
        m.serialize_field("e", &self.e.as_ref().map(|x| &x.t.t))?;
        m.serialize_field("f", &self.f.t.t.t.t)?;
        m.end()
    }
}
// types whose spelling is unusual: qualified paths, names that only look like
// containers, types that are not paths, containers in containers
#[derive(Debug, Clone, PartialEq, Serialize, AutoFrom)]
#[auto_from(SpelledT)]
pub struct Spelled {
    a: std::vec::Vec<i64>,
    b: ::std::option::Option<i64>,
    c: std::boxed::Box<i64>,
    d: VecDeque<i64>,
    e: [i64; 3],
    f: (i64, i64),
    g: &'static str,
    h: Option<Vec<i64>>,
    i: Vec<Option<i64>>,
    j: Box<Vec<i64>>,
    k: Vec<Vec<i64>>,
    l: BTreeMap<String, i64>,
    m: Vec<By2>,
    n: BoxLike,
    o: Option<Box<i64>>,
    p: bool,
}
gen_struct!(Spelled { a, b, c, d, e, f, g, h, i, j, k, l, m, n, o, p });
#[derive(Debug, Clone, PartialEq, Serialize)]
pub struct SpelledT {
    p: bool,
    o: Option<Box<i64>>,
    n: BoxLikeT,
    m: Vec<By>,
    l: BTreeMap<String, i64>,
    k: Vec<Vec<i64>>,
    j: Box<Vec<i64>>,
    i: Vec<Option<i64>>,
    h: Option<Vec<i64>>,
    g: &'static str,
    f: (i64, i64),
    e: [i64; 3],
    d: VecDeque<i64>,
    c: std::boxed::Box<I64>,
    b: std::option::Option<I64>,
    a: std::vec::Vec<I64>,
}
type By2 = Vec<u8>;
#[derive(Debug, Clone, PartialEq, Serialize)]
#[serde(transparent)]
pub struct BoxLike(i64);
#[derive(Debug, Clone, PartialEq, Serialize)]
#[serde(transparent)]
pub struct BoxLikeT(i64);
impl Gen for BoxLike {
    fn gen(r: &mut Rng) -> Self {
        BoxLike(g!(r))
    }
}
impl From<BoxLike> for BoxLikeT {
    fn from(x: BoxLike) -> Self {
        BoxLikeT(x.0)
    }
}
impl From<BoxLikeT> for BoxLike {
    fn from(x: BoxLikeT) -> Self {
        BoxLike(x.0)
    }
}

// ------------------------------------------------------------ tuple structs
#[derive(Debug, Clone, PartialEq, Serialize, AutoFrom)]
#[auto_from(TupT)]
pub struct Tup(i64, i64, Vec<i64>, i64, Option<i64>, i64, Box<i64>, Vec<i64>, Option<i64>, Box<i64>, i64, String, i64);
#[derive(Debug, Clone, PartialEq, Serialize)]
pub struct TupT(I64, I64, Vec<I64>, I64, Option<I64>, I64, Box<I64>, Vec<I64>, Option<I64>, Box<I64>, I64, Str, I64);
impl Gen for Tup {
    fn gen(r: &mut Rng) -> Self {
        Tup(g!(r), g!(r), g!(r), g!(r), g!(r), g!(r), g!(r), g!(r), g!(r), g!(r), g!(r), g!(r), g!(r))
    }
}
#[derive(Debug, Clone, PartialEq, Serialize, AutoFrom)]
#[auto_from(ManyT)]
#[auto_from(ManyT2)]
pub struct Many(i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64);
#[derive(Debug, Clone, PartialEq, Serialize)]
pub struct ManyT(I64, I64, I64, I64, I64, I64, I64, I64, I64, I64, I64, I64);
#[derive(Debug, Clone, PartialEq, Serialize)]
pub struct ManyT2(I64, i64, I64, i64, I64, i64, I64, i64, I64, i64, I64, i64);
impl Gen for Many {
    fn gen(r: &mut Rng) -> Self {
        Many(g!(r), g!(r), g!(r), g!(r), g!(r), g!(r), g!(r), g!(r), g!(r), g!(r), g!(r), g!(r))
    }
}
#[derive(Debug, Clone, PartialEq, Serialize, AutoFrom)]
#[auto_from(OneT)]
pub struct One(Vec<Tup>);
#[derive(Debug, Clone, PartialEq, Serialize)]
pub struct OneT(Vec<TupT>);
impl Gen for One {
    fn gen(r: &mut Rng) -> Self {
        One((0..r.below(3)).map(|_| g!(r)).collect())
    }
}
#[derive(Debug, Clone, PartialEq, Serialize, AutoFrom)]
#[auto_from(SpelledTupT)]
pub struct SpelledTup(std::option::Option<i64>, [i64; 2], (i64, i64), Option<Vec<i64>>, ::std::vec::Vec<i64>, VecDeque<i64>, std::boxed::Box<i64>);
#[derive(Debug, Clone, PartialEq, Serialize)]
pub struct SpelledTupT(Option<I64>, [i64; 2], (i64, i64), Option<Vec<i64>>, Vec<I64>, VecDeque<i64>, Box<I64>);
impl Gen for SpelledTup {
    fn gen(r: &mut Rng) -> Self {
        SpelledTup(g!(r), g!(r), g!(r), g!(r), g!(r), g!(r), g!(r))
    }
}

// -------------------------------------------------------------------- enums
#[derive(Debug, Clone, PartialEq, Serialize, AutoFrom)]
#[auto_from(ChoiceT)]
#[auto_from(other_choice::Renamed)]
pub enum Choice {
    U0,
    U1,
    N1(i64),
    T2(i64, i64),
    T5(Vec<i64>, i64, Option<i64>, i64, Box<i64>),
    T11(i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64),
    S1 { v0: i64 },
    S2 { b: i64, a: i64 },
    S5 { item: i64, list: Vec<i64>, x: i64, maybe: Option<i64>, boxed: Box<i64> },
    S4 { list: Vec<i64>, list2: Vec<i64>, m: Option<i64>, m2: Option<i64> },
    Q(std::vec::Vec<i64>, std::option::Option<i64>, std::boxed::Box<i64>),
    QS { a: std::vec::Vec<i64>, b: ::std::option::Option<i64>, c: ::std::boxed::Box<i64> },
    Id([i64; 2], (i64, i64), Option<Vec<i64>>, VecDeque<i64>),
    IdS { a: [i64; 2], b: (i64, i64), c: Option<Vec<i64>>, d: VecDeque<i64> },
    O(Option<i64>),
    L(Vec<i64>),
    B(Box<i64>),
    U2,
}
macro_rules! choice_target {
    ($n:ident) => {
        // the variants and named fields are declared in another order
        #[derive(Debug, Clone, PartialEq, Serialize)]
        pub enum $n {
            U2,
            B(Box<I64>),
            L(Vec<I64>),
            O(Option<I64>),
            IdS { d: VecDeque<i64>, c: Option<Vec<i64>>, b: (i64, i64), a: [i64; 2] },
            Id([i64; 2], (i64, i64), Option<Vec<i64>>, VecDeque<i64>),
            QS { c: Box<I64>, b: Option<I64>, a: Vec<I64> },
            Q(Vec<I64>, Option<I64>, Box<I64>),
            S4 { m2: Option<I64>, m: Option<I64>, list2: Vec<I64>, list: Vec<I64> },
            S5 { boxed: Box<I64>, maybe: Option<I64>, x: I64, list: Vec<I64>, item: I64 },
            S2 { a: I64, b: I64 },
            S1 { v0: I64 },
            T11(I64, I64, I64, I64, I64, I64, I64, I64, I64, I64, I64),
            T5(Vec<I64>, I64, Option<I64>, I64, Box<I64>),
            T2(I64, I64),
            N1(I64),
            U1,
            U0,
        }
    };
}
choice_target!(ChoiceT);
pub mod other_choice {
    use super::*;
    choice_target!(Renamed);
}
impl Gen for Choice {
    fn gen(r: &mut Rng) -> Self {
        use Choice::*;
        match r.below(18) {
            0 => U0,
            1 => U1,
            2 => N1(g!(r)),
            3 => T2(g!(r), g!(r)),
            4 => T5(g!(r), g!(r), g!(r), g!(r), g!(r)),
            5 => T11(g!(r), g!(r), g!(r), g!(r), g!(r), g!(r), g!(r), g!(r), g!(r), g!(r), g!(r)),
            6 => S1 { v0: g!(r) },
            7 => S2 { a: g!(r), b: g!(r) },
            8 => S5 { item: g!(r), list: g!(r), x: g!(r), maybe: g!(r), boxed: g!(r) },
            9 => S4 { list: g!(r), list2: g!(r), m: g!(r), m2: g!(r) },
            10 => Q(g!(r), g!(r), g!(r)),
            11 => QS { a: g!(r), b: g!(r), c: g!(r) },
            12 => Id(g!(r), g!(r), g!(r), g!(r)),
            13 => IdS { a: g!(r), b: g!(r), c: g!(r), d: g!(r) },
            14 => O(g!(r)),
            15 => L(g!(r)),
            16 => B(g!(r)),
            _ => U2,
        }
    }
}

// the smallest shapes: one variant, one unnamed field
macro_rules! tiny {
    ($n:ident, $t:ident, [$($a:tt)*], [$($b:tt)*], $r:ident, $gen:expr) => {
        #[derive(Debug, Clone, PartialEq, Serialize, AutoFrom)]
        #[auto_from($t)]
        pub $($a)*
        #[derive(Debug, Clone, PartialEq, Serialize)]
        pub $($b)*
        impl Gen for $n {
            #[allow(unused_variables)]
            fn gen($r: &mut Rng) -> Self { $gen }
        }
    };
}
tiny!(EUnit, EUnitT, [enum EUnit { Only }], [enum EUnitT { Only }], r, EUnit::Only);
tiny!(EOne, EOneT, [enum EOne { Only(i64) }], [enum EOneT { Only(I64) }], r, EOne::Only(g!(r)));
tiny!(ERec, ERecT, [enum ERec { Only { a: i64, b: Vec<i64> } }], [enum ERecT { Only { b: Vec<I64>, a: I64 } }], r, ERec::Only { a: g!(r), b: g!(r) });
tiny!(ETwo, ETwoT, [enum ETwo { A(Option<i64>), B }], [enum ETwoT { B, A(Option<I64>) }], r, if r.bool() { ETwo::B } else { ETwo::A(g!(r)) });
tiny!(TPlain, TPlainT, [struct TPlain(i64);], [struct TPlainT(I64);], r, TPlain(g!(r)));
tiny!(TVec, TVecT, [struct TVec(Vec<i64>);], [struct TVecT(Vec<I64>);], r, TVec(g!(r)));
tiny!(TOpt, TOptT, [struct TOpt(Option<i64>);], [struct TOptT(Option<I64>);], r, TOpt(g!(r)));
tiny!(TBox, TBoxT, [struct TBox(Box<i64>);], [struct TBoxT(Box<I64>);], r, TBox(g!(r)));
// two fields of one container kind only, and three targets among other attributes
/// A documented type.
#[auto_from(deep::er::Tri)]
#[derive(Debug, Clone, PartialEq, Serialize, AutoFrom)]
#[serde(rename_all = "snake_case")]
#[auto_from(crate::TriG<i64>)]
#[allow(dead_code)]
#[auto_from(TriC)]
pub struct TriS {
    /// documented
    pub first: Option<i64>,
    #[serde(default)]
    pub(crate) second: Option<i64>,
    third: Option<i64>,
}
gen_struct!(TriS { first, second, third });
pub mod deep {
    pub mod er {
        #[derive(Debug, Clone, PartialEq, serde::Serialize)]
        pub struct Tri {
            pub third: Option<crate::I64>,
            pub second: Option<crate::I64>,
            pub first: Option<crate::I64>,
        }
    }
}
#[derive(Debug, Clone, PartialEq, Serialize)]
pub struct TriG<T> {
    second: Option<T>,
    first: Option<T>,
    third: Option<T>,
}
#[derive(Debug, Clone, PartialEq, Serialize)]
pub struct TriC {
    first: Option<I64>,
    third: Option<i64>,
    second: Option<I64>,
}

// ------------------------------------------------------------------ oracle
fn tree<T: Serialize + Debug>(sh: &Shard, x: &T) -> serde_json::Value {
    match serde_json::to_value(x) {
        Ok(v) => v,
        Err(e) => sh.violation(&format!("{e}")),
    }
}
fn check<F, T, const P: u16, const Q: u16, const R: u16, const S: u16>(sh: &mut Shard, what: &'static str)
where
    F: Gen + Clone + PartialEq + Debug + Serialize + Into<T> + From<T>,
    T: Clone + PartialEq + Debug + Serialize,
    F: Into<Versioned<T, P>> + From<Versioned<T, P>>,
    F: Into<Versioned<Versioned<T, P>, Q>> + From<Versioned<Versioned<T, P>, Q>>,
    F: Into<Versioned<Versioned<Versioned<T, P>, Q>, R>> + From<Versioned<Versioned<Versioned<T, P>, Q>, R>>,
    F: Into<Versioned<Versioned<Versioned<Versioned<T, P>, Q>, R>, S>> + From<Versioned<Versioned<Versioned<Versioned<T, P>, Q>, R>, S>>,
{
    let foo = F::gen(&mut sh.rng);
    sh.case(|| format!("{what}: {foo:?}"));
    let want = tree(sh, &foo);
    let same = |sh: &Shard, t: &T, how: &str| {
        let got = tree(sh, t);
        if got != want {
            sh.violation(&format!("{how}: {want} became {got}"));
        }
    };
    let back = |sh: &Shard, f: F, how: &str| {
        if f != foo {
            sh.violation(&format!("{how} and back: {foo:?} became {f:?}"));
        }
    };
    let t: T = foo.clone().into();
    same(sh, &t, "to the target");
    back(sh, F::from(t.clone()), "to the target");
    // the other direction starts from the target
    let t2: T = F::from(t.clone()).into();
    if t2 != t {
        sh.violation(&format!("target {t:?} came back as {t2:?}"));
    }
    let v1: Versioned<T, P> = foo.clone().into();
    let v2: Versioned<Versioned<T, P>, Q> = foo.clone().into();
    let v3: Versioned<Versioned<Versioned<T, P>, Q>, R> = foo.clone().into();
    let v4: Versioned<Versioned<Versioned<Versioned<T, P>, Q>, R>, S> = foo.clone().into();
    let vs = [
        vec![v1.version],
        vec![v2.version, v2.t.version],
        vec![v3.version, v3.t.version, v3.t.t.version],
        vec![v4.version, v4.t.version, v4.t.t.version, v4.t.t.t.version],
    ];
    if vs != [vec![P], vec![Q, P], vec![R, Q, P], vec![S, R, Q, P]] {
        sh.violation(&format!("versions (outermost first) {vs:?} are not the declared ones"));
    }
    same(sh, &v1.t, "to one version level");
    same(sh, &v2.t.t, "to two version levels");
    same(sh, &v3.t.t.t, "to three version levels");
    same(sh, &v4.t.t.t.t, "to four version levels");
    back(sh, F::from(v1), "to one version level");
    back(sh, F::from(v2), "to two version levels");
    back(sh, F::from(v3), "to three version levels");
    back(sh, F::from(v4), "to four version levels");
    // a version set by other software does not change the value
    let mut odd: Versioned<Versioned<T, P>, Q> = foo.clone().into();
    odd.version = sh.rng.next() as u16;
    odd.t.version = sh.rng.next() as u16;
    back(sh, F::from(odd), "with foreign versions");
    sh.count(what);
    sh.count("conversions");
    sh.observed(fnv(want.to_string().as_bytes()) ^ fnv(what.as_bytes()), true);
    let w = &want;
    sh.sample(|| serde_json::json!({"type": what, "value": w.to_string().chars().take(300).collect::<String>()}));
}
const KINDS: &[&str] = &[
    "named", "named_second_target", "only_plain", "only_vec", "only_option", "only_box", "nested", "versioned_fields", "spelled", "tuple", "many_tuple",
    "many_tuple_second_target", "one_tuple", "spelled_tuple", "enum", "enum_second_target",
    "enum_unit", "enum_one", "enum_record", "enum_two", "tuple_plain", "tuple_vec", "tuple_option", "tuple_box", "three_targets_1", "three_targets_2", "three_targets_3",
];
fn main() {
    let r = start(
        "C11",
        "exploration",
        "a generated value of a deriving type converted to each of its targets (plain and one to four version levels) and back, source and target compared field by field",
        &["the deriving types are the ones in autofrom-mon; they cover every field and variant shape that the macro distinguishes"],
    );
    for k in KINDS {
        r.require(k, 1000);
    }
    r.par(threads(), |sh| {
        let n = if sh.thorough() { 60_000 } else { 1_500 };
        for _ in 0..n {
            check::<Named, Target, 0, 1, 2, 3>(sh, "named");
            check::<Named, other::Target, 3, 2, 1, 0>(sh, "named_second_target");
            check::<OnlyPlain, OnlyPlainT, 1, 1, 1, 1>(sh, "only_plain");
            check::<OnlyVec, OnlyVecT, 1, 2, 3, 4>(sh, "only_vec");
            check::<OnlyOpt, OnlyOptT, 1, 2, 3, 4>(sh, "only_option");
            check::<OnlyBox, OnlyBoxT, 1, 2, 3, 4>(sh, "only_box");
            check::<Outer, OuterT, 7, 65535, 1, 2>(sh, "nested");
            check::<Levels, LevelsT, 7, 9, 1, 2>(sh, "versioned_fields");
            check::<Spelled, SpelledT, 7, 9, 1, 2>(sh, "spelled");
            check::<Tup, TupT, 127, 128, 255, 256>(sh, "tuple");
            check::<Many, ManyT, 1, 2, 3, 4>(sh, "many_tuple");
            check::<Many, ManyT2, 4, 3, 2, 1>(sh, "many_tuple_second_target");
            check::<One, OneT, 1, 2, 3, 4>(sh, "one_tuple");
            check::<SpelledTup, SpelledTupT, 1, 2, 3, 4>(sh, "spelled_tuple");
            check::<EUnit, EUnitT, 1, 2, 3, 4>(sh, "enum_unit");
            check::<EOne, EOneT, 1, 2, 3, 4>(sh, "enum_one");
            check::<ERec, ERecT, 1, 2, 3, 4>(sh, "enum_record");
            check::<ETwo, ETwoT, 1, 2, 3, 4>(sh, "enum_two");
            check::<TPlain, TPlainT, 1, 2, 3, 4>(sh, "tuple_plain");
            check::<TVec, TVecT, 1, 2, 3, 4>(sh, "tuple_vec");
            check::<TOpt, TOptT, 1, 2, 3, 4>(sh, "tuple_option");
            check::<TBox, TBoxT, 1, 2, 3, 4>(sh, "tuple_box");
            check::<TriS, deep::er::Tri, 1, 2, 3, 4>(sh, "three_targets_1");
            check::<TriS, TriG<i64>, 1, 2, 3, 4>(sh, "three_targets_2");
            check::<TriS, TriC, 1, 2, 3, 4>(sh, "three_targets_3");
            for _ in 0..6 {
                check::<Choice, ChoiceT, 1, 2, 3, 4>(sh, "enum");
                check::<Choice, other_choice::Renamed, 4, 3, 2, 1>(sh, "enum_second_target");
            }
        }
    });
    r.finish();
}
