//! Bridges the reference model to serde, so that arbitrary generated types
//! drive exactly the same serializer/deserializer entry points as derived code.
use crate::model::*;
use serde::de::{self, DeserializeSeed, Deserializer, EnumAccess, MapAccess, SeqAccess, VariantAccess, Visitor};
use serde::ser::*;
use std::fmt;

pub struct Dyn<'a>(pub &'a T, pub &'a M);

impl<'a> Serialize for Dyn<'a> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match (self.0, self.1) {
            (T::Unit, _) => s.serialize_unit(),
            (T::UnitStruct, _) => s.serialize_unit_struct("US"),
            (T::Bool, M::Bool(b)) => s.serialize_bool(*b),
            (T::U8, M::U(u)) => s.serialize_u8(*u as u8),
            (T::U16, M::U(u)) => s.serialize_u16(*u as u16),
            (T::U32, M::U(u)) => s.serialize_u32(*u as u32),
            (T::U64, M::U(u)) => s.serialize_u64(*u),
            (T::I8, M::I(u)) => s.serialize_i8(*u as i8),
            (T::I16, M::I(u)) => s.serialize_i16(*u as i16),
            (T::I32, M::I(u)) => s.serialize_i32(*u as i32),
            (T::I64, M::I(u)) => s.serialize_i64(*u),
            (T::F32, M::F32(b)) => s.serialize_f32(f32::from_bits(*b)),
            (T::F64, M::F64(b)) => s.serialize_f64(f64::from_bits(*b)),
            (T::Char, M::Char(c)) => s.serialize_char(*c),
            (T::Str, M::Str(x)) => s.serialize_str(x),
            (T::Opt(_), M::Opt(None)) => s.serialize_none(),
            (T::Opt(t), M::Opt(Some(m))) => s.serialize_some(&Dyn(t, m)),
            (T::Seq(t), M::List(v)) => {
                let mut q = s.serialize_seq(Some(v.len()))?;
                for m in v {
                    q.serialize_element(&Dyn(t, m))?;
                }
                q.end()
            }
            (T::Map(kv), M::Map(v)) => {
                let mut q = s.serialize_map(Some(v.len()))?;
                for (i, (k, m)) in v.iter().enumerate() {
                    // both ways a map can be handed over
                    if i % 2 == 0 {
                        q.serialize_entry(&Dyn(&kv.0, k), &Dyn(&kv.1, m))?;
                    } else {
                        q.serialize_key(&Dyn(&kv.0, k))?;
                        q.serialize_value(&Dyn(&kv.1, m))?;
                    }
                }
                q.end()
            }
            (T::Tuple(ts), M::List(v)) => {
                let mut q = s.serialize_tuple(v.len())?;
                for (t, m) in ts.iter().zip(v) {
                    q.serialize_element(&Dyn(t, m))?;
                }
                q.end()
            }
            (T::TupleStruct(ts), M::List(v)) => {
                let mut q = s.serialize_tuple_struct("TS", v.len())?;
                for (t, m) in ts.iter().zip(v) {
                    q.serialize_field(&Dyn(t, m))?;
                }
                q.end()
            }
            (T::Struct(ts), M::List(v)) => {
                let mut q = s.serialize_struct("ST", v.len())?;
                for (i, (t, m)) in ts.iter().zip(v).enumerate() {
                    q.serialize_field(field_names(i + 1)[i], &Dyn(t, m))?;
                }
                q.end()
            }
            (T::Newtype(t), m) => s.serialize_newtype_struct("NT", &Dyn(t, m)),
            (T::Enum(vs), M::Var(i, a)) => ser_var(s, "EN", *i, var_names(i + 1)[*i], &vs[*i], a),
            (T::Poly(st, vs), M::Var(i, a)) => ser_var(s, "Polyvar", *i, LABELS[st + i], &vs[*i], a),
            _ => Err(S::Error::custom("model mismatch")),
        }
    }
}
fn ser_var<S: Serializer>(s: S, name: &'static str, i: usize, label: &'static str, v: &V, a: &[M]) -> Result<S::Ok, S::Error> {
    match v {
        V::Unit => s.serialize_unit_variant(name, i as u32, label),
        V::Newtype(t) => s.serialize_newtype_variant(name, i as u32, label, &Dyn(t, &a[0])),
        V::Tuple(ts) => {
            let mut q = s.serialize_tuple_variant(name, i as u32, label, ts.len())?;
            for (t, m) in ts.iter().zip(a) {
                q.serialize_field(&Dyn(t, m))?;
            }
            q.end()
        }
        V::Struct(ts) => {
            let mut q = s.serialize_struct_variant(name, i as u32, label, ts.len())?;
            for (k, (t, m)) in ts.iter().zip(a).enumerate() {
                q.serialize_field(field_names(k + 1)[k], &Dyn(t, m))?;
            }
            q.end()
        }
    }
}

#[derive(Clone, Copy)]
pub struct Seed<'a>(pub &'a T);
impl<'a, 'de> DeserializeSeed<'de> for Seed<'a> {
    type Value = M;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<M, D::Error> {
        match self.0 {
            T::Unit => d.deserialize_unit(Vis(self.0)),
            T::UnitStruct => d.deserialize_unit_struct("US", Vis(self.0)),
            T::Bool => d.deserialize_bool(Vis(self.0)),
            T::U8 => d.deserialize_u8(Vis(self.0)),
            T::U16 => d.deserialize_u16(Vis(self.0)),
            T::U32 => d.deserialize_u32(Vis(self.0)),
            T::U64 => d.deserialize_u64(Vis(self.0)),
            T::I8 => d.deserialize_i8(Vis(self.0)),
            T::I16 => d.deserialize_i16(Vis(self.0)),
            T::I32 => d.deserialize_i32(Vis(self.0)),
            T::I64 => d.deserialize_i64(Vis(self.0)),
            T::F32 => d.deserialize_f32(Vis(self.0)),
            T::F64 => d.deserialize_f64(Vis(self.0)),
            T::Char => d.deserialize_char(Vis(self.0)),
            T::Str => d.deserialize_string(Vis(self.0)),
            T::Opt(_) => d.deserialize_option(Vis(self.0)),
            T::Seq(_) => d.deserialize_seq(Vis(self.0)),
            T::Map(_) => d.deserialize_map(Vis(self.0)),
            T::Tuple(ts) => d.deserialize_tuple(ts.len(), Vis(self.0)),
            T::TupleStruct(ts) => d.deserialize_tuple_struct("TS", ts.len(), Vis(self.0)),
            T::Struct(ts) => d.deserialize_struct("ST", field_names(ts.len()), Vis(self.0)),
            T::Newtype(_) => d.deserialize_newtype_struct("NT", Vis(self.0)),
            T::Enum(vs) => d.deserialize_enum("EN", var_names(vs.len()), Vis(self.0)),
            T::Poly(s, vs) => d.deserialize_enum("Polyvar", poly_labels(*s, vs.len()), Vis(self.0)),
        }
    }
}
struct Vis<'a>(&'a T);
macro_rules! num {
    ($f:ident,$t:ty,$v:ident,$as:ty) => {
        fn $f<E: de::Error>(self, x: $t) -> Result<M, E> {
            Ok(M::$v(x as $as))
        }
    };
}
impl<'a, 'de> Visitor<'de> for Vis<'a> {
    type Value = M;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "a model value")
    }
    fn visit_bool<E: de::Error>(self, b: bool) -> Result<M, E> {
        Ok(M::Bool(b))
    }
    num!(visit_u8, u8, U, u64);
    num!(visit_u16, u16, U, u64);
    num!(visit_u32, u32, U, u64);
    num!(visit_u64, u64, U, u64);
    num!(visit_i8, i8, I, i64);
    num!(visit_i16, i16, I, i64);
    num!(visit_i32, i32, I, i64);
    num!(visit_i64, i64, I, i64);
    fn visit_f32<E: de::Error>(self, x: f32) -> Result<M, E> {
        Ok(M::F32(x.to_bits()))
    }
    fn visit_f64<E: de::Error>(self, x: f64) -> Result<M, E> {
        Ok(M::F64(x.to_bits()))
    }
    fn visit_char<E: de::Error>(self, c: char) -> Result<M, E> {
        Ok(M::Char(c))
    }
    fn visit_str<E: de::Error>(self, c: &str) -> Result<M, E> {
        Ok(M::Str(c.to_string()))
    }
    fn visit_unit<E: de::Error>(self) -> Result<M, E> {
        Ok(M::Unit)
    }
    fn visit_none<E: de::Error>(self) -> Result<M, E> {
        Ok(M::Opt(None))
    }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<M, D::Error> {
        match self.0 {
            T::Opt(t) => Ok(M::Opt(Some(Box::new(Seed(t).deserialize(d)?)))),
            _ => Err(de::Error::custom("unexpected some")),
        }
    }
    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<M, D::Error> {
        match self.0 {
            T::Newtype(t) => Seed(t).deserialize(d),
            _ => Err(de::Error::custom("unexpected newtype")),
        }
    }
    fn visit_seq<A: SeqAccess<'de>>(self, a: A) -> Result<M, A::Error> {
        match self.0 {
            T::Seq(t) => {
                let mut a = a;
                let mut v = vec![];
                while let Some(m) = a.next_element_seed(Seed(t))? {
                    v.push(m);
                }
                Ok(M::List(v))
            }
            T::Tuple(ts) | T::TupleStruct(ts) | T::Struct(ts) => Ok(M::List(seq_fields(ts, a)?)),
            _ => Err(de::Error::custom("unexpected seq")),
        }
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<M, A::Error> {
        match self.0 {
            T::Map(kv) => {
                let mut v = vec![];
                while let Some(k) = a.next_key_seed(Seed(&kv.0))? {
                    v.push((k, a.next_value_seed(Seed(&kv.1))?));
                }
                Ok(M::Map(v))
            }
            _ => Err(de::Error::custom("unexpected map")),
        }
    }
    fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<M, A::Error> {
        let vs = match self.0 {
            T::Enum(vs) => vs,
            T::Poly(_, vs) => vs,
            _ => return Err(de::Error::custom("unexpected enum")),
        };
        let (i, va) = a.variant_seed(Ident(vs.len()))?;
        let args = match &vs[i] {
            V::Unit => {
                va.unit_variant()?;
                vec![]
            }
            V::Newtype(t) => vec![va.newtype_variant_seed(Seed(t))?],
            V::Tuple(ts) => va.tuple_variant(ts.len(), Fields(ts))?,
            V::Struct(ts) => va.struct_variant(field_names(ts.len()), Fields(ts))?,
        };
        Ok(M::Var(i, args))
    }
}
fn seq_fields<'de, A: SeqAccess<'de>>(ts: &[T], mut a: A) -> Result<Vec<M>, A::Error> {
    let mut v = vec![];
    for (i, t) in ts.iter().enumerate() {
        v.push(a.next_element_seed(Seed(t))?.ok_or_else(|| de::Error::invalid_length(i, &"more fields"))?);
    }
    Ok(v)
}
struct Fields<'a>(&'a [T]);
impl<'a, 'de> Visitor<'de> for Fields<'a> {
    type Value = Vec<M>;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "variant fields")
    }
    fn visit_seq<A: SeqAccess<'de>>(self, a: A) -> Result<Vec<M>, A::Error> {
        seq_fields(self.0, a)
    }
}
struct Ident(usize);
impl<'de> DeserializeSeed<'de> for Ident {
    type Value = usize;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<usize, D::Error> {
        d.deserialize_identifier(self)
    }
}
impl<'de> Visitor<'de> for Ident {
    type Value = usize;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "variant index")
    }
    fn visit_u64<E: de::Error>(self, x: u64) -> Result<usize, E> {
        if (x as usize) < self.0 {
            Ok(x as usize)
        } else {
            Err(E::invalid_value(de::Unexpected::Unsigned(x), &"a declared variant"))
        }
    }
}
/// Decode a model value of the given type through the public typed entry point.
pub struct Typed;
thread_local! { pub static CUR_T: std::cell::RefCell<T> = const { std::cell::RefCell::new(T::Unit) }; }
/// A `Deserialize` type whose shape is the thread's current model type, so the
/// convenience functions (which need `T: Deserialize`) can be driven as well.
#[derive(Debug, PartialEq, Clone)]
pub struct Any(pub M);
impl<'de> de::Deserialize<'de> for Any {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Any, D::Error> {
        let t = CUR_T.with(|c| c.borrow().clone());
        Ok(Any(Seed(&t).deserialize(d)?))
    }
}
pub fn set_type(t: &T) {
    CUR_T.with(|c| *c.borrow_mut() = t.clone());
}
