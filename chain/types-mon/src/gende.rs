//! A serde deserializer that answers every request with random data, so that
//! any type that implements `Deserialize` can be sampled, its private parts and
//! nested enums included.
use mon::Rng;
use serde::de::{self, DeserializeSeed, Deserializer, EnumAccess, MapAccess, SeqAccess, VariantAccess, Visitor};

pub struct Gen<'a> {
    pub r: &'a mut Rng,
    /// remaining data budget: lists shrink to nothing when it runs out
    pub fuel: i64,
    /// list elements are printable ASCII when they are bytes
    pub ascii: bool,
}
impl<'a> Gen<'a> {
    pub fn new(r: &'a mut Rng, fuel: i64, ascii: bool) -> Self {
        Gen { r, fuel, ascii }
    }
    fn u(&mut self) -> u64 {
        self.fuel -= 1;
        let r = &mut self.r;
        match r.below(6) {
            0 => r.below(3),
            1 => r.next() >> r.below(64),
            2 => (1u64 << r.below(64)).wrapping_add(r.below(3)).wrapping_sub(1),
            3 => r.below(300),
            4 => *r.pick(&[127, 128, 32767, 32768, 65535, 65536, 999_999_999, 1_000_000_000, 1_000_000_001, u64::MAX, u64::MAX - 1, 1 << 63, (1 << 63) - 1]),
            _ => r.next(),
        }
    }
}
pub type E = de::value::Error;
/// 32 bytes below the field modulus, whose top byte is 0x40.
pub fn field(r: &mut Rng) -> [u8; 32] {
    let mut b = [0u8; 32];
    match r.below(8) {
        0 => b[0] = r.below(3) as u8,
        1 => b = [0xff; 32],
        2 => b[r.below(32) as usize] = 1 << r.below(8),
        3 => {
            let v = r.bytes(16);
            b[..16].copy_from_slice(&v)
        }
        _ => b.copy_from_slice(&r.bytes(32)),
    }
    b[31] &= 0x3f;
    b
}
macro_rules! int {
    ($f:ident, $v:ident, $t:ty) => {
        fn $f<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
            let x = self.u();
            v.$v(x as $t)
        }
    };
}
impl<'de, 'a, 'b> Deserializer<'de> for &'b mut Gen<'a> {
    type Error = E;
    fn deserialize_any<V: Visitor<'de>>(self, _: V) -> Result<V::Value, E> {
        Err(de::Error::custom("self-describing data requested"))
    }
    fn deserialize_bool<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        v.visit_bool(self.r.bool())
    }
    int!(deserialize_i8, visit_i8, i8);
    int!(deserialize_i16, visit_i16, i16);
    int!(deserialize_i32, visit_i32, i32);
    int!(deserialize_i64, visit_i64, i64);
    int!(deserialize_u16, visit_u16, u16);
    int!(deserialize_u64, visit_u64, u64);
    fn deserialize_u32<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        // 32-bit unsigned integers at and above 2^31 are a documented gap
        let x = self.u() as u32 & 0x7fff_ffff;
        v.visit_u32(x)
    }
    fn deserialize_u8<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        self.fuel -= 1;
        let b = self.r.next() as u8;
        v.visit_u8(if self.ascii { b & 0x7f } else { b })
    }
    int!(deserialize_f32, visit_f32, f32);
    int!(deserialize_f64, visit_f64, f64);
    fn deserialize_char<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        v.visit_char('c')
    }
    fn deserialize_str<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        v.visit_string("text".into())
    }
    fn deserialize_string<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        v.visit_string("text".into())
    }
    fn deserialize_bytes<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        let n = self.r.range(0, 40);
        v.visit_byte_buf(self.r.bytes(n))
    }
    fn deserialize_byte_buf<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        self.deserialize_bytes(v)
    }
    fn deserialize_option<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        if self.r.chance(1, 2) {
            v.visit_some(self)
        } else {
            v.visit_none()
        }
    }
    fn deserialize_unit<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        v.visit_unit()
    }
    fn deserialize_unit_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, E> {
        v.visit_unit()
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, E> {
        v.visit_newtype_struct(self)
    }
    fn deserialize_seq<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        let n = if self.fuel <= 0 {
            self.r.range(0, 1)
        } else if self.r.chance(1, 40) {
            self.r.range(125, 260)
        } else {
            self.r.range(0, 4)
        };
        v.visit_seq(Seq(self, n))
    }
    fn deserialize_tuple<V: Visitor<'de>>(self, n: usize, v: V) -> Result<V::Value, E> {
        if n == 32 {
            self.fuel -= 32;
            let b = field(self.r);
            return v.visit_seq(de::value::SeqDeserializer::<_, E>::new(b.into_iter()));
        }
        v.visit_seq(Seq(self, n))
    }
    fn deserialize_tuple_struct<V: Visitor<'de>>(self, _: &'static str, n: usize, v: V) -> Result<V::Value, E> {
        self.deserialize_tuple(n, v)
    }
    fn deserialize_map<V: Visitor<'de>>(self, _: V) -> Result<V::Value, E> {
        Err(de::Error::custom("map requested"))
    }
    fn deserialize_struct<V: Visitor<'de>>(self, _: &'static str, f: &'static [&'static str], v: V) -> Result<V::Value, E> {
        v.visit_map(Fields(self, f, 0))
    }
    fn deserialize_enum<V: Visitor<'de>>(self, _: &'static str, vs: &'static [&'static str], v: V) -> Result<V::Value, E> {
        let i = self.r.below(vs.len() as u64) as usize;
        v.visit_enum(Variant(self, i))
    }
    fn deserialize_identifier<V: Visitor<'de>>(self, _: V) -> Result<V::Value, E> {
        Err(de::Error::custom("identifier requested"))
    }
    fn deserialize_ignored_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        v.visit_unit()
    }
    fn is_human_readable(&self) -> bool {
        false
    }
}
struct Seq<'a, 'b>(&'b mut Gen<'a>, usize);
impl<'de, 'a, 'b> SeqAccess<'de> for Seq<'a, 'b> {
    type Error = E;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<Option<T::Value>, E> {
        if self.1 == 0 {
            return Ok(None);
        }
        self.1 -= 1;
        s.deserialize(&mut *self.0).map(Some)
    }
}
struct Fields<'a, 'b>(&'b mut Gen<'a>, &'static [&'static str], usize);
impl<'de, 'a, 'b> MapAccess<'de> for Fields<'a, 'b> {
    type Error = E;
    fn next_key_seed<K: DeserializeSeed<'de>>(&mut self, s: K) -> Result<Option<K::Value>, E> {
        if self.2 == self.1.len() {
            return Ok(None);
        }
        s.deserialize(de::value::StrDeserializer::<E>::new(self.1[self.2])).map(Some)
    }
    fn next_value_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<T::Value, E> {
        let f = self.1[self.2];
        self.2 += 1;
        if f == "version" {
            return s.deserialize(de::value::U64Deserializer::<E>::new(1));
        }
        s.deserialize(&mut *self.0)
    }
}
struct Variant<'a, 'b>(&'b mut Gen<'a>, usize);
impl<'de, 'a, 'b> EnumAccess<'de> for Variant<'a, 'b> {
    type Error = E;
    type Variant = Self;
    fn variant_seed<V: DeserializeSeed<'de>>(self, s: V) -> Result<(V::Value, Self), E> {
        let i = self.1 as u32;
        Ok((s.deserialize(de::value::U32Deserializer::<E>::new(i))?, self))
    }
}
impl<'de, 'a, 'b> VariantAccess<'de> for Variant<'a, 'b> {
    type Error = E;
    fn unit_variant(self) -> Result<(), E> {
        Ok(())
    }
    fn newtype_variant_seed<T: DeserializeSeed<'de>>(self, s: T) -> Result<T::Value, E> {
        s.deserialize(self.0)
    }
    fn tuple_variant<V: Visitor<'de>>(self, n: usize, v: V) -> Result<V::Value, E> {
        self.0.deserialize_tuple(n, v)
    }
    fn struct_variant<V: Visitor<'de>>(self, f: &'static [&'static str], v: V) -> Result<V::Value, E> {
        v.visit_map(Fields(self.0, f, 0))
    }
}
pub fn make<'de, T: serde::Deserialize<'de>>(r: &mut Rng, fuel: i64, ascii: bool) -> T {
    let mut g = Gen::new(r, fuel, ascii);
    T::deserialize(&mut g).unwrap_or_else(|e| {
        eprintln!("HARNESS-ERROR: could not sample {}: {e}", std::any::type_name::<T>());
        std::process::exit(2)
    })
}
