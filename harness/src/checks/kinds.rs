//! C18: which form of a short-or-long option is read depends only on whether the data is a mapping,
//! however a data format presents it.
use crate::mon::Case;
use crate::rng::Rng;
use compose_spec::ShortOrLong;
use serde::de::value::{Error, MapDeserializer, SeqDeserializer, StrDeserializer};
use serde::de::{self, Deserialize, Deserializer, EnumAccess, IntoDeserializer, MapAccess, SeqAccess, VariantAccess, Visitor};
use std::fmt;

/// What was presented.
#[derive(Debug, Clone, PartialEq)]
pub enum Seen {
    Bool(bool),
    Int(i128),
    Float(u64),
    Char(char),
    Text(String),
    Bytes(Vec<u8>),
    Nothing,
    Seq(Vec<Seen>),
    Map(Vec<(Seen, Seen)>),
    Variant(String),
}
struct SeenVisitor;
impl<'de> Deserialize<'de> for Seen {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        d.deserialize_any(SeenVisitor)
    }
}
macro_rules! ints { ($($f:ident: $t:ty),*) => { $(fn $f<E: de::Error>(self, v: $t) -> Result<Seen, E> { Ok(Seen::Int(v as i128)) })* } }
impl<'de> Visitor<'de> for SeenVisitor {
    type Value = Seen;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("anything")
    }
    ints!(visit_i8: i8, visit_i16: i16, visit_i32: i32, visit_i64: i64, visit_i128: i128, visit_u8: u8, visit_u16: u16, visit_u32: u32, visit_u64: u64, visit_u128: u128);
    fn visit_bool<E: de::Error>(self, v: bool) -> Result<Seen, E> {
        Ok(Seen::Bool(v))
    }
    fn visit_f32<E: de::Error>(self, v: f32) -> Result<Seen, E> {
        Ok(Seen::Float(f64::from(v).to_bits()))
    }
    fn visit_f64<E: de::Error>(self, v: f64) -> Result<Seen, E> {
        Ok(Seen::Float(v.to_bits()))
    }
    fn visit_char<E: de::Error>(self, v: char) -> Result<Seen, E> {
        Ok(Seen::Char(v))
    }
    fn visit_str<E: de::Error>(self, v: &str) -> Result<Seen, E> {
        Ok(Seen::Text(v.to_owned()))
    }
    fn visit_bytes<E: de::Error>(self, v: &[u8]) -> Result<Seen, E> {
        Ok(Seen::Bytes(v.to_owned()))
    }
    fn visit_none<E: de::Error>(self) -> Result<Seen, E> {
        Ok(Seen::Nothing)
    }
    fn visit_unit<E: de::Error>(self) -> Result<Seen, E> {
        Ok(Seen::Nothing)
    }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<Seen, D::Error> {
        Seen::deserialize(d)
    }
    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<Seen, D::Error> {
        Seen::deserialize(d)
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Seen, A::Error> {
        let mut v = Vec::new();
        while let Some(x) = a.next_element()? {
            v.push(x);
        }
        Ok(Seen::Seq(v))
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Seen, A::Error> {
        let mut v = Vec::new();
        while let Some(x) = a.next_entry()? {
            v.push(x);
        }
        Ok(Seen::Map(v))
    }
    fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<Seen, A::Error> {
        let (name, rest): (String, _) = a.variant()?;
        rest.unit_variant()?;
        Ok(Seen::Variant(name))
    }
}
/// One presentation.
#[derive(Debug, Clone)]
enum Kind {
    Bool(bool),
    I8(i8), I16(i16), I32(i32), I64(i64), I128(i128),
    U8(u8), U16(u16), U32(u32), U64(u64), U128(u128),
    F32(f32), F64(f64),
    Char(char),
    Str(String), BorrowedStr(String), OwnedStr(String),
    Bytes(Vec<u8>), BorrowedBytes(Vec<u8>), OwnedBytes(Vec<u8>),
    None, Unit,
    Some(i64), Newtype(String),
    Seq(Vec<u32>),
    Map(Vec<(String, u32)>),
    Enum(String),
}
impl Kind {
    fn draw(r: &mut Rng) -> Self {
        let n = r.u64();
        let text = |r: &mut Rng| crate::strs::g_free(r);
        match r.below(27) {
            0 => Self::Bool(n & 1 == 0),
            1 => Self::I8(n as i8),
            2 => Self::I16(n as i16),
            3 => Self::I32(n as i32),
            4 => Self::I64(n as i64),
            5 => Self::I128(n as i64 as i128 * 3),
            6 => Self::U8(n as u8),
            7 => Self::U16(n as u16),
            8 => Self::U32(n as u32),
            9 => Self::U64(n),
            10 => Self::U128(u128::from(n) * 3),
            11 => Self::F32(n as f32 / 7.0),
            12 => Self::F64(n as f64 / 7.0),
            13 => Self::Char(char::from_u32(n as u32 % 0xd800).unwrap_or('a')),
            14 => Self::Str(text(r)),
            15 => Self::BorrowedStr(text(r)),
            16 => Self::OwnedStr(text(r)),
            17 => Self::Bytes(text(r).into_bytes()),
            18 => Self::BorrowedBytes(text(r).into_bytes()),
            19 => Self::OwnedBytes(text(r).into_bytes()),
            20 => Self::None,
            21 => Self::Unit,
            22 => Self::Some(n as i64),
            23 => Self::Newtype(text(r)),
            24 => Self::Seq((0..r.below(4)).map(|i| i as u32 * 7).collect()),
            25 => Self::Map((0..r.below(4)).map(|i| (format!("{i}{}", text(r)), i as u32)).collect()),
            _ => Self::Enum(text(r)),
        }
    }
    fn seen(&self) -> Seen {
        match self.clone() {
            Self::Bool(v) => Seen::Bool(v),
            Self::I8(v) => Seen::Int(v.into()),
            Self::I16(v) => Seen::Int(v.into()),
            Self::I32(v) => Seen::Int(v.into()),
            Self::I64(v) | Self::Some(v) => Seen::Int(v.into()),
            Self::I128(v) => Seen::Int(v),
            Self::U8(v) => Seen::Int(v.into()),
            Self::U16(v) => Seen::Int(v.into()),
            Self::U32(v) => Seen::Int(v.into()),
            Self::U64(v) => Seen::Int(v.into()),
            Self::U128(v) => Seen::Int(v as i128),
            Self::F32(v) => Seen::Float(f64::from(v).to_bits()),
            Self::F64(v) => Seen::Float(v.to_bits()),
            Self::Char(v) => Seen::Char(v),
            Self::Str(v) | Self::BorrowedStr(v) | Self::OwnedStr(v) | Self::Newtype(v) => Seen::Text(v),
            Self::Bytes(v) | Self::BorrowedBytes(v) | Self::OwnedBytes(v) => Seen::Bytes(v),
            Self::None | Self::Unit => Seen::Nothing,
            Self::Seq(v) => Seen::Seq(v.into_iter().map(|v| Seen::Int(v.into())).collect()),
            Self::Map(v) => Seen::Map(v.into_iter().map(|(k, v)| (Seen::Text(k), Seen::Int(v.into()))).collect()),
            Self::Enum(v) => Seen::Variant(v),
        }
    }
}
struct K<'de>(&'de Kind);
impl<'de> Deserializer<'de> for K<'de> {
    type Error = Error;
    fn deserialize_any<V: Visitor<'de>>(self, w: V) -> Result<V::Value, Error> {
        match self.0 {
            Kind::Bool(v) => w.visit_bool(*v),
            Kind::I8(v) => w.visit_i8(*v),
            Kind::I16(v) => w.visit_i16(*v),
            Kind::I32(v) => w.visit_i32(*v),
            Kind::I64(v) => w.visit_i64(*v),
            Kind::I128(v) => w.visit_i128(*v),
            Kind::U8(v) => w.visit_u8(*v),
            Kind::U16(v) => w.visit_u16(*v),
            Kind::U32(v) => w.visit_u32(*v),
            Kind::U64(v) => w.visit_u64(*v),
            Kind::U128(v) => w.visit_u128(*v),
            Kind::F32(v) => w.visit_f32(*v),
            Kind::F64(v) => w.visit_f64(*v),
            Kind::Char(v) => w.visit_char(*v),
            Kind::Str(v) => w.visit_str(&v.clone()),
            Kind::BorrowedStr(v) => w.visit_borrowed_str(v),
            Kind::OwnedStr(v) => w.visit_string(v.clone()),
            Kind::Bytes(v) => w.visit_bytes(&v.clone()),
            Kind::BorrowedBytes(v) => w.visit_borrowed_bytes(v),
            Kind::OwnedBytes(v) => w.visit_byte_buf(v.clone()),
            Kind::None => w.visit_none(),
            Kind::Unit => w.visit_unit(),
            Kind::Some(v) => w.visit_some((*v).into_deserializer()),
            Kind::Newtype(v) => w.visit_newtype_struct(StrDeserializer::new(v)),
            Kind::Seq(v) => w.visit_seq(SeqDeserializer::new(v.iter().copied())),
            Kind::Map(v) => w.visit_map(MapDeserializer::new(v.iter().map(|(k, v)| (k.as_str(), *v)))),
            Kind::Enum(v) => w.visit_enum(StrDeserializer::<Error>::new(v)),
        }
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf
        option unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any
    }
}
/// A text that has to be borrowed.
#[derive(Debug, PartialEq)]
struct Borrowed<'a>(&'a str);
impl<'de> Deserialize<'de> for Borrowed<'de> {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        <&str>::deserialize(d).map(Borrowed)
    }
}
pub fn kinds(c: &mut Case) {
    let mut r = c.rng.clone();
    for _ in 0..8 {
        let k = Kind::draw(&mut r);
        c.seen(&format!("{k:?}"));
        c.sample(|| format!("{k:?}"));
        let name = format!("{k:?}").split(['(', ' ']).next().unwrap_or_default().to_owned();
        c.event(&format!("presented: {name}"));
        let want = k.seen();
        let got = ShortOrLong::<Seen, Seen>::deserialize(K(&k));
        let ok = match (&got, &k) {
            (Ok(ShortOrLong::Long(s)), Kind::Map(_)) => *s == want,
            (Ok(ShortOrLong::Short(_)), Kind::Map(_)) => false,
            // serde itself presents an owned buffer as a sequence
            (Ok(ShortOrLong::Short(Seen::Seq(s))), Kind::OwnedBytes(b)) => s.len() == b.len(),
            (Ok(ShortOrLong::Short(s)), _) => *s == want,
            _ => false,
        };
        c.check(ok, &format!("kind:{name}"), || format!("{k:?} is read as {got:?}"));
        // a form that fails is an error and not the other form
        let refused = match &k {
            Kind::Map(_) => ShortOrLong::<Seen, String>::deserialize(K(&k)).is_err(),
            _ => ShortOrLong::<std::collections::HashMap<String, u8>, Seen>::deserialize(K(&k)).is_err() || matches!(k, Kind::Some(_) | Kind::Newtype(_)),
        };
        c.check(refused, &format!("kind-refused:{name}"), || format!("{k:?}"));
        if let Kind::BorrowedStr(s) = &k {
            let got = ShortOrLong::<Borrowed, Seen>::deserialize(K(&k));
            c.check(matches!(&got, Ok(ShortOrLong::Short(b)) if b.0 == s), "kind:borrowed", || format!("{k:?} is read as {got:?}"));
        }
        if let Kind::Some(n) = k {
            let got = Option::<ShortOrLong<i64, Seen>>::deserialize(K(&k));
            c.check(matches!(got, Ok(Some(ShortOrLong::Short(m))) if m == n), "kind:optional", || format!("{k:?} is read as {got:?}"));
        }
    }
}
