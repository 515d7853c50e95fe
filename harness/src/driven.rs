//! A serde data format of our own: presents a value tree the way other self-describing formats do,
//! with integers in any width that fits (unsigned unless negative, as YAML has them), texts borrowed, transient or owned, single
//! precision floats, and nulls as units or as absent options.
use crate::rng::Rng;
use serde::de::value::{MapAccessDeserializer, MapDeserializer, StrDeserializer};
use serde::de::{DeserializeOwned, DeserializeSeed, Deserializer, MapAccess, SeqAccess, Visitor};
use crate::written::INJECTED;
use serde_yaml::{Error, Value as V};
use std::cell::{Cell, RefCell};

/// Reads `v` with the representation of every scalar drawn from `r`.
pub fn from_driven<T: DeserializeOwned>(v: &V, r: &mut Rng) -> Result<T, Error> {
    from_failing(v, r, u64::MAX).0
}
/// The same with a failure at the given step; gives the number of steps left to it.
pub fn from_failing<T: DeserializeOwned>(v: &V, r: &mut Rng, step: u64) -> (Result<T, Error>, u64) {
    let cell = RefCell::new(r.clone());
    let left = Cell::new(step);
    let out = T::deserialize(D { v, r: &cell, left: &left, optional: &[], some: false });
    *r = cell.into_inner();
    (out, left.get())
}
/// The same where values of these keys may be presented as options, whatever is asked for.
pub fn from_optional<T: DeserializeOwned>(v: &V, r: &mut Rng, optional: &[&str]) -> Result<T, Error> {
    let (cell, left) = (RefCell::new(r.clone()), Cell::new(u64::MAX));
    let out = T::deserialize(D { v, r: &cell, left: &left, optional, some: false });
    *r = cell.into_inner();
    out
}
/// There is no counterpart of a YAML tag.
pub fn presentable(v: &V) -> bool {
    match v {
        V::Tagged(_) => false,
        V::Sequence(s) => s.iter().all(presentable),
        V::Mapping(m) => m.iter().all(|(k, v)| k.is_string() && presentable(v)),
        _ => true,
    }
}
#[derive(Clone, Copy)]
struct D<'a, 'de> {
    v: &'de V,
    r: &'a RefCell<Rng>,
    left: &'a Cell<u64>,
    optional: &'a [&'a str],
    some: bool,
}
impl<'a, 'de> D<'a, 'de> {
    fn draw(&self, n: usize) -> usize {
        self.r.borrow_mut().below(n)
    }
    fn step(&self) -> Result<(), Error> {
        match self.left.get() {
            u64::MAX => Ok(()),
            0 => Err(serde::de::Error::custom("used after its failure")),
            n => {
                self.left.set(n - 1);
                if n == 1 { Err(serde::de::Error::custom(INJECTED)) } else { Ok(()) }
            }
        }
    }
    fn at(&self, v: &'de V) -> Self {
        D { v, some: false, ..*self }
    }
    fn text<W: Visitor<'de>>(&self, s: &'de str, visitor: W) -> Result<W::Value, Error> {
        match self.draw(3) {
            0 => visitor.visit_borrowed_str(s),
            1 => visitor.visit_str(&s.to_owned()),
            _ => visitor.visit_string(s.to_owned()),
        }
    }
}
macro_rules! fitting {
    ($self:ident, $visitor:ident, $n:ident: $($t:ident $f:ident),*) => {{
        let mut fit: Vec<usize> = Vec::new();
        let mut k = 0usize;
        $( if $t::try_from($n).is_ok() { fit.push(k); } k += 1; )*
        let _ = k;
        let chosen = fit[$self.draw(fit.len())];
        let mut k = 0usize;
        $( if k == chosen { return $visitor.$f($t::try_from($n).unwrap()); } k += 1; )*
        let _ = k;
        unreachable!()
    }};
}
impl<'a, 'de> Deserializer<'de> for D<'a, 'de> {
    type Error = Error;
    fn deserialize_any<W: Visitor<'de>>(self, visitor: W) -> Result<W::Value, Error> {
        self.step()?;
        if self.some {
            return visitor.visit_some(self.at(self.v));
        }
        match self.v {
            V::Null => {
                if self.draw(2) == 0 {
                    visitor.visit_unit()
                } else {
                    visitor.visit_none()
                }
            }
            V::Bool(b) => visitor.visit_bool(*b),
            V::Number(n) => {
                if let Some(n) = n.as_u64() {
                    fitting!(self, visitor, n: u8 visit_u8, u16 visit_u16, u32 visit_u32, u64 visit_u64)
                } else if let Some(n) = n.as_i64() {
                    fitting!(self, visitor, n: i8 visit_i8, i16 visit_i16, i32 visit_i32, i64 visit_i64)
                } else {
                    let f = n.as_f64().unwrap();
                    if f64::from(f as f32) == f && self.draw(2) == 0 {
                        visitor.visit_f32(f as f32)
                    } else {
                        visitor.visit_f64(f)
                    }
                }
            }
            V::String(s) => self.text(s, visitor),
            V::Sequence(s) => visitor.visit_seq(Items { d: self, rest: s.iter() }),
            V::Mapping(m) => visitor.visit_map(Entries { d: self, rest: m.iter(), value: None, some: false }),
            V::Tagged(_) => Err(serde::de::Error::custom("tag")),
        }
    }
    fn deserialize_option<W: Visitor<'de>>(self, visitor: W) -> Result<W::Value, Error> {
        self.step()?;
        match self.v {
            V::Null if self.draw(2) == 0 => visitor.visit_unit(),
            V::Null => visitor.visit_none(),
            _ => visitor.visit_some(self.at(self.v)),
        }
    }
    fn deserialize_newtype_struct<W: Visitor<'de>>(self, _: &'static str, visitor: W) -> Result<W::Value, Error> {
        self.step()?;
        visitor.visit_newtype_struct(self)
    }
    fn deserialize_enum<W: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], visitor: W) -> Result<W::Value, Error> {
        self.step()?;
        match self.v {
            V::String(s) => visitor.visit_enum(StrDeserializer::new(s)),
            V::Mapping(m) => visitor.visit_enum(MapAccessDeserializer::new(Entries { d: self, rest: m.iter(), value: None, some: false })),
            _ => self.deserialize_any(visitor),
        }
    }
    fn deserialize_identifier<W: Visitor<'de>>(self, visitor: W) -> Result<W::Value, Error> {
        self.step()?;
        match self.v {
            V::String(s) => self.text(s, visitor),
            _ => self.deserialize_any(visitor),
        }
    }
    fn deserialize_ignored_any<W: Visitor<'de>>(self, visitor: W) -> Result<W::Value, Error> {
        self.step()?;
        visitor.visit_unit()
    }
    // As YAML has it, nothing at all is an empty sequence or mapping.
    fn deserialize_seq<W: Visitor<'de>>(self, visitor: W) -> Result<W::Value, Error> {
        self.step()?;
        match self.v {
            V::Null => visitor.visit_seq(Items { d: self, rest: [].iter() }),
            _ => self.deserialize_any(visitor),
        }
    }
    fn deserialize_map<W: Visitor<'de>>(self, visitor: W) -> Result<W::Value, Error> {
        self.step()?;
        match self.v {
            V::Null => visitor.visit_map(MapDeserializer::<'de, std::iter::Empty<(&'de str, &'de str)>, Error>::new(std::iter::empty())),
            _ => self.deserialize_any(visitor),
        }
    }
    fn deserialize_struct<W: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], visitor: W) -> Result<W::Value, Error> {
        self.step()?;
        match self.v {
            // A derived visitor would take a sequence of the fields' values.
            V::Sequence(_) => Err(serde::de::Error::custom("sequence for a struct")),
            _ => self.deserialize_map(visitor),
        }
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf
        unit unit_struct tuple tuple_struct
    }
}
struct Items<'a, 'de> {
    d: D<'a, 'de>,
    rest: std::slice::Iter<'de, V>,
}
impl<'a, 'de> SeqAccess<'de> for Items<'a, 'de> {
    type Error = Error;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, Error> {
        self.d.step()?;
        self.rest.next().map(|v| seed.deserialize(self.d.at(v))).transpose()
    }
    fn size_hint(&self) -> Option<usize> {
        (self.d.draw(2) == 0).then(|| self.rest.len())
    }
}
struct Entries<'a, 'de> {
    d: D<'a, 'de>,
    rest: serde_yaml::mapping::Iter<'de>,
    value: Option<&'de V>,
    some: bool,
}
impl<'a, 'de> MapAccess<'de> for Entries<'a, 'de> {
    type Error = Error;
    fn next_key_seed<K: DeserializeSeed<'de>>(&mut self, seed: K) -> Result<Option<K::Value>, Error> {
        self.d.step()?;
        let Some((k, v)) = self.rest.next() else { return Ok(None) };
        self.value = Some(v);
        self.some = !v.is_null() && k.as_str().is_some_and(|k| self.d.optional.contains(&k)) && self.d.draw(2) == 0;
        seed.deserialize(self.d.at(k)).map(Some)
    }
    fn next_value_seed<S: DeserializeSeed<'de>>(&mut self, seed: S) -> Result<S::Value, Error> {
        let v = self.value.take().unwrap_or(&V::Null);
        seed.deserialize(D { some: self.some, ..self.d.at(v) })
    }
    fn size_hint(&self) -> Option<usize> {
        (self.d.draw(2) == 0).then(|| self.rest.len())
    }
}
