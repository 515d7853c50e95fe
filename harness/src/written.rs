//! A serde data format of our own to write to: builds a value tree, holds the writer to serde's
//! protocol (announced sizes, keys once and before their values), and can fail at any step.
use serde::ser::{self, Serialize};
use serde_yaml::{Error, Mapping, Value as V};
use std::cell::{Cell, RefCell};

pub struct Log {
    /// Broken rules.
    pub problems: RefCell<Vec<String>>,
    pub steps: Cell<u64>,
    /// The step at which the format fails.
    pub fail_at: u64,
    pub human: bool,
    /// Collections whose size was announced.
    pub announced: Cell<u64>,
}
pub const INJECTED: &str = "the format is out of order";
impl Log {
    pub fn new(fail_at: u64, human: bool) -> Self {
        Self { problems: RefCell::default(), steps: Cell::new(0), fail_at, human, announced: Cell::new(0) }
    }
    fn step(&self) -> Result<(), Error> {
        let n = self.steps.get() + 1;
        self.steps.set(n);
        if n == self.fail_at {
            return Err(ser::Error::custom(INJECTED));
        }
        Ok(())
    }
    pub fn fired(&self) -> bool {
        self.steps.get() >= self.fail_at
    }
    fn problem(&self, s: String) {
        self.problems.borrow_mut().push(s);
    }
}
#[derive(Clone, Copy)]
pub struct W<'a>(pub &'a Log);
pub fn write<T: Serialize + ?Sized>(t: &T, log: &Log) -> Result<V, Error> {
    t.serialize(W(log))
}
/// A sequence, mapping or structure under way.
pub struct Under<'a> {
    log: &'a Log,
    what: &'static str,
    announced: Option<usize>,
    seq: Vec<V>,
    map: Mapping,
    key: Option<V>,
    variant: Option<&'static str>,
}
impl<'a> Under<'a> {
    fn new(log: &'a Log, what: &'static str, announced: Option<usize>) -> Result<Self, Error> {
        log.step()?;
        Ok(Self { log, what, announced, seq: vec![], map: Mapping::new(), key: None, variant: None })
    }
    fn item<T: Serialize + ?Sized>(&mut self, t: &T) -> Result<(), Error> {
        self.log.step()?;
        self.seq.push(t.serialize(W(self.log))?);
        Ok(())
    }
    fn entry(&mut self, k: V, v: V) {
        if self.map.insert(k.clone(), v).is_some() {
            self.log.problem(format!("the key {k:?} of a {} twice", self.what));
        }
    }
    fn done(self, n: usize) -> Result<(), Error> {
        self.log.step()?;
        if let Some(a) = self.announced {
            self.log.announced.set(self.log.announced.get() + 1);
            if a != n {
                self.log.problem(format!("a {} announced {a} entries and has {n}", self.what));
            }
        }
        if self.key.is_some() {
            self.log.problem("a key without value".into());
        }
        Ok(())
    }
    fn list(mut self) -> Result<V, Error> {
        let s = std::mem::take(&mut self.seq);
        let variant = self.variant;
        self.done(s.len())?;
        Ok(named(variant, V::Sequence(s)))
    }
    fn mapping(mut self) -> Result<V, Error> {
        let m = std::mem::take(&mut self.map);
        let variant = self.variant;
        self.done(m.len())?;
        Ok(named(variant, V::Mapping(m)))
    }
}
fn named(variant: Option<&'static str>, v: V) -> V {
    match variant {
        None => v,
        Some(k) => V::Mapping([(V::from(k), v)].into_iter().collect()),
    }
}
macro_rules! plain {
    ($($f:ident: $t:ty),*) => {
        $(fn $f(self, v: $t) -> Result<V, Error> {
            self.0.step()?;
            Ok(V::from(v))
        })*
    };
}
impl<'a> ser::Serializer for W<'a> {
    type Ok = V;
    type Error = Error;
    type SerializeSeq = Under<'a>;
    type SerializeTuple = Under<'a>;
    type SerializeTupleStruct = Under<'a>;
    type SerializeTupleVariant = Under<'a>;
    type SerializeMap = Under<'a>;
    type SerializeStruct = Under<'a>;
    type SerializeStructVariant = Under<'a>;
    plain!(serialize_bool: bool, serialize_i8: i8, serialize_i16: i16, serialize_i32: i32, serialize_i64: i64,
        serialize_u8: u8, serialize_u16: u16, serialize_u32: u32, serialize_u64: u64, serialize_f64: f64, serialize_str: &str);
    fn serialize_f32(self, v: f32) -> Result<V, Error> {
        self.serialize_f64(v.into())
    }
    fn serialize_i128(self, v: i128) -> Result<V, Error> {
        self.0.step()?;
        match (u64::try_from(v), i64::try_from(v)) {
            (Ok(n), _) => Ok(V::from(n)),
            (_, Ok(n)) => Ok(V::from(n)),
            _ => Err(ser::Error::custom("i128 is not supported")),
        }
    }
    fn serialize_u128(self, v: u128) -> Result<V, Error> {
        self.0.step()?;
        u64::try_from(v).map(V::from).map_err(|_| ser::Error::custom("u128 is not supported"))
    }
    fn serialize_char(self, v: char) -> Result<V, Error> {
        self.serialize_str(&v.to_string())
    }
    fn serialize_bytes(self, v: &[u8]) -> Result<V, Error> {
        self.0.step()?;
        self.0.problem("bytes".into());
        Ok(V::Sequence(v.iter().map(|b| V::from(*b)).collect()))
    }
    fn serialize_none(self) -> Result<V, Error> {
        self.0.step()?;
        Ok(V::Null)
    }
    fn serialize_some<T: Serialize + ?Sized>(self, v: &T) -> Result<V, Error> {
        self.0.step()?;
        v.serialize(self)
    }
    fn serialize_unit(self) -> Result<V, Error> {
        self.serialize_none()
    }
    fn serialize_unit_struct(self, _: &'static str) -> Result<V, Error> {
        self.serialize_none()
    }
    fn serialize_unit_variant(self, _: &'static str, _: u32, variant: &'static str) -> Result<V, Error> {
        self.serialize_str(variant)
    }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, _: &'static str, v: &T) -> Result<V, Error> {
        self.0.step()?;
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(self, _: &'static str, _: u32, variant: &'static str, v: &T) -> Result<V, Error> {
        self.0.step()?;
        Ok(named(Some(variant), v.serialize(self)?))
    }
    fn serialize_seq(self, n: Option<usize>) -> Result<Under<'a>, Error> {
        Under::new(self.0, "sequence", n)
    }
    fn serialize_tuple(self, n: usize) -> Result<Under<'a>, Error> {
        Under::new(self.0, "tuple", Some(n))
    }
    fn serialize_tuple_struct(self, _: &'static str, n: usize) -> Result<Under<'a>, Error> {
        self.serialize_tuple(n)
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, variant: &'static str, n: usize) -> Result<Under<'a>, Error> {
        Ok(Under { variant: Some(variant), ..self.serialize_tuple(n)? })
    }
    fn serialize_map(self, n: Option<usize>) -> Result<Under<'a>, Error> {
        Under::new(self.0, "mapping", n)
    }
    fn serialize_struct(self, _: &'static str, n: usize) -> Result<Under<'a>, Error> {
        Under::new(self.0, "structure", Some(n))
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, variant: &'static str, n: usize) -> Result<Under<'a>, Error> {
        Ok(Under { variant: Some(variant), ..self.serialize_struct("", n)? })
    }
    fn is_human_readable(&self) -> bool {
        self.0.human
    }
}
macro_rules! lists {
    ($($t:ident $f:ident),*) => {
        $(impl ser::$t for Under<'_> {
            type Ok = V;
            type Error = Error;
            fn $f<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Error> {
                self.item(v)
            }
            fn end(self) -> Result<V, Error> {
                self.list()
            }
        })*
    };
}
lists!(SerializeSeq serialize_element, SerializeTuple serialize_element, SerializeTupleStruct serialize_field, SerializeTupleVariant serialize_field);
macro_rules! structs {
    ($($t:ident),*) => {
        $(impl ser::$t for Under<'_> {
            type Ok = V;
            type Error = Error;
            fn serialize_field<T: Serialize + ?Sized>(&mut self, k: &'static str, v: &T) -> Result<(), Error> {
                self.log.step()?;
                let v = v.serialize(W(self.log))?;
                self.entry(V::from(k), v);
                Ok(())
            }
            fn end(self) -> Result<V, Error> {
                self.mapping()
            }
        })*
    };
}
structs!(SerializeStruct, SerializeStructVariant);
impl ser::SerializeMap for Under<'_> {
    type Ok = V;
    type Error = Error;
    fn serialize_key<T: Serialize + ?Sized>(&mut self, k: &T) -> Result<(), Error> {
        self.log.step()?;
        let k = k.serialize(W(self.log))?;
        if self.key.replace(k).is_some() {
            self.log.problem("two keys in a row".into());
        }
        Ok(())
    }
    fn serialize_value<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Error> {
        self.log.step()?;
        let v = v.serialize(W(self.log))?;
        match self.key.take() {
            Some(k) => self.entry(k, v),
            None => self.log.problem("a value without key".into()),
        }
        Ok(())
    }
    fn end(self) -> Result<V, Error> {
        self.mapping()
    }
}
