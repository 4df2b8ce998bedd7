//! A simulated serde input: drives `Deserialize` implementations from a parsed value,
//! in delivery forms chosen by the simulator (the forms other formats' parsers use),
//! and can fail at any chosen callback.

use crate::core::Cx;
use serde::de::{
    self, DeserializeSeed, Deserializer, EnumAccess, MapAccess, SeqAccess, Unexpected, VariantAccess, Visitor,
};
use serde_yaml::Value;
use std::cell::Cell;
use std::fmt;

#[derive(Debug, Clone)]
pub struct Error(pub String);
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Error {}
impl de::Error for Error {
    fn custom<T: fmt::Display>(m: T) -> Self {
        crate::show::seen(std::any::type_name::<T>(), &m);
        Error(m.to_string())
    }
}
impl serde::ser::Error for Error {
    fn custom<T: fmt::Display>(m: T) -> Self {
        Error(m.to_string())
    }
}

pub const INJECTED: &str = "injected by the simulator";

pub struct St<'a> {
    pub cx: &'a Cx,
    /// fail at this callback
    pub fail_at: Option<u64>,
    pub calls: Cell<u64>,
    pub fired: Cell<bool>,
    /// callbacks that were still made after the failure
    pub late: Cell<u64>,
    /// vary the forms in which values are delivered
    pub forms: bool,
    /// deliver some non-negative integers as signed ones
    pub signed: bool,
    /// called at every callback; true makes it fail
    pub hook: Option<&'a dyn Fn() -> bool>,
}

impl<'a> St<'a> {
    pub fn new(cx: &'a Cx, forms: bool, fail_at: Option<u64>) -> Self {
        St {
            cx,
            fail_at,
            calls: Cell::new(0),
            fired: Cell::new(false),
            late: Cell::new(0),
            forms,
            signed: false,
            hook: None,
        }
    }
    fn step(&self) -> Result<(), Error> {
        let n = self.calls.get();
        self.calls.set(n + 1);
        if self.hook.is_some_and(|h| h()) {
            self.fired.set(true);
            return Err(Error(INJECTED.into()));
        }
        if self.fired.get() {
            self.late.set(self.late.get() + 1);
        }
        if self.fail_at == Some(n) {
            self.fired.set(true);
            self.cx.count("deserializer error");
            self.cx.ev("de fault", n, 0);
            return Err(Error(INJECTED.into()));
        }
        Ok(())
    }
    fn form(&self, n: u64) -> u64 {
        if self.forms {
            self.cx.draw(n)
        } else {
            0
        }
    }
    fn hint(&self, left: usize) -> Option<usize> {
        match self.form(5) {
            0 => Some(left),
            1 => None,
            2 => Some(0),
            3 => {
                self.cx.count("wrong size hint");
                Some(left + 7)
            }
            _ => {
                self.cx.count("wrong size hint");
                Some(usize::MAX)
            }
        }
    }
    fn text<'de, V: Visitor<'de>>(&self, s: &'de str, v: V) -> Result<V::Value, Error> {
        match self.form(3) {
            0 => v.visit_borrowed_str(s),
            1 => {
                self.cx.count("transient string");
                let t = s.to_owned();
                v.visit_str(&t)
            }
            _ => {
                self.cx.count("owned string");
                v.visit_string(s.to_owned())
            }
        }
    }
    fn uint<'de, V: Visitor<'de>>(&self, n: u64, v: V) -> Result<V::Value, Error> {
        if let Ok(i) = i64::try_from(n) {
            if self.signed && self.form(2) == 1 {
                self.cx.count("non-negative integer as signed");
                return self.int(i, v);
            }
        }
        match self.form(6) {
            1 if u8::try_from(n).is_ok() => v.visit_u8(n as u8),
            2 if u16::try_from(n).is_ok() => v.visit_u16(n as u16),
            3 if u32::try_from(n).is_ok() => v.visit_u32(n as u32),
            _ => v.visit_u64(n),
        }
    }
    fn int<'de, V: Visitor<'de>>(&self, n: i64, v: V) -> Result<V::Value, Error> {
        match self.form(6) {
            1 if i8::try_from(n).is_ok() => v.visit_i8(n as i8),
            2 if i16::try_from(n).is_ok() => v.visit_i16(n as i16),
            3 if i32::try_from(n).is_ok() => v.visit_i32(n as i32),
            _ => v.visit_i64(n),
        }
    }
}

#[derive(Clone, Copy)]
pub struct SimDe<'s, 'a, 'de> {
    pub st: &'s St<'a>,
    pub v: &'de Value,
}

impl<'de> SimDe<'_, '_, 'de> {
    fn unexpected(&self) -> Unexpected<'de> {
        match self.v {
            Value::Null => Unexpected::Unit,
            Value::Bool(b) => Unexpected::Bool(*b),
            Value::Number(_) => Unexpected::Other("number"),
            Value::String(s) => Unexpected::Str(s),
            Value::Sequence(_) => Unexpected::Seq,
            Value::Mapping(_) => Unexpected::Map,
            Value::Tagged(_) => Unexpected::Enum,
        }
    }
}

impl<'de> Deserializer<'de> for SimDe<'_, '_, 'de> {
    type Error = Error;

    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        self.st.step()?;
        match self.v {
            Value::Null => v.visit_unit(),
            Value::Bool(b) => v.visit_bool(*b),
            Value::Number(n) => {
                if let Some(u) = n.as_u64() {
                    self.st.uint(u, v)
                } else if let Some(i) = n.as_i64() {
                    self.st.int(i, v)
                } else {
                    v.visit_f64(n.as_f64().unwrap_or(0.0))
                }
            }
            Value::String(s) => self.st.text(s, v),
            Value::Sequence(x) => {
                let mut a = Seq {
                    st: self.st,
                    it: x.iter(),
                };
                let r = v.visit_seq(&mut a)?;
                if a.it.len() > 0 {
                    return Err(de::Error::invalid_length(x.len(), &"fewer elements in sequence"));
                }
                Ok(r)
            }
            Value::Mapping(m) => {
                let mut a = Map {
                    st: self.st,
                    it: m.iter(),
                    left: m.len(),
                    val: None,
                };
                let r = v.visit_map(&mut a)?;
                if a.left > 0 {
                    return Err(de::Error::invalid_length(m.len(), &"fewer elements in map"));
                }
                Ok(r)
            }
            Value::Tagged(t) => SimDe { st: self.st, v: &t.value }.deserialize_any(v),
        }
    }

    fn deserialize_option<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        self.st.step()?;
        if self.v.is_null() {
            if self.st.form(2) == 1 {
                v.visit_unit()
            } else {
                v.visit_none()
            }
        } else {
            v.visit_some(self)
        }
    }
    fn deserialize_unit<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        self.deserialize_any(v)
    }
    fn deserialize_unit_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, Error> {
        self.deserialize_any(v)
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, Error> {
        self.st.step()?;
        v.visit_newtype_struct(self)
    }
    fn deserialize_enum<V: Visitor<'de>>(
        self,
        _: &'static str,
        _: &'static [&'static str],
        v: V,
    ) -> Result<V::Value, Error> {
        self.st.step()?;
        match self.v {
            Value::String(s) => v.visit_enum(Unit { st: self.st, s }),
            _ => Err(de::Error::invalid_type(self.unexpected(), &"an enum")),
        }
    }
    fn deserialize_ignored_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        self.st.step()?;
        v.visit_unit()
    }
    fn is_human_readable(&self) -> bool {
        true
    }
    // like YAML, null where a collection is asked for is an empty one
    fn deserialize_seq<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        if self.v.is_null() {
            self.st.step()?;
            return v.visit_seq(Seq {
                st: self.st,
                it: [].iter(),
            });
        }
        self.deserialize_any(v)
    }
    fn deserialize_map<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        if self.v.is_null() {
            self.st.step()?;
            static EMPTY: std::sync::OnceLock<serde_yaml::Mapping> = std::sync::OnceLock::new();
            return v.visit_map(Map {
                st: self.st,
                it: EMPTY.get_or_init(serde_yaml::Mapping::new).iter(),
                left: 0,
                val: None,
            });
        }
        self.deserialize_any(v)
    }
    fn deserialize_struct<V: Visitor<'de>>(
        self,
        _: &'static str,
        _: &'static [&'static str],
        v: V,
    ) -> Result<V::Value, Error> {
        if !matches!(self.v, Value::Mapping(_) | Value::Null) {
            return Err(de::Error::invalid_type(self.unexpected(), &v));
        }
        self.deserialize_map(v)
    }

    fn deserialize_str<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        if !self.v.is_string() {
            return Err(de::Error::invalid_type(self.unexpected(), &v));
        }
        self.deserialize_any(v)
    }
    fn deserialize_string<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        self.deserialize_str(v)
    }
    fn deserialize_identifier<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        self.deserialize_str(v)
    }

    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char
        bytes byte_buf tuple tuple_struct
    }
}

struct Seq<'s, 'a, 'de> {
    st: &'s St<'a>,
    it: std::slice::Iter<'de, Value>,
}
impl<'de> SeqAccess<'de> for Seq<'_, '_, 'de> {
    type Error = Error;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, Error> {
        self.st.step()?;
        match self.it.next() {
            Some(v) => seed.deserialize(SimDe { st: self.st, v }).map(Some),
            None => Ok(None),
        }
    }
    fn size_hint(&self) -> Option<usize> {
        self.st.hint(self.it.len())
    }
}

struct Map<'s, 'a, 'de> {
    st: &'s St<'a>,
    it: serde_yaml::mapping::Iter<'de>,
    left: usize,
    val: Option<&'de Value>,
}
impl<'de> MapAccess<'de> for Map<'_, '_, 'de> {
    type Error = Error;
    fn next_key_seed<K: DeserializeSeed<'de>>(&mut self, seed: K) -> Result<Option<K::Value>, Error> {
        self.st.step()?;
        match self.it.next() {
            Some((k, v)) => {
                self.left -= 1;
                self.val = Some(v);
                seed.deserialize(SimDe { st: self.st, v: k }).map(Some)
            }
            None => Ok(None),
        }
    }
    fn next_value_seed<V: DeserializeSeed<'de>>(&mut self, seed: V) -> Result<V::Value, Error> {
        self.st.step()?;
        let v = self.val.take().expect("value asked for before its key");
        seed.deserialize(SimDe { st: self.st, v })
    }
    fn size_hint(&self) -> Option<usize> {
        self.st.hint(self.left)
    }
}

struct Unit<'s, 'a, 'de> {
    st: &'s St<'a>,
    s: &'de str,
}
impl<'de> EnumAccess<'de> for Unit<'_, '_, 'de> {
    type Error = Error;
    type Variant = Self;
    fn variant_seed<V: DeserializeSeed<'de>>(self, seed: V) -> Result<(V::Value, Self), Error> {
        self.st.step()?;
        let st = self.st;
        let v = seed.deserialize(StrDe { st, s: self.s })?;
        Ok((v, self))
    }
}
impl<'de> VariantAccess<'de> for Unit<'_, '_, 'de> {
    type Error = Error;
    fn unit_variant(self) -> Result<(), Error> {
        self.st.step()
    }
    fn newtype_variant_seed<T: DeserializeSeed<'de>>(self, _: T) -> Result<T::Value, Error> {
        Err(de::Error::invalid_type(Unexpected::UnitVariant, &"newtype variant"))
    }
    fn tuple_variant<V: Visitor<'de>>(self, _: usize, _: V) -> Result<V::Value, Error> {
        Err(de::Error::invalid_type(Unexpected::UnitVariant, &"tuple variant"))
    }
    fn struct_variant<V: Visitor<'de>>(self, _: &'static [&'static str], _: V) -> Result<V::Value, Error> {
        Err(de::Error::invalid_type(Unexpected::UnitVariant, &"struct variant"))
    }
}

struct StrDe<'s, 'a, 'de> {
    st: &'s St<'a>,
    s: &'de str,
}
impl<'de> Deserializer<'de> for StrDe<'_, '_, 'de> {
    type Error = Error;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        self.st.step()?;
        self.st.text(self.s, v)
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string
        bytes byte_buf option unit unit_struct newtype_struct seq tuple tuple_struct map struct
        enum identifier ignored_any
    }
}
