//! A simulated serde output: rebuilds a plain value from `Serialize` callbacks, checks the
//! protocol (announced lengths, nothing after a failure) and can fail at any chosen
//! callback, or in the middle of a string that is being formatted.

use crate::core::Cx;
use crate::de::{Error, INJECTED};
use serde::ser::{self, Serialize, Serializer};
use serde_yaml::value::{Tag, TaggedValue};
use serde_yaml::{Mapping, Value};
use std::cell::{Cell, RefCell};
use std::fmt::{self, Write};

pub struct St<'a> {
    pub cx: &'a Cx,
    pub fail_at: Option<u64>,
    pub calls: Cell<u64>,
    pub fired: Cell<bool>,
    pub late: Cell<u64>,
    /// protocol violations seen
    pub bad: RefCell<Vec<String>>,
    /// called at every callback; true makes it fail
    pub hook: Option<&'a dyn Fn() -> bool>,
}

impl<'a> St<'a> {
    pub fn new(cx: &'a Cx, fail_at: Option<u64>) -> Self {
        St {
            cx,
            fail_at,
            calls: Cell::new(0),
            fired: Cell::new(false),
            late: Cell::new(0),
            bad: RefCell::default(),
            hook: None,
        }
    }
    fn step(&self) -> Result<(), Error> {
        let n = self.calls.get();
        self.calls.set(n + 1);
        if self.hook.is_some_and(|h| h()) {
            self.fired.set(true);
            return Err(Error(INJECTED.into()));
        }
        if self.fired.get() {
            self.late.set(self.late.get() + 1);
        }
        if self.fail_at == Some(n) {
            self.fired.set(true);
            self.cx.count("serializer error");
            self.cx.ev("ser fault", n, 0);
            return Err(Error(INJECTED.into()));
        }
        Ok(())
    }
    fn len(&self, what: &str, said: Option<usize>, got: usize) {
        if let Some(n) = said {
            if n != got {
                self.bad.borrow_mut().push(format!("{what} announced {n} entries but wrote {got}"));
            }
        }
    }
}

#[derive(Clone, Copy)]
pub struct SimSer<'s, 'a>(pub &'s St<'a>);

/// Every piece a `Display` implementation writes is a callback that may fail.
struct Pieces<'s, 'a> {
    st: &'s St<'a>,
    out: String,
}
impl Write for Pieces<'_, '_> {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.st.step().map_err(|_| fmt::Error)?;
        self.out.push_str(s);
        Ok(())
    }
}

pub struct Seq<'s, 'a> {
    st: &'s St<'a>,
    said: Option<usize>,
    v: Vec<Value>,
}
pub struct Map<'s, 'a> {
    st: &'s St<'a>,
    said: Option<usize>,
    key: Option<Value>,
    m: Mapping,
    n: usize,
}
impl Map<'_, '_> {
    fn put(&mut self, k: Value, v: Value) {
        self.n += 1;
        if self.m.insert(k.clone(), v).is_some() {
            self.st.bad.borrow_mut().push(format!("key {k:?} written twice"));
        }
    }
    fn done(self) -> Result<Value, Error> {
        self.st.step()?;
        self.st.len("map", self.said, self.n);
        Ok(Value::Mapping(self.m))
    }
}

macro_rules! num {
    ($($f:ident $t:ty,)*) => {$(
        fn $f(self, v: $t) -> Result<Value, Error> {
            self.0.step()?;
            Ok(Value::Number(v.into()))
        }
    )*};
}

impl<'s, 'a> Serializer for SimSer<'s, 'a> {
    type Ok = Value;
    type Error = Error;
    type SerializeSeq = Seq<'s, 'a>;
    type SerializeTuple = Seq<'s, 'a>;
    type SerializeTupleStruct = Seq<'s, 'a>;
    type SerializeTupleVariant = Seq<'s, 'a>;
    type SerializeMap = Map<'s, 'a>;
    type SerializeStruct = Map<'s, 'a>;
    type SerializeStructVariant = Map<'s, 'a>;

    num! {
        serialize_i8 i8, serialize_i16 i16, serialize_i32 i32, serialize_i64 i64,
        serialize_u8 u8, serialize_u16 u16, serialize_u32 u32, serialize_u64 u64,
        serialize_f32 f32, serialize_f64 f64,
    }
    fn serialize_u128(self, v: u128) -> Result<Value, Error> {
        self.0.step()?;
        u64::try_from(v)
            .map(|v| Value::Number(v.into()))
            .map_err(|_| Error("number too large".into()))
    }
    fn serialize_i128(self, v: i128) -> Result<Value, Error> {
        self.0.step()?;
        i64::try_from(v)
            .map(|v| Value::Number(v.into()))
            .map_err(|_| Error("number too large".into()))
    }
    fn serialize_bool(self, v: bool) -> Result<Value, Error> {
        self.0.step()?;
        Ok(Value::Bool(v))
    }
    fn serialize_char(self, v: char) -> Result<Value, Error> {
        self.serialize_str(v.encode_utf8(&mut [0; 4]))
    }
    fn serialize_str(self, v: &str) -> Result<Value, Error> {
        self.0.step()?;
        Ok(Value::String(v.to_owned()))
    }
    fn collect_str<T: fmt::Display + ?Sized>(self, v: &T) -> Result<Value, Error> {
        self.0.step()?;
        crate::show::seen(std::any::type_name::<T>(), &v);
        let mut p = Pieces {
            st: self.0,
            out: String::new(),
        };
        let r = write!(p, "{v}");
        if r.is_err() {
            return Err(Error(INJECTED.into()));
        }
        if self.0.fired.get() {
            self.0
                .bad
                .borrow_mut()
                .push("a formatting failure was reported as success".into());
        }
        Ok(Value::String(p.out))
    }
    fn serialize_bytes(self, _: &[u8]) -> Result<Value, Error> {
        Err(Error("bytes".into()))
    }
    fn serialize_none(self) -> Result<Value, Error> {
        self.0.step()?;
        Ok(Value::Null)
    }
    fn serialize_some<T: Serialize + ?Sized>(self, v: &T) -> Result<Value, Error> {
        self.0.step()?;
        v.serialize(self)
    }
    fn serialize_unit(self) -> Result<Value, Error> {
        self.serialize_none()
    }
    fn serialize_unit_struct(self, _: &'static str) -> Result<Value, Error> {
        self.serialize_none()
    }
    fn serialize_unit_variant(self, _: &'static str, _: u32, v: &'static str) -> Result<Value, Error> {
        self.serialize_str(v)
    }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, _: &'static str, v: &T) -> Result<Value, Error> {
        self.0.step()?;
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(
        self,
        _: &'static str,
        _: u32,
        variant: &'static str,
        v: &T,
    ) -> Result<Value, Error> {
        self.0.step()?;
        Ok(Value::Tagged(Box::new(TaggedValue {
            tag: Tag::new(variant),
            value: v.serialize(self)?,
        })))
    }
    fn serialize_seq(self, said: Option<usize>) -> Result<Self::SerializeSeq, Error> {
        self.0.step()?;
        Ok(Seq {
            st: self.0,
            said,
            v: Vec::new(),
        })
    }
    fn serialize_tuple(self, n: usize) -> Result<Self::SerializeTuple, Error> {
        self.serialize_seq(Some(n))
    }
    fn serialize_tuple_struct(self, _: &'static str, n: usize) -> Result<Self::SerializeTuple, Error> {
        self.serialize_seq(Some(n))
    }
    fn serialize_tuple_variant(
        self,
        _: &'static str,
        _: u32,
        _: &'static str,
        _: usize,
    ) -> Result<Self::SerializeTuple, Error> {
        Err(Error("unexpected tuple variant".into()))
    }
    fn serialize_map(self, said: Option<usize>) -> Result<Self::SerializeMap, Error> {
        self.0.step()?;
        Ok(Map {
            st: self.0,
            said,
            key: None,
            m: Mapping::new(),
            n: 0,
        })
    }
    fn serialize_struct(self, _: &'static str, n: usize) -> Result<Self::SerializeStruct, Error> {
        self.serialize_map(Some(n))
    }
    fn serialize_struct_variant(
        self,
        _: &'static str,
        _: u32,
        _: &'static str,
        _: usize,
    ) -> Result<Self::SerializeStruct, Error> {
        Err(Error("unexpected struct variant".into()))
    }
}

impl ser::SerializeSeq for Seq<'_, '_> {
    type Ok = Value;
    type Error = Error;
    fn serialize_element<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Error> {
        self.st.step()?;
        self.v.push(v.serialize(SimSer(self.st))?);
        Ok(())
    }
    fn end(self) -> Result<Value, Error> {
        self.st.step()?;
        self.st.len("sequence", self.said, self.v.len());
        Ok(Value::Sequence(self.v))
    }
}
impl ser::SerializeTuple for Seq<'_, '_> {
    type Ok = Value;
    type Error = Error;
    fn serialize_element<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Error> {
        ser::SerializeSeq::serialize_element(self, v)
    }
    fn end(self) -> Result<Value, Error> {
        ser::SerializeSeq::end(self)
    }
}
impl ser::SerializeTupleStruct for Seq<'_, '_> {
    type Ok = Value;
    type Error = Error;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Error> {
        ser::SerializeSeq::serialize_element(self, v)
    }
    fn end(self) -> Result<Value, Error> {
        ser::SerializeSeq::end(self)
    }
}
impl ser::SerializeTupleVariant for Seq<'_, '_> {
    type Ok = Value;
    type Error = Error;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Error> {
        ser::SerializeSeq::serialize_element(self, v)
    }
    fn end(self) -> Result<Value, Error> {
        ser::SerializeSeq::end(self)
    }
}
impl ser::SerializeMap for Map<'_, '_> {
    type Ok = Value;
    type Error = Error;
    fn serialize_key<T: Serialize + ?Sized>(&mut self, k: &T) -> Result<(), Error> {
        self.st.step()?;
        self.key = Some(k.serialize(SimSer(self.st))?);
        Ok(())
    }
    fn serialize_value<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Error> {
        self.st.step()?;
        let v = v.serialize(SimSer(self.st))?;
        match self.key.take() {
            Some(k) => self.put(k, v),
            None => self.st.bad.borrow_mut().push("a value was written without a key".into()),
        }
        Ok(())
    }
    fn end(self) -> Result<Value, Error> {
        self.done()
    }
}
impl ser::SerializeStruct for Map<'_, '_> {
    type Ok = Value;
    type Error = Error;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, k: &'static str, v: &T) -> Result<(), Error> {
        self.st.step()?;
        let v = v.serialize(SimSer(self.st))?;
        self.put(Value::String(k.to_owned()), v);
        Ok(())
    }
    fn end(self) -> Result<Value, Error> {
        self.done()
    }
}
impl ser::SerializeStructVariant for Map<'_, '_> {
    type Ok = Value;
    type Error = Error;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, k: &'static str, v: &T) -> Result<(), Error> {
        ser::SerializeStruct::serialize_field(self, k, v)
    }
    fn end(self) -> Result<Value, Error> {
        self.done()
    }
}
