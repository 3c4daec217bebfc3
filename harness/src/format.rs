//! A data format without text, for the analysis of the serialisation code: what a document holds is
//! supplied by the analysis, which gives the functions of `given` their meaning.
use core::fmt;
use serde::{de, ser, Deserialize, Serialize};

pub struct Fail;
impl fmt::Debug for Fail {
    fn fmt(&self, _: &mut fmt::Formatter) -> fmt::Result {
        Ok(())
    }
}
impl fmt::Display for Fail {
    fn fmt(&self, _: &mut fmt::Formatter) -> fmt::Result {
        Ok(())
    }
}
impl core::error::Error for Fail {}
impl de::Error for Fail {
    fn custom<T: fmt::Display>(_: T) -> Self {
        Fail
    }
}
impl ser::Error for Fail {
    fn custom<T: fmt::Display>(_: T) -> Self {
        Fail
    }
}
type Res<T> = core::result::Result<T, Fail>;

/// A document, or a part of one
pub struct Doc {
    pub id: usize,
}
pub enum Kind {
    Null,
    Bool,
    Unsigned,
    Negative,
    Float,
    Text,
    List,
    Record,
}
pub mod given {
    use super::*;
    pub fn kind(_: &Doc) -> Kind {
        unimplemented!()
    }
    pub fn unsigned(_: &Doc) -> u64 {
        unimplemented!()
    }
    pub fn negative(_: &Doc) -> i64 {
        unimplemented!()
    }
    pub fn float(_: &Doc) -> f64 {
        unimplemented!()
    }
    pub fn boolean(_: &Doc) -> bool {
        unimplemented!()
    }
    pub fn text(_: &Doc) -> &'static str {
        unimplemented!()
    }
    pub fn as_list(_: &Doc) -> bool {
        unimplemented!()
    }
    pub fn key_at(_: &Doc, _: usize) -> Option<&'static str> {
        unimplemented!()
    }
    pub fn value_at(_: &Doc, _: usize) -> Doc {
        unimplemented!()
    }
    pub fn variant_of(_: &Doc) -> &'static str {
        unimplemented!()
    }
    pub fn content_of(_: &Doc) -> Doc {
        unimplemented!()
    }
    pub fn empty() -> usize {
        unimplemented!()
    }
    pub fn put(_: usize, _: &'static str, _: Doc) -> usize {
        unimplemented!()
    }
    pub fn variant(_: &'static str, _: usize) -> usize {
        unimplemented!()
    }
    pub fn leaf<T>(_: T) -> usize {
        unimplemented!()
    }
}

// ---------------------------------------------------------------- reading
macro_rules! any {
    ($($name:ident)*) => {$(
        fn $name<V: de::Visitor<'de>>(self, visitor: V) -> Res<V::Value> {
            self.deserialize_any(visitor)
        }
    )*};
}
impl<'de> de::Deserializer<'de> for Doc {
    type Error = Fail;
    fn deserialize_any<V: de::Visitor<'de>>(self, visitor: V) -> Res<V::Value> {
        match given::kind(&self) {
            Kind::Null => visitor.visit_unit(),
            Kind::Bool => visitor.visit_bool(given::boolean(&self)),
            Kind::Unsigned => visitor.visit_u64(given::unsigned(&self)),
            Kind::Negative => visitor.visit_i64(given::negative(&self)),
            Kind::Float => visitor.visit_f64(given::float(&self)),
            Kind::Text => visitor.visit_str(given::text(&self)),
            Kind::List => Err(Fail),
            Kind::Record => Err(Fail),
        }
    }
    any!(deserialize_bool deserialize_i8 deserialize_i16 deserialize_i32 deserialize_i64 deserialize_u8 deserialize_u16 deserialize_u32 deserialize_u64
        deserialize_f32 deserialize_f64 deserialize_char deserialize_str deserialize_string deserialize_bytes deserialize_byte_buf deserialize_unit
        deserialize_seq deserialize_ignored_any deserialize_identifier);
    fn deserialize_option<V: de::Visitor<'de>>(self, visitor: V) -> Res<V::Value> {
        match given::kind(&self) {
            Kind::Null => visitor.visit_none(),
            _ => visitor.visit_some(self),
        }
    }
    fn deserialize_unit_struct<V: de::Visitor<'de>>(self, _: &'static str, visitor: V) -> Res<V::Value> {
        self.deserialize_any(visitor)
    }
    fn deserialize_newtype_struct<V: de::Visitor<'de>>(self, _: &'static str, visitor: V) -> Res<V::Value> {
        visitor.visit_newtype_struct(self)
    }
    fn deserialize_tuple<V: de::Visitor<'de>>(self, _: usize, visitor: V) -> Res<V::Value> {
        visitor.visit_seq(Parts { doc: self, next: 0 })
    }
    fn deserialize_tuple_struct<V: de::Visitor<'de>>(self, _: &'static str, _: usize, visitor: V) -> Res<V::Value> {
        visitor.visit_seq(Parts { doc: self, next: 0 })
    }
    fn deserialize_map<V: de::Visitor<'de>>(self, visitor: V) -> Res<V::Value> {
        visitor.visit_map(Parts { doc: self, next: 0 })
    }
    fn deserialize_struct<V: de::Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], visitor: V) -> Res<V::Value> {
        if given::as_list(&self) {
            visitor.visit_seq(Parts { doc: self, next: 0 })
        } else {
            visitor.visit_map(Parts { doc: self, next: 0 })
        }
    }
    fn deserialize_enum<V: de::Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], visitor: V) -> Res<V::Value> {
        visitor.visit_enum(Choice { doc: self })
    }
}
pub struct Parts {
    doc: Doc,
    next: usize,
}
pub struct Name(&'static str);
impl<'de> de::Deserializer<'de> for Name {
    type Error = Fail;
    fn deserialize_any<V: de::Visitor<'de>>(self, visitor: V) -> Res<V::Value> {
        visitor.visit_str(self.0)
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct
        newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any
    }
}
impl<'de> de::MapAccess<'de> for Parts {
    type Error = Fail;
    fn next_key_seed<K: de::DeserializeSeed<'de>>(&mut self, seed: K) -> Res<Option<K::Value>> {
        match given::key_at(&self.doc, self.next) {
            Some(key) => match seed.deserialize(Name(key)) {
                Ok(value) => Ok(Some(value)),
                Err(error) => Err(error),
            },
            None => Ok(None),
        }
    }
    fn next_value_seed<V: de::DeserializeSeed<'de>>(&mut self, seed: V) -> Res<V::Value> {
        let index = self.next;
        self.next = index + 1;
        seed.deserialize(given::value_at(&self.doc, index))
    }
}
impl<'de> de::SeqAccess<'de> for Parts {
    type Error = Fail;
    fn next_element_seed<V: de::DeserializeSeed<'de>>(&mut self, seed: V) -> Res<Option<V::Value>> {
        match given::key_at(&self.doc, self.next) {
            Some(_) => {
                let index = self.next;
                self.next = index + 1;
                match seed.deserialize(given::value_at(&self.doc, index)) {
                    Ok(value) => Ok(Some(value)),
                    Err(error) => Err(error),
                }
            }
            None => Ok(None),
        }
    }
}
pub struct Choice {
    doc: Doc,
}
impl<'de> de::EnumAccess<'de> for Choice {
    type Error = Fail;
    type Variant = Doc;
    fn variant_seed<V: de::DeserializeSeed<'de>>(self, seed: V) -> Res<(V::Value, Doc)> {
        match seed.deserialize(Name(given::variant_of(&self.doc))) {
            Ok(value) => Ok((value, given::content_of(&self.doc))),
            Err(error) => Err(error),
        }
    }
}
impl<'de> de::VariantAccess<'de> for Doc {
    type Error = Fail;
    fn unit_variant(self) -> Res<()> {
        Ok(())
    }
    fn newtype_variant_seed<T: de::DeserializeSeed<'de>>(self, seed: T) -> Res<T::Value> {
        seed.deserialize(self)
    }
    fn tuple_variant<V: de::Visitor<'de>>(self, _: usize, visitor: V) -> Res<V::Value> {
        visitor.visit_seq(Parts { doc: self, next: 0 })
    }
    fn struct_variant<V: de::Visitor<'de>>(self, fields: &'static [&'static str], visitor: V) -> Res<V::Value> {
        de::Deserializer::deserialize_struct(self, "", fields, visitor)
    }
}

// ---------------------------------------------------------------- writing
pub struct Sink;
pub struct Fields {
    id: usize,
    variant: Option<&'static str>,
    index: usize,
}
impl Fields {
    fn new(variant: Option<&'static str>) -> Self {
        Fields { id: given::empty(), variant, index: 0 }
    }
    fn add<T: Serialize + ?Sized>(&mut self, key: &'static str, value: &T) -> Res<()> {
        match value.serialize(Sink) {
            Ok(doc) => {
                self.id = given::put(self.id, key, doc);
                Ok(())
            }
            Err(error) => Err(error),
        }
    }
    fn finish(self) -> Res<Doc> {
        match self.variant {
            Some(name) => Ok(Doc { id: given::variant(name, self.id) }),
            None => Ok(Doc { id: self.id }),
        }
    }
}
macro_rules! leaves {
    ($($name:ident: $t:ty,)*) => {$(
        fn $name(self, value: $t) -> Res<Doc> {
            Ok(Doc { id: given::leaf(value) })
        }
    )*};
}
impl ser::Serializer for Sink {
    type Ok = Doc;
    type Error = Fail;
    type SerializeSeq = Fields;
    type SerializeTuple = Fields;
    type SerializeTupleStruct = Fields;
    type SerializeTupleVariant = Fields;
    type SerializeMap = Fields;
    type SerializeStruct = Fields;
    type SerializeStructVariant = Fields;
    leaves! {
        serialize_bool: bool, serialize_i8: i8, serialize_i16: i16, serialize_i32: i32, serialize_i64: i64, serialize_u8: u8, serialize_u16: u16,
        serialize_u32: u32, serialize_u64: u64, serialize_f32: f32, serialize_f64: f64, serialize_char: char,
        serialize_str: &str, serialize_bytes: &[u8],
    }
    fn serialize_none(self) -> Res<Doc> {
        Ok(Doc { id: given::empty() })
    }
    fn serialize_some<T: Serialize + ?Sized>(self, value: &T) -> Res<Doc> {
        value.serialize(self)
    }
    fn serialize_unit(self) -> Res<Doc> {
        Ok(Doc { id: given::empty() })
    }
    fn serialize_unit_struct(self, _: &'static str) -> Res<Doc> {
        Ok(Doc { id: given::empty() })
    }
    fn serialize_unit_variant(self, _: &'static str, _: u32, variant: &'static str) -> Res<Doc> {
        Ok(Doc { id: given::variant(variant, given::empty()) })
    }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, _: &'static str, value: &T) -> Res<Doc> {
        value.serialize(self)
    }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(self, _: &'static str, _: u32, variant: &'static str, value: &T) -> Res<Doc> {
        match value.serialize(self) {
            Ok(doc) => Ok(Doc { id: given::variant(variant, doc.id) }),
            Err(error) => Err(error),
        }
    }
    fn serialize_seq(self, _: Option<usize>) -> Res<Fields> {
        Ok(Fields::new(None))
    }
    fn serialize_tuple(self, _: usize) -> Res<Fields> {
        Ok(Fields::new(None))
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Res<Fields> {
        Ok(Fields::new(None))
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, variant: &'static str, _: usize) -> Res<Fields> {
        Ok(Fields::new(Some(variant)))
    }
    fn serialize_map(self, _: Option<usize>) -> Res<Fields> {
        Err(Fail)
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Res<Fields> {
        Ok(Fields::new(None))
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, variant: &'static str, _: usize) -> Res<Fields> {
        Ok(Fields::new(Some(variant)))
    }
    fn collect_str<T: fmt::Display + ?Sized>(self, _: &T) -> Res<Doc> {
        Err(Fail)
    }
}
impl ser::SerializeStruct for Fields {
    type Ok = Doc;
    type Error = Fail;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, key: &'static str, value: &T) -> Res<()> {
        self.add(key, value)
    }
    fn end(self) -> Res<Doc> {
        self.finish()
    }
}
impl ser::SerializeStructVariant for Fields {
    type Ok = Doc;
    type Error = Fail;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, key: &'static str, value: &T) -> Res<()> {
        self.add(key, value)
    }
    fn end(self) -> Res<Doc> {
        self.finish()
    }
}
macro_rules! unnamed {
    ($($t:ident $f:ident,)*) => {$(
        impl ser::$t for Fields {
            type Ok = Doc;
            type Error = Fail;
            fn $f<T: Serialize + ?Sized>(&mut self, value: &T) -> Res<()> {
                self.index += 1;
                self.add("", value)
            }
            fn end(self) -> Res<Doc> {
                self.finish()
            }
        }
    )*};
}
unnamed! {
    SerializeSeq serialize_element, SerializeTuple serialize_element, SerializeTupleStruct serialize_field, SerializeTupleVariant serialize_field,
}
impl ser::SerializeMap for Fields {
    type Ok = Doc;
    type Error = Fail;
    fn serialize_key<T: Serialize + ?Sized>(&mut self, _: &T) -> Res<()> {
        Err(Fail)
    }
    fn serialize_value<T: Serialize + ?Sized>(&mut self, _: &T) -> Res<()> {
        Err(Fail)
    }
    fn end(self) -> Res<Doc> {
        self.finish()
    }
}

// ---------------------------------------------------------------- entry points
pub fn read_elements(doc: Doc) -> Res<sgp4::Elements> {
    sgp4::Elements::deserialize(doc)
}
pub fn read_constants(doc: Doc) -> Res<sgp4::Constants> {
    sgp4::Constants::deserialize(doc)
}
pub fn read_classification(doc: Doc) -> Res<sgp4::Classification> {
    sgp4::Classification::deserialize(doc)
}
pub fn write_elements(elements: &sgp4::Elements) -> Res<Doc> {
    elements.serialize(Sink)
}
pub fn write_constants(constants: &sgp4::Constants) -> Res<Doc> {
    constants.serialize(Sink)
}
