//! The parsed tree survives serde serialization. The formats are two minimal ones over serde's data
//! model: structs as maps of named fields (like JSON), and structs as sequences (like bincode).
use crate::{util::*, v};
use icalendar::parser::{self, ParseString};
use serde::{de, ser, Deserialize, Serialize};
use std::fmt;

#[derive(Clone)]
enum Val { Nil, Bool(bool), Str(String), Seq(Vec<Val>), Map(Vec<(String, Val)>) }
struct Bad;
impl fmt::Debug for Bad { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("bad") } }
impl fmt::Display for Bad { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("bad") } }
impl std::error::Error for Bad {}
impl ser::Error for Bad { fn custom<T: fmt::Display>(_: T) -> Bad { Bad } }
impl de::Error for Bad { fn custom<T: fmt::Display>(_: T) -> Bad { Bad } }

struct Ser { named: bool }
struct SerSeq { named: bool, all: Vec<Val> }
struct SerMap { named: bool, key: Option<Val>, all: Vec<(String, Val)> }
fn put<T: Serialize + ?Sized>(named: bool, v: &T) -> Result<Val, Bad> { v.serialize(Ser { named }) }
impl ser::Serializer for Ser {
    type Ok = Val;
    type Error = Bad;
    type SerializeSeq = SerSeq;
    type SerializeTuple = SerSeq;
    type SerializeTupleStruct = SerSeq;
    type SerializeTupleVariant = ser::Impossible<Val, Bad>;
    type SerializeMap = SerMap;
    type SerializeStruct = SerMap;
    type SerializeStructVariant = ser::Impossible<Val, Bad>;
    fn serialize_bool(self, v: bool) -> Result<Val, Bad> { Ok(Val::Bool(v)) }
    fn serialize_i8(self, _: i8) -> Result<Val, Bad> { Err(Bad) }
    fn serialize_i16(self, _: i16) -> Result<Val, Bad> { Err(Bad) }
    fn serialize_i32(self, _: i32) -> Result<Val, Bad> { Err(Bad) }
    fn serialize_i64(self, _: i64) -> Result<Val, Bad> { Err(Bad) }
    fn serialize_u8(self, _: u8) -> Result<Val, Bad> { Err(Bad) }
    fn serialize_u16(self, _: u16) -> Result<Val, Bad> { Err(Bad) }
    fn serialize_u32(self, _: u32) -> Result<Val, Bad> { Err(Bad) }
    fn serialize_u64(self, _: u64) -> Result<Val, Bad> { Err(Bad) }
    fn serialize_f32(self, _: f32) -> Result<Val, Bad> { Err(Bad) }
    fn serialize_f64(self, _: f64) -> Result<Val, Bad> { Err(Bad) }
    fn serialize_char(self, v: char) -> Result<Val, Bad> { Ok(Val::Str(v.to_string())) }
    fn serialize_str(self, v: &str) -> Result<Val, Bad> { Ok(Val::Str(v.to_string())) }
    fn serialize_bytes(self, _: &[u8]) -> Result<Val, Bad> { Err(Bad) }
    fn serialize_none(self) -> Result<Val, Bad> { Ok(Val::Nil) }
    fn serialize_some<T: Serialize + ?Sized>(self, v: &T) -> Result<Val, Bad> {
        if self.named { put(true, v) } else { Ok(Val::Seq(vec![put(false, v)?])) }
    }
    fn serialize_unit(self) -> Result<Val, Bad> { Ok(Val::Nil) }
    fn serialize_unit_struct(self, _: &'static str) -> Result<Val, Bad> { Ok(Val::Nil) }
    fn serialize_unit_variant(self, _: &'static str, _: u32, v: &'static str) -> Result<Val, Bad> { Ok(Val::Str(v.to_string())) }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, _: &'static str, v: &T) -> Result<Val, Bad> { put(self.named, v) }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(self, _: &'static str, _: u32, n: &'static str, v: &T) -> Result<Val, Bad> { Ok(Val::Map(vec![(n.to_string(), put(self.named, v)?)])) }
    fn serialize_seq(self, _: Option<usize>) -> Result<SerSeq, Bad> { Ok(SerSeq { named: self.named, all: Vec::new() }) }
    fn serialize_tuple(self, _: usize) -> Result<SerSeq, Bad> { Ok(SerSeq { named: self.named, all: Vec::new() }) }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<SerSeq, Bad> { Ok(SerSeq { named: self.named, all: Vec::new() }) }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeTupleVariant, Bad> { Err(Bad) }
    fn serialize_map(self, _: Option<usize>) -> Result<SerMap, Bad> { Ok(SerMap { named: self.named, key: None, all: Vec::new() }) }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<SerMap, Bad> { Ok(SerMap { named: self.named, key: None, all: Vec::new() }) }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeStructVariant, Bad> { Err(Bad) }
    fn is_human_readable(&self) -> bool { self.named }
}
macro_rules! seqs { ($($t:ident: $m:ident;)*) => { $( impl ser::$t for SerSeq {
    type Ok = Val;
    type Error = Bad;
    fn $m<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Bad> { let x = put(self.named, v)?; self.all.push(x); Ok(()) }
    fn end(self) -> Result<Val, Bad> { Ok(Val::Seq(self.all)) }
} )* } }
seqs! { SerializeSeq: serialize_element; SerializeTuple: serialize_element; SerializeTupleStruct: serialize_field; }
impl ser::SerializeStruct for SerMap {
    type Ok = Val;
    type Error = Bad;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, k: &'static str, v: &T) -> Result<(), Bad> { let x = put(self.named, v)?; self.all.push((k.to_string(), x)); Ok(()) }
    fn end(self) -> Result<Val, Bad> {
        if self.named { return Ok(Val::Map(self.all)); }
        let mut l = Vec::new();
        for x in self.all { l.push(x.1); }
        Ok(Val::Seq(l))
    }
}
impl ser::SerializeMap for SerMap {
    type Ok = Val;
    type Error = Bad;
    fn serialize_key<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Bad> { self.key = Some(put(self.named, v)?); Ok(()) }
    fn serialize_value<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Bad> {
        let x = put(self.named, v)?;
        match self.key.take() { Some(Val::Str(k)) => { self.all.push((k, x)); Ok(()) } _ => Err(Bad) }
    }
    fn end(self) -> Result<Val, Bad> { Ok(Val::Map(self.all)) }
}

/// owned: whether texts are handed over, or lent for the moment
struct De { named: bool, owned: bool, v: Val }
struct DeSeq { named: bool, owned: bool, l: std::vec::IntoIter<Val> }
struct DeMap { named: bool, owned: bool, l: std::vec::IntoIter<(String, Val)>, next: Option<Val> }
impl<'de> de::SeqAccess<'de> for DeSeq {
    type Error = Bad;
    fn next_element_seed<T: de::DeserializeSeed<'de>>(&mut self, s: T) -> Result<Option<T::Value>, Bad> {
        match self.l.next() { Some(v) => Ok(Some(s.deserialize(De { named: self.named, owned: self.owned, v })?)), None => Ok(None) }
    }
}
impl<'de> de::MapAccess<'de> for DeMap {
    type Error = Bad;
    fn next_key_seed<T: de::DeserializeSeed<'de>>(&mut self, s: T) -> Result<Option<T::Value>, Bad> {
        match self.l.next() { Some((k, v)) => { self.next = Some(v); Ok(Some(s.deserialize(De { named: self.named, owned: self.owned, v: Val::Str(k) })?)) } None => Ok(None) }
    }
    fn next_value_seed<T: de::DeserializeSeed<'de>>(&mut self, s: T) -> Result<T::Value, Bad> {
        match self.next.take() { Some(v) => s.deserialize(De { named: self.named, owned: self.owned, v }), None => Err(Bad) }
    }
}
impl De {
    fn any<'de, V: de::Visitor<'de>>(self, vis: V) -> Result<V::Value, Bad> {
        match self.v {
            Val::Nil => vis.visit_unit(),
            Val::Bool(b) => vis.visit_bool(b),
            Val::Str(s) => if self.owned { vis.visit_string(s) } else { vis.visit_str(&s) },
            Val::Seq(l) => vis.visit_seq(DeSeq { named: self.named, owned: self.owned, l: l.into_iter() }),
            Val::Map(l) => vis.visit_map(DeMap { named: self.named, owned: self.owned, l: l.into_iter(), next: None }),
        }
    }
}
macro_rules! anys { ($($m:ident)*) => { $( fn $m<V: de::Visitor<'de>>(self, vis: V) -> Result<V::Value, Bad> { self.any(vis) } )* } }
impl<'de> de::Deserializer<'de> for De {
    type Error = Bad;
    anys! { deserialize_any deserialize_bool deserialize_i8 deserialize_i16 deserialize_i32 deserialize_i64 deserialize_u8 deserialize_u16 deserialize_u32 deserialize_u64 deserialize_f32 deserialize_f64
        deserialize_char deserialize_str deserialize_string deserialize_bytes deserialize_byte_buf deserialize_unit deserialize_seq deserialize_map deserialize_identifier deserialize_ignored_any }
    fn deserialize_option<V: de::Visitor<'de>>(self, vis: V) -> Result<V::Value, Bad> {
        match self.v {
            Val::Nil => vis.visit_none(),
            Val::Seq(mut l) if !self.named => match l.pop() { Some(v) => vis.visit_some(De { named: false, owned: self.owned, v }), None => Err(Bad) },
            v => vis.visit_some(De { named: self.named, owned: self.owned, v }),
        }
    }
    fn deserialize_unit_struct<V: de::Visitor<'de>>(self, _: &'static str, vis: V) -> Result<V::Value, Bad> { self.any(vis) }
    fn deserialize_newtype_struct<V: de::Visitor<'de>>(self, _: &'static str, vis: V) -> Result<V::Value, Bad> { vis.visit_newtype_struct(self) }
    fn deserialize_tuple<V: de::Visitor<'de>>(self, _: usize, vis: V) -> Result<V::Value, Bad> { self.any(vis) }
    fn deserialize_tuple_struct<V: de::Visitor<'de>>(self, _: &'static str, _: usize, vis: V) -> Result<V::Value, Bad> { self.any(vis) }
    fn deserialize_struct<V: de::Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], vis: V) -> Result<V::Value, Bad> { self.any(vis) }
    fn deserialize_enum<V: de::Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], _: V) -> Result<V::Value, Bad> { Err(Bad) }
    fn is_human_readable(&self) -> bool { self.named }
}
fn back<T: Serialize + for<'de> Deserialize<'de>>(named: bool, v: &T) -> Option<T> {
    let x = match put(named, v) { Ok(x) => x, Err(_) => return None };
    T::deserialize(De { named, owned: true, v: x }).ok()
}
/// the same with the fields of every struct in reverse order, which named fields allow
fn turned(v: Val) -> Val {
    match v {
        Val::Map(l) => { let mut m = Vec::new(); for (k, x) in l { m.insert(0, (k, turned(x))); } Val::Map(m) }
        Val::Seq(l) => { let mut m = Vec::new(); for x in l { m.push(turned(x)); } Val::Seq(m) }
        v => v,
    }
}
fn both<T: Serialize + for<'de> Deserialize<'de> + PartialEq>(v: &T) {
    v::check("equal after a format with named fields", back(true, v).as_ref() == Some(v));
    v::check("equal after a format without names", back(false, v).as_ref() == Some(v));
    match put(true, v) {
        Ok(x) => v::check("equal with the fields in another order", T::deserialize(De { named: true, owned: false, v: turned(x) }).ok().as_ref() == Some(v)),
        Err(_) => v::check("it is serialized", false),
    }
    for named in [true, false] {
        match put(named, v) {
            Ok(x) => v::check("equal after a format that lends its texts", T::deserialize(De { named, owned: false, v: x }).ok().as_ref() == Some(v)),
            Err(_) => v::check("it is serialized", false),
        }
    }
}
fn t(id: &'static str) -> ParseString<'static> { ParseString::from(v::text(id, "any{0,1000}")) }
fn par(k: &'static str, val: Option<ParseString<'static>>) -> parser::Parameter<'static> { parser::Parameter { key: t(k), val } }
fn prop(k: &'static str, w: &'static str, params: Vec<parser::Parameter<'static>>) -> parser::Property<'static> { parser::Property { name: t(k), val: t(w), params } }
fn comp(k: &'static str, properties: Vec<parser::Property<'static>>, components: Vec<parser::Component<'static>>) -> parser::Component<'static> { parser::Component { name: t(k), properties, components } }

each! {
    text => { both(&t("a")); }
    text_borrowed => {
        let s = v::text("a", "any{0,1000}");
        let p = ParseString::from(s.as_str());
        v::check("equal after a format with named fields", back(true, &p.to_owned()) == Some(p.clone().into_owned()));
        v::check("the text is kept", match back(true, &p.to_owned()) { Some(q) => q.as_str() == s, None => false });
    }
    parameter => { both(&par("k", Some(t("v")))); }
    parameter_without_value => { both(&par("k", None)); }
    property => { both(&prop("k", "v", vec![])); }
    property_with_parameter => { both(&prop("k", "v", vec![par("a", Some(t("b")))])); }
    property_with_parameters => { both(&prop("k", "v", vec![par("a", Some(t("b"))), par("c", None), par("d", Some(t("e")))])); }
    component_empty => { both(&comp("n", vec![], vec![])); }
    component => { both(&comp("n", vec![prop("k", "v", vec![]), prop("l", "w", vec![par("a", Some(t("b")))])], vec![])); }
    component_nested => { both(&comp("n", vec![prop("k", "v", vec![])], vec![comp("m", vec![prop("l", "w", vec![])], vec![comp("o", vec![], vec![])]), comp("p", vec![], vec![])])); }
    calendar => {
        let c = parser::Calendar { properties: vec![prop("k", "v", vec![par("a", Some(t("b")))]), prop("l", "w", vec![])], components: vec![comp("n", vec![prop("m", "x", vec![])], vec![]), comp("o", vec![], vec![])] };
        for named in [true, false] {
            match back(named, &c) {
                Some(d) => v::check("equal after serialization", d.properties == c.properties && d.components == c.components),
                None => v::check("it is deserialized", false),
            }
        }
    }
    calendar_empty => {
        let c = parser::Calendar { properties: vec![], components: vec![] };
        for named in [true, false] {
            match back(named, &c) {
                Some(d) => v::check("equal after serialization", d.properties.is_empty() && d.components.is_empty()),
                None => v::check("it is deserialized", false),
            }
        }
    }
    read => {
        let s = format!("BEGIN:VCALENDAR\r\nX-A:{}\r\nBEGIN:VEVENT\r\nSUMMARY;A={};B:{}\r\nBEGIN:VALARM\r\nEND:VALARM\r\nEND:VEVENT\r\nEND:VCALENDAR\r\n", v::text("a", "plain{0,20}"), v::text("p", "word{1,20}"), v::text("v", "plain{0,20}"));
        match parser::read_calendar(&s) {
            Ok(c) => for named in [true, false] {
                match put(named, &c) {
                    Ok(x) => match parser::Calendar::deserialize(De { named, owned: true, v: x }) {
                        Ok(d) => v::check("equal after serialization", d.properties == c.properties && d.components == c.components && d.to_string() == c.to_string()),
                        Err(_) => v::check("it is deserialized", false),
                    },
                    Err(_) => v::check("it is serialized", false),
                }
            },
            Err(_) => v::check("it is parsed", false),
        }
    }
    // every combination of empty parts
    combinations => {
        let params = if v::any("two params") { vec![par("a", if v::any("value") { Some(t("b")) } else { None }), par("c", Some(ParseString::from("")))] } else if v::any("one param") { vec![par("a", if v::any("value") { Some(t("b")) } else { None })] } else { vec![] };
        let p = prop("k", "v", params);
        let child = if v::any("child") { vec![comp("m", if v::any("its property") { vec![p.clone()] } else { vec![] }, if v::any("its child") { vec![comp("o", vec![], vec![])] } else { vec![] })] } else { vec![] };
        let c = comp("n", if v::any("property") { vec![p.clone(), p] } else { vec![] }, child);
        both(&c);
    }
    many => {
        let (mut l, mut k, w) = (vec![], vec![], t("v"));
        for i in 0..40 { l.push(parser::Property { name: ParseString::from(format!("X-{}", i)), val: w.clone(), params: vec![parser::Parameter { key: ParseString::from("A"), val: None }; 2] }); }
        for i in 0..20 { k.push(parser::Component { name: ParseString::from(format!("X-{}", i)), properties: vec![], components: vec![] }); }
        both(&comp("n", l, k));
    }
    equal_parts => {
        let k = t("k");
        let w = parser::Parameter { key: k.clone(), val: Some(k.clone()) };
        let p = parser::Property { name: k.clone(), val: k.clone(), params: vec![w.clone(), w, parser::Parameter { key: k.clone(), val: None }] };
        let c = parser::Component { name: k.clone(), properties: vec![], components: vec![] };
        both(&parser::Component { name: k, properties: vec![p.clone(), p.clone(), p], components: vec![c.clone(), c] });
    }
    deep => {
        let (mut c, p) = (comp("n", vec![], vec![]), prop("k", "v", vec![]));
        for _ in 0..12 { c = parser::Component { name: ParseString::from("X-N"), properties: vec![p.clone()], components: vec![c] }; }
        both(&c);
    }
    // texts as they are read from a document, escapes and all
    read_texts => {
        let s = format!("BEGIN:VEVENT\r\nSUMMARY:{}\\n{}\r\nX-A;P=\"{}:\";Q=;R=\"\":{}\r\nX-B\r\nEND:VEVENT\r\n", v::text("a", "plain{0,10}"), v::text("b", "plain{0,10}"), v::text("p", "word{0,20}"), v::text("v", "word{0,20}"));
        match parser::Component::try_from(s.as_str()) { Ok(c) => both(&c.to_owned()), Err(_) => v::check("it is parsed", false) }
    }
    // fields of later versions are skipped, a missing field is no panic
    unknown_field => {
        let p = prop("k", "v", vec![]);
        match put(true, &p) {
            Ok(Val::Map(mut l)) => {
                l.push(("later".to_string(), Val::Nil));
                let _ = parser::Property::deserialize(De { named: true, owned: false, v: Val::Map(l) });
                let _ = parser::Property::deserialize(De { named: true, owned: false, v: Val::Map(vec![]) });
                v::check("no panic", true);
            }
            _ => v::check("it is serialized", true),
        }
    }
}
