//! Enumerated values map one to one onto their standard tokens.
use crate::{util::*, v};
use icalendar::*;
use std::convert::TryFrom;
use std::str::FromStr;

fn class_of(s: &str) -> Option<Class> { let mut e = Event::new(); e.add_property("CLASS", s); e.get_class() }
fn event_status_of(s: &str) -> Option<EventStatus> { let mut e = Event::new(); e.add_property("STATUS", s); e.get_status() }
fn todo_status_of(s: &str) -> Option<TodoStatus> { let mut e = Todo::new(); e.add_property("STATUS", s); e.get_status() }

macro_rules! tokens { ($name:ident, $w:expr, $r:expr, $($x:expr => $s:expr),*) => {
    pub mod $name { use super::*;
        pub fn written() { $( v::check(concat!("written as ", $s), $w($x) == $s); )* }
        pub fn read() { $( v::check(concat!("read from ", $s), $r($s) == Some($x)); )* }
        pub fn others() {
            let s = v::text("s", "any");
            let known = [$($s),*];
            for k in known { v::assume(s != k); }
            v::check("any other string gives no value", $r(&s) == None);
        }
    } } }
fn class_token(c: Class) -> String { Property::from(c).value().to_string() }
fn event_token(c: EventStatus) -> String { Property::from(c).value().to_string() }
fn todo_token(c: TodoStatus) -> String { Property::from(c).value().to_string() }
fn type_token(c: ValueType) -> String { Parameter::from(c).value().to_string() }
fn type_of(s: &str) -> Option<ValueType> { ValueType::from_str(s).ok() }
fn related_token(c: Related) -> String { Parameter::from(c).value().to_string() }
fn related_of(s: &str) -> Option<Related> { Related::from_str(s).ok() }
tokens!(class, class_token, class_of, Class::Public => "PUBLIC", Class::Private => "PRIVATE", Class::Confidential => "CONFIDENTIAL");
tokens!(event_status, event_token, event_status_of, EventStatus::Tentative => "TENTATIVE", EventStatus::Confirmed => "CONFIRMED", EventStatus::Cancelled => "CANCELLED");
tokens!(todo_status, todo_token, todo_status_of, TodoStatus::NeedsAction => "NEEDS-ACTION", TodoStatus::Completed => "COMPLETED", TodoStatus::InProcess => "IN-PROCESS", TodoStatus::Cancelled => "CANCELLED");
tokens!(related, related_token, related_of, Related::Start => "START", Related::End => "END");
tokens!(value_type, type_token, type_of,
    ValueType::Binary => "BINARY", ValueType::Boolean => "BOOLEAN", ValueType::CalAddress => "CAL-ADDRESS", ValueType::Date => "DATE",
    ValueType::DateTime => "DATE-TIME", ValueType::Duration => "DURATION", ValueType::Float => "FLOAT", ValueType::Integer => "INTEGER",
    ValueType::Period => "PERIOD", ValueType::Recur => "RECUR", ValueType::Text => "TEXT", ValueType::Time => "TIME",
    ValueType::Uri => "URI", ValueType::UtcOffset => "UTC-OFFSET");
