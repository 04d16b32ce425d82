//! Every component has exactly one DTSTAMP and one UID.
use crate::{util::*, v};
use chrono::Duration;
use icalendar::*;

/// exactly one line of each of its own, before any child
fn one_each(out: &str, stamp: Option<&str>, uid: Option<&str>) {
    match lines(out) {
        None => v::check("every line ends with CRLF", false),
        Some(all) => {
            let mut depth = 0;
            let (mut stamps, mut uids) = (0, 0);
            for l in all.iter() {
                if l.starts_with("BEGIN:") { depth += 1; }
                if l.starts_with("END:") { depth -= 1; }
                if depth == 1 && (l.starts_with("DTSTAMP:") || l.starts_with("DTSTAMP;")) {
                    stamps += 1;
                    if let Some(x) = stamp { v::check("the given DTSTAMP is written unchanged", l == x); }
                }
                if depth == 1 && (l.starts_with("UID:") || l.starts_with("UID;")) {
                    uids += 1;
                    if let Some(x) = uid { v::check("the given UID is written unchanged", l == x); }
                }
            }
            v::check("exactly one DTSTAMP", stamps == 1);
            v::check("exactly one UID", uids == 1);
        }
    }
}
fn child() -> Todo {
    let mut t = Todo::new();
    t.append_property(Property::new("DTSTAMP", "CHILD"));
    t.append_property(Property::new("UID", "CHILD"));
    t
}
macro_rules! kinds { ($($m:ident: $t:ty;)*) => { $( pub mod $m { use super::*;
    pub fn nothing_given() {
        one_each(&<$t>::new().try_into_string().unwrap(), None, None);
        one_each(&<$t>::default().try_into_string().unwrap(), None, None);
    }
    pub fn other_properties() {
        let (k, s) = (v::text("k", "uname{1,20}"), v::text("s", "word{0,40}"));
        v::assume(k != "DTSTAMP" && k != "UID" && k != "BEGIN" && k != "END");
        let mut c = <$t>::new();
        c.append_property(Property::new(&k, &s));
        c.add_multi_property("ATTENDEE", &s);
        c.append_component(child());
        one_each(&c.try_into_string().unwrap(), None, None);
        one_each(&c.done().try_into_string().unwrap(), None, None);
    }
    pub fn stamp_given() {
        let s = v::text("s", "word{0,40}");
        let mut c = <$t>::new();
        c.append_property(Property::new("DTSTAMP", &s));
        c.append_component(child());
        one_each(&c.try_into_string().unwrap(), Some(&format!("DTSTAMP:{}", s)), None);
        one_each(&c.done().try_into_string().unwrap(), Some(&format!("DTSTAMP:{}", s)), None);
    }
    pub fn stamp_with_parameter() {
        let (s, q) = (v::text("s", "word{0,20}"), v::text("q", "word{1,20}"));
        let mut c = <$t>::new();
        c.append_property(Property::new("DTSTAMP", &s).add_parameter("X-P", &q).done());
        c.append_property(Property::new("UID", &s).add_parameter("X-P", &q).done());
        one_each(&c.try_into_string().unwrap(), Some(&format!("DTSTAMP;X-P={}:{}", q, s)), Some(&format!("UID;X-P={}:{}", q, s)));
    }
    pub fn uid_given() {
        let s = v::text("s", "word{0,40}");
        let mut c = <$t>::new();
        c.uid(&s);
        c.append_component(child());
        one_each(&c.try_into_string().unwrap(), None, Some(&format!("UID:{}", s)));
        one_each(&c.done().try_into_string().unwrap(), None, Some(&format!("UID:{}", s)));
    }
    pub fn both_given() {
        let s = v::text("s", "word{0,40}");
        let mut c = <$t>::new();
        c.uid(&s).timestamp(v::utc("t"));
        let stamp = format!("DTSTAMP:{}", c.property_value("DTSTAMP").unwrap_or("none"));
        let out = c.try_into_string().unwrap();
        one_each(&out, Some(&stamp), Some(&format!("UID:{}", s)));
        v::check("serializing again gives the same", c.try_into_string().ok() == Some(out));
    }
    pub fn replaced() {
        let (s, t) = (v::text("s", "word{0,40}"), v::text("t", "word{0,40}"));
        let mut c = <$t>::new();
        c.uid(&s).uid(&t);
        c.append_property(Property::new("DTSTAMP", &s));
        c.append_property(Property::new("DTSTAMP", &t));
        one_each(&c.try_into_string().unwrap(), Some(&format!("DTSTAMP:{}", t)), Some(&format!("UID:{}", t)));
    }
    pub fn in_a_calendar() {
        let s = v::text("s", "word{0,40}");
        let mut cal = Calendar::empty();
        cal.push(<$t>::new().uid(&s).done());
        let out = cal.to_string();
        match out.strip_prefix("BEGIN:VCALENDAR\r\n") {
            Some(x) => match x.strip_suffix("END:VCALENDAR\r\n") {
                Some(x) => one_each(x, None, Some(&format!("UID:{}", s))),
                None => v::check("framed", false),
            },
            None => v::check("framed", false),
        }
    }
    pub fn alarm_inside() {
        let c = <$t>::new().append_component(Alarm::audio(Duration::minutes(3))).done();
        let out = c.try_into_string().unwrap();
        one_each(&out, None, None);
        match (out.find("BEGIN:VALARM"), out.find("END:V")) {
            (Some(x), Some(_)) => match out[x..].find("END:VALARM\r\n") {
                Some(y) => one_each(&out[x..x + y + 12], None, None),
                None => v::check("the alarm is closed", false),
            },
            _ => v::check("there is an alarm", false),
        }
    }
    pub fn children_do_not_count() {
        let mut c = <$t>::new();
        let mut inner = child();
        inner.append_component(child());
        c.append_component(inner);
        c.append_component(child());
        one_each(&c.try_into_string().unwrap(), None, None);
        one_each(&c.done().try_into_string().unwrap(), None, None);
    }
} )* } }
kinds! { event: Event; todo: Todo; venue: Venue; }

/// read from a document
#[cfg(feature = "full")] fn read_back(kind: &str, text: &str, stamp: Option<&str>, uid: Option<&str>) {
    match text.parse::<Calendar>() {
        Ok(cal) => {
            v::check("one component is read", cal.components.len() == 1);
            let out = cal.to_string();
            match out.strip_prefix("BEGIN:VCALENDAR\r\n") {
                Some(x) => match x.strip_suffix("END:VCALENDAR\r\n") {
                    Some(x) => {
                        v::check("the kind is kept", x.starts_with(&format!("BEGIN:{}\r\n", kind)));
                        one_each(x, stamp, uid)
                    }
                    None => v::check("framed", false),
                },
                None => v::check("framed", false),
            }
        }
        Err(_) => v::check("the document is read", false),
    }
}
macro_rules! parsed { ($($m:ident: $k:expr;)*) => { $( pub mod $m { use super::*;
    pub fn with_both() {
        let (s, t) = (v::text("s", "word{1,30}"), v::text("t", "word{1,30}"));
        read_back($k, &format!("BEGIN:VCALENDAR\nBEGIN:{}\nUID:{}\nDTSTAMP:{}\nEND:{}\nEND:VCALENDAR\n", $k, s, t, $k), Some(&format!("DTSTAMP:{}", t)), Some(&format!("UID:{}", s)));
    }
    pub fn with_uid() {
        let s = v::text("s", "word{1,30}");
        read_back($k, &format!("BEGIN:VCALENDAR\nBEGIN:{}\nUID:{}\nEND:{}\nEND:VCALENDAR\n", $k, s, $k), None, Some(&format!("UID:{}", s)));
    }
    /// with parameters and spaces
    pub fn as_read() {
        let s = v::text("s", "word{0,9}");
        let x = if v::any("space") { " " } else { "" };
        read_back($k, &format!("BEGIN:VCALENDAR\nBEGIN:{}\nUID;X-P=q:{x}{s}{x}\nDTSTAMP;X-Q=r:{x}{s}{x}\nEND:{}\nEND:VCALENDAR\n", $k, $k), Some(&format!("DTSTAMP;X-Q=r:{x}{s}{x}")), Some(&format!("UID;X-P=q:{x}{s}{x}")));
        read_back($k, &format!("BEGIN:VCALENDAR\nBEGIN:{}\nDTSTAMP:{x}{s}{x}\nUID:{x}{s}{x}\nEND:{}\nEND:VCALENDAR\n", $k, $k), Some(&format!("DTSTAMP:{x}{s}{x}")), Some(&format!("UID:{x}{s}{x}")));
    }
    pub fn with_stamp() {
        let s = v::text("s", "word{1,30}");
        read_back($k, &format!("BEGIN:VCALENDAR\nBEGIN:{}\nDTSTAMP;X-P=q:{}\nBEGIN:VALARM\nUID:5\nEND:VALARM\nEND:{}\nEND:VCALENDAR\n", $k, s, $k), Some(&format!("DTSTAMP;X-P=q:{}", s)), None);
    }
    pub fn with_none() {
        read_back($k, &format!("BEGIN:VCALENDAR\nBEGIN:{}\nX-Y:z\nEND:{}\nEND:VCALENDAR\n", $k, $k), None, None);
    }
} )* } }
#[cfg(feature = "full")] parsed! { read_event: "VEVENT"; read_todo: "VTODO"; read_venue: "VVENUE"; read_other: "VJOURNAL"; }
/// with properties of every name, single and repeated, full and empty
macro_rules! crowds { ($($n:ident: $t:ty;)*) => { pub mod crowds { use super::*; $( pub fn $n() {
    let s = v::text("s", "word{0,9}");
    let (stamp, uid) = (v::any("stamp"), v::any("uid"));
    let mut c = <$t>::new();
    for k in NAMES { if k != "UID" && k != "DTSTAMP" { c.add_property(k, &*s); } }
    for k in MULTI { c.add_multi_property(k, &*s); c.add_multi_property(k, ""); }
    if stamp { c.add_property("DTSTAMP", &*s); }
    if uid { c.add_property("UID", &*s); }
    let (a, b) = (format!("DTSTAMP:{s}"), format!("UID:{s}"));
    one_each(&c.to_string(), if stamp { Some(&a) } else { None }, if uid { Some(&b) } else { None });
} )* } } }
crowds! { event: Event; todo: Todo; venue: Venue; }
/// next to one property of any name, and a repeated one
pub fn next_to() {
    let k = a_name();
    let l = MULTI[k.len() % MULTI.len()];
    v::assume(k != "UID" && k != "DTSTAMP");
    let mut c = Event::new();
    c.add_property(k, "x");
    c.add_multi_property(l, "y");
    one_each(&c.to_string(), None, None);
    c.add_property("UID", "");
    one_each(&c.to_string(), None, Some("UID:"));
    c.add_property("DTSTAMP", "");
    one_each(&c.to_string(), Some("DTSTAMP:"), Some("UID:"));
}
pub fn next_to_repeated() {
    let l = MULTI[v::pick("multi", MULTI.len())];
    let mut c = Event::new();
    c.add_multi_property(l, "y");
    one_each(&c.to_string(), None, None);
    c.add_property("UID", "");
    one_each(&c.to_string(), None, Some("UID:"));
    c.add_property("DTSTAMP", "");
    one_each(&c.to_string(), Some("DTSTAMP:"), Some("UID:"));
}
/// whatever the given texts look like
macro_rules! odd { ($($n:ident: $x:expr;)*) => { pub mod odd { use super::*; $( pub fn $n() {
    let mut c = Todo::new();
    c.add_property("UID", $x).add_property("DTSTAMP", $x);
    one_each(&c.to_string(), Some(&format!("DTSTAMP:{}", $x)), Some(&format!("UID:{}", $x)));
} )* } } }
odd! { empty: ""; space: " "; zero: "0"; time: "20200101T000000Z"; local: "20200101T000000"; date: "20200101"; uuid: "123e4567-e89b-12d3-a456-426614174000"; nil: "00000000-0000-0000-0000-000000000000"; mail: "1@example.com"; word: "UID:"; epoch: "19700101T000000Z"; }

/// every kind, read from text, in a calendar, on its own and inside another
#[cfg(feature = "full")] pub fn every_kind() {
    let (k, stamp, uid) = (a_kind(), v::any("stamp"), v::any("uid"));
    let inside = format!("BEGIN:{k}\nX-Y:z\n{}{}END:{k}\n", if stamp { "DTSTAMP:1\n" } else { "" }, if uid { "UID:2\n" } else { "" });
    let (a, b) = (if stamp { Some("DTSTAMP:1") } else { None }, if uid { Some("UID:2") } else { None });
    read_back(k, &format!("BEGIN:VCALENDAR\n{inside}END:VCALENDAR\n"), a, b);
    match inside.parse::<CalendarComponent>() {
        Ok(CalendarComponent::Event(e)) => one_each(&e.to_string(), a, b),
        Ok(CalendarComponent::Todo(e)) => one_each(&e.to_string(), a, b),
        Ok(CalendarComponent::Venue(e)) => one_each(&e.to_string(), a, b),
        Ok(CalendarComponent::Other(e)) => one_each(&e.to_string(), a, b),
        _ => v::check("the component is read", false),
    }
    let outer = format!("BEGIN:VEVENT\nUID:o\nDTSTAMP:o\n{inside}END:VEVENT\n");
    match outer.parse::<CalendarComponent>() {
        Ok(CalendarComponent::Event(e)) => one_each(&e.components()[0].to_string(), a, b),
        _ => v::check("the component is read", false),
    }
}
