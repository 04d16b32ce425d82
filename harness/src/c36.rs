//! A setter changes its own property and nothing else, so the order of setters does not matter.
use crate::{util::*, v};
use chrono::{DateTime, Duration, NaiveDate, NaiveDateTime, Utc};
use icalendar::*;

/// what the setters are given
#[derive(Clone)]
struct In { s: String, t: DateTime<Utc>, n: NaiveDateTime, d: NaiveDate, q: u32, p: u8 }
fn first() -> In { In { s: v::text("s", "any"), t: v::utc("t"), n: v::ndt("n"), d: v::date("d"), q: v::u32("q", 0, 9), p: v::u8("p", 0, 100) } }
fn second() -> In { In { s: v::text("s2", "any"), t: v::utc("t2"), n: v::ndt("n2"), d: v::date("d2"), q: v::u32("q2", 0, 9), p: v::u8("p2", 0, 100) } }

macro_rules! setters { ($m:ident: $c:ty; $($keys:expr => |$a:ident, $i:ident| $e:expr;)*) => { pub mod $m { use super::*;
    const KEYS: &[&[&str]] = &[$($keys),*];
    fn set(c: &mut $c, at: usize, i: &In) {
        let mut n = 0;
        $( if n == at { let ($a, $i) = (&mut *c, i); let _ = $e; return; } n += 1; )*
    }
    fn filled(i: &In) -> $c {
        let mut c = <$c>::default();
        c.append_property(prop1("X-THERE", "x", "P", "q")).append_multi_property(Property::new("COMMENT", "x")).append_component(Todo::new());
        for at in 0..KEYS.len() { set(&mut c, at, i); }
        // the standard's other properties are there as well
        for name in NAMES { if !c.properties().contains_key(name) { c.add_property(name, "x"); } }
        c
    }
    /// each sets the properties it is for, no other
    pub fn on_an_empty_one() {
        let i = first();
        for at in 0..KEYS.len() {
            let mut c = <$c>::default();
            set(&mut c, at, &i);
            v::check("it sets its properties and no more", c.properties().len() == KEYS[at].len() && c.multi_properties().is_empty() && c.components().is_empty());
            for k in KEYS[at] { v::check("under its name", c.properties().get(*k).map_or(false, |p| p.key() == *k)); }
        }
    }
    pub fn on_a_full_one() {
        let (i, j) = (first(), second());
        let before = filled(&i);
        for at in 0..KEYS.len() {
            let mut c = before.clone();
            set(&mut c, at, &j);
            let mut alone = <$c>::default();
            set(&mut alone, at, &j);
            v::check("no property is added or lost", c.properties().len() == before.properties().len());
            v::check("repeated properties and children stay", c.multi_properties() == before.multi_properties() && c.components() == before.components());
            for (k, p) in c.properties() {
                if KEYS[at].contains(&k.as_str()) { v::check("its property is as if set alone", alone.properties().get(k) == Some(p)); }
                else { v::check("every other property stays", before.properties().get(k) == Some(p)); }
            }
        }
    }
    pub fn in_any_order() {
        let i = first();
        for a in 0..KEYS.len() { for b in 0..a {
            if KEYS[a].iter().any(|k| KEYS[b].contains(k)) { continue; }
            let (mut c, mut d) = (<$c>::default(), <$c>::default());
            set(&mut c, a, &i); set(&mut c, b, &i);
            set(&mut d, b, &i); set(&mut d, a, &i);
            v::check("the order of two setters does not matter", c == d);
        } }
        let (mut c, mut d) = (<$c>::default(), <$c>::default());
        for a in 0..KEYS.len() { set(&mut c, a, &i); set(&mut d, KEYS.len() - 1 - a, &i); }
        let mut ends = true;
        for a in 0..KEYS.len() { for b in 0..a { if KEYS[a].iter().any(|k| KEYS[b].contains(k)) { ends = false; } } }
        v::check("nor does the order of all of them", !ends || c == d);
    }
    pub fn twice() {
        let (i, j) = (first(), second());
        for at in 0..KEYS.len() {
            let (mut c, mut d) = (<$c>::default(), <$c>::default());
            set(&mut c, at, &i); set(&mut c, at, &j);
            set(&mut d, at, &j);
            v::check("the last value set is the one that counts", c == d);
            set(&mut c, at, &j);
            v::check("setting it again changes nothing", c == d);
        }
    }
    /// of two setters of the same property the last one counts
    pub fn one_after_another() {
        let (i, j) = (first(), second());
        for a in 0..KEYS.len() { for b in 0..KEYS.len() {
            if !KEYS[a].iter().all(|k| KEYS[b].contains(k)) { continue; }
            let (mut c, mut d) = (<$c>::default(), <$c>::default());
            set(&mut c, a, &i); set(&mut c, b, &j);
            set(&mut d, b, &j);
            v::check("what was set before is gone", c == d);
        } }
    }
    pub fn with_children_and_repeated() {
        let i = first();
        for at in 0..KEYS.len() {
            let (mut c, mut d) = (<$c>::default(), <$c>::default());
            set(&mut c, at, &i);
            c.append_component(Todo::new()).append_multi_property(Property::new(KEYS[at][0], "x")).add_property("X-Z", "y");
            d.append_component(Todo::new()).append_multi_property(Property::new(KEYS[at][0], "x")).add_property("X-Z", "y");
            set(&mut d, at, &i);
            v::check("children, repeated and own properties are independent of it", c == d && c.properties().len() == KEYS[at].len() + 1);
        }
    }
} } }
setters! { event: Event;
    &["SUMMARY"] => |c, i| c.summary(&i.s);
    &["DESCRIPTION"] => |c, i| c.description(&i.s);
    &["UID"] => |c, i| c.uid(&i.s);
    &["URL"] => |c, i| c.url(&i.s);
    &["CLASS"] => |c, i| c.class(Class::Private);
    &["SEQUENCE"] => |c, i| c.sequence(i.q);
    &["PRIORITY"] => |c, i| c.priority(i.q);
    &["DTSTAMP"] => |c, i| c.timestamp(i.t);
    &["LAST-MODIFIED"] => |c, i| c.last_modified(i.t);
    &["CREATED"] => |c, i| c.created(i.t);
    &["DTSTART"] => |c, i| c.starts(i.n);
    &["DTEND"] => |c, i| c.ends(i.d);
    &["LOCATION"] => |c, i| c.location(&i.s);
    &["STATUS"] => |c, i| c.status(EventStatus::Tentative);
    &["X-OWN"] => |c, i| c.add_property("X-OWN", i.s.as_str());
}
setters! { event_forms: Event;
    &["DTSTART", "DTEND"] => |c, i| c.all_day(i.d);
    &["LOCATION"] => |c, i| c.venue(&i.s, "u");
    &["STATUS"] => |c, i| c.status(EventStatus::Cancelled);
    &["LOCATION"] => |c, i| c.location(&i.s);
    &["LOCATION"] => |c, i| c.append_property(prop1("LOCATION", &i.s, "ALTREP", &i.s));
    &["STATUS"] => |c, i| c.status(EventStatus::Tentative);
    &["STATUS"] => |c, i| c.status(EventStatus::Confirmed);
    &["STATUS"] => |c, i| c.add_property("STATUS", i.s.as_str());
    &["CLASS"] => |c, i| c.class(Class::Confidential);
    &["CLASS"] => |c, i| c.class(Class::Public);
    &["CLASS"] => |c, i| c.class(Class::Private);
    &["DTSTART"] => |c, i| c.starts(i.d);
    &["DTSTART"] => |c, i| c.starts(i.t);
    &["DTSTART"] => |c, i| c.starts(CalendarDateTime::WithTimezone { date_time: i.n, tzid: i.s.clone() });
    &["DTEND"] => |c, i| c.ends(i.d);
    &["DTEND"] => |c, i| c.ends(i.t);
    &["DTEND"] => |c, i| c.ends(CalendarDateTime::WithTimezone { date_time: i.n, tzid: i.s.clone() });
    &["ATTENDEE"] => |c, i| c.append_property(prop1("ATTENDEE", &i.s, "CN", &i.s));
    &["DUE"] => |c, i| c.add_property_pre_alloc("DUE".to_string(), i.s.clone());
    &["SUMMARY"] => |c, i| c.summary(&i.s);
}
setters! { todo: Todo;
    &["SUMMARY"] => |c, i| c.summary(&i.s);
    &["DESCRIPTION"] => |c, i| c.description(&i.s);
    &["UID"] => |c, i| c.uid(&i.s);
    &["URL"] => |c, i| c.url(&i.s);
    &["SEQUENCE"] => |c, i| c.sequence(i.q);
    &["PRIORITY"] => |c, i| c.priority(i.q);
    &["DTSTAMP"] => |c, i| c.timestamp(i.t);
    &["DTSTART"] => |c, i| c.starts(i.t);
    &["DTEND"] => |c, i| c.ends(i.n);
    &["LOCATION"] => |c, i| c.location(&i.s);
    &["PERCENT-COMPLETE"] => |c, i| c.percent_complete(i.p);
    &["DUE"] => |c, i| c.due(i.n);
    &["COMPLETED"] => |c, i| c.completed(i.t);
    &["STATUS"] => |c, i| c.status(TodoStatus::InProcess);
}
setters! { todo_forms: Todo;
    &["STATUS"] => |c, i| c.status(TodoStatus::NeedsAction);
    &["STATUS"] => |c, i| c.status(TodoStatus::Completed);
    &["STATUS"] => |c, i| c.status(TodoStatus::Cancelled);
    &["STATUS"] => |c, i| c.add_property("STATUS", i.s.as_str());
    &["PERCENT-COMPLETE"] => |c, i| c.percent_complete(100);
    &["PERCENT-COMPLETE"] => |c, i| c.percent_complete(0);
    &["PERCENT-COMPLETE"] => |c, i| c.percent_complete(i.p);
    &["COMPLETED"] => |c, i| c.completed(i.t);
    &["DUE"] => |c, i| c.due(i.d);
    &["DUE"] => |c, i| c.due(i.t);
    &["DUE"] => |c, i| c.due(CalendarDateTime::WithTimezone { date_time: i.n, tzid: i.s.clone() });
    &["DTSTART"] => |c, i| c.starts(i.d);
    &["DTSTART"] => |c, i| c.starts(CalendarDateTime::WithTimezone { date_time: i.n, tzid: i.s.clone() });
    &["PRIORITY"] => |c, i| c.priority(0);
    &["PRIORITY"] => |c, i| c.priority(9);
    &["SEQUENCE"] => |c, i| c.sequence(0);
    &["CLASS"] => |c, i| c.class(Class::Private);
    &["X-OWN"] => |c, i| c.append_property(prop1("X-OWN", &i.s, "P", "q"));
    &["X-OWN"] => |c, i| c.add_property("X-OWN", i.s.as_str());
}
setters! { venue: Venue;
    &["STREET-ADDRESS"] => |c, i| c.street_address(&i.s);
    &["EXTENDED-ADDRESS"] => |c, i| c.extended_address(&i.s);
    &["LOCALITY"] => |c, i| c.locality(&i.s);
    &["REGION"] => |c, i| c.region(&i.s);
    &["COUNTRY"] => |c, i| c.country(&i.s);
    &["POSTAL-CODE"] => |c, i| c.postal_code(&i.s);
    &["SUMMARY"] => |c, i| c.summary(&i.s);
    &["DESCRIPTION"] => |c, i| c.description(&i.s);
    &["UID"] => |c, i| c.uid(&i.s);
    &["DTSTAMP"] => |c, i| c.timestamp(i.t);
    &["CLASS"] => |c, i| c.class(Class::Public);
}
/// what a getter says depends on its own property
macro_rules! getters { ($m:ident: $c:ty; $($key:expr, $get:ident, [$($val:expr),*];)*) => { pub mod $m { use super::*;
    pub fn none_on_an_empty_one() { let c = <$c>::default(); $( v::check("there is nothing to get", c.$get().is_none()); )* }
    pub fn of_its_own_property() {
        let w = v::text("w", "any");
        let mut rest = <$c>::default();
        for n in NAMES.iter() { rest.append_property(Property::new(*n, w.as_str())); }
        rest.append_multi_property(Property::new("SUMMARY", "x")).append_component(Todo::new().summary("x").done());
        $( for x in [$($val),*] {
            let (mut a, mut b) = (<$c>::default(), rest.clone());
            a.append_property(Property::new($key, x));
            b.append_property(Property::new($key, x));
            v::check("it is there", a.$get().is_some());
            v::check("and does not depend on other properties", a.$get() == b.$get());
        } )*
    }
    pub fn not_of_repeated_ones() {
        $( for x in [$($val),*] {
            let mut c = <$c>::default();
            c.append_multi_property(Property::new($key, x));
            let mut d = <$c>::default();
            d.append_component({ let mut t = Todo::new(); t.append_property(Property::new($key, x)); t });
            v::check("a child is not asked", d.$get().is_none());
        } )*
    }
} } }
getters! { event_getters: Event;
    "SUMMARY", get_summary, ["a", ""]; "DESCRIPTION", get_description, ["a", ""]; "UID", get_uid, ["a", ""]; "URL", get_url, ["a", ""]; "CLASS", get_class, ["PRIVATE", "PUBLIC", "CONFIDENTIAL"]; "SEQUENCE", get_sequence, ["3", "0"]; "PRIORITY", get_priority, ["5", "0", "10"];
    "DTSTAMP", get_timestamp, ["20200101T000000Z", "19691231T235959Z"]; "LAST-MODIFIED", get_last_modified, ["20200101T000000Z", "19691231T235959Z"]; "CREATED", get_created, ["20200101T000000Z", "19691231T235959Z"]; "DTSTART", get_start, ["20200101T000000", "20200101T000000Z"]; "DTEND", get_end, ["20200101T000000", "20200101T000000Z"];
    "LOCATION", get_location, ["a", ""]; "STATUS", get_status, ["TENTATIVE", "CONFIRMED", "CANCELLED"];
}
getters! { todo_getters: Todo;
    "SUMMARY", get_summary, ["a", ""]; "DESCRIPTION", get_description, ["a", ""]; "UID", get_uid, ["a", ""]; "PRIORITY", get_priority, ["5", "0", "10"]; "DTSTAMP", get_timestamp, ["20200101T000000Z", "19691231T235959Z"]; "DTSTART", get_start, ["20200101T000000", "20200101T000000Z"]; "DTEND", get_end, ["20200101T000000", "20200101T000000Z"];
    "PERCENT-COMPLETE", get_percent_complete, ["5", "0", "100"]; "DUE", get_due, ["20200101T000000", "20200101T000000Z"]; "COMPLETED", get_completed, ["20200101T000000Z", "19691231T235959Z"]; "STATUS", get_status, ["COMPLETED", "NEEDS-ACTION", "IN-PROCESS", "CANCELLED"];
}
getters! { venue_getters: Venue;
    "STREET-ADDRESS", get_street_address, ["a", ""]; "EXTENDED-ADDRESS", get_extended_address, ["a", ""]; "LOCALITY", get_locality, ["a", ""]; "REGION", get_region, ["a", ""]; "COUNTRY", get_country, ["a", ""]; "POSTAL-CODE", get_postal_code, ["a", ""]; "SUMMARY", get_summary, ["a", ""];
}
fn all(c: &Calendar) -> (Option<&str>, Option<&str>, Option<&str>, Option<Duration>) { (c.get_name(), c.get_description(), c.get_timezone(), c.get_ttl()) }
fn set(c: &mut Calendar, at: usize, s: &str, d: &Duration) { match at { 0 => { c.name(s); } 1 => { c.description(s); } 2 => { c.timezone(s); } _ => { c.ttl(d); } } }
pub fn calendar() {
    let (s, t, d, e) = (v::text("s", "any"), v::text("t", "any"), v::dur("d", 0, 100000), v::dur("e", 0, 100000));
    for a in 0..4 {
        let mut c = Calendar::from([Event::new().summary("x").done()]);
        for b in 0..4 { set(&mut c, b, &s, &d); }
        c.append_property(("X-THERE", "x"));
        set(&mut c, a, &t, &e);
        let x = all(&c);
        v::check("the name", x.0 == Some(if a == 0 { t.as_str() } else { s.as_str() }));
        v::check("the description", x.1 == Some(if a == 1 { t.as_str() } else { s.as_str() }));
        v::check("the time zone", x.2 == Some(if a == 2 { t.as_str() } else { s.as_str() }));
        v::check("the time to live", x.3 == Some(if a == 3 { e } else { d }));
        v::check("components and other properties stay", c.len() == 1 && c[0] == CalendarComponent::from(Event::new().summary("x").done()) && c.property_value("X-THERE") == Some("x")
            && c.property_value("VERSION") == Some("2.0") && c.property_value("PRODID") == Some("ICALENDAR-RS") && c.property_value("CALSCALE") == Some("GREGORIAN"));
    }
}
pub fn calendar_in_any_order() {
    let (s, d) = (v::text("s", "any"), v::dur("d", 0, 100000));
    for a in 0..4 { for b in 0..a {
        let (mut x, mut y) = (Calendar::new(), Calendar::new());
        set(&mut x, a, &s, &d); set(&mut x, b, &s, &d);
        set(&mut y, b, &s, &d); set(&mut y, a, &s, &d);
        v::check("the order of two setters does not matter", all(&x) == all(&y) && x.properties.len() == y.properties.len());
    } }
}
pub fn calendar_twice() {
    let (s, t, d, e) = (v::text("s", "any"), v::text("t", "any"), v::dur("d", 0, 100000), v::dur("e", 0, 100000));
    for a in 0..4 {
        let (mut x, mut y) = (Calendar::new(), Calendar::new());
        set(&mut x, a, &s, &d); set(&mut x, a, &t, &e);
        set(&mut y, a, &t, &e);
        v::check("the last value set is the one that counts", x == y);
    }
}
/// properties of the same names that were read or appended before, once or twice
pub fn calendar_over_others() {
    let (t, e) = (v::text("t", "any"), v::dur("e", 0, 100000));
    let keys = [["NAME", "X-WR-CALNAME"], ["DESCRIPTION", "X-WR-CALDESC"], ["TIMEZONE-ID", "X-WR-TIMEZONE"], ["REFRESH-INTERVAL", "X-PUBLISHED-TTL"]];
    for a in 0..4 {
        let mut c = Calendar::empty();
        for k in keys.iter().flatten() { c.append_property(prop1(k, "PT1S", "LANGUAGE", "en")).append_property((*k, "PT2S")); }
        c.append_property(("X-A", "b"));
        let mut alone = Calendar::empty();
        set(&mut c, a, &t, &e);
        set(&mut alone, a, &t, &e);
        for p in &alone.properties { v::check("its property is there as if set alone", c.properties.iter().filter(|q| q.key() == p.key()).count() == 1 && c.properties.iter().find(|q| q.key() == p.key()) == Some(p)); }
        v::check("all others stay", c.properties.len() == 15 && keys.iter().enumerate().all(|(i, ks)| i == a || ks.iter().all(|k| c.properties.iter().filter(|q| q.key() == *k).count() == 2)));
    }
}
