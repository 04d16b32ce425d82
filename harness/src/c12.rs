//! Serialization is deterministic.
use crate::{util::*, v};
use chrono::Duration;
use icalendar::*;

/// a property with these parameters, added in this order
fn with(k: &str, s: &str, params: &[(&str, &str)]) -> Property {
    let mut p = Property::new(k, s);
    for (a, b) in params { p.add_parameter(a, b); }
    p.done()
}
/// every order of three parameters gives the same text
fn order(o: [usize; 3]) {
    let (s, a, b, c) = (v::text("s", "word{0,20}"), v::text("a", "word{1,9}"), v::text("b", "word{1,9}"), v::text("c", "word{1,9}"));
    let all = [("A", a.as_str()), ("B", b.as_str()), ("C", c.as_str())];
    let out = ser(&with("X-K", &s, &all));
    v::check("the order in which parameters were added does not matter", ser(&with("X-K", &s, &[all[o[0]], all[o[1]], all[o[2]]])) == out);
}
pub fn order_021() { order([0, 2, 1]) }
pub fn order_102() { order([1, 0, 2]) }
pub fn order_120() { order([1, 2, 0]) }
pub fn order_201() { order([2, 0, 1]) }
pub fn order_210() { order([2, 1, 0]) }
/// two parameters with any names
pub fn parameter_names() {
    let (m, n) = (format!("X-{}", v::text("m", "uname{1,12}")), format!("X-{}", v::text("n", "uname{1,12}")));
    v::assume(m != n);
    let (s, a, b) = (v::text("s", "word{0,20}"), v::text("a", "word{0,9}"), v::text("b", "word{0,9}"));
    v::check("the order of parameters of any name does not matter", ser(&with("X-K", &s, &[(&m, &a), (&n, &b)])) == ser(&with("X-K", &s, &[(&n, &b), (&m, &a)])));
}
/// names that differ in case only, and equal values
macro_rules! similar { ($($n:ident: $a:expr, $b:expr;)*) => { $( pub fn $n() {
    let s = v::text("s", "word{0,20}");
    v::check("the order of parameters of similar names does not matter", ser(&with("X-K", &s, &[($a, "1"), ($b, "1")])) == ser(&with("X-K", &s, &[($b, "1"), ($a, "1")])));
} )* } }
similar! { case: "a", "A"; case_2: "AB", "Ab"; extension: "X-A", "X-B"; longer: "A", "AA"; value_tzid: "VALUE", "TZID"; wide: "\u{e4}", "\u{f6}"; }
fn same(k: &str, s: &str, a: &str, b: &str) -> (Property, Property) {
    (with(k, s, &[("B", b), ("A", a)]), with(k, s, &[("A", "replaced"), ("B", b), ("A", a)]))
}
macro_rules! equal { ($($n:ident: $k:expr, $c:expr;)*) => { $( pub mod $n { use super::*;
    pub fn made_differently() {
        let (k, s, a, b) = ($k, v::text("s", $c), v::text("a", "word{1,9}"), v::text("b", "word{1,9}"));
        let (p, q) = same(&k, &s, &a, &b);
        v::check("properties made in different ways are equal", p == q);
        v::check("equal properties give the same text", ser(&p) == ser(&q));
    }
    pub fn copied() {
        let (k, s, a, b) = ($k, v::text("s", $c), v::text("a", "word{1,9}"), v::text("b", "pplain{1,9}"));
        let (p, _) = same(&k, &s, &a, &b);
        v::check("a copy gives the same text", ser(&p.clone()) == ser(&p));
    }
} )* } }
equal! { named: format!("X-{}", v::text("k", "uname{1,12}")), "word{0,20}"; text: "SUMMARY", "line{0,20}"; other: "URL", "line{0,20}"; repeated: "ATTENDEE", "line{0,20}"; list: "CATEGORIES", "ascii{0,20}"; }
macro_rules! kinds { ($($m:ident: $t:ty;)*) => { $( pub mod $m { use super::*;
    pub fn property_order() {
        let (s, t) = (v::text("s", "word{0,20}"), v::text("t", "word{0,20}"));
        let make = |o: [u8; 4]| {
            let mut c = <$t>::new();
            for x in o {
                match x {
                    0 => { c.summary(&s); }
                    1 => { c.append_property(with("X-A", &t, &[("P", "1"), ("Q", "2")])); }
                    2 => { c.uid("1"); }
                    _ => { c.append_property(Property::new("DTSTAMP", "3")); }
                }
            }
            c
        };
        let first = make([0, 1, 2, 3]);
        let out = first.try_into_string().unwrap();
        for o in [[3, 2, 1, 0], [1, 0, 3, 2], [2, 3, 0, 1], [1, 2, 3, 0]] {
            let c = make(o);
            v::check("components made in different orders are equal", c == first);
            v::check("the order in which properties were added does not matter", c.try_into_string().ok().as_deref() == Some(out.as_str()));
        }
    }
    pub fn any_names() {
        let (m, n) = (format!("X-{}", v::text("m", "uname{1,12}")), format!("X-{}", v::text("n", "uname{1,12}")));
        v::assume(m != n);
        let make = |a: &str, b: &str| <$t>::new().uid("1").append_property(Property::new("DTSTAMP", "2")).append_property(Property::new(a, a)).append_property(Property::new(b, b)).done();
        v::check("the order of properties of any name does not matter", make(&m, &n).try_into_string().ok() == make(&n, &m).try_into_string().ok());
    }
    pub fn repeated() {
        // repeated properties of different names may be added in any order
        let (s, t) = (v::text("s", "word{0,20}"), v::text("t", "word{0,20}"));
        let make = |o: [u8; 3]| {
            let mut c = <$t>::new();
            c.uid("1").append_property(Property::new("DTSTAMP", "2"));
            for x in o {
                match x {
                    0 => { c.add_multi_property("ATTENDEE", &s); }
                    1 => { c.add_multi_property("COMMENT", &t); }
                    _ => { c.append_multi_property(with("X-R", &t, &[("P", "1"), ("Q", "2")])); }
                }
            }
            c.try_into_string().unwrap()
        };
        let out = make([0, 1, 2]);
        for o in [[2, 1, 0], [1, 0, 2], [2, 0, 1]] {
            v::check("the order in which different repeated properties were added does not matter", make(o) == out);
        }
    }
    pub fn no_clock() {
        let s = v::text("s", "word{0,20}");
        let mut child = Event::new();
        child.uid("3").append_property(Property::new("DTSTAMP", "4"));
        let c = <$t>::new().uid("1").append_property(Property::new("DTSTAMP", "2")).append_property(with("X-A", &s, &[("Q", "1"), ("P", "2")]))
            .add_multi_property("ATTENDEE", &s).append_component(child).done();
        let (x, y) = (c.try_into_string().ok(), c.try_into_string().ok());
        v::check("with DTSTAMP and UID set, writing twice gives the same text", x == y);
        v::check("a copy gives the same text", c.clone().try_into_string().ok() == x);
    }
    pub fn no_clock_typed() {
        let c = <$t>::new().uid("1").timestamp(v::utc("t")).summary("x").done();
        v::check("with a time stamp set, writing twice gives the same text", c.try_into_string().ok() == c.try_into_string().ok());
    }
    pub fn no_clock_calendar() {
        let s = v::text("s", "word{0,20}");
        let c = <$t>::new().uid("1").append_property(Property::new("DTSTAMP", "2")).append_property(with("X-A", &s, &[("Q", "1"), ("P", "2")])).done();
        let mut cal = Calendar::new();
        cal.name(&s);
        cal.append_property(with("X-A", &s, &[("Q", "1"), ("P", "2"), ("R", "3")]));
        cal.push(c);
        let cal = cal.done();
        v::check("writing a calendar twice gives the same text", cal.to_string() == cal.to_string());
    }
} )* } }
kinds! { event: Event; todo: Todo; venue: Venue; }
pub fn alarm() {
    let s = v::text("s", "word{1,20}");
    let a = Alarm::display(&s, Duration::minutes(7)).uid("1").append_property(Property::new("DTSTAMP", "2")).done();
    v::check("writing an alarm twice gives the same text", a.try_into_string().ok() == a.try_into_string().ok());
    let t = Alarm::audio(v::utc("u")).duration_and_repeat(Duration::minutes(1), 4).uid("1").append_property(Property::new("DTSTAMP", "2")).done();
    v::check("writing a repeated alarm twice gives the same text", t.try_into_string().ok() == t.try_into_string().ok());
}
#[cfg(feature = "full")] pub fn parsed_tree() {
    let s = v::text("s", "word{1,20}");
    let text = format!("BEGIN:VCALENDAR\nX-A;Q=1;P=2:{}\nBEGIN:VEVENT\nX-B;R=1;S=2;A=3:{}\nEND:VEVENT\nEND:VCALENDAR\n", s, s);
    match parser::read_calendar(&text) {
        Ok(c) => v::check("writing a parsed tree twice gives the same text", c.to_string() == c.to_string()),
        Err(_) => v::check("the document parses", false),
    }
    match text.parse::<Calendar>() {
        Ok(c) => v::check("the parsed calendar has its component", c.components.len() == 1),
        Err(_) => v::check("the calendar parses", false),
    }
}
#[cfg(feature = "full")] pub fn parsed_component() {
    let s = v::text("s", "word{1,20}");
    let text = format!("BEGIN:VEVENT\nUID:1\nDTSTAMP:2\nX-B;R=1;S=2;A=3:{}\nATTENDEE;B=1;A=2:{}\nEND:VEVENT\n", s, s);
    let mut cal = Calendar::empty();
    match text.parse::<CalendarComponent>() { Ok(c) => { cal.push(c); } Err(_) => v::check("the component parses", false) }
    v::check("writing a parsed component twice gives the same text", cal.to_string() == cal.to_string());
}
/// parameters of every registered name, in both orders, on a property of every name
pub fn registered_parameters() {
    let (m, n) = (a_param(), ["ALTREP", "CN", "TZID", "VALUE", "X-P", "LANGUAGE"][v::pick("second", 6)]);
    v::assume(m != n);
    let s = v::text("s", "word{0,20}");
    v::check("the order of registered parameters does not matter", ser(&with("X-K", &s, &[(m, "1"), (n, "TEXT")])) == ser(&with("X-K", &s, &[(n, "TEXT"), (m, "1")])));
}
pub fn every_name() {
    let k = a_name();
    let s = v::text("s", "word{0,20}");
    let two = [("CN", "a"), ("ROLE", "b"), ("LANGUAGE", "c")];
    v::check("the order of parameters on any property does not matter", ser(&with(k, &s, &two)) == ser(&with(k, &s, &[two[1], two[0], two[2]])));
}
/// many parameters
pub fn many_parameters() {
    let s = v::text("s", "word{0,20}");
    let (mut p, mut q) = (Property::new("X-K", s.as_str()), Property::new("X-K", s.as_str()));
    for i in 0..12 { p.add_parameter(&format!("P{i}"), &s); q.add_parameter(&format!("P{}", 11 - i), &s); }
    v::check("the order of many parameters does not matter", ser(&p.done()) == ser(&q.done()));
}
pub fn some_parameters() {
    let n = 5 + v::pick("n", 6);
    let (mut p, mut q) = (Property::new("X-K", "x"), Property::new("X-K", "x"));
    for i in 0..n { p.add_parameter(&format!("P{i}"), "v"); q.add_parameter(&format!("P{}", n - 1 - i), "v"); }
    v::check("the order of some parameters does not matter", ser(&p.done()) == ser(&q.done()));
}
/// parameters whose names and values are almost the same
pub fn near_parameters() {
    let all = [["AB", "Ab", "aB"], ["A-B", "A.B", "AB"], ["LONGNAME1", "LONGNAME2", "LONGNAME"], ["X", "X-", "X--"], ["A", "\u{e4}", "a"], ["a1", "a10", "a2"]];
    let (l, same) = (all[v::pick("names", all.len())], v::any("same value"));
    let (mut p, mut q) = (Property::new("X-K", "x"), Property::new("X-K", "x"));
    for i in 0..3 {
        p.add_parameter(l[i], if same { "v" } else { l[2 - i] });
        q.add_parameter(l[2 - i], if same { "v" } else { l[i] });
    }
    v::check("the order of similar parameters does not matter", ser(&p.done()) == ser(&q.done()));
}
/// with DTSTAMP and UID, nothing depends on the clock or on random numbers
macro_rules! crowds { ($($n:ident: $t:ty;)*) => { pub mod crowds { use super::*; $( pub fn $n() {
    let s = v::text("s", "word{0,9}");
    let mut c = <$t>::new();
    for k in NAMES { c.add_property(k, &*s); }
    for k in MULTI { c.add_multi_property(k, &*s); c.add_multi_property(k, ""); }
    v::check("writing a component with every property twice gives the same text", c.to_string() == c.to_string());
    let mut d = <$t>::new();
    let mut i = NAMES.len();
    while i > 0 { i -= 1; d.add_property(NAMES[i], &*s); }
    i = MULTI.len();
    while i > 0 { i -= 1; d.add_multi_property(MULTI[i], &*s); d.add_multi_property(MULTI[i], ""); }
    v::check("the order does not matter", c.to_string() == d.to_string());
} )* } } }
crowds! { event: Event; todo: Todo; venue: Venue; }
pub fn next_to() {
    let (k, x) = (a_name(), ["", "1", "x"][v::pick("value", 3)]);
    let mut c = Event::new();
    c.add_property("UID", x).add_property("DTSTAMP", x).add_property(k, x);
    v::check("next to any property, writing twice gives the same text", c.to_string() == c.to_string());
}
