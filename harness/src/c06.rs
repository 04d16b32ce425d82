//! Folded lines stay within 75 octets and lose nothing.
use crate::{util::*, v};
use icalendar::*;

/// every physical line is short enough, and all continuation lines start with a space
fn short_lines(out: &str) -> bool {
    match out.strip_suffix("\r\n") {
        Some(body) => {
            let mut first = true;
            for l in body.split("\r\n") {
                if l.len() > 75 || (!first && !l.starts_with(' ')) { return false; }
                first = false;
            }
            true
        }
        None => false,
    }
}
/// joining the lines gives the content line
fn joined(out: &str, line: &str) -> bool {
    match out.strip_suffix("\r\n") {
        Some(body) => {
            let mut all = String::new();
            let mut first = true;
            for l in body.split("\r\n") {
                all.push_str(if first { l } else { &l[1..] });
                first = false;
            }
            all == line
        }
        None => false,
    }
}
fn value(s: &str) {
    let out = ser(&Property::new("X-KEY", s));
    let line = format!("X-KEY:{}", s);
    v::check("physical lines are at most 75 octets long", short_lines(&out));
    v::check("joining them gives the content line", joined(&out, &line));
    #[cfg(feature = "full")] {
        let parsed = parser::Property::new_ref("X-KEY", s).to_string();
        v::check("the lines of a parsed property are the same", parsed == out);
    }
}
macro_rules! values { ($($n:ident: $c:expr;)*) => { $( pub fn $n() { value(&v::text("s", $c)); } )* } }
values! {
    ascii: "ascii{0,290}"; words: "word{0,900}"; one_fold: "line{0,75}"; two_folds: "line{76,140}"; three_folds_wide: "nows{150,210}";
    wide: "wide{0,140}"; whole: "word{140,145}";
}
#[cfg(feature = "deep")]
pub mod deep { use super::*; values! { more_ascii: "ascii{0,520}"; more_words: "word{0,4000}"; more_lines: "line{0,215}"; more_wide: "wide{0,300}"; } }
/// white space and wide characters on and around the place of the first and second fold
/// a character of one, two, three or four bytes
fn some_char(id: &'static str, p: &'static str, q: &'static str) -> char {
    if v::any(p) { if v::any(q) { v::ch(id, "w1") } else { v::ch(id, "w2") } } else { if v::any(q) { v::ch(id, "w3") } else { v::ch(id, "w4") } }
}
macro_rules! around { ($($n:ident: $c:expr;)*) => { $( pub fn $n() {
    let mut s = v::text("a", $c);
    s.push(some_char("x", "p1", "p2"));
    s.push(some_char("y", "q1", "q2"));
    s.push_str(&v::text("z", "word{0,80}"));
    value(&s);
} )* } }
around! {
    around_66: "word{66,66}"; around_67: "word{67,67}"; around_68: "word{68,68}"; around_69: "word{69,69}";
    around_140: "word{140,140}"; around_141: "word{141,141}"; around_142: "word{142,142}"; around_143: "word{143,143}";
    around_214: "word{214,214}"; around_216: "word{216,216}"; around_217: "word{217,217}";
}
pub fn text_value() {
    let s = v::text("s", "nocr{0,30}");
    let out = ser(&Property::new("SUMMARY", s.as_str()));
    v::check("short lines of TEXT", short_lines(&out));
}
pub fn text_value_long() {
    let s = v::text("s", "plain{0,140}");
    let out = ser(&Property::new("SUMMARY", s.as_str()));
    v::check("physical lines are at most 75 octets long", short_lines(&out));
    v::check("joining them gives the content line", joined(&out, &format!("SUMMARY:{}", s)));
}
pub fn param() {
    let (a, s) = (v::text("a", "word{0,80}"), v::text("s", "word{0,60}"));
    let out = ser(&prop1("ATTENDEE", &s, "CN", &a));
    v::check("physical lines are at most 75 octets long", short_lines(&out));
    v::check("joining them gives the content line", joined(&out, &format!("ATTENDEE;CN={}:{}", a, s)));
}
pub fn name() {
    let k = v::text("k", "uname{1,200}");
    let out = ser(&prop1(&k, "v", "VALUE", "DATE"));
    v::check("physical lines are at most 75 octets long", short_lines(&out));
    v::check("joining them gives the content line", joined(&out, &format!("{};VALUE=DATE:v", k)));
}
pub fn component() {
    let s = v::text("s", "word{0,300}");
    let mut e = Event::new();
    e.uid("1").timestamp(v::utc("t")).append_property(Property::new("X-LONG", s.as_str()));
    let out = e.to_string();
    v::check("physical lines of a component are at most 75 octets long", lines_short(&out));
}
pub fn calendar() {
    let s = v::text("s", "word{0,200}");
    let mut e = Event::new();
    e.uid("1").timestamp(v::utc("t")).add_multi_property("COMMENT", &s);
    let c = Calendar::new().push(e.done()).done();
    v::check("physical lines of a calendar are at most 75 octets long", lines_short(&c.to_string()));
}
pub fn generated() {
    let mut e = Event::new();
    e.add_property("X", "Y");
    v::check("generated lines are at most 75 octets long", lines_short(&e.to_string()));
}
#[cfg(feature = "full")] pub fn kind() {
    let k = v::text("k", "uname{1,150}");
    let text = format!("BEGIN:{}\nX:Y\nEND:{}\n", k, k);
    if let Ok(c) = text.parse::<CalendarComponent>() {
        let mut cal = Calendar::empty();
        cal.push(c);
        v::check("lines with a long component name are at most 75 octets long", lines_short(&cal.to_string()));
    }
    if let Ok(l) = parser::read_calendar(&text) {
        v::check("the same for a parsed tree", lines_short(&l.to_string()));
    }
}
fn lines_short(out: &str) -> bool {
    for l in out.split("\r\n") { if l.len() > 75 { return false; } }
    true
}
/// every name, with a value and a parameter that do not fit on a line
#[cfg(feature = "full")] pub fn every_name() {
    let k = a_name();
    let (a, s) = (v::text("a", "word{60,70}"), v::text("s", "word{20,100}"));
    let out = ser(&prop1(k, &s, "X-P", &a));
    let line = format!("{};X-P={}:{}", k, a, s);
    v::check("physical lines are at most 75 octets long", short_lines(&out));
    v::check("joining them gives the content line", joined(&out, &line));
    let parsed = parser::Property { name: k.into(), val: s.as_str().into(), params: vec![parser::Parameter::new_ref("X-P", Some(&a))] }.to_string();
    v::check("the lines of a parsed property are the same", parsed == out);
}
pub fn every_name_alone() {
    let k = a_name();
    let s = v::text("s", "word{20,200}");
    let out = ser(&Property::new(k, s.as_str()));
    v::check("physical lines are at most 75 octets long", short_lines(&out));
    v::check("joining them gives the content line", joined(&out, &format!("{}:{}", k, s)));
    #[cfg(feature = "full")] v::check("the lines of a parsed property are the same", parser::Property::new_ref(k, &s).to_string() == out);
}
/// in a component of any kind
#[cfg(feature = "full")] pub fn every_kind() {
    let k = a_kind();
    let s = v::text("s", "word{100,130}");
    let text = format!("BEGIN:VCALENDAR\nBEGIN:{k}\nUID:1\nDTSTAMP:2\nX-A:{s}\nSUMMARY:{s}\nEND:{k}\nX-B;C={s}:x\nEND:VCALENDAR\n");
    match text.parse::<Calendar>() {
        Ok(c) => v::check("lines of a calendar are at most 75 octets long", lines_short(&c.to_string())),
        Err(_) => v::check("the calendar parses", false),
    }
    match parser::read_calendar(&text) {
        Ok(c) => v::check("lines of a parsed tree are at most 75 octets long", lines_short(&c.to_string())),
        Err(_) => v::check("the document parses", false),
    }
}
/// very long values, at some lengths
macro_rules! very_long { ($($n:ident: $x:expr, $c:expr;)*) => { $( pub fn $n() {
    let s = v::text("s", "word{0,12}");
    value(&format!("{}{}", $x.repeat($c), s));
} )* } }
very_long! { very_long_1: "ab,c d", 400; very_long_2: "\u{e4}\u{20ac} ", 700; very_long_3: "  ", 1000; very_long_4: "\u{1f600}", 600; very_long_5: "\t \u{2028}x", 500; }
