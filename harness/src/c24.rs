//! Reserializing a parsed document gives an equivalent document.
use crate::{util::*, v};
use icalendar::parser::*;

fn node<'a>(name: &'a str, properties: Vec<Property<'a>>, components: Vec<Component<'a>>) -> Component<'a> { Component { name: name.into(), properties, components } }
fn leaf<'a>(name: &'a str, val: &'a str, params: Vec<Parameter<'a>>) -> Property<'a> { Property { name: name.into(), val: val.into(), params } }
fn equal(a: &Calendar, b: &Calendar) -> bool { a.properties == b.properties && a.components == b.components }
/// the document is written as it was, and read again as the same tree
fn identical(text: &str) {
    match read_calendar(text) {
        Ok(c) => {
            let out = c.to_string();
            v::check("the document is written as it was", out == text);
            match read_calendar(&out) {
                Ok(d) => v::check("and read again as the same tree", equal(&c, &d)),
                Err(_) => v::check("it is read again", false),
            }
        }
        Err(_) => v::check("it is read", false),
    }
}
/// reading, writing and reading gives the same tree
fn again(text: &str) {
    match read_calendar(text) {
        Ok(c) => match read_calendar(&unfold(&c.to_string())) {
            Ok(d) => v::check("the same tree is read again", equal(&c, &d)),
            Err(_) => v::check("it is read again", false),
        },
        Err(_) => v::check("it is read", false),
    }
}
/// a tree written and read gives the same tree
fn tree(c: Calendar) {
    match read_calendar(&unfold(&c.to_string())) {
        Ok(d) => v::check("the tree is read again", equal(&c, &d)),
        Err(_) => v::check("it is read again", false),
    }
}

pub fn whole() {
    let (s, t, a) = (v::text("s", "word{0,20}"), v::text("t", "word{0,20}"), v::text("a", "word{1,20}"));
    identical(&format!("BEGIN:VCALENDAR\r\nVERSION:2.0\r\nX-A;P={a}:{s}\r\nX-A:{t}\r\nBEGIN:VEVENT\r\nX-B;Q={a};R;S=\"x:y\":{t}\r\nATTENDEE:{s}\r\nATTENDEE:{t}\r\nBEGIN:VALARM\r\nX-C:{s}\r\nEND:VALARM\r\nEND:VEVENT\r\nBEGIN:X-D\r\nEND:X-D\r\nBEGIN:VTODO\r\nX-E:{s}\r\nEND:VTODO\r\nEND:VCALENDAR\r\n"));
}
/// nothing is added to a component, whatever its name
pub fn any_component() {
    let (n, s) = (v::text("n", "uname{1,20}"), v::text("s", "word{0,20}"));
    identical(&format!("BEGIN:VCALENDAR\r\nBEGIN:{n}\r\nX-A:{s}\r\nEND:{n}\r\nEND:VCALENDAR\r\n"));
    identical(&format!("BEGIN:VCALENDAR\r\nBEGIN:{n}\r\nEND:{n}\r\nEND:VCALENDAR\r\n"));
}
pub fn named_components() {
    let s = v::text("s", "word{0,20}");
    for n in ["VEVENT", "VTODO", "VVENUE", "VALARM", "VJOURNAL", "VTIMEZONE", "STANDARD", "VCALENDAR", "CALENDAR", "Calendar", "calendar", "vevent"] {
        identical(&format!("BEGIN:VCALENDAR\r\nBEGIN:{n}\r\nX-A:{s}\r\nEND:{n}\r\nEND:VCALENDAR\r\n"));
    }
}
/// order and number of properties
pub fn order() {
    let (s, t) = (v::text("s", "word{0,20}"), v::text("t", "word{0,20}"));
    identical(&format!("BEGIN:VCALENDAR\r\nZ:{s}\r\nA:{t}\r\nM:{s}\r\nA:{s}\r\nBEGIN:VEVENT\r\nUID:{s}\r\nDTSTAMP:{t}\r\nCOMMENT:{s}\r\nATTENDEE:{s}\r\nCOMMENT:{t}\r\nATTENDEE:{t}\r\nRRULE:{s}\r\nRRULE:{t}\r\nEND:VEVENT\r\nEND:VCALENDAR\r\n"));
}
/// order of components, and properties after components
pub fn components_in_order() {
    let (s, t) = (v::text("s", "word{0,20}"), v::text("t", "word{0,20}"));
    identical(&format!("BEGIN:VCALENDAR\r\nBEGIN:VTODO\r\nX-A:{s}\r\nEND:VTODO\r\nBEGIN:VEVENT\r\nX-A:{t}\r\nEND:VEVENT\r\nBEGIN:VTODO\r\nX-A:{t}\r\nBEGIN:A\r\nBEGIN:B\r\nX:{s}\r\nEND:B\r\nBEGIN:B\r\nX:{t}\r\nEND:B\r\nEND:A\r\nEND:VTODO\r\nEND:VCALENDAR\r\n"));
    again(&format!("BEGIN:VCALENDAR\r\nBEGIN:VTODO\r\nEND:VTODO\r\nX-A:{s}\r\nBEGIN:VEVENT\r\nBEGIN:VALARM\r\nEND:VALARM\r\nX-B:{t}\r\nEND:VEVENT\r\nX-C:{t}\r\nEND:VCALENDAR\r\n"));
}
/// all names
pub fn any_property_name() {
    let (k, s) = (format!("X-{}", v::text("k", "name{0,20}")), v::text("s", "word{0,20}"));
    identical(&format!("BEGIN:VCALENDAR\r\n{k}:{s}\r\nBEGIN:VEVENT\r\n{k};P=a:{s}\r\nEND:VEVENT\r\nEND:VCALENDAR\r\n"));
}
/// values that are not text are written as they are
macro_rules! raw { ($($n:ident: $($k:expr),*;)*) => { $( pub fn $n() {
    let (s, t) = (v::text("s", "line{0,15}"), v::text("t", "line{0,15}"));
    for k in [$($k),*] { for d in ["\\n", ",", ";", ":", "\\,", "\""] {
        let text = format!("BEGIN:VCALENDAR\r\n{k}:{s}{d}{t}\r\nEND:VCALENDAR\r\n");
        match read_calendar(&text) {
            Ok(c) => v::check("the value is written as it was", c.to_string() == text),
            Err(_) => v::check("it is read", false),
        }
    } }
} )* } }
raw! { raw_untyped: "X-A", "FOO"; raw_uri: "URL", "TZURL"; raw_other: "RRULE", "GEO"; raw_value: "SUMMARY;VALUE=URI", "COMMENT;VALUE=DATE"; raw_dates: "DTSTART", "EXDATE;TZID=a"; }
/// text values are escaped again
macro_rules! escaped { ($($n:ident: $k:expr;)*) => { $( pub fn $n() {
    let (s, t) = (v::text("s", "word{0,15}"), v::text("t", "word{0,15}"));
    for d in ["\\n", "\\,", "\\;", "\\\\", ":", "\"", "\\\\n", "\\\\\\,", "\\n\\n"] {
        let text = format!("BEGIN:VCALENDAR\r\n{}:{s}{d}{t}\r\nEND:VCALENDAR\r\n", $k);
        match read_calendar(&text) {
            Ok(c) => v::check("the text is escaped again", c.to_string() == text || c.to_string() == text.replace("\\n", "\\N")),
            Err(_) => v::check("it is read", false),
        }
        again(&text);
    }
    // a comma or a lone backslash is allowed by the parser
    for d in [",", ";", "\\:", "\\N", "\\x", "\\"] { again(&format!("BEGIN:VCALENDAR\r\n{}:{s}{d}{t}\r\nEND:VCALENDAR\r\n", $k)); }
} )* } }
escaped! { text_summary: "SUMMARY"; text_description: "DESCRIPTION"; text_comment: "COMMENT"; text_name: "X-WR-CALNAME"; text_location: "LOCATION;LANGUAGE=en"; text_value: "X-A;VALUE=TEXT"; text_uid: "UID"; }
/// any text at all
pub fn any_text() {
    let s = v::text("s", "nocr{0,20}");
    tree(Calendar { properties: vec![leaf("SUMMARY", &s, vec![])], components: vec![] });
}
pub fn any_text_in_component() {
    let s = v::text("s", "nocr{0,20}");
    tree(Calendar { properties: vec![], components: vec![node("VEVENT", vec![leaf("DESCRIPTION", &s, vec![Parameter::new_ref("A", Some("b"))])], vec![])] });
}
/// any value of the other properties
pub fn any_value() {
    let s = v::text("s", "line{0,30}");
    tree(Calendar { properties: vec![leaf("X-A", &s, vec![])], components: vec![node("VTODO", vec![leaf("URL", &s, vec![])], vec![])] });
}
/// parameters in order, in every form
macro_rules! params { ($($n:ident: $w:expr;)*) => { $( pub fn $n() {
    let (a, s) = (v::text("a", "word{1,12}"), v::text("s", "word{0,8}"));
    identical(&format!("BEGIN:VCALENDAR\r\nX-K;{}:{s}\r\nEND:VCALENDAR\r\n", $w.replace("@", &a)));
} )* } }
params! { p1: "A=@"; p2: "A=@;B=@"; p3: "B=@;A=x"; p4: "A"; p5: "A;B=@"; p6: "A=\"@:x\""; p7: "A=\"@;x\";B=@"; p8: "A=@;A=@"; p9: "A=@;A=\":\""; p10: "A=@,@"; p11: "C=1;B=@;A=2"; p12: "A=@ x"; p13: "VALUE=URI;A=@"; }
pub fn any_parameter() {
    let (k, a, s) = (v::text("k", "uname{1,12}"), v::text("a", "pval{1,20}"), v::text("s", "word{0,8}"));
    tree(Calendar { properties: vec![leaf("X-K", &s, vec![Parameter::new_ref(&k, Some(&a)), Parameter::new_ref("B", None), Parameter::new_ref("C", Some("c"))])], components: vec![] });
}
/// empty and quoted parameter values
pub fn odd_parameters() {
    let (a, s) = (v::text("a", "pplain{1,20}"), v::text("s", "word{0,8}"));
    for w in [format!("A=;B={a}"), format!("A=\"{a}\""), format!("A={a};B="), format!(" A={a}"), format!("A=\"\";B={a}")] { again(&format!("BEGIN:VCALENDAR\r\nX-K;{w}:{s}\r\nEND:VCALENDAR\r\n")); }
}
/// long lines are folded
pub fn long_text() {
    let s = v::text("s", "word{0,160}");
    again(&format!("BEGIN:VCALENDAR\r\nSUMMARY:{s}\r\nEND:VCALENDAR\r\n"));
}
pub fn long_value() {
    let s = v::text("s", "word{0,160}");
    again(&format!("BEGIN:VCALENDAR\r\nBEGIN:VEVENT\r\nX-A;P={s}:{s}\r\nEND:VEVENT\r\nEND:VCALENDAR\r\n"));
}
pub fn long_name() {
    let n = v::text("n", "uname{1,100}");
    again(&format!("BEGIN:VCALENDAR\r\nBEGIN:{n}\r\nX-{n}:a\r\nEND:{n}\r\nEND:VCALENDAR\r\n"));
}
/// a property on its own
pub fn property() {
    let (k, s, a) = (v::text("k", "uname{1,12}"), v::text("s", "word{0,10}"), v::text("a", "word{1,10}"));
    v::assume(k != "END" && k != "BEGIN");
    let line = format!("{k};A={a};B=\"{a}:{a}\":{s}\r\n");
    match Property::try_from(line.as_str()) {
        Ok(p) => v::check("a property is written as it was", p.to_string() == line),
        Err(_) => v::check("it is read", false),
    }
}
/// a document without a calendar
pub fn bare_components() {
    let (s, t) = (v::text("s", "word{0,20}"), v::text("t", "word{0,20}"));
    let part = format!("BEGIN:VEVENT\r\nX-A:{s}\r\nEND:VEVENT\r\nBEGIN:VTODO\r\nX-B:{t}\r\nEND:VTODO\r\n");
    match read_calendar(&part) {
        Ok(c) => {
            v::check("the components are written in a calendar", c.to_string() == format!("BEGIN:VCALENDAR\r\n{part}END:VCALENDAR\r\n"));
            match read_calendar(&c.to_string()) { Ok(d) => v::check("the same tree is read again", equal(&c, &d)), Err(_) => v::check("it is read again", false) }
        }
        Err(_) => v::check("it is read", false),
    }
}
/// line endings become CRLF
pub fn line_endings() {
    let (s, t) = (v::text("s", "word{0,20}"), v::text("t", "word{0,20}"));
    let text = format!("BEGIN:VCALENDAR\nX-A:{s}\n\nBEGIN:VEVENT\nX-B:{t}\nEND:VEVENT\nEND:VCALENDAR\n");
    match read_calendar(&text) {
        Ok(c) => v::check("every line ends with CRLF", c.to_string() == format!("BEGIN:VCALENDAR\r\nX-A:{s}\r\nBEGIN:VEVENT\r\nX-B:{t}\r\nEND:VEVENT\r\nEND:VCALENDAR\r\n")),
        Err(_) => v::check("it is read", false),
    }
}
/// an empty calendar
pub fn empty() {
    v::check("nothing is added", Calendar { properties: vec![], components: vec![] }.to_string() == "BEGIN:VCALENDAR\r\nEND:VCALENDAR\r\n");
    identical("BEGIN:VCALENDAR\r\nEND:VCALENDAR\r\n");
    let s = v::text("s", "word{0,20}");
    v::check("a bare name keeps its empty value", leaf("X-A", "", vec![]).to_string() == "X-A:\r\n" && leaf("X-A", &s, vec![]).to_string() == format!("X-A:{s}\r\n"));
}
/// any two kinds of components next to and inside each other
macro_rules! two { ($($n:ident: $a:expr;)*) => { pub mod two { use super::*; $( pub fn $n() {
    let (k, l) = (KINDS[$a + v::pick("kind", 4)], KINDS[v::pick("other", KINDS.len())]);
    let s = v::text("s", "word{0,9}");
    identical(&format!("BEGIN:VCALENDAR\r\nBEGIN:{k}\r\nX-A:{s}\r\nEND:{k}\r\nBEGIN:{l}\r\nX-B:{s}\r\nBEGIN:{k}\r\nX-C:{s}\r\nEND:{k}\r\nBEGIN:{l}\r\nEND:{l}\r\nBEGIN:{k}\r\nEND:{k}\r\nEND:{l}\r\nBEGIN:{k}\r\nX-A:{s}\r\nEND:{k}\r\nEND:VCALENDAR\r\n"));
} )* } } }
two! { a: 0; b: 4; c: 8; d: 12; e: 16; f: 18; }
/// a property of any name, several times, at every level
pub fn every_name() {
    let k = a_name();
    let s = v::text("s", "word{0,9}");
    identical(&format!("BEGIN:VCALENDAR\r\nX-B:{s}\r\n{k}:{s}\r\n{k};P=q:{s}\r\nX-A:{s}\r\n{k}:\r\nBEGIN:VEVENT\r\n{k}:{s}\r\nX-A:{s}\r\n{k}:{s}\r\nBEGIN:VALARM\r\n{k}:{s}\r\n{k}:x\r\nEND:VALARM\r\nEND:VEVENT\r\nEND:VCALENDAR\r\n"));
}
/// a parameter of any name, several times
pub fn every_parameter() {
    let k = a_param();
    let (a, s) = (v::text("a", "word{1,12}"), v::text("s", "word{0,8}"));
    identical(&format!("BEGIN:VCALENDAR\r\nX-K;Z=y;{k}={a};{k}=\"{a}:\":{s}\r\nX-K;{k}={a};A=b;{k}:{s}\r\nSUMMARY;{k}={a}:{s}\r\nURL;{k}={a};VALUE=URI:{s}\r\nEND:VCALENDAR\r\n"));
}
