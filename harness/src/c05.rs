//! One property is one content line and parses back to itself.
use crate::{util::*, v};
use icalendar::*;

fn name(id: &'static str, class: &'static str) -> String {
    let k = v::text(id, class);
    v::assume(!k.eq_ignore_ascii_case("END"));
    v::assume(!k.eq_ignore_ascii_case("BEGIN"));
    k
}
/// no line break and no special character, so that every value type allows it
fn value() -> String { v::text("s", "plain{0,25}") }

/// the parsed property has the same name, the same parameters with the same values and the same value
fn same(p: &Property, q: &parser::Property) -> bool {
    if q.name.as_str() != p.key() || q.val.as_str() != p.value() || q.params.len() != p.params().len() { return false; }
    for x in &q.params {
        match p.params().get(x.key.as_str()) {
            Some(y) => match &x.val {
                Some(z) => if z.as_str() != y.value() { return false; },
                None => if y.value() != "" { return false; },
            },
            None => return false,
        }
    }
    true
}
fn back(p: &Property) -> bool {
    let line = parser::unfold(&ser(p));
    match parser::Property::try_from(line.as_str()) {
        Ok(q) => same(p, &q),
        Err(_) => false,
    }
}
fn back_owned(p: &Property) -> bool {
    let line = parser::unfold(&ser(p));
    match line.parse::<Property>() {
        Ok(q) => q == *p,
        Err(_) => false,
    }
}
/// a content line ends with CRLF and has no other line break
fn one_line(s: &str) -> bool {
    match s.strip_suffix("\r\n") {
        Some(x) => !x.contains('\n') && !x.contains('\r'),
        None => false,
    }
}

pub fn form_plain() {
    let (k, s) = (name("k", "name{1,20}"), value());
    v::check("NAME:VALUE", ser(&Property::new(k.as_str(), s.as_str())) == format!("{}:{}\r\n", k, s));
}
pub fn form_params() {
    let (k, s) = (name("k", "name{1,12}"), value());
    let (a, b) = (v::text("a", "pplain{0,10}"), v::text("b", "pplain{0,10}"));
    let p = Property::new(k.as_str(), s.as_str()).add_parameter("AA", &a).add_parameter("BB", &b).done();
    let l = ser(&p);
    v::check("NAME;PARAM=VALUE;PARAM=VALUE:VALUE", l == format!("{};AA={};BB={}:{}\r\n", k, a, b, s) || l == format!("{};BB={};AA={}:{}\r\n", k, b, a, s));
}
pub fn form_one_param() {
    let (k, s) = (name("k", "name{1,12}"), value());
    let pk = v::text("pk", "name{1,12}");
    v::assume(pk != "VALUE");
    let a = v::text("a", "pplain{0,20}");
    v::check("NAME;PARAM=VALUE:VALUE", ser(&prop1(&k, &s, &pk, &a)) == format!("{};{}={}:{}\r\n", k, pk, a, s));
}
pub fn back_plain() {
    let p = Property::new(name("k", "name{1,20}").as_str(), value().as_str());
    v::check("parses back", back(&p));
}
pub fn back_plain_owned() {
    let p = Property::new(name("k", "name{1,20}").as_str(), value().as_str());
    v::check("parses back to an equal property", back_owned(&p));
}
pub fn back_one_param() {
    let k = name("k", "name{1,12}");
    let pk = v::text("pk", "name{1,12}");
    v::assume(pk != "VALUE");
    let p = prop1(&k, &value(), &pk, &v::text("a", "pplain{0,20}"));
    v::check("parses back", back(&p));
    v::check("parses back to an equal property", back_owned(&p));
}
pub fn back_quoted_param() {
    let k = name("k", "name{1,12}");
    let p = prop1(&k, &value(), "ALTREP", &v::text("a", "pval{0,20}"));
    v::check("parses back", back(&p));
    v::check("parses back to an equal property", back_owned(&p));
}
pub fn back_two_params() {
    let k = name("k", "name{1,12}");
    let p = Property::new(k.as_str(), value().as_str()).add_parameter("PA", &v::text("a", "pplain{1,12}")).add_parameter("PB", &v::text("b", "pplain{1,12}")).done();
    v::check("parses back", back(&p));
    v::check("parses back to an equal property", back_owned(&p));
}
pub fn back_three_params() {
    let p = Property::new("X-K", value().as_str()).add_parameter("PA", &v::text("a", "pval{0,10}")).add_parameter("PB", &v::text("b", "pplain{1,10}"))
        .add_parameter("PC", &v::text("c", "pplain{0,10}")).done();
    v::check("parses back", back(&p));
    v::check("parses back to an equal property", back_owned(&p));
}
pub fn back_value_types() {
    macro_rules! t { ($($x:ident)*) => { $(
        let p = prop1("X-K", &v::text(stringify!($x), "plain{0,30}"), "VALUE", Parameter::from(ValueType::$x).value());
        v::check(concat!("VALUE=", stringify!($x)), back(&p));
    )* } }
    t!(Binary Boolean CalAddress Date DateTime Duration Float Integer Period Recur Text Time Uri UtcOffset);
}
pub fn long_value() {
    let s = v::text("s", "plain{0,140}");
    let p = Property::new("X-LONG-NAME", s.as_str());
    v::check("a long line parses back", back(&p));
}
pub fn long_text_value() {
    let s = v::text("s", "plain{0,140}");
    let p = Property::new("SUMMARY", s.as_str());
    v::check("a long line parses back", back(&p));
}
pub fn long_name() {
    let k = name("k", "uname{1,120}");
    let p = prop1(&k, "v", "VALUE", "DATE");
    v::check("a line with a long name parses back", back(&p));
}
pub fn long_param() {
    let a = v::text("a", "pplain{0,120}");
    let p = prop1("ATTENDEE", "mailto:x@y", "CN", &a);
    v::check("a line with a long parameter parses back", back(&p));
}
pub fn long_quoted_param() {
    let a = v::text("a", "word{55,80}");
    let b = format!("{}:{}", a, v::text("b", "word{0,40}"));
    let p = prop1("ATTENDEE", "mailto:x@y", "CN", &b);
    v::check("a line with a long quoted parameter parses back", back(&p));
}
pub fn text_is_one_line() {
    let s = v::text("s", "nocr{0,30}");
    v::check("TEXT never ends the line early", one_line(&ser(&Property::new("SUMMARY", s.as_str()))));
    v::check("nor the line of a parsed property", one_line(&parser::Property::new_ref("SUMMARY", &s).to_string()));
}
/// whatever the texts are, the component has exactly the lines that were given to it
macro_rules! inside { ($($n:ident: $t:ty, $set:ident, $k:expr;)*) => { pub mod inside { use super::*; $( pub fn $n() {
    let s = v::text("s", "nocr{0,25}");
    let mut c = <$t>::new();
    c.uid("1").timestamp(v::utc("t"));
    c.$set(&s);
    let out = c.to_string();
    let out = parser::unfold(&out);
    match parser::read_components(&out) {
        Ok(l) => {
            v::check("one component", l.len() == 1);
            v::check("no nested component", l[0].components.is_empty());
            v::check("three properties", l[0].properties.len() == 3);
            v::check("the text", match l[0].find_prop($k) { Some(p) => p.val.as_str() == s, None => false });
        }
        Err(_) => v::check("it is read", false),
    }
} )* } } }
inside! {
    event_summary: Event, summary, "SUMMARY"; event_description: Event, description, "DESCRIPTION"; todo_summary: Todo, summary, "SUMMARY";
    event_location: Event, location, "LOCATION"; venue_street: Venue, street_address, "STREET-ADDRESS"; venue_locality: Venue, locality, "LOCALITY";
}
pub fn calendar_texts() {
    let s = v::text("s", "nocr{0,20}");
    let c = Calendar::empty().name(&s).done();
    let out = parser::unfold(&c.to_string());
    match parser::read_calendar(&out) {
        Ok(l) => {
            v::check("two properties and no component", l.properties.len() == 2 && l.components.is_empty());
            v::check("both hold the text", l.properties[0].val.as_str() == s && l.properties[1].val.as_str() == s);
        }
        Err(_) => v::check("it is read", false),
    }
}
/// every registered name
pub fn every_name() {
    let k = a_name();
    let (s, a) = (v::text("s", "word{1,12}"), v::text("a", "word{4,4}"));
    let val = format!("{s}, \\;:\"=n{s}");
    let p = Property::new(k, val.as_str()).add_parameter("CN", &format!("{a}:{a}")).add_parameter("LANGUAGE", "").done();
    v::check("parses back", back(&p));
    v::check("nothing but the name comes first", ser(&p).starts_with(&format!("{k};")));
}
pub fn every_name_alone() {
    let k = a_name();
    let s = v::text("s", "word{1,12}");
    let bare = Property::new(k, format!("{s}, \\;:\"=n{s}").as_str());
    v::check("a property without parameters parses back", back_owned(&bare) && ser(&bare).starts_with(&format!("{k}:")));
    let empty = Property::new(k, "");
    v::check("an empty value parses back", back(&empty) && back_owned(&empty) && ser(&empty) == format!("{k}:\r\n"));
}
pub fn every_parameter() {
    let k = a_param();
    let (s, a) = (v::text("s", "word{0,12}"), v::text("a", "word{0,9}"));
    for val in [a.clone(), format!("{a};{a}"), format!("{a},{a}"), format!("{a} {a}"), format!(" {a}:"), String::from(";")] {
        let p = prop1("X-K", &s, k, &val);
        v::check("parses back", back(&p));
        v::check("parses back to an equal property", back_owned(&p));
        v::check("the parameter follows the name", ser(&p).starts_with(&format!("X-K;{k}=")));
    }
}
/// the text of every property that is TEXT
pub fn every_text() {
    let k = TEXTS[v::pick("name", TEXTS.len())];
    let (s, t) = (v::text("s", "word{0,12}"), v::text("t", "word{0,12}"));
    for d in ["\n", "\\", ",", ";", "\\n", "\\N", "\\\\", "\n ", "\n\t", "\nBEGIN:VEVENT\n", ":", "\"", "\\,", "\n\n", " \n"] {
        let p = Property::new(k, format!("{s}{d}{t}").as_str());
        v::check("TEXT never ends the line early", one_line(&ser(&p)));
        v::check("parses back", back(&p) && back_owned(&p));
    }
}
/// many parameters
pub fn many_parameters() {
    let (s, a) = (v::text("s", "word{6,6}"), v::text("a", "word{5,5}"));
    let mut p = Property::new("SUMMARY", format!("{s},\n{s}\\;\\n").as_str());
    for i in 0..30 { p.add_parameter(&format!("X-{i}"), &format!("{a}{i}")); }
    let p = p.done();
    v::check("parses back", back(&p));
    v::check("parses back to an equal property", back_owned(&p));
}
/// very long values, at some lengths
macro_rules! very_long { ($($n:ident: $k:expr, $x:expr, $c:expr;)*) => { $( pub fn $n() {
    let s = v::text("s", "word{0,12}");
    let p = prop1($k, &format!("{}{}", $x.repeat($c), s), "X-P", "q");
    v::check("a very long line parses back", back(&p));
    v::check("to an equal property", back_owned(&p));
} )* } }
very_long! { very_long_1: "SUMMARY", "ab,c d", 300; very_long_2: "DESCRIPTION", "a;b\\ \n", 250; very_long_3: "X-A", "a;,:\"b ", 700; very_long_4: "COMMENT", "\u{e4}\u{20ac} ", 1500; }
