//! TEXT escaping is undone exactly by TEXT unescaping.
use crate::{util::*, v};
use icalendar::*;

/// writing the text as the value of this property and parsing the line gives the text back
fn back(p: Property, s: &str) -> bool {
    let line = ser(&p);
    let whole = parser::unfold(&line);
    match parser::Property::try_from(whole.as_str()) {
        Ok(q) => q.name.as_str() == p.key() && q.val.as_str() == s,
        Err(_) => false,
    }
}
/// the same with the owned property, and once more
fn twice(p: Property, s: &str) -> bool {
    let line = ser(&p);
    let whole = parser::unfold(&line);
    match whole.parse::<Property>() {
        Ok(q) => {
            let again = parser::unfold(&ser(&q));
            q.key() == p.key() && q.value() == s && again == whole
        }
        Err(_) => false,
    }
}
/// the value part of a short property line without parameters
fn raw<'a>(line: &'a str, key: &str) -> Option<&'a str> {
    line.strip_prefix(key)?.strip_prefix(':')?.strip_suffix("\r\n")
}
/// every special character is part of an escape sequence
fn escaped(value: &str) -> bool {
    let mut esc = false;
    for c in value.chars() {
        if esc {
            if !(c == '\\' || c == ',' || c == ';' || c == 'n' || c == 'N') { return false; }
            esc = false;
        } else if c == '\\' {
            esc = true;
        } else if c == ',' || c == ';' || c == '\n' {
            return false;
        }
    }
    !esc
}
pub fn roundtrip_short() {
    let s = v::text("s", "nocr{0,30}");
    v::check("text survives", back(Property::new("SUMMARY", s.as_str()), &s));
}
pub fn roundtrip_owned() {
    let s = v::text("s", "nocr{0,30}");
    v::check("text survives, and writing it again gives the same line", twice(Property::new("DESCRIPTION", s.as_str()), &s));
}
pub fn roundtrip_value_text() {
    let s = v::text("s", "nocr{0,20}");
    let p = prop1("X-NOTE", &s, "VALUE", "TEXT");
    v::check("text of VALUE=TEXT survives", back(p, &s));
}
pub fn roundtrip_any_name() {
    let s = v::text("s", "nocr{0,15}");
    let k = v::text("k", "uname{1,20}");
    v::assume(k != "END");
    v::assume(k != "BEGIN");
    let p = prop1(&k, &s, "VALUE", "TEXT");
    v::check("text survives under any name", back(p, &s));
}
pub fn roundtrip_setters() {
    let s = v::text("s", "nocr{0,25}");
    let mut e = Event::new();
    e.summary(&s);
    e.description(&s);
    e.location(&s);
    let ps = e.properties();
    v::check("SUMMARY", match ps.get("SUMMARY") { Some(p) => back(p.clone(), &s), None => false });
    v::check("DESCRIPTION", match ps.get("DESCRIPTION") { Some(p) => back(p.clone(), &s), None => false });
    v::check("LOCATION", match ps.get("LOCATION") { Some(p) => back(p.clone(), &s), None => false });
}
pub fn roundtrip_long() {
    let s = v::text("s", "plain{0,140}");
    v::check("long text survives", back(Property::new("SUMMARY", s.as_str()), &s));
}
pub fn roundtrip_long_ascii() {
    let s = v::text("s", "word{0,400}");
    v::check("long text survives", back(Property::new("SUMMARY", s.as_str()), &s));
}
// special characters before, on and after the place where a line is folded
macro_rules! at_fold { ($($n:ident: $class:expr;)*) => { $( pub fn $n() {
    let a = v::text("a", $class);
    let (x, y) = (v::ch("x", "nocr"), v::ch("y", "nocr"));
    let c = v::text("c", "word{0,40}");
    let mut s = a.clone();
    s.push(x);
    s.push(y);
    s.push_str(&c);
    v::check("text with special characters at a fold survives", back(Property::new("SUMMARY", s.as_str()), &s));
} )* } }
at_fold! {
    at_fold_59: "word{59,59}"; at_fold_60: "word{60,60}"; at_fold_61: "word{61,61}"; at_fold_62: "word{62,62}"; at_fold_63: "word{63,63}";
    at_fold_64: "word{64,64}"; at_fold_65: "word{65,65}"; at_fold_66: "word{66,66}"; at_fold_67: "word{67,67}"; at_fold_68: "word{68,68}";
}
macro_rules! texts { ($($n:ident: $k:expr;)*) => { pub mod names { use super::*; $(
    pub fn $n() {
        let s = v::text("s", "nocr{0,18}");
        let line = ser(&Property::new($k, s.as_str()));
        v::check("TEXT is escaped", match raw(&line, $k) { Some(x) => escaped(x), None => false });
        v::check("TEXT survives", back(Property::new($k, s.as_str()), &s));
    }
)* } } }
texts! {
    summary: "SUMMARY"; description: "DESCRIPTION"; location: "LOCATION"; comment: "COMMENT"; contact: "CONTACT";
    uid: "UID"; related_to: "RELATED-TO"; categories: "CATEGORIES"; resources: "RESOURCES"; class: "CLASS";
    status: "STATUS"; transp: "TRANSP"; name: "NAME"; tzid: "TZID"; tzname: "TZNAME"; method: "METHOD";
    prodid: "PRODID"; version: "VERSION"; calscale: "CALSCALE"; action: "ACTION"; request_status: "REQUEST-STATUS";
}
pub fn parsed_side() {
    let s = v::text("s", "nocr{0,25}");
    let p = parser::Property::new_ref("SUMMARY", &s);
    let line = p.to_string();
    v::check("a parsed property is escaped when written", match raw(&line, "SUMMARY") { Some(x) => escaped(x), None => false });
    v::check("and read back", match parser::Property::try_from(line.as_str()) { Ok(q) => q.val.as_str() == s && q == p, Err(_) => false });
}
pub fn decoding_is_single_pass() {
    // the meaning of each escape sequence, in the middle of any text
    let a = v::text("a", "plain{0,20}");
    let b = v::text("b", "plain{0,20}");
    let one = |esc: &str, mean: &str| {
        let line = format!("SUMMARY:{}{}{}\r\n", a, esc, b);
        match parser::Property::try_from(line.as_str()) {
            Ok(q) => q.val.as_str() == format!("{}{}{}", a, mean, b),
            Err(_) => false,
        }
    };
    v::check("\\n", one("\\n", "\n"));
    v::check("\\N", one("\\N", "\n"));
    v::check("\\\\", one("\\\\", "\\"));
    v::check("\\,", one("\\,", ","));
    v::check("\\;", one("\\;", ";"));
    v::check("\\\\n is a backslash and an n", one("\\\\n", "\\n"));
    v::check("\\\\\\n is a backslash and a line break", one("\\\\\\n", "\\\n"));
    v::check("\\\\, is a backslash and a comma", one("\\\\,", "\\,"));
    v::check("\\\\\\\\ is two", one("\\\\\\\\", "\\\\"));
    v::check("\\,\\;\\n", one("\\,\\;\\n", ",;\n"));
}
pub fn other_types_stay() {
    let s = v::text("s", "line{0,40}");
    v::check("a URL is written and read as it is", back(Property::new("URL", s.as_str()), &s));
    let line = ser(&Property::new("URL", s.as_str()));
    v::check("without escapes", match raw(&line, "URL") { Some(x) => x == s, None => false });
}
pub fn other_types_stay_unknown() {
    let s = v::text("s", "line{0,40}");
    v::check("a value of no known type is written and read as it is", back(Property::new("X-THING", s.as_str()), &s));
}
/// reading: every escape sequence alone, and a backslash that begins none
fn read(raw: &str) -> Option<String> {
    let line = format!("SUMMARY:{raw}\r\n");
    let p = parser::Property::try_from(line.as_str()).ok()?;
    let q = line.parse::<Property>().ok()?;
    if p.val.as_str() != q.value() { return None; }
    let c = format!("BEGIN:VEVENT\r\n{line}END:VEVENT\r\n").parse::<CalendarComponent>().ok()?;
    match c { CalendarComponent::Event(e) if e.get_summary() == Some(q.value()) => Some(q.value().to_string()), _ => None }
}
const ESCAPES: [(&str, &str); 6] = [("\\n", "\n"), ("\\N", "\n"), ("\\\\", "\\"), ("\\,", ","), ("\\;", ";"), ("\\:", ":")];
pub fn each_escape() {
    let (a, b) = (v::text("a", "word{0,10}"), v::text("b", "word{0,10}"));
    for (e, c) in ESCAPES { v::check("it is undone", read(&format!("{a}{e}{b}")) == Some(format!("{a}{c}{b}"))); }
}
pub fn pairs_of_escapes() {
    let i = v::pick("i", ESCAPES.len());
    let (e, c) = ESCAPES[i];
    let a = v::text("a", "word{0,10}");
    for (f, d) in ESCAPES {
        v::check("both are undone", read(&format!("{e}{f}{a}")) == Some(format!("{c}{d}{a}")));
        v::check("around others", read(&format!("{e}{a}{f}")) == Some(format!("{c}{a}{d}")));
    }
}
const PLAIN: [&str; 22] = ["\\a", "\\r", "\\t", "\\0", "\\'", "\\\"", "\\ ", "\\=", "\\-", "\\.", "\\/", "\\x41", "\\u", "\\é", "\\😀", "\\m", "\\o", "\\M", "\\O", "\\[", "\\]", "\\|"];
pub fn other_backslashes() {
    let (a, b) = (v::text("a", "word{0,10}"), v::text("b", "word{0,10}"));
    for e in PLAIN { v::check("it is left as it is", read(&format!("{a}{e}{b}")) == Some(format!("{a}{e}{b}"))); }
    v::check("at the end", read(&format!("{a}\\")) == Some(format!("{a}\\")));
}
pub fn other_backslashes_among_escapes() {
    let a = v::text("a", "word{0,10}");
    for e in PLAIN {
        for (f, d) in ESCAPES { v::check("it is left as it is", read(&format!("{a}{e}{f}{e}")) == Some(format!("{a}{e}{d}{e}"))); }
    }
    v::check("at the end", read(&format!("\\,{a}\\")) == Some(format!(",{a}\\")));
    v::check("alone", read("\\") == Some("\\".to_string()) && read("\\\\\\") == Some("\\\\".to_string()));
}
pub fn unescaped_specials() {
    let (a, b) = (v::text("a", "word{0,10}"), v::text("b", "word{0,10}"));
    for c in [",", ";", ":", "\"", "=", ",,", "\t", " "] {
        v::check("it is left as it is", read(&format!("{a}{c}{b}")) == Some(format!("{a}{c}{b}")));
        v::check("among escapes", read(&format!("{a}\\n{c}{b}")) == Some(format!("{a}\n{c}{b}")));
    }
}
