//! Parameter values with delimiters are quoted and read back.
use crate::{util::*, v};
use icalendar::*;
use parser::Parameter as Par;

fn read(line: &str, pk: &str, val: &str, x: &str) -> bool {
    match parser::Property::try_from(line) { Ok(p) => is_parsed(&p, "X-K", x, &[(pk, Some(val))]), Err(_) => false }
}
fn read_owned(line: &str, pk: &str, val: &str, x: &str) -> bool {
    match line.parse::<Property>() { Ok(p) => is_prop(&p, "X-K", x, &[(pk, val)]), Err(_) => false }
}
/// a parsed property, written again
fn rewrite(pk: &str, val: &str, x: &str) -> String {
    format!("{}", parser::Property { name: "X-K".into(), val: x.into(), params: vec![Par::new_ref(pk, Some(val))] })
}
fn quoted(pk: &str, val: &str, x: &str) {
    let line = format!("X-K;{}=\"{}\":{}\r\n", pk, val, x);
    v::check("a property writes it between quotes", ser(&prop1("X-K", x, pk, val)) == line);
    v::check("a parsed property writes it between quotes", rewrite(pk, val, x) == line);
    v::check("it is read back without the quotes", read(&line, pk, val, x));
    v::check("and into a property", read_owned(&line, pk, val, x));
}
fn bare(pk: &str, val: &str, x: &str) {
    let line = format!("X-K;{}={}:{}\r\n", pk, val, x);
    v::check("a property writes it as it is", ser(&prop1("X-K", x, pk, val)) == line);
    v::check("a parsed property writes it as it is", rewrite(pk, val, x) == line);
}
fn bare_read(pk: &str, val: &str, x: &str) {
    let line = format!("X-K;{}={}:{}\r\n", pk, val, x);
    v::check("it is read back", read(&line, pk, val, x));
    v::check("and into a property", read_owned(&line, pk, val, x));
}
fn x() -> String { v::text("x", "word{0,10}") }
fn a() -> String { v::text("a", "pplain{0,15}") }
fn b() -> String { v::text("b", "pplain{0,15}") }

/// no delimiter at all
pub fn plain() { let (a, x) = (v::text("a", "pplain{1,25}"), x()); bare("P", &a, &x); bare_read("P", &a, &x); }
pub fn plain_any_name() {
    let (k, a) = (v::text("k", "uname{1,12}"), v::text("a", "pplain{1,20}"));
    v::assume(k != "VALUE");
    bare(&k, &a, "v"); bare_read(&k, &a, "v");
}
pub fn empty() { let x = x(); bare("P", "", &x); }
pub fn comma() { let v = format!("{},{}", a(), b()); bare("P", &v, &x()); bare_read("P", &v, "v"); }
pub fn equals() { let v = format!("{}={}", a(), b()); bare("P", &v, &x()); bare_read("P", &v, "v"); }
pub fn space() { let v = format!("{} {}", a(), b()); bare("P", &v, &x()); bare_read("P", &v, "v"); }
pub fn backslash() { let v = format!("{}\\n{}", a(), b()); bare("P", &v, &x()); bare_read("P", &v, "v"); }
/// a delimiter in any place
pub fn colon() { quoted("P", &format!("{}:{}", a(), b()), &x()); }
pub fn semicolon() { quoted("P", &format!("{};{}", a(), b()), &x()); }
pub fn both() { quoted("P", &format!("{};{}:{}", a(), b(), v::text("c", "pplain{0,10}")), "v"); }
pub fn two_colons() { quoted("P", &format!("{}:{}:{}", a(), b(), v::text("c", "pplain{0,10}")), "v"); }
pub fn two_semicolons() { quoted("P", &format!("{};{};{}", a(), b(), v::text("c", "pplain{0,10}")), "v"); }
pub fn only_colon() { quoted("P", ":", &x()); }
pub fn only_semicolon() { quoted("P", ";", &x()); }
pub fn many() { for v in ["::", ";;", ":;", ";:", "a;b=c:d", ";X=Y:Z", "mailto:jsmith@example.com", "a, b; c: d", " : ", ",;,"] { quoted("P", v, "v"); } }
pub fn any_name_colon() {
    let k = v::text("k", "uname{1,12}");
    v::assume(k != "VALUE");
    quoted(&k, &format!("{}:{}", a(), b()), "v");
}
pub fn any_name_semicolon() {
    let k = v::text("k", "uname{1,12}");
    v::assume(k != "VALUE");
    quoted(&k, &format!("{};{}", a(), b()), "v");
}
/// any value at all is read back
pub fn any_value() {
    let (w, x) = (v::text("w", "pval{1,25}"), x());
    let p = prop1("X-K", &x, "P", &w);
    v::check("it is read back", read(&ser(&p), "P", &w, &x));
    v::check("and into a property", read_owned(&ser(&p), "P", &w, &x));
    v::check("a parsed property is read back", read(&rewrite("P", &w, &x), "P", &w, &x));
}
pub fn any_value_of_text() {
    let (w, x) = (v::text("w", "pval{1,25}"), v::text("x", "nocr{0,8}"));
    let line = ser(&prop1("SUMMARY", &x, "ALTREP", &w));
    v::check("it is read back", match parser::Property::try_from(line.as_str()) { Ok(p) => is_parsed(&p, "SUMMARY", &x, &[("ALTREP", Some(&w))]), Err(_) => false });
}
/// long ones are folded
pub fn long() {
    let w = v::text("w", "word{1,100}");
    for d in [":", ";"] {
        let w = format!("{}{}{}", w, d, w);
        let line = parser::unfold(&ser(&prop1("X-K", "v", "P", &w)));
        v::check("a long value is read back", read(&line, "P", &w, "v"));
    }
}
/// several parameters, each on its own
macro_rules! mixed { ($($n:ident: $a:expr, $b:expr, $c:expr;)*) => { $( pub fn $n() {
    let t = v::text("t", "word{1,8}");
    let raw = [format!("{}{}", t, $a), format!("{}{}", $b, t), format!("{}{}", $c, t)];
    let p = Property::new("X-K", "v").add_parameter("A", &raw[0]).add_parameter("B", &raw[1]).add_parameter("C", &raw[2]).done();
    let line = ser(&p);
    v::check("all are read back", match line.parse::<Property>() { Ok(q) => is_prop(&q, "X-K", "v", &[("A", &raw[0]), ("B", &raw[1]), ("C", &raw[2])]), Err(_) => false });
    let q = |w: &str| if w.contains(':') || w.contains(';') { format!("\"{}\"", w) } else { w.to_string() };
    let again = format!("{}", parser::Property { name: "X-K".into(), val: "v".into(), params: vec![Par::new_ref("A", Some(&raw[0])), Par::new_ref("B", Some(&raw[1])), Par::new_ref("C", Some(&raw[2]))] });
    v::check("only those with delimiters are quoted", again == format!("X-K;A={};B={};C={}:v\r\n", q(&raw[0]), q(&raw[1]), q(&raw[2])));
    v::check("all are read back in order", match parser::Property::try_from(again.as_str()) { Ok(x) => is_parsed(&x, "X-K", "v", &[("A", Some(&raw[0])), ("B", Some(&raw[1])), ("C", Some(&raw[2]))]), Err(_) => false });
} )* } }
mixed! { m1: ":", "", ";"; m2: "", ":", ""; m3: ";x=y", ",", ":z"; m4: "", "", ";"; m5: ";", ":", ":;"; }
/// a quoted value without delimiters loses its quotes as well
pub fn needless_quotes() {
    let (a, x) = (v::text("a", "pplain{1,25}"), x());
    v::check("the quotes are no part of the value", read(&format!("X-K;P=\"{}\":{}\r\n", a, x), "P", &a, &x) && read_owned(&format!("X-K;P=\"{}\":{}\r\n", a, x), "P", &a, &x));
}
/// a parameter on its own
pub fn parameter() {
    let (w, c) = (v::text("w", "pval{1,25}"), v::text("c", "pplain{1,25}"));
    v::check("a quoted parameter", match Par::try_from(format!(";P=\"{}\"", w).as_str()) { Ok(p) => p.key.as_str() == "P" && match &p.val { Some(x) => x.as_str() == w, None => false }, Err(_) => false });
    v::check("a bare parameter", match Par::try_from(format!(";P={}", c).as_str()) { Ok(p) => p.key.as_str() == "P" && match &p.val { Some(x) => x.as_str() == c, None => false }, Err(_) => false });
}
/// inside components and calendars
pub fn in_component() {
    let (w, t) = (format!("{}:{}", v::text("a", "word{0,10}"), v::text("b", "word{0,10}")), v::text("t", "word{0,10}"));
    let mut e = Event::new();
    e.append_property(Property::new("UID", "1")).append_property(Property::new("DTSTAMP", "20200101T000000Z"));
    e.append_property(prop1("X-K", &t, "P", &w));
    e.append_multi_property(prop1("ATTENDEE", &t, "CN", &w));
    let out = e.to_string();
    v::check("written between quotes", out.contains(&format!("\r\nX-K;P=\"{}\":{}\r\n", w, t)) && out.contains(&format!("\r\nATTENDEE;CN=\"{}\":{}\r\n", w, t)));
    match out.parse::<CalendarComponent>() {
        Ok(CalendarComponent::Event(f)) => v::check("read back", match f.properties().get("X-K") { Some(p) => is_prop(p, "X-K", &t, &[("P", &w)]), None => false }
            && match f.multi_properties().get("ATTENDEE") { Some(l) => l.len() == 1 && is_prop(&l[0], "ATTENDEE", &t, &[("CN", &w)]), None => false }),
        _ => v::check("read back", false),
    }
}
pub fn in_calendar() {
    let (w, t) = (format!("{};{}", v::text("a", "word{0,10}"), v::text("b", "word{0,10}")), v::text("t", "word{0,10}"));
    let mut c = Calendar::empty();
    c.append_property(prop1("X-K", &t, "P", &w));
    let out = c.to_string();
    v::check("written between quotes", out == format!("BEGIN:VCALENDAR\r\nX-K;P=\"{}\":{}\r\nEND:VCALENDAR\r\n", w, t));
    v::check("read back", match out.parse::<Calendar>() { Ok(d) => d.properties.len() == 1 && is_prop(&d.properties[0], "X-K", &t, &[("P", &w)]), Err(_) => false });
    v::check("written again", match parser::read_calendar(&out) { Ok(d) => d.to_string() == out, Err(_) => false });
}
/// every registered parameter, and VALUE with a type of one's own
pub fn every_parameter() {
    let (k, t) = (a_param(), v::text("t", "word{0,10}"));
    for d in [":", ";", "a:b", ";;"] { quoted(k, &format!("{}{}{}", t, d, t), "v"); }
    bare(k, &t, "v");
    if !t.is_empty() { bare_read(k, &t, "v"); }
}
/// every property
pub fn every_property() {
    let (n, t) = (a_name(), v::text("t", "word{1,10}"));
    for d in [":", ";"] {
        let w = format!("{}{}{}", t, d, t);
        let line = format!("{};P=\"{}\":{}\r\n", n, w, t);
        v::check("a property writes it between quotes", ser(&prop1(n, &t, "P", &w)) == line);
        v::check("a parsed property writes it between quotes", format!("{}", parser::Property { name: n.into(), val: t.as_str().into(), params: vec![Par::new_ref("P", Some(&w))] }) == line);
        v::check("it is read back", match parser::Property::try_from(line.as_str()) { Ok(p) => is_parsed(&p, n, &t, &[("P", Some(&w))]), Err(_) => false });
    }
}
/// a delimiter as the first or last character, and next to each other kind of character
pub fn at_the_ends() {
    let (t, d) = (v::text("t", "pplain{0,20}"), [":", ";"][v::pick("d", 2)]);
    for w in [format!("{d}{t}"), format!("{t}{d}"), format!("{d}{t}{d}"), format!(" {d}{t}"), format!("{t}{d} "), format!("{t}={d}"), format!("{d}={t}"), format!("{t},{d}"), format!("\u{e9}{d}\u{20ac}{t}"), format!("{t}\\{d}"), format!("'{t}{d}'")] { quoted("P", &w, "v"); }
}
/// many parameters with delimiters, in front of a value full of them
pub fn many_at_once() {
    let t = v::text("t", "word{1,5}");
    let names = ["A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L"];
    let mut p = Property::new("X-K", &format!("{t}:\"{t};{t}\",x"));
    let mut line = String::from("X-K");
    for (i, n) in names.iter().enumerate() {
        let w = if i % 3 == 0 { format!("{t}:{i}") } else if i % 3 == 1 { format!("{t}{i}") } else { format!("{i};{t};") };
        p.add_parameter(n, &w);
        line.push_str(&if i % 3 == 1 { format!(";{n}={w}") } else { format!(";{n}=\"{w}\"") });
    }
    line.push_str(&format!(":{t}:\"{t};{t}\",x\r\n"));
    let p = p.done();
    let out = ser(&p);
    v::check("each is quoted where it has to be", parser::unfold(&out) == line);
    match parser::unfold(&out).parse::<Property>() {
        Ok(q) => v::check("all are read back", q.params().len() == 12 && q.value() == p.value() && names.iter().all(|n| q.params()[*n].value() == p.params()[*n].value())),
        Err(_) => v::check("it parses", false),
    }
}
/// read into components of every kind, and converted
pub fn converted() {
    let (k, t) = (a_kind(), v::text("t", "word{1,5}"));
    let text = format!("BEGIN:{k}\r\nX-K;P=\"{t}:\";Q=\";{t}\";R=\"{t}\":{t}\r\nATTENDEE;CN=\"{t}; {t}\":mailto:x\r\nEND:{k}\r\n");
    match text.parse::<CalendarComponent>() {
        Ok(c) => {
            let (p, m) = match &c {
                CalendarComponent::Event(e) => (e.properties().get("X-K").cloned(), e.multi_properties().get("ATTENDEE").cloned()),
                CalendarComponent::Todo(e) => (e.properties().get("X-K").cloned(), e.multi_properties().get("ATTENDEE").cloned()),
                CalendarComponent::Venue(e) => (e.properties().get("X-K").cloned(), e.multi_properties().get("ATTENDEE").cloned()),
                CalendarComponent::Other(e) => (e.properties().get("X-K").cloned(), e.multi_properties().get("ATTENDEE").cloned()),
                _ => (None, None),
            };
            v::check("the values are free of quotes", match p { Some(p) => is_prop(&p, "X-K", &t, &[("P", &format!("{t}:")), ("Q", &format!(";{t}")), ("R", &t)]), None => false });
            v::check("also that of a repeated property", match m { Some(l) => l.len() == 1 && is_prop(&l[0], "ATTENDEE", "mailto:x", &[("CN", &format!("{t}; {t}"))]), None => false });
        }
        Err(_) => v::check("it parses", false),
    }
}
