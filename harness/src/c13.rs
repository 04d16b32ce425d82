//! Parsing keeps every property, parameter and child in order.
use crate::{util::*, v};
use icalendar::parser::*;

/// one component with three properties
pub fn flat() {
    let (n, s, t, a) = (v::text("n", "uname{1,20}"), v::text("s", "line{0,40}"), v::text("t", "line{0,40}"), v::text("a", "pplain{1,20}"));
    let text = format!("BEGIN:{}\nX-A:{}\nX-B;P={};Q=r:{}\nX-A:{}\nEND:{}\n", n, s, a, t, t, n);
    match Component::try_from(text.as_str()) {
        Ok(c) => {
            v::check("one node with its three properties", is_node(&c, &n, 3, 0));
            v::check("the properties are in order, with name, parameters and value", is_parsed(&c.properties[0], "X-A", &s, &[])
                && is_parsed(&c.properties[1], "X-B", &t, &[("P", Some(&a)), ("Q", Some("r"))]) && is_parsed(&c.properties[2], "X-A", &t, &[]));
        }
        Err(_) => v::check("the component parses", false),
    }
}
/// any property names
pub fn names() {
    let (k, l) = (format!("X-{}", v::text("k", "uname{0,20}")), format!("Y-{}", v::text("l", "name{0,20}")));
    let (s, t) = (v::text("s", "word{0,20}"), v::text("t", "word{0,20}"));
    let text = format!("BEGIN:VEVENT\n{}:{}\n{}:{}\nEND:VEVENT\n", k, s, l, t);
    match Component::try_from(text.as_str()) {
        Ok(c) => {
            v::check("two properties", is_node(&c, "VEVENT", 2, 0));
            v::check("every name is kept", is_parsed(&c.properties[0], &k, &s, &[]) && is_parsed(&c.properties[1], &l, &t, &[]));
        }
        Err(_) => v::check("the component parses", false),
    }
}
/// names that look like the frame of a component
macro_rules! frames { ($($n:ident: $k:expr;)*) => { $( pub fn $n() {
    let (s, t) = (v::text("s", "word{0,20}"), v::text("t", "word{0,20}"));
    let text = format!("BEGIN:VEVENT\nX-A:{}\n{}:{}\nX-B:{}\nEND:VEVENT\n", s, $k, t, t);
    match Component::try_from(text.as_str()) {
        Ok(c) => {
            v::check("three properties", is_node(&c, "VEVENT", 3, 0));
            v::check("a name like a frame is a name", is_parsed(&c.properties[0], "X-A", &s, &[]) && is_parsed(&c.properties[1], $k, &t, &[]) && is_parsed(&c.properties[2], "X-B", &t, &[]));
        }
        Err(_) => v::check("the component parses", false),
    }
} )* } }
frames! { end_x: "END-X"; begin_x: "BEGIN-X"; ending: "ENDING"; beginning: "BEGINNING"; end_of: "ENDVEVENT"; vend: "VEND"; dtend: "DTEND"; x_begin: "X-BEGIN"; }
/// every typed property in one component
macro_rules! all_names { ($($n:ident: $($k:expr),*;)*) => { $( pub fn $n() {
    let s = v::text("s", "word{0,20}");
    let mut text = String::from("BEGIN:VTODO\n");
    let names = [$($k),*];
    for k in names { text.push_str(k); text.push(':'); text.push_str(&s); text.push('\n'); }
    text.push_str("END:VTODO\n");
    match Component::try_from(text.as_str()) {
        Ok(c) => {
            v::check("every property is there", is_node(&c, "VTODO", names.len(), 0));
            let mut i = 0;
            for k in names { v::check("every property is in its place", is_parsed(&c.properties[i], k, &s, &[])); i += 1; }
        }
        Err(_) => v::check("the component parses", false),
    }
} )* } }
all_names! {
    all_names: "SUMMARY", "DESCRIPTION", "LOCATION", "UID", "DTSTAMP", "DTSTART", "DUE", "CLASS", "PRIORITY", "SEQUENCE", "URL", "STATUS";
    more_names: "ATTENDEE", "ATTENDEE", "CATEGORIES", "COMMENT", "RRULE", "EXDATE", "ATTACH", "RELATED-TO", "ORGANIZER", "GEO", "COMPLETED", "LAST-MODIFIED";
}
/// text is decoded
pub fn decoded() {
    let s = v::text("s", "nocr{0,30}");
    let text = format!("BEGIN:VEVENT\n{}X-A:1\nEND:VEVENT\n", crate::util::ser(&icalendar::Property::new("SUMMARY", &s)));
    match Component::try_from(text.as_str()) {
        Ok(c) => v::check("a text value is decoded", is_node(&c, "VEVENT", 2, 0) && is_parsed(&c.properties[0], "SUMMARY", &s, &[])),
        Err(_) => v::check("the component parses", false),
    }
}
/// a value ends at the line break, and not before it
pub fn until_the_line_break() {
    let s = v::text("s", "word{0,20}");
    for x in ["\r", "\r\r", "\rb", "a\r", " ", " \r", "\t", "\u{b}", "\u{85}", "\u{2028}", "\u{a0}", "\u{feff}", "\u{0}", "\"", ";", ":", ",", "="] {
        for e in ["\n", "\r\n"] {
            if e == "\n" && x.ends_with('\r') { continue; }
            for k in ["X-A", "SUMMARY", "COMMENT"] {
                let text = format!("BEGIN:VEVENT{e}{k};P=q:{s}{x}{e}X-B:{x}{s}{x}{e}END:VEVENT{e}");
                match Component::try_from(text.as_str()) {
                    Ok(c) => v::check("nothing before the line break is lost", is_node(&c, "VEVENT", 2, 0) && is_parsed(&c.properties[0], k, &format!("{s}{x}"), &[("P", Some("q"))]) && is_parsed(&c.properties[1], "X-B", &format!("{x}{s}{x}"), &[])),
                    Err(_) => v::check("the component parses", false),
                }
            }
        }
    }
}
macro_rules! escapes { ($($n:ident: $raw:expr, $val:expr;)*) => { $( pub fn $n() {
    let (s, t) = (v::text("s", "word{0,20}"), v::text("t", "word{0,20}"));
    for k in ["SUMMARY", "COMMENT", "X-WR-CALNAME", "DESCRIPTION;LANGUAGE=en", "X-A;VALUE=TEXT"] {
        let line = format!("{}:{}{}{}", k, s, $raw, t);
        match Property::try_from(line.as_str()) {
            Ok(p) => v::check("an escape sequence is decoded", p.val.as_str() == format!("{}{}{}", s, $val, t)),
            Err(_) => v::check("the line parses", false),
        }
    }
    for k in ["URL", "X-A", "DTSTART", "SUMMARY;VALUE=URI", "UNKNOWN"] {
        let line = format!("{}:{}{}{}", k, s, $raw, t);
        match Property::try_from(line.as_str()) {
            Ok(p) => v::check("a value that is no text is not decoded", p.val.as_str() == format!("{}{}{}", s, $raw, t)),
            Err(_) => v::check("the line parses", false),
        }
    }
} )* } }
escapes! { backslash: "\\\\", "\\"; comma: "\\,", ","; semicolon: "\\;", ";"; newline: "\\n", "\n"; newline_2: "\\N", "\n"; backslash_n: "\\\\n", "\\n"; twice: "\\\\\\,", "\\,"; }
/// parameters in order, in every form
pub fn parameters() {
    let (a, b, c) = (v::text("a", "pplain{1,20}"), v::text("b", "pval{1,20}"), v::text("c", "pplain{1,20}"));
    let s = v::text("s", "line{0,20}");
    let line = format!("X-K;A={};B=\"{}\";C;D=;E={}:{}", a, b, c, s);
    match Property::try_from(line.as_str()) {
        Ok(p) => v::check("all parameters in order", is_parsed(&p, "X-K", &s, &[("A", Some(&a)), ("B", Some(&b)), ("C", None), ("D", None), ("E", Some(&c))])),
        Err(_) => v::check("the line parses", false),
    }
}
pub fn same_parameter_twice() {
    let (a, b) = (v::text("a", "pplain{1,20}"), v::text("b", "pplain{1,20}"));
    let line = format!("ATTENDEE;MEMBER={};CN=x;MEMBER={}:y", a, b);
    match Property::try_from(line.as_str()) {
        Ok(p) => v::check("both are kept in order", is_parsed(&p, "ATTENDEE", "y", &[("MEMBER", Some(&a)), ("CN", Some("x")), ("MEMBER", Some(&b))])),
        Err(_) => v::check("the line parses", false),
    }
}
pub fn parameter_names() {
    let (k, l) = (v::text("k", "uname{1,20}"), v::text("l", "uname{1,20}"));
    let (a, b) = (v::text("a", "word{1,20}"), v::text("b", "word{1,20}"));
    v::assume(k != "VALUE" && l != "VALUE");
    let line = format!("X-K;{}={};{}={}:v", k, a, l, b);
    match Property::try_from(line.as_str()) {
        Ok(p) => v::check("parameter names are kept", is_parsed(&p, "X-K", "v", &[(&k, Some(&a)), (&l, Some(&b))])),
        Err(_) => v::check("the line parses", false),
    }
}
pub fn one_parameter() {
    let (k, a) = (v::text("k", "uname{1,20}"), v::text("a", "pplain{1,20}"));
    match Parameter::try_from(format!(";{}={}", k, a).as_str()) {
        Ok(p) => v::check("a parameter on its own", p.key.as_str() == k && match p.val { Some(x) => x.as_str() == a, None => false }),
        Err(_) => v::check("the parameter parses", false),
    }
}
/// a value may hold any delimiter
pub fn delimiters_in_value() {
    let (a, b) = (v::text("a", "line{0,20}"), v::text("b", "line{0,20}"));
    for d in [":", ";", "=", "\"", ",", " ", ";X=Y:", "\"a:b\""] {
        let line = format!("X-K;A=b:{}{}{}", a, d, b);
        match Property::try_from(line.as_str()) {
            Ok(p) => v::check("the value is everything after the colon", is_parsed(&p, "X-K", &format!("{}{}{}", a, d, b), &[("A", Some("b"))])),
            Err(_) => v::check("the line parses", false),
        }
    }
}
/// children before, between and after properties
pub fn nested() {
    let (m, n) = (v::text("m", "uname{1,12}"), v::text("n", "uname{1,12}"));
    let (s, t) = (v::text("s", "word{0,20}"), v::text("t", "word{0,20}"));
    let text = format!("BEGIN:VCALENDAR\nBEGIN:{}\nX-A:{}\nEND:{}\nX-B:{}\nBEGIN:{}\nX-C:1\nX-D:{}\nEND:{}\nX-E:2\nEND:VCALENDAR\n", m, s, m, t, n, t, n);
    match Component::try_from(text.as_str()) {
        Ok(c) => {
            v::check("two properties and two children", is_node(&c, "VCALENDAR", 2, 2));
            v::check("own properties in order", is_parsed(&c.properties[0], "X-B", &t, &[]) && is_parsed(&c.properties[1], "X-E", "2", &[]));
            v::check("children in order", is_node(&c.components[0], &m, 1, 0) && is_node(&c.components[1], &n, 2, 0));
            v::check("the properties of the children", is_parsed(&c.components[0].properties[0], "X-A", &s, &[])
                && is_parsed(&c.components[1].properties[0], "X-C", "1", &[]) && is_parsed(&c.components[1].properties[1], "X-D", &t, &[]));
        }
        Err(_) => v::check("the component parses", false),
    }
}
/// every shape of three levels: a parent, its children, and theirs
pub fn deep() {
    let (s, t) = (v::text("s", "word{0,20}"), v::text("t", "word{0,20}"));
    let text = format!("BEGIN:A\nBEGIN:B\nBEGIN:A\nX-1:{}\nBEGIN:B\nEND:B\nEND:A\nBEGIN:C\nEND:C\nX-2:{}\nEND:B\nBEGIN:B\nX-3:{}\nEND:B\nEND:A\n", s, t, s);
    match Component::try_from(text.as_str()) {
        Ok(a) => {
            v::check("the root", is_node(&a, "A", 0, 2));
            let (b, b2) = (&a.components[0], &a.components[1]);
            v::check("the children", is_node(b, "B", 1, 2) && is_node(b2, "B", 1, 0) && is_parsed(&b.properties[0], "X-2", &t, &[]) && is_parsed(&b2.properties[0], "X-3", &s, &[]));
            v::check("their children", is_node(&b.components[0], "A", 1, 1) && is_node(&b.components[1], "C", 0, 0) && is_parsed(&b.components[0].properties[0], "X-1", &s, &[]));
            v::check("the innermost", is_node(&b.components[0].components[0], "B", 0, 0));
        }
        Err(_) => v::check("the component parses", false),
    }
}
/// several roots
pub fn roots() {
    let (m, n) = (v::text("m", "uname{1,12}"), v::text("n", "uname{1,12}"));
    let s = v::text("s", "word{0,20}");
    let text = format!("BEGIN:{}\nX-A:{}\nEND:{}\nBEGIN:{}\nX-B:1\nBEGIN:X\nEND:X\nEND:{}\nBEGIN:VTODO\nEND:VTODO\n", m, s, m, n, n);
    for l in [read_components(&text).ok(), read_calendar_simple(&text).ok()] {
        match l {
            Some(l) => {
                v::check("three roots", l.len() == 3);
                v::check("all roots in order", is_node(&l[0], &m, 1, 0) && is_node(&l[1], &n, 1, 1) && is_node(&l[2], "VTODO", 0, 0));
                v::check("the properties of the roots", is_parsed(&l[0].properties[0], "X-A", &s, &[]) && is_parsed(&l[1].properties[0], "X-B", "1", &[]));
            }
            None => v::check("the document parses", false),
        }
    }
    v::assume(m != "VCALENDAR");
    match read_calendar(&text) {
        Ok(c) => v::check("components without a calendar around them", c.properties.is_empty() && c.components.len() == 3 && is_node(&c.components[0], &m, 1, 0)
            && is_node(&c.components[1], &n, 1, 1) && is_node(&c.components[2], "VTODO", 0, 0)),
        Err(_) => v::check("the document parses", false),
    }
}
/// one calendar
pub fn calendar() {
    let (s, t, n) = (v::text("s", "word{0,20}"), v::text("t", "word{0,20}"), v::text("n", "uname{1,12}"));
    let text = format!("BEGIN:VCALENDAR\nVERSION:2.0\nX-A;P=q:{}\nBEGIN:VEVENT\nX-B:{}\nEND:VEVENT\nBEGIN:{}\nX-C:{}\nEND:{}\nX-D:1\nEND:VCALENDAR\n", s, t, n, s, n);
    match read_calendar(&text) {
        Ok(c) => {
            v::check("the calendar's properties in order", c.properties.len() == 3 && is_parsed(&c.properties[0], "VERSION", "2.0", &[])
                && is_parsed(&c.properties[1], "X-A", &s, &[("P", Some("q"))]) && is_parsed(&c.properties[2], "X-D", "1", &[]));
            v::check("the calendar's components in order", c.components.len() == 2 && is_node(&c.components[0], "VEVENT", 1, 0) && is_node(&c.components[1], &n, 1, 0));
            v::check("the properties of the components", is_parsed(&c.components[0].properties[0], "X-B", &t, &[]) && is_parsed(&c.components[1].properties[0], "X-C", &s, &[]));
        }
        Err(_) => v::check("the document parses", false),
    }
}
/// finding a property gives the first of that name
pub fn find() {
    let (s, t) = (v::text("s", "word{0,20}"), v::text("t", "word{0,20}"));
    let text = format!("BEGIN:VEVENT\nX-A:{}\nX-B:{}\nX-A:2\nEND:VEVENT\n", s, t);
    match Component::try_from(text.as_str()) {
        Ok(c) => {
            v::check("the first of the name is found", match c.find_prop("X-A") { Some(p) => is_parsed(p, "X-A", &s, &[]), None => false });
            v::check("any name is found", match c.find_prop(String::from("X-B")) { Some(p) => is_parsed(p, "X-B", &t, &[]), None => false });
            v::check("another name is not found", c.find_prop("X-C").is_none());
        }
        Err(_) => v::check("the component parses", false),
    }
}
/// the case of BEGIN and END does not matter, the name's does
pub fn keywords() {
    let s = v::text("s", "word{0,20}");
    for (b, e) in [("BEGIN", "END"), ("begin", "end"), ("Begin", "End")] {
        let text = format!("{}:VEVENT\nX-A:{}\n{}:VEVENT\n", b, s, e);
        match Component::try_from(text.as_str()) {
            Ok(c) => v::check("a component", is_node(&c, "VEVENT", 1, 0) && is_parsed(&c.properties[0], "X-A", &s, &[])),
            Err(_) => v::check("the component parses", false),
        }
    }
}
/// nothing between the frame
pub fn empty() {
    let n = v::text("n", "uname{1,20}");
    match Component::try_from(format!("BEGIN:{}\nEND:{}\n", n, n).as_str()) {
        Ok(c) => v::check("an empty component", is_node(&c, &n, 0, 0)),
        Err(_) => v::check("the component parses", false),
    }
    match Component::try_from(format!("BEGIN:{}\nEND:{}", n, n).as_str()) {
        Ok(c) => v::check("the last line ending is not needed", is_node(&c, &n, 0, 0)),
        Err(_) => v::check("the component parses without the last line ending", false),
    }
    match read_calendar("") {
        Ok(c) => v::check("nothing is an empty calendar", c.properties.is_empty() && c.components.is_empty()),
        Err(_) => v::check("nothing parses", false),
    }
}
/// the calendar is the first root, whatever follows
pub fn first_root() {
    let (s, n) = (v::text("s", "word{0,20}"), v::text("n", "uname{1,12}"));
    let text = format!("BEGIN:VCALENDAR\nX-A:{s}\nBEGIN:VTODO\nX-B:{s}\nEND:VTODO\nEND:VCALENDAR\nBEGIN:{n}\nX-C:1\nBEGIN:VEVENT\nEND:VEVENT\nEND:{n}\nBEGIN:VCALENDAR\nX-D:2\nEND:VCALENDAR\n");
    match read_calendar(&text) {
        Ok(c) => v::check("the calendar is the first root", c.properties.len() == 1 && is_parsed(&c.properties[0], "X-A", &s, &[]) && c.components.len() == 1
            && is_node(&c.components[0], "VTODO", 1, 0) && is_parsed(&c.components[0].properties[0], "X-B", &s, &[])),
        Err(_) => v::check("the document parses", false),
    }
    match read_components(&text) {
        Ok(l) => v::check("all roots are read", l.len() == 3 && is_node(&l[0], "VCALENDAR", 1, 1) && is_node(&l[1], &n, 1, 1) && is_node(&l[2], "VCALENDAR", 1, 0)),
        Err(_) => v::check("the roots parse", false),
    }
}
/// many of everything
pub fn many() {
    let s = v::text("s", "word{0,9}");
    let mut text = String::from("BEGIN:VCALENDAR\n");
    for i in 0..70 { text.push_str(&format!("X-{i}:{s}{i}\nBEGIN:C{i}\nEND:C{i}\n")); }
    text.push_str("END:VCALENDAR\n");
    match Component::try_from(text.as_str()) {
        Ok(c) => {
            v::check("all of them are there", is_node(&c, "VCALENDAR", 70, 70));
            for i in 0..70 {
                v::check("every property is in its place", is_parsed(&c.properties[i], &format!("X-{i}"), &format!("{s}{i}"), &[]));
                v::check("every child is in its place", is_node(&c.components[i], &format!("C{i}"), 0, 0));
            }
        }
        Err(_) => v::check("the component parses", false),
    }
    match read_calendar(&text) {
        Ok(c) => v::check("the calendar has all of them", c.properties.len() == 70 && c.components.len() == 70 && is_node(&c.components[0], "C0", 0, 0) && is_node(&c.components[69], "C69", 0, 0)),
        Err(_) => v::check("the calendar parses", false),
    }
}
pub fn many_roots() {
    let s = v::text("s", "word{0,9}");
    let mut text = String::new();
    for i in 0..70 { text.push_str(&format!("BEGIN:C{i}\nX-A:{s}\nEND:C{i}\n")); }
    match (read_components(&text), read_calendar(&text)) {
        (Ok(l), Ok(c)) => {
            v::check("all roots are there", l.len() == 70 && c.components.len() == 70);
            for i in 0..70 { v::check("every root is in its place", is_node(&l[i], &format!("C{i}"), 1, 0) && is_node(&c.components[i], &format!("C{i}"), 1, 0)); }
        }
        _ => v::check("the document parses", false),
    }
}
pub fn many_parameters() {
    let s = v::text("s", "word{0,9}");
    let mut line = String::from("SUMMARY");
    for i in 0..20 { line.push_str(&format!(";P{i}={s}{i}")); }
    line.push_str(&format!(":a\\, {s}\\n"));
    match Property::try_from(line.as_str()) {
        Ok(p) => {
            v::check("a text with many parameters is decoded", p.val.as_str() == format!("a, {s}\n"));
            v::check("all parameters are there", p.params.len() == 20);
            for i in 0..20 { v::check("every parameter is in its place", p.params[i].key.as_str() == format!("P{i}") && match &p.params[i].val { Some(x) => x.as_str() == format!("{s}{i}"), None => false }); }
        }
        Err(_) => v::check("the line parses", false),
    }
}
/// a property of every registered name, full and empty, with every parameter
pub fn registered() {
    let (k, a) = (a_name(), "CN");
    let s = v::text("s", "word{1,9}");
    let text = format!("BEGIN:VEVENT\n{k}:{s}\n{k};{a}={s}:{s}\n{k};{a}=\"{s}:{s}\":\n{k}:\nEND:VEVENT\n");
    match Component::try_from(text.as_str()) {
        Ok(c) => v::check("every property is in its place", is_node(&c, "VEVENT", 4, 0) && is_parsed(&c.properties[0], k, &s, &[]) && is_parsed(&c.properties[1], k, &s, &[(a, Some(&s))])
            && is_parsed(&c.properties[2], k, "", &[(a, Some(&format!("{s}:{s}")))]) && is_parsed(&c.properties[3], k, "", &[])),
        Err(_) => v::check("the component parses", false),
    }
}
pub fn registered_parameters() {
    let (k, a) = ("X-K", a_param());
    let s = v::text("s", "word{1,9}");
    let text = format!("BEGIN:VEVENT\n{k}:{s}\n{k};{a}={s}:{s}\n{k};{a}=\"{s}:{s}\":\n{k}:\nEND:VEVENT\n");
    match Component::try_from(text.as_str()) {
        Ok(c) => v::check("every property is in its place", is_node(&c, "VEVENT", 4, 0) && is_parsed(&c.properties[0], k, &s, &[]) && is_parsed(&c.properties[1], k, &s, &[(a, Some(&s))])
            && is_parsed(&c.properties[2], k, "", &[(a, Some(&format!("{s}:{s}")))]) && is_parsed(&c.properties[3], k, "", &[])),
        Err(_) => v::check("the component parses", false),
    }
}
pub fn kinds() {
    let (k, l) = (a_kind(), KINDS[v::pick("inner", KINDS.len())]);
    let s = v::text("s", "word{1,9}");
    let text = format!("BEGIN:{k}\nBEGIN:{l}\nX-A:{s}\nEND:{l}\nX-B:{s}\nBEGIN:{l}\nEND:{l}\nEND:{k}\n");
    match Component::try_from(text.as_str()) {
        Ok(c) => v::check("one node per pair", is_node(&c, k, 1, 2) && is_parsed(&c.properties[0], "X-B", &s, &[]) && is_node(&c.components[0], l, 1, 0) && is_parsed(&c.components[0].properties[0], "X-A", &s, &[])
            && is_node(&c.components[1], l, 0, 0)),
        Err(_) => v::check("the component parses", false),
    }
}
/// a component inside one that says the same
pub fn inside_its_equal() {
    let k = a_kind();
    let s = v::text("s", "word{1,9}");
    let leaf = format!("BEGIN:{k}\nUID:{s}\nEND:{k}\n");
    let text = format!("BEGIN:{k}\nUID:{s}\n{leaf}BEGIN:{k}\nUID:{s}\n{leaf}{leaf}END:{k}\nEND:{k}\n");
    fn ok(c: &Component, k: &str, s: &str, n: usize) -> bool { is_node(c, k, 1, n) && is_parsed(&c.properties[0], "UID", s, &[]) }
    match Component::try_from(text.as_str()) {
        Ok(c) => v::check("every one of them is there", ok(&c, k, &s, 2) && ok(&c.components[0], k, &s, 0) && ok(&c.components[1], k, &s, 2) && ok(&c.components[1].components[0], k, &s, 0) && ok(&c.components[1].components[1], k, &s, 0)),
        Err(_) => v::check("the component parses", false),
    }
}
/// nesting to some depth
pub fn depth() {
    let s = v::text("s", "word{1,9}");
    let mut text = String::new();
    for i in 0..12 { text.push_str(&format!("BEGIN:N{i}\nX-A:{s}{i}\n")); }
    for i in 0..12 { text.push_str(&format!("X-B:{s}\nEND:N{}\n", 11 - i)); }
    match Component::try_from(text.as_str()) {
        Ok(c) => {
            let mut x = &c;
            for i in 0..12 {
                v::check("every level is there", is_node(x, &format!("N{i}"), 2, if i < 11 { 1 } else { 0 }) && is_parsed(&x.properties[0], "X-A", &format!("{s}{i}"), &[]) && is_parsed(&x.properties[1], "X-B", &s, &[]));
                if i < 11 { x = &x.components[0]; }
            }
        }
        Err(_) => v::check("the component parses", false),
    }
}
