//! The kind of line ending does not change what is parsed.
use crate::{util::*, v};
use icalendar::parser::*;

/// one of the ways to end a line
macro_rules! endings { ($($m:ident: $e:expr;)*) => { $( pub mod $m { use super::*;
    const E: &str = $e;
    fn doc(s: &str, t: &str, a: &str) -> String {
        format!("BEGIN:VCALENDAR{E}VERSION:2.0{E}X-A;P={a}:{s}{E}BEGIN:VEVENT{E}X-B;Q=\"{a}\":{t}{E}SUMMARY:{s}{E}BEGIN:X-C{E}END:X-C{E}END:VEVENT{E}BEGIN:VTODO{E}X-D:{s}{E}X-E;R=:{t}{E}END:VTODO{E}END:VCALENDAR{E}")
    }
    fn same(c: &Component, s: &str, t: &str, a: &str) -> bool { tree(&c.properties, &c.components, s, t, a) && c.name.as_str() == "VCALENDAR" }
    pub fn components() {
        let (s, t, a) = texts();
        let d = doc(&s, &t, &a);
        match Component::try_from(d.as_str()) {
            Ok(c) => v::check("one component is the same tree", same(&c, &s, &t, &a)),
            Err(_) => v::check("it parses", false),
        }
        match read_components(&d) {
            Ok(l) => v::check("a list of components is the same tree", l.len() == 1 && same(&l[0], &s, &t, &a)),
            Err(_) => v::check("it parses", false),
        }
        match read_calendar_simple(&d) {
            Ok(l) => v::check("a simple list of components is the same tree", l.len() == 1 && same(&l[0], &s, &t, &a)),
            Err(_) => v::check("it parses", false),
        }
    }
    pub fn calendar() {
        let (s, t, a) = texts();
        let d = doc(&s, &t, &a);
        match read_calendar(&d) {
            Ok(c) => v::check("a calendar is the same tree", tree(&c.properties, &c.components, &s, &t, &a)),
            Err(_) => v::check("it parses", false),
        }
    }
    pub fn unfolded() {
        let (s, t, a) = texts();
        let d = unfold(&doc(&s, &t, &a));
        match read_calendar(&d) {
            Ok(c) => v::check("an unfolded calendar is the same tree", tree(&c.properties, &c.components, &s, &t, &a)),
            Err(_) => v::check("it parses", false),
        }
    }
    /// several roots
    pub fn roots() {
        let (s, t, a) = texts();
        let d = format!("BEGIN:VEVENT{E}X-A;P={a}:{s}{E}END:VEVENT{E}BEGIN:VTODO{E}X-B:{t}{E}END:VTODO{E}");
        match read_components(&d) {
            Ok(l) => v::check("the roots are the same", l.len() == 2 && is_node(&l[0], "VEVENT", 1, 0) && is_node(&l[1], "VTODO", 1, 0)
                && is_parsed(&l[0].properties[0], "X-A", &s, &[("P", Some(&a))]) && is_parsed(&l[1].properties[0], "X-B", &t, &[])),
            Err(_) => v::check("it parses", false),
        }
    }
    /// before the first and after the last line
    pub fn around() {
        let (s, t, a) = texts();
        let d = format!("{E}BEGIN:VCALENDAR{E}X-A;P={a}:{s}{E}X-B:{t}{E}END:VCALENDAR{E}{E}");
        match read_calendar(&d) {
            Ok(c) => v::check("the calendar is the same", c.components.is_empty() && c.properties.len() == 2 && is_parsed(&c.properties[0], "X-A", &s, &[("P", Some(&a))]) && is_parsed(&c.properties[1], "X-B", &t, &[])),
            Err(_) => v::check("it parses", false),
        }
    }
    /// a property on its own, and a value that holds any text but line breaks
    pub fn property() {
        let (s, a) = (v::text("s", "line{0,60}"), v::text("a", "pplain{1,20}"));
        match Property::try_from(format!("X-A;P={a}:{s}{E}").as_str()) {
            Ok(p) => v::check("the property is the same", is_parsed(&p, "X-A", &s, &[("P", Some(&a))])),
            Err(_) => v::check("it parses", false),
        }
        match Property::try_from(format!("URL;P=\"{a}\":{s}{E}").as_str()) {
            Ok(p) => v::check("the property is the same", is_parsed(&p, "URL", &s, &[("P", Some(&a))])),
            Err(_) => v::check("it parses", false),
        }
        match Property::try_from(format!("X-A:{E}").as_str()) {
            Ok(p) => v::check("an empty value is empty", is_parsed(&p, "X-A", "", &[])),
            Err(_) => v::check("it parses", false),
        }
        match Property::try_from(format!("SUMMARY;LANGUAGE={a}:{E}").as_str()) {
            Ok(p) => v::check("an empty value is empty", is_parsed(&p, "SUMMARY", "", &[("LANGUAGE", Some(&a))])),
            Err(_) => v::check("it parses", false),
        }
    }
    /// a line that has a name only
    pub fn bare() {
        let s = v::text("s", "word{0,20}");
        match Component::try_from(format!("BEGIN:VEVENT{E}X-A{E}X-B:{s}{E}END:VEVENT{E}").as_str()) {
            Ok(c) => v::check("the bare name is a name", is_node(&c, "VEVENT", 2, 0) && is_parsed(&c.properties[0], "X-A", "", &[]) && is_parsed(&c.properties[1], "X-B", &s, &[])),
            Err(_) => v::check("it parses", false),
        }
    }
    /// any name
    pub fn names() {
        let (n, k) = (v::text("n", "uname{1,20}"), format!("X-{}", v::text("k", "uname{0,20}")));
        match Component::try_from(format!("BEGIN:{n}{E}{k}:{k}{E}END:{n}{E}").as_str()) {
            Ok(c) => v::check("the names are the same", is_node(&c, &n, 1, 0) && is_parsed(&c.properties[0], &k, &k, &[])),
            Err(_) => v::check("it parses", false),
        }
    }
    /// typed values are the same
    pub fn typed() {
        let (s, d) = (v::text("s", "nocr{0,8}"), v::date("d"));
        let e = icalendar::Property::new("SUMMARY", &s);
        let line = ser(&e);
        let day = format!("{}", d.format("%Y%m%d"));
        match Component::try_from(format!("BEGIN:VEVENT{E}{}{E}DTSTART;VALUE=DATE:{day}{E}END:VEVENT{E}", &line[..line.len() - 2]).as_str()) {
            Ok(c) => v::check("the values are the same", is_node(&c, "VEVENT", 2, 0) && is_parsed(&c.properties[0], "SUMMARY", &s, &[]) && is_parsed(&c.properties[1], "DTSTART", &day, &[("VALUE", Some("DATE"))])),
            Err(_) => v::check("it parses", false),
        }
    }
    /// calendars made from the text
    pub fn made() {
        use icalendar::{Component, CalendarComponent};
        let (s, t, a) = texts();
        match doc(&s, &t, &a).parse::<icalendar::Calendar>() {
            Ok(c) => v::check("the calendar made of it is the same", c.properties.len() == 2 && is_prop(&c.properties[0], "VERSION", "2.0", &[]) && is_prop(&c.properties[1], "X-A", &s, &[("P", &a)])
                && c.components.len() == 2 && match &c.components[0] {
                    CalendarComponent::Event(e) => e.properties().len() == 2 && e.property_value("X-B") == Some(&t) && e.property_value("SUMMARY") == Some(&s) && e.components().len() == 1 && e.components()[0].component_kind() == "X-C",
                    _ => false,
                } && match &c.components[1] {
                    CalendarComponent::Todo(e) => e.properties().len() == 2 && e.property_value("X-D") == Some(&s) && e.property_value("X-E") == Some(&t) && e.components().is_empty(),
                    _ => false,
                }),
            Err(_) => v::check("it parses", false),
        }
        match format!("BEGIN:VTODO{E}X-D;P={a}:{s}{E}END:VTODO{E}").parse::<CalendarComponent>() {
            Ok(CalendarComponent::Todo(e)) => v::check("the component made of it is the same", only(&e, "X-D", &s, &[("P", &a)])),
            _ => v::check("it parses", false),
        }
        match format!("X-D;P={a}:{s}{E}").parse::<icalendar::Property>() {
            Ok(p) => v::check("the property made of it is the same", is_prop(&p, "X-D", &s, &[("P", &a)])),
            _ => v::check("it parses", false),
        }
    }
} )* } }
endings! { lf: "\n"; crlf: "\r\n"; two_lf: "\n\n"; two_crlf: "\r\n\r\n"; lf_crlf: "\n\r\n"; crlf_lf: "\r\n\n"; many: "\r\n\r\n\n\r\n"; }

fn texts() -> (String, String, String) { (v::text("s", "word{0,20}"), v::text("t", "word{0,20}"), v::text("a", "word{1,20}")) }
fn tree(p: &[Property], c: &[Component], s: &str, t: &str, a: &str) -> bool {
    p.len() == 2 && is_parsed(&p[0], "VERSION", "2.0", &[]) && is_parsed(&p[1], "X-A", s, &[("P", Some(a))])
        && c.len() == 2 && is_node(&c[0], "VEVENT", 2, 1) && is_parsed(&c[0].properties[0], "X-B", t, &[("Q", Some(a))]) && is_parsed(&c[0].properties[1], "SUMMARY", s, &[])
        && is_node(&c[0].components[0], "X-C", 0, 0)
        && is_node(&c[1], "VTODO", 2, 0) && is_parsed(&c[1].properties[0], "X-D", s, &[]) && is_parsed(&c[1].properties[1], "X-E", t, &[("R", None)])
}
/// every line with an ending of its own
pub fn mixed() {
    let end = |id| if v::any(id) { "\n" } else { "\r\n" };
    let (s, t, a) = texts();
    let d = format!("BEGIN:VCALENDAR{}X-A;P={a}:{s}{}BEGIN:VEVENT{}X-B:{t}{}END:VEVENT{}END:VCALENDAR{}", end("1"), end("2"), end("3"), end("4"), end("5"), end("6"));
    match read_calendar(&d) {
        Ok(c) => v::check("the tree is the same", c.properties.len() == 1 && is_parsed(&c.properties[0], "X-A", &s, &[("P", Some(&a))])
            && c.components.len() == 1 && is_node(&c.components[0], "VEVENT", 1, 0) && is_parsed(&c.components[0].properties[0], "X-B", &t, &[])),
        Err(_) => v::check("it parses", false),
    }
}
/// an empty line in any place
pub fn gaps() {
    let gap = |id| if v::any(id) { "\r\n" } else { "" };
    let (s, t, a) = texts();
    let d = format!("{}BEGIN:VCALENDAR\r\n{}X-A;P={a}:{s}\r\n{}BEGIN:VEVENT\r\n{}X-B:{t}\r\n{}END:VEVENT\r\n{}END:VCALENDAR\r\n", gap("1"), gap("2"), gap("3"), gap("4"), gap("5"), gap("6"));
    match read_calendar(&d) {
        Ok(c) => v::check("the tree is the same", c.properties.len() == 1 && is_parsed(&c.properties[0], "X-A", &s, &[("P", Some(&a))])
            && c.components.len() == 1 && is_node(&c.components[0], "VEVENT", 1, 0) && is_parsed(&c.components[0].properties[0], "X-B", &t, &[])),
        Err(_) => v::check("it parses", false),
    }
}
/// the last line may lack its ending
pub fn no_last_ending() {
    let (s, t) = (v::text("s", "line{0,30}"), v::text("t", "word{0,20}"));
    match Property::try_from(format!("X-A;P=q:{s}").as_str()) {
        Ok(p) => v::check("the property is the same", is_parsed(&p, "X-A", &s, &[("P", Some("q"))])),
        Err(_) => v::check("it parses", false),
    }
    for e in ["\n", "\r\n"] {
        match read_calendar(&format!("BEGIN:VCALENDAR{e}X-A:{t}{e}END:VCALENDAR")) {
            Ok(c) => v::check("the calendar is the same", c.components.is_empty() && c.properties.len() == 1 && is_parsed(&c.properties[0], "X-A", &t, &[])),
            Err(_) => v::check("it parses", false),
        }
    }
}
/// folded lines of either kind
pub fn folded() {
    let (s, t) = (v::text("s", "word{0,20}"), v::text("t", "word{0,20}"));
    for e in ["\n", "\r\n"] {
        match read_calendar(&unfold(&format!("BEGIN:VCALENDAR{e}X-A;P=q:{s}{e} {t}{e}\t{s}{e}END:VCALENDAR{e}"))) {
            Ok(c) => v::check("the calendar is the same", c.components.is_empty() && c.properties.len() == 1 && is_parsed(&c.properties[0], "X-A", &format!("{s}{t}{s}"), &[("P", Some("q"))])),
            Err(_) => v::check("it parses", false),
        }
    }
}
/// two texts that differ in their line endings only, with every name, parameter and kind
pub fn of_every_property_lf() { every_property("\n"); }
pub fn of_every_property_crlf() { every_property("\r\n"); }
pub fn of_every_property_gaps() { every_property("\r\n\r\n"); }
fn every_property(e: &str) {
    let (n, t) = (a_name(), v::text("t", "word{0,10}"));
    {
        match Component::try_from(format!("BEGIN:VEVENT{e}{n}:{t}{e}{n};P=q:{t}{e}{n}:{e}X-LAST:{t}{e}END:VEVENT{e}").as_str()) {
            Ok(c) => v::check("the properties are the same", is_node(&c, "VEVENT", 4, 0) && is_parsed(&c.properties[0], n, &t, &[]) && is_parsed(&c.properties[1], n, &t, &[("P", Some("q"))]) && is_parsed(&c.properties[2], n, "", &[]) && is_parsed(&c.properties[3], "X-LAST", &t, &[])),
            Err(_) => v::check("it parses", false),
        }
        match Property::try_from(format!("{n}:{t}{e}").as_str()) {
            Ok(p) => v::check("a property on its own is the same", is_parsed(&p, n, &t, &[])),
            Err(_) => v::check("it parses", false),
        }
    }
}
pub fn of_every_parameter() {
    let (k, t) = (a_param(), v::text("t", "word{1,10}"));
    for e in ["\n", "\r\n", "\n\n"] {
        match Component::try_from(format!("BEGIN:VEVENT{e}X-A;{k}={t};Q=\"{t}\":{t}{e}X-B;{k}=:{t}{e}X-C;{k}=\"{t}\":{e}END:VEVENT{e}").as_str()) {
            Ok(c) => v::check("the parameters are the same", is_node(&c, "VEVENT", 3, 0) && is_parsed(&c.properties[0], "X-A", &t, &[(k, Some(&t)), ("Q", Some(&t))]) && is_parsed(&c.properties[1], "X-B", &t, &[(k, None)]) && is_parsed(&c.properties[2], "X-C", "", &[(k, Some(&t))])),
            Err(_) => v::check("it parses", false),
        }
    }
}
pub fn of_every_kind() {
    let (k, t) = (a_kind(), v::text("t", "word{0,10}"));
    for e in ["\n", "\r\n", "\r\n\n"] {
        match read_components(&format!("BEGIN:{k}{e}BEGIN:{k}{e}X-A:{t}{e}END:{k}{e}END:{k}{e}BEGIN:{k}{e}END:{k}{e}")) {
            Ok(l) => v::check("the components are the same", l.len() == 2 && is_node(&l[0], k, 0, 1) && is_node(&l[0].components[0], k, 1, 0) && is_parsed(&l[0].components[0].properties[0], "X-A", &t, &[]) && is_node(&l[1], k, 0, 0)),
            Err(_) => v::check("it parses", false),
        }
    }
}
/// whatever the value holds next to the line break
pub fn last_characters() {
    let t = v::text("t", "word{0,10}");
    for x in [" ", "  ", "\t", "\\", "\\\\", "\"", ":", ";", ",", "=", "\u{a0}", "\u{85}", "\u{2028}", "\u{e9}", "\u{1f600}", "\u{0b}", "\u{0}", "\u{feff}", "n", "r"] {
        for e in ["\n", "\r\n", "\n\n", "\r\n\r\n"] {
            match Component::try_from(format!("BEGIN:VEVENT{e}URL:{t}{x}{e}X-B:{x}{t}{x}{e}END:VEVENT{e}").as_str()) {
                Ok(c) => v::check("the values are the same", is_node(&c, "VEVENT", 2, 0) && is_parsed(&c.properties[0], "URL", &format!("{t}{x}"), &[]) && is_parsed(&c.properties[1], "X-B", &format!("{x}{t}{x}"), &[])),
                Err(_) => v::check("it parses", false),
            }
        }
    }
}
/// a long value, folded or not
pub fn long_values() {
    let t = v::text("t", "word{76,600}");
    for e in ["\n", "\r\n"] {
        match read_calendar(&format!("BEGIN:VCALENDAR{e}X-A:{t}{e}X-B;P={t}:v{e}END:VCALENDAR{e}")) {
            Ok(c) => v::check("the values are the same", c.properties.len() == 2 && is_parsed(&c.properties[0], "X-A", &t, &[]) && is_parsed(&c.properties[1], "X-B", "v", &[("P", Some(&t))])),
            Err(_) => v::check("it parses", false),
        }
    }
}
/// many lines
pub fn many_lines() {
    let t = v::text("t", "word{0,10}");
    for e in ["\n", "\r\n", "\n\r\n"] {
        let mut d = format!("BEGIN:VCALENDAR{e}");
        for i in 0..20 { d.push_str(&format!("X-{i}:{t}{e}")); }
        for i in 0..6 { d.push_str(&format!("BEGIN:VEVENT{e}UID:{i}{e}END:VEVENT{e}")); }
        d.push_str(&format!("END:VCALENDAR{e}"));
        match read_calendar(&d) {
            Ok(c) => {
                v::check("all lines are there", c.properties.len() == 20 && c.components.len() == 6);
                for (i, p) in c.properties.iter().enumerate() { v::check("each is the same", is_parsed(p, &format!("X-{i}"), &t, &[])); }
                for (i, k) in c.components.iter().enumerate() { v::check("each is the same", is_node(k, "VEVENT", 1, 0) && is_parsed(&k.properties[0], "UID", &format!("{i}"), &[])); }
            }
            Err(_) => v::check("it parses", false),
        }
    }
}
