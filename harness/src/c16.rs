//! Unbalanced or mismatched components are reported as errors.
use crate::{util::*, v};
use icalendar::parser::*;

/// no entry point yields a tree
fn refused(d: &str) {
    v::check("read_calendar refuses it", read_calendar(d).is_err());
    v::check("read_components refuses it", read_components(d).is_err());
    v::check("read_calendar_simple refuses it", read_calendar_simple(d).is_err());
    v::check("it is no calendar", d.parse::<icalendar::Calendar>().is_err());
}
/// not even one component
fn refused_as_one(d: &str) {
    v::check("Component::try_from refuses it", Component::try_from(d).is_err());
    v::check("it is no calendar component", d.parse::<icalendar::CalendarComponent>().is_err());
}
macro_rules! both { ($($(#[$m:meta])* $n:ident: $d:expr;)*) => { $( $(#[$m])* pub mod $n { use super::*;
    pub fn document() { let d: String = $d; refused(&d); }
    pub fn one_component() { let d: String = $d; refused_as_one(&d); }
} )* } }
macro_rules! documents { ($($(#[$m:meta])* $n:ident: $d:expr;)*) => { $( $(#[$m])* pub mod $n { use super::*;
    pub fn document() { let d: String = $d; refused(&d); }
} )* } }
fn name() -> String { v::text("n", "uname{1,20}") }
fn text() -> String { v::text("s", "word{0,20}") }
fn line() -> String { v::text("s", "line{0,40}") }
/// another name
fn other(n: &str) -> String { let m = v::text("m", "uname{1,20}"); v::assume(m != n); m }
/// more characters of a name
fn more() -> String { v::text("k", "uname{1,20}") }
fn either() -> &'static str { if v::any("ending") { "\n" } else { "\r\n" } }

both! {
    // not closed
    begin_only: format!("BEGIN:{}", name());
    begin_line: format!("BEGIN:{}{}", name(), either());
    begin_lines: format!("BEGIN:VEVENT{e}{e}{e}", e = either());
    one_property: format!("BEGIN:{}{e}X-A:{}{e}", name(), line(), e = either());
    no_last_line_end: format!("BEGIN:VEVENT\nX-A:{}", line());
    two_properties: format!("BEGIN:VEVENT{e}X-A;P=q:{s}{e}SUMMARY:{s}{e}", s = text(), e = either());
    child_closed: format!("BEGIN:VCALENDAR{e}X-A:{}{e}BEGIN:{n}{e}END:{n}{e}", text(), n = name(), e = either());
    child_open: format!("BEGIN:VCALENDAR{e}BEGIN:{n}{e}X-A:{}{e}END:VCALENDAR{e}", text(), n = { let n = name(); v::assume(n != "VCALENDAR"); n }, e = either());
    child_and_parent_open: format!("BEGIN:VCALENDAR{e}BEGIN:{}{e}X-A:{}{e}", name(), text(), e = either());
    second_child_open: format!("BEGIN:VCALENDAR{e}BEGIN:VEVENT{e}END:VEVENT{e}BEGIN:{}{e}X-A:{}{e}", name(), text(), e = either());
    second_child_unclosed: format!("BEGIN:VCALENDAR{e}BEGIN:VEVENT{e}END:VEVENT{e}BEGIN:VTODO{e}X-A:{}{e}END:VCALENDAR{e}", text(), e = either());
    first_child_unclosed: format!("BEGIN:VCALENDAR{e}BEGIN:VEVENT{e}X-A:{}{e}BEGIN:VTODO{e}END:VTODO{e}END:VCALENDAR{e}", text(), e = either());
    deep: format!("BEGIN:A{e}BEGIN:B{e}BEGIN:C{e}X-A:{}{e}END:C{e}END:B{e}", text(), e = either());
    deep_inner: format!("BEGIN:A{e}BEGIN:B{e}BEGIN:C{e}X-A:{}{e}END:B{e}END:A{e}", text(), e = either());
    alarm_open: format!("BEGIN:VCALENDAR{e}BEGIN:VEVENT{e}BEGIN:VALARM{e}X-A:{}{e}END:VEVENT{e}END:VCALENDAR{e}", text(), e = either());
    same_name_open: format!("BEGIN:{n}{e}BEGIN:{n}{e}X-A:{}{e}END:{n}{e}", text(), n = name(), e = either());
    cut_in_end: format!("BEGIN:VEVENT{e}X-A:{}{e}END", text(), e = either());
    cut_after_end: format!("BEGIN:VEVENT{e}X-A:{}{e}END:", text(), e = either());
    cut_in_name: format!("BEGIN:VEVENT{e}X-A:{}{e}END:VEVEN", text(), e = either());
    cut_in_name_line: format!("BEGIN:VEVENT{e}X-A:{}{e}END:V{e}", text(), e = either());
    cut_in_property: format!("BEGIN:VEVENT{e}X-A:{}{e}X", text(), e = either());
    cut_in_begin: format!("BEGIN:VEVENT{e}X-A:{}{e}BEGIN", text(), e = either());
    cut_after_begin: format!("BEGIN:VEVENT{e}X-A:{}{e}BEGIN:", text(), e = either());
    cut_in_parameter: format!("BEGIN:VEVENT{e}X-A;P=\"{}", text(), e = either());
    // closed with another name
    other_name: { let n = name(); let m = other(&n); format!("BEGIN:{n}{e}X-A:{}{e}END:{m}{e}", text(), e = either()) };
    other_name_empty: { let n = name(); let m = other(&n); format!("BEGIN:{n}{e}END:{m}{e}", e = either()) };
    other_child: { let n = name(); let m = other(&n); format!("BEGIN:VCALENDAR{e}BEGIN:{n}{e}X-A:{}{e}END:{m}{e}END:VCALENDAR{e}", text(), e = either()) };
    other_parent: { let n = name(); let m = other(&n); format!("BEGIN:{n}{e}BEGIN:VEVENT{e}X-A:{}{e}END:VEVENT{e}END:{m}{e}", text(), e = either()) };
    other_then_right: { let n = name(); let m = other(&n); format!("BEGIN:{n}{e}X-A:{}{e}END:{m}{e}END:{n}{e}", text(), e = either()) };
    crossed: { let n = name(); let m = other(&n); format!("BEGIN:{n}{e}BEGIN:{m}{e}X-A:{}{e}END:{n}{e}END:{m}{e}", text(), e = either()) };
    second_child_other: { let n = name(); let m = other(&n); format!("BEGIN:VCALENDAR{e}BEGIN:VEVENT{e}END:VEVENT{e}BEGIN:{n}{e}X-A:{}{e}END:{m}{e}END:VCALENDAR{e}", text(), e = either()) };
    // closed with a longer or shorter name
    longer: { let n = name(); format!("BEGIN:{n}{e}X-A:{}{e}END:{n}{}{e}", text(), more(), e = either()) };
    longer_empty: { let n = name(); format!("BEGIN:{n}{e}END:{n}{}{e}", more(), e = either()) };
    longer_last: { let n = name(); format!("BEGIN:{n}{e}END:{n}{}", more(), e = either()) };
    longer_child: { let n = name(); format!("BEGIN:VCALENDAR{e}BEGIN:{n}{e}X-A:{}{e}END:{n}{}{e}END:VCALENDAR{e}", text(), more(), e = either()) };
    longer_then_right: { let n = name(); format!("BEGIN:{n}{e}X-A:{}{e}END:{n}{}{e}END:{n}{e}", text(), more(), e = either()) };
    shorter: { let n = name(); format!("BEGIN:{n}{}{e}X-A:{}{e}END:{n}{e}", more(), text(), e = either()) };
    shorter_child: { let n = name(); format!("BEGIN:VCALENDAR{e}BEGIN:{n}{}{e}X-A:{}{e}END:{n}{e}END:VCALENDAR{e}", more(), text(), e = either()) };
    no_name: format!("BEGIN:{}{e}X-A:{}{e}END:{e}", name(), text(), e = either());
    no_name_last: format!("BEGIN:{}\nEND:", name());
    other_case: format!("BEGIN:VEVENT{e}X-A:{}{e}END:vevent{e}", text(), e = either());
    no_colon: format!("BEGIN:VEVENT{e}X-A:{}{e}END{e}", text(), e = either());
}
/// a later root, for the entry points that read all of them
documents! {
    second_root_open: format!("BEGIN:VEVENT{e}END:VEVENT{e}BEGIN:{}{e}X-A:{}{e}", name(), text(), e = either());
    second_root_line: format!("BEGIN:VEVENT{e}END:VEVENT{e}BEGIN:{}{e}", name(), e = either());
    second_calendar_open: format!("BEGIN:VCALENDAR{e}END:VCALENDAR{e}BEGIN:VCALENDAR{e}BEGIN:VEVENT{e}X-A:{}{e}END:VEVENT{e}", text(), e = either());
    second_root_other: { let n = name(); let m = other(&n); format!("BEGIN:VEVENT{e}END:VEVENT{e}BEGIN:{n}{e}X-A:{}{e}END:{m}{e}", text(), e = either()) };
    second_root_longer: { let n = name(); format!("BEGIN:VEVENT{e}END:VEVENT{e}BEGIN:{n}{e}X-A:{}{e}END:{n}{}{e}", text(), more(), e = either()) };
    second_root_child: { let n = name(); let m = other(&n); format!("BEGIN:VEVENT{e}END:VEVENT{e}BEGIN:VCALENDAR{e}BEGIN:{n}{e}X-A:{}{e}END:{m}{e}END:VCALENDAR{e}", text(), e = either()) };
    third_root_open: format!("BEGIN:VEVENT{e}END:VEVENT{e}BEGIN:VTODO{e}END:VTODO{e}BEGIN:{}{e}X-A:{}{e}", name(), text(), e = either());
}
/// a longer name that goes on with any character a name can have
pub fn longer_by() {
    const MORE: [&str; 12] = ["-", ".", ",", "/", "_", "0", "9", "A", "a", "-1", ".X", "\u{e9}"];
    let m = MORE[v::pick("m", 12)];
    let (n, s, e) = (name(), text(), either());
    refused(&format!("BEGIN:{n}{e}X-A:{s}{e}END:{n}{m}{e}"));
    refused_as_one(&format!("BEGIN:{n}{e}END:{n}{m}{e}"));
    refused(&format!("BEGIN:VCALENDAR{e}BEGIN:{n}{e}X-A:{s}{e}END:{n}{m}{e}END:VCALENDAR{e}"));
}
/// every kind of component, left open, closed with another kind, or closed twice
pub fn of_every_kind() {
    let (k, s, e) = (a_kind(), text(), either());
    refused(&format!("BEGIN:VCALENDAR{e}BEGIN:{k}{e}X-A:{s}{e}END:VCALENDAR{e}"));
    refused(&format!("BEGIN:{k}{e}X-A:{s}{e}BEGIN:{k}{e}END:{k}{e}"));
    for (a, b) in [("", "X"), ("", "-1"), ("X", "")] { v::check("read_components refuses another name", read_components(&format!("BEGIN:{k}{a}{e}X-A:{s}{e}END:{k}{b}{e}")).is_err()); }
}
/// as last property before the missing end: any name
pub fn after_every_name() {
    let (k, s, e) = (a_name(), text(), either());
    let d = format!("BEGIN:VCALENDAR{e}BEGIN:VEVENT{e}{k};P=q:{s}{e}END:VCALENDAR{e}");
    v::check("read_components refuses it", read_components(&d).is_err());
    v::check("it is no calendar", d.parse::<icalendar::Calendar>().is_err());
    refused_as_one(&format!("BEGIN:VEVENT{e}{k}:{s}{e}"));
}
/// what has no component is empty
pub fn nothing() {
    for d in ["", "\n", "\r\n\r\n"] {
        v::check("nothing is no component", match read_components(d) { Ok(l) => l.is_empty(), Err(_) => false } && match read_calendar(d) { Ok(c) => c.components.is_empty() && c.properties.is_empty(), Err(_) => false }
            && match read_calendar_simple(d) { Ok(l) => l.is_empty(), Err(_) => false } && match d.parse::<icalendar::Calendar>() { Ok(c) => c.components.is_empty(), Err(_) => false });
        v::check("nothing is not a component", Component::try_from(d).is_err() && d.parse::<icalendar::CalendarComponent>().is_err());
    }
}
/// well-formed documents are accepted
pub fn accepted() {
    let (n, s, e) = (name(), text(), either());
    for d in [format!("BEGIN:{n}{e}END:{n}"), format!("BEGIN:{n}{e}X-A:{s}{e}END:{n}{e}"), format!("BEGIN:A{e}BEGIN:{n}{e}X-A:{s}{e}END:{n}{e}END:A{e}"), format!("BEGIN:{n}X{e}BEGIN:{n}{e}END:{n}{e}END:{n}X{e}"), format!("BEGIN:{n}{e}BEGIN:{n}{e}END:{n}{e}END:{n}{e}")] {
        v::check("a balanced document is accepted", Component::try_from(d.as_str()).is_ok() && match read_components(&d) { Ok(l) => l.len() == 1, Err(_) => false });
    }
}
/// text before the first component
pub fn leading_text() {
    let d = format!("X-A:{s}\nBEGIN:VEVENT\nX-A:{s}\nEND:VEVENT\n", s = text());
    v::check("input with a component is not read as empty", match read_components(&d) { Ok(l) => !l.is_empty(), Err(_) => true });
}
