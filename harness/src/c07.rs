//! Unfolding removes exactly the folds.
use crate::{util::*, v};
use icalendar::*;

/// any line that does not start with a space or tab
fn line(c: char, id: &'static str) -> String {
    let mut s = String::new();
    s.push(c);
    s.push_str(&v::text(id, "line"));
    s
}
/// two lines with this between them
macro_rules! seps { ($($n:ident: $sep:expr, $left:expr;)*) => {
    $( pub fn $n() {
        let a = v::text("a", "line");
        let b = line(v::ch("c", "nospace"), "b");
        v::check("two lines", parser::unfold(&format!("{}{}{}", a, $sep, b)) == format!("{}{}{}", a, $left, b));
        v::check("at the start", parser::unfold(&format!("{}{}", $sep, b)) == format!("{}{}", $left, b));
        v::check("at the end", parser::unfold(&format!("{}{}", a, $sep)) == format!("{}{}", a, $left));
    } )*
    pub mod two { use super::*; $( pub fn $n() {
        let a = v::text("a", "line");
        let b = line(v::ch("c", "nospace"), "b");
        let d = line(v::ch("e", "nospace"), "d");
        $crate::c07::with(&a, &b, &d, $sep, $left);
    } )* }
} }
pub fn with(a: &str, b: &str, d: &str, sep: &str, left: &str) {
    for (s2, l2) in [("\r\n ", ""), ("\n ", ""), ("\r\n\t", ""), ("\n\t", ""), ("\r\n", "\r\n"), ("\n", "\n"), ("\r\n  ", " "), ("\n\t ", " "), (" ", " "), ("\r\r\n ", "\r")] {
        v::check("three lines", parser::unfold(&format!("{}{}{}{}{}", a, sep, b, s2, d)) == format!("{}{}{}{}{}", a, left, b, l2, d));
        // (a space directly after a line break is a fold)
        if s2 == " " && sep.ends_with('\n') { continue; }
        v::check("side by side", parser::unfold(&format!("{}{}{}{}", a, sep, s2, d)) == format!("{}{}{}{}", a, left, l2, d));
    }
}
seps! {
    crlf_space: "\r\n ", ""; lf_space: "\n ", ""; crlf_tab: "\r\n\t", ""; lf_tab: "\n\t", "";
    space_after: "\r\n  ", " "; tab_after: "\n\t\t", "\t"; tab_then_space: "\r\n\t ", " "; space_then_tab: "\n \t", "\t";
    crlf: "\r\n", "\r\n"; lf: "\n", "\n"; empty_lines: "\r\n\r\n", "\r\n\r\n"; mixed: "\n\r\n", "\n\r\n";
    space: " ", " "; tab: "\t", "\t"; cr_cr_lf: "\r\r\n ", "\r"; vtab: "\r\n\u{b}", "\r\n\u{b}"; formfeed: "\n\u{c}", "\n\u{c}"; nbsp: "\r\n\u{a0}", "\r\n\u{a0}";
    literal: "\\n ", "\\n "; empty_then_fold: "\r\n\r\n ", "\r\n"; wide: "\n\u{3000}", "\n\u{3000}";
}
pub fn no_line_break() {
    let s = v::text("s", "nolf");
    v::check("text without line feeds is not changed", parser::unfold(&s) == s);
}
fn own(k: &str, s: &str) {
    let out = ser(&prop1(k, s, "VALUE", "DATE"));
    v::check("the folded line unfolds to itself", parser::unfold(&out) == format!("{};VALUE=DATE:{}\r\n", k, s));
}
macro_rules! own_lines { ($($n:ident: $c:expr;)*) => { $( pub fn $n() { own("X-K", &v::text("s", $c)); } )* } }
own_lines! { own_ascii: "ascii{0,280}"; own_words: "word{0,900}"; own_line: "line{0,130}"; own_wide: "wide{0,140}"; }
pub fn own_component() {
    let s = v::text("s", "word{0,300}");
    let t = v::text("t", "word{0,100}");
    let mut e = Event::new();
    e.uid("1").timestamp(v::utc("u")).append_property(Property::new("X-LONG", s.as_str()));
    e.append_multi_property(Property::new("X-MORE", t.as_str()));
    let stamp = match e.property_value("DTSTAMP") { Some(x) => x.to_string(), None => String::new() };
    let out = parser::unfold(&e.to_string());
    v::check("a component unfolds to its content lines", out == format!("BEGIN:VEVENT\r\nDTSTAMP:{}\r\nUID:1\r\nX-LONG:{}\r\nX-MORE:{}\r\nEND:VEVENT\r\n", stamp, s, t));
}
