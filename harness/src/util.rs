//! Helpers shared by the lemmas.
use crate::v;
use icalendar::*;
use std::fmt;

/// serialization of a property
pub fn ser(p: &Property) -> String { p.clone().try_into().unwrap() }

/// a property with one parameter
pub fn prop1(k: &str, v: &str, pk: &str, pv: &str) -> Property { Property::new(k, v).add_parameter(pk, pv).done() }

/// the property is exactly this: name, value and parameters
pub fn is_prop(p: &Property, k: &str, v: &str, params: &[(&str, &str)]) -> bool {
    if p.key() != k || p.value() != v || p.params().len() != params.len() { return false; }
    for (pk, pv) in params {
        match p.params().get(*pk) {
            Some(x) => if x.key() != *pk || x.value() != *pv { return false; },
            None => return false,
        }
    }
    true
}

/// the component holds exactly one property, and it is this one
pub fn only<C: Component>(c: &C, k: &str, v: &str, params: &[(&str, &str)]) -> bool {
    c.properties().len() == 1 && c.multi_properties().is_empty() && c.components().is_empty()
        && match c.properties().get(k) { Some(p) => is_prop(p, k, v, params), None => false }
}

/// an output sink that fails at the n-th write, and remembers writes after the failure
pub struct Sink { pub left: u32, pub failed: bool, pub after: bool, pub text: String }
impl Sink {
    pub fn new(left: u32) -> Sink { Sink { left, failed: false, after: false, text: String::new() } }
}
impl fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if self.failed { self.after = true; return Err(fmt::Error); }
        if self.left == 0 { self.failed = true; return Err(fmt::Error); }
        self.left -= 1;
        self.text.push_str(s);
        Ok(())
    }
}

/// the content lines of a serialization, without the empty rest after the last CRLF; None when a
/// line does not end with CRLF
pub fn lines(out: &str) -> Option<Vec<String>> {
    let body = match out.strip_suffix("\r\n") { Some(b) => b, None => return None };
    let mut all = Vec::new();
    for l in body.split("\r\n") {
        if l.contains('\n') || l.contains('\r') { return None; }
        all.push(l.to_string());
    }
    Some(all)
}
/// how often this line appears
pub fn count(all: &[String], l: &str) -> usize {
    let mut n = 0;
    for x in all { if x == l { n += 1; } }
    n
}
/// how many lines start with this
pub fn count_start(all: &[String], l: &str) -> usize {
    let mut n = 0;
    for x in all { if x.starts_with(l) { n += 1; } }
    n
}
/// place of the first such line
pub fn place(all: &[String], l: &str) -> usize {
    let mut n = 0;
    for x in all { if x == l { return n; } n += 1; }
    9999
}

/// a parsed property is exactly this: name, value and parameters in order
#[cfg(feature = "full")] pub fn is_parsed(p: &parser::Property, k: &str, v: &str, params: &[(&str, Option<&str>)]) -> bool {
    if p.name.as_str() != k || p.val.as_str() != v || p.params.len() != params.len() { return false; }
    let mut i = 0;
    for (pk, pv) in params {
        let x = &p.params[i];
        if x.key.as_str() != *pk { return false; }
        match (&x.val, pv) {
            (Some(a), Some(b)) => if a.as_str() != *b { return false; },
            (None, None) => (),
            _ => return false,
        }
        i += 1;
    }
    true
}
/// name and number of properties and components of a node
#[cfg(feature = "full")] pub fn is_node(c: &parser::Component, name: &str, props: usize, children: usize) -> bool {
    c.name.as_str() == name && c.properties.len() == props && c.components.len() == children
}

/// the property names the standards register
pub const NAMES: [&str; 63] = [
    "CALSCALE", "METHOD", "PRODID", "VERSION", "ATTACH", "CATEGORIES", "CLASS", "COMMENT", "DESCRIPTION", "GEO", "LOCATION", "PERCENT-COMPLETE", "PRIORITY", "RESOURCES", "STATUS", "SUMMARY",
    "COMPLETED", "DTEND", "DUE", "DTSTART", "DURATION", "FREEBUSY", "TRANSP", "TZID", "TZNAME", "TZOFFSETFROM", "TZOFFSETTO", "TZURL", "ATTENDEE", "CONTACT", "ORGANIZER", "RECURRENCE-ID",
    "RELATED-TO", "URL", "UID", "EXDATE", "RDATE", "RRULE", "ACTION", "REPEAT", "TRIGGER", "CREATED", "DTSTAMP", "LAST-MODIFIED", "SEQUENCE", "REQUEST-STATUS", "NAME", "REFRESH-INTERVAL",
    "SOURCE", "COLOR", "IMAGE", "CONFERENCE", "X-WR-CALNAME", "X-WR-CALDESC", "X-WR-TIMEZONE", "X-PUBLISHED-TTL", "TIMEZONE-ID", "STREET-ADDRESS", "LOCALITY", "POSTAL-CODE", "X-FOO", "FOO", "x-lower",
];
/// those the standards make TEXT
pub const TEXTS: [&str; 30] = [
    "CALSCALE", "METHOD", "PRODID", "VERSION", "NAME", "X-WR-CALNAME", "X-WR-CALDESC", "TIMEZONE-ID", "X-WR-TIMEZONE", "STREET-ADDRESS", "EXTENDED-ADDRESS", "LOCALITY", "REGION", "COUNTRY", "POSTAL-CODE",
    "CATEGORIES", "CLASS", "COMMENT", "DESCRIPTION", "LOCATION", "RESOURCES", "STATUS", "SUMMARY", "TRANSP", "TZID", "TZNAME", "CONTACT", "RELATED-TO", "UID", "ACTION",
];
/// the properties that may occur more than once
pub const MULTI: [&str; 13] = ["ATTACH", "ATTENDEE", "CATEGORIES", "COMMENT", "CONTACT", "EXDATE", "FREEBUSY", "IANA-PROP", "RDATE", "RELATED-TO", "RESOURCES", "REQUEST-STATUS", "X-PROP"];
/// the parameter names the standards register, other than VALUE
pub const PARAMS: [&str; 24] = [
    "ALTREP", "CN", "CUTYPE", "DELEGATED-FROM", "DELEGATED-TO", "DIR", "ENCODING", "FMTTYPE", "FBTYPE", "LANGUAGE", "MEMBER", "PARTSTAT", "RANGE", "RELATED", "RELTYPE", "ROLE", "RSVP", "SENT-BY",
    "TZID", "VVENUE", "DISPLAY", "EMAIL", "FEATURE", "X-FOO",
];
/// component names
pub const KINDS: [&str; 22] = ["VEVENT", "VTODO", "VVENUE", "VJOURNAL", "VFREEBUSY", "VTIMEZONE", "STANDARD", "DAYLIGHT", "VALARM", "VAVAILABILITY", "AVAILABLE", "X-COMP", "IANA-COMP", "PARTICIPANT",
    "vevent", "X-VEVENT", "VEVENTS", "VTODO-2", "Vvenue", "EVENT", "X", "VEVENT.1"];
/// valid property names that look unlike the registered ones, or almost like them
pub const ODD: [&str; 24] = [
    "X.", ".X", "X/", "/X", "_X", "X_", "X-", "-X", "home.tel", "a,b", ",", "1X", "X1", "\u{e4}X", "X-\u{a9f}", "Summary", "summary", "UIDS", "BEGINS", "ENDS", "END-X", "BEGIN.X", "X-END", "COMMENT-2",
];
pub fn a_name() -> &'static str { let i = v::pick("name", NAMES.len() + ODD.len()); if i < NAMES.len() { NAMES[i] } else { ODD[i - NAMES.len()] } }
pub fn a_param() -> &'static str { PARAMS[v::pick("param", PARAMS.len())] }
pub fn a_kind() -> &'static str { KINDS[v::pick("kind", KINDS.len())] }
