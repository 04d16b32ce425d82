//! Value types follow the standard's table, with VALUE taking precedence.
use crate::{util::*, v};
use icalendar::*;
use ValueType::*;

/// the table of RFC 5545, and the texts of RFC 7986 and the venue draft that the library writes
const TABLE: [(&str, ValueType); 67] = [
    ("CALSCALE", Text), ("METHOD", Text), ("PRODID", Text), ("VERSION", Text),
    ("ATTACH", Uri), ("CATEGORIES", Text), ("CLASS", Text), ("COMMENT", Text), ("DESCRIPTION", Text), ("GEO", Float), ("LOCATION", Text),
    ("PERCENT-COMPLETE", Integer), ("PRIORITY", Integer), ("RESOURCES", Text), ("STATUS", Text), ("SUMMARY", Text),
    ("COMPLETED", DateTime), ("DTEND", DateTime), ("DUE", DateTime), ("DTSTART", DateTime), ("DURATION", Duration), ("FREEBUSY", Period), ("TRANSP", Text),
    ("TZID", Text), ("TZNAME", Text), ("TZOFFSETFROM", UtcOffset), ("TZOFFSETTO", UtcOffset), ("TZURL", Uri),
    ("ATTENDEE", CalAddress), ("CONTACT", Text), ("ORGANIZER", CalAddress), ("RECURRENCE-ID", DateTime), ("RELATED-TO", Text), ("URL", Uri), ("UID", Text),
    ("EXDATE", DateTime), ("RDATE", DateTime), ("RRULE", Recur),
    ("ACTION", Text), ("REPEAT", Integer), ("TRIGGER", Duration),
    ("CREATED", DateTime), ("DTSTAMP", DateTime), ("LAST-MODIFIED", DateTime), ("SEQUENCE", Integer), ("REQUEST-STATUS", Text),
    ("NAME", Text), ("X-WR-CALNAME", Text), ("X-WR-CALDESC", Text), ("TIMEZONE-ID", Text), ("X-WR-TIMEZONE", Text),
    ("STREET-ADDRESS", Text), ("EXTENDED-ADDRESS", Text), ("LOCALITY", Text), ("REGION", Text), ("COUNTRY", Text), ("POSTAL-CODE", Text),
    // again, so that every slice of ten is full
    ("SUMMARY", Text), ("DESCRIPTION", Text), ("LOCATION", Text), ("URL", Uri), ("ATTENDEE", CalAddress), ("DTSTART", DateTime), ("DUE", DateTime), ("TRIGGER", Duration), ("GEO", Float), ("RRULE", Recur),
];
const TYPES: [(&str, ValueType); 14] = [
    ("BINARY", Binary), ("BOOLEAN", Boolean), ("CAL-ADDRESS", CalAddress), ("DATE", Date), ("DATE-TIME", DateTime), ("DURATION", Duration), ("FLOAT", Float),
    ("INTEGER", Integer), ("PERIOD", Period), ("RECUR", Recur), ("TEXT", Text), ("TIME", Time), ("URI", Uri), ("UTC-OFFSET", UtcOffset),
];
fn known_type(t: &str) -> bool { TYPES.iter().any(|x| x.0 == t) }

/// what the library writes for this value under a value type
fn written(t: Option<ValueType>, raw: &str, escaped: &str) -> String { if t == Some(Text) { escaped.to_string() } else { raw.to_string() } }
const RAW: &str = "a,b;c\\d";
const ESCAPED: &str = "a\\,b\\;c\\\\d";
/// written, parsed and written again, by both kinds of property, under this value type
fn agrees(k: &str, params: &[(&str, &str)], t: Option<ValueType>) {
    let mut p = Property::new(k, RAW);
    for (a, b) in params { p.add_parameter(a, b); }
    v::check("the value type", p.value_type() == t);
    let line = ser(&p);
    v::check("escaped on write exactly when it is text", line.ends_with(&format!(":{}\r\n", written(t, RAW, ESCAPED))));
    #[cfg(feature = "full")] match parser::Property::try_from(line.as_str()) {
        Ok(q) => {
            v::check("unescaped on parse exactly when it was escaped", q.val.as_str() == RAW);
            v::check("a parsed property is written alike", q.to_string() == line);
        }
        Err(_) => v::check("it is parsed", false),
    }
    // the same decision on input that looks escaped
    #[cfg(feature = "full")] let head = &line[..line.len() - 2 - written(t, RAW, ESCAPED).len()];
    #[cfg(feature = "full")] match parser::Property::try_from(format!("{}{}\r\n", head, ESCAPED).as_str()) {
        Ok(q) => v::check("decoded exactly when it is text", q.val.as_str() == if t == Some(Text) { RAW } else { ESCAPED }),
        Err(_) => v::check("it is parsed", false),
    }
}
macro_rules! slices { ($($n:ident: $i:expr;)*) => { $( pub mod $n { use super::*;
    pub fn default() { for (k, t) in &TABLE[$i..$i + 10] { agrees(k, &[], Some(*t)); } }
    /// a VALUE that names no type changes nothing
    pub fn unknown_value() {
        let t = v::text("t", "uname{1,12}");
        v::assume(!known_type(&t));
        for (k, d) in &TABLE[$i..$i + 10] { v::check("an unknown VALUE gives the default", prop1(k, "", "VALUE", &t).value_type() == Some(*d)); }
    }
    /// other parameters change nothing
    pub fn other_parameter() {
        let (k1, w) = (v::text("k", "uname{1,12}"), v::text("w", "word{1,12}"));
        v::assume(k1 != "VALUE");
        for (k, d) in &TABLE[$i..$i + 10] { v::check("another parameter gives the default", prop1(k, "", &k1, &w).value_type() == Some(*d)); }
        for (k, d) in &TABLE[$i..$i + 10] { agrees(k, &[("TYPE", "TEXT")], Some(*d)); }
    }
    pub fn other_parameters() {
        agrees(TABLE[$i].0, &[("TYPE", "TEXT"), ("ENCODING", "URI")], Some(TABLE[$i].1));
        agrees(TABLE[$i + 5].0, &[("TYPE", "URI"), ("VALUES", "TEXT")], Some(TABLE[$i + 5].1));
    }
    /// a VALUE that names a type takes precedence
    pub fn value() {
        for (k, _) in &TABLE[$i..$i + 10] { for (n, t) in TYPES { v::check("VALUE takes precedence", prop1(k, "", "VALUE", n).value_type() == Some(t)); } }
    }
    pub fn value_agrees() {
        for (k, _) in &TABLE[$i..$i + 10] { for (n, t) in [("TEXT", Text), ("URI", Uri), ("DATE", Date)] { agrees(k, &[("VALUE", n)], Some(t)); } }
    }
    /// any text value survives
    #[cfg(feature = "full")] pub fn any_text() {
        let s = v::text("s", "line{0,10}");
        for (k, _) in &TABLE[$i..$i + 10] {
            match parser::Property::try_from(ser(&Property::new(*k, &s)).as_str()) {
                Ok(q) => v::check("the value is parsed back", q.val.as_str() == s),
                Err(_) => v::check("it is parsed", false),
            }
        }
    }
} )* } }
slices! { t1: 0; t2: 10; t3: 20; t4: 30; t5: 40; t6: 50; t7: 57; }
/// every value type on any other name
macro_rules! types { ($($n:ident: $t:expr, $v:expr;)*) => { $( pub fn $n() {
    let k = v::text("k", "uname{1,12}");
    v::assume(k != "END" && k != "BEGIN");
    v::check("VALUE names the type", prop1(&k, "", "VALUE", $t).value_type() == Some($v));
    agrees("X-OWN", &[("VALUE", $t)], Some($v));
    agrees("X-own", &[("VALUE", $t)], Some($v));
    agrees("X-OWN", &[("A", "b"), ("VALUE", $t), ("Z", "y")], Some($v));
} )* } }
types! {
    binary: "BINARY", Binary; boolean: "BOOLEAN", Boolean; cal_address: "CAL-ADDRESS", CalAddress; date: "DATE", Date; date_time: "DATE-TIME", DateTime; duration: "DURATION", Duration; float: "FLOAT", Float;
    integer: "INTEGER", Integer; period: "PERIOD", Period; recur: "RECUR", Recur; text: "TEXT", Text; time: "TIME", Time; uri: "URI", Uri; utc_offset: "UTC-OFFSET", UtcOffset;
}
/// other names have no type
pub fn other_name() {
    let k = v::text("k", "uname{1,20}");
    v::assume(!TABLE.iter().any(|x| x.0 == k));
    v::check("any other name has no type", Property::new(&k, "").value_type() == None);
    v::check("also with an unknown VALUE", prop1(&k, "", "VALUE", "OTHER").value_type() == None);
}
pub fn own_names() {
    for k in ["X-OWN", "SUMMARYX", "XSUMMARY", "X-SUMMARY", "SUMMAR", "FOO", "REFRESH"] { agrees(k, &[], None); }
}
pub fn own_name() {
    let k = format!("X-{}", v::text("k", "uname{0,10}"));
    v::assume(k != "X-WR-CALNAME" && k != "X-WR-CALDESC" && k != "X-WR-TIMEZONE");
    agrees(&k, &[], None);
}
/// names are compared as they are
pub fn lower_case() {
    for k in ["summary", "Summary", "description", "SUMMARy", "url"] { agrees(k, &[], None); }
    for k in ["summary", "url"] { agrees(k, &[("VALUE", "TEXT")], Some(Text)); }
}
/// writing and parsing agree for any name and any VALUE
#[cfg(feature = "full")] pub fn any_name_any_value() {
    let (k, t) = (v::text("k", "uname{1,12}"), v::text("t", "uname{1,12}"));
    v::assume(k != "END" && k != "BEGIN");
    let line = ser(&prop1(&k, "a,b", "VALUE", &t));
    match parser::Property::try_from(line.as_str()) {
        Ok(q) => v::check("writing and parsing agree", q.val.as_str() == "a,b" && q.to_string() == line),
        Err(_) => v::check("it is parsed", false),
    }
}
#[cfg(feature = "full")] pub fn any_name() {
    let k = v::text("k", "name{1,12}");
    v::assume(!k.eq_ignore_ascii_case("END") && !k.eq_ignore_ascii_case("BEGIN"));
    let line = ser(&Property::new(&k, "a\\nb"));
    match parser::Property::try_from(line.as_str()) {
        Ok(q) => v::check("writing and parsing agree", q.val.as_str() == "a\\nb" && q.to_string() == line),
        Err(_) => v::check("it is parsed", false),
    }
}
/// the first VALUE of a parsed property decides for parsing as for writing
#[cfg(feature = "full")] pub fn parsed_twice() {
    for (a, b) in [("TEXT", "URI"), ("URI", "TEXT"), ("OTHER", "TEXT"), ("TEXT", "OTHER")] {
        for k in ["X-A", "SUMMARY", "URL"] {
            let line = format!("{k};VALUE={a};VALUE={b}:a\\,b\r\n");
            match parser::Property::try_from(line.as_str()) {
                Ok(q) => v::check("writing and parsing agree", q.to_string() == line),
                Err(_) => v::check("it is parsed", false),
            }
        }
    }
}
/// a parameter names a type
pub fn of_parameter() {
    for (n, t) in TYPES { v::check("a VALUE parameter is that type", ValueType::try_from(Parameter::new("VALUE", n)) == Ok(t)); }
    let (k, w) = (v::text("k", "any{0,20}"), v::text("w", "any{0,20}"));
    v::assume(k != "VALUE" && !known_type(&w));
    v::check("another parameter is none", ValueType::try_from(Parameter::new(&k, "TEXT")).is_err());
    v::check("another value is none", ValueType::try_from(Parameter::new("VALUE", &w)).is_err());
}
/// text in components
pub fn in_component() {
    let (s, t) = (v::text("s", "word{0,10}"), v::text("t", "word{0,10}"));
    let mut e = Event::new();
    e.append_property(Property::new("UID", "1")).append_property(Property::new("DTSTAMP", "20200101T000000Z"));
    e.append_property(Property::new("SUMMARY", format!("{s},{t}"))).append_property(Property::new("URL", format!("{s},{t}"))).append_property(prop1("X-K", &format!("{s},{t}"), "VALUE", "TEXT"));
    e.append_multi_property(Property::new("COMMENT", format!("{s};{t}"))).append_multi_property(Property::new("ATTENDEE", format!("{s};{t}")));
    let out = e.to_string();
    match lines(&out) {
        Some(l) => v::check("texts are escaped, others are not", count(&l, &format!("SUMMARY:{s}\\,{t}")) == 1 && count(&l, &format!("URL:{s},{t}")) == 1 && count(&l, &format!("X-K;VALUE=TEXT:{s}\\,{t}")) == 1
            && count(&l, &format!("COMMENT:{s}\\;{t}")) == 1 && count(&l, &format!("ATTENDEE:{s};{t}")) == 1),
        None => v::check("every line ends with CRLF", false),
    }
}
/// value types in another case, or almost value types, name no type, neither in writing nor in parsing
pub fn almost_types() {
    let i = v::pick("type", TYPES.len());
    let n = TYPES[i].0;
    let lower = n.to_lowercase();
    let mixed = format!("{}{}", &n[..1], &lower[1..]);
    for t in [lower.clone(), mixed, format!("{n} "), format!(" {n}"), format!("{n}S"), n[..n.len() - 1].to_string(), format!("X-{n}"), n.replace("-", "_") + "_"] {
        for (k, d) in [("X-OWN", None), ("SUMMARY", Some(Text)), ("URL", Some(Uri)), ("DTSTART", Some(DateTime))] { agrees(k, &[("VALUE", &t)], d); }
    }
}
/// parameter names in another case are not VALUE
pub fn almost_value() {
    for p in ["value", "Value", "VALUES", "VALU", "X-VALUE", "VALUE-X", "XVALUE"] {
        for (k, d) in [("X-OWN", None), ("SUMMARY", Some(Text)), ("URL", Some(Uri))] { for t in ["TEXT", "URI"] { agrees(k, &[(p, t)], d); } }
    }
}
/// any registered name in another case, or almost one
pub fn almost_names() {
    let i = v::pick("name", 57);
    let n = TABLE[i].0;
    let lower = n.to_lowercase();
    for k in [format!("{}{}", &n[..1], &lower[1..]), lower, format!("{n}S"), format!("X-{n}"), n[..n.len() - 1].to_string(), format!("{n}-"), format!("{n}.1"), n.replace("-", "") + "/"] {
        if !TABLE.iter().any(|x| x.0 == k) { agrees(&k, &[], None); agrees(&k, &[("VALUE", "TEXT")], Some(Text)); }
    }
}
/// every name under every value type
macro_rules! every { ($($n:ident: $i:expr;)*) => { pub mod every { use super::*; $( pub fn $n() {
    let (t, ty) = TYPES[v::pick("type", TYPES.len())];
    let k = TABLE[$i + v::pick("name", 10)].0;
    agrees(k, &[("VALUE", t)], Some(ty));
    agrees(k, &[("A", "b"), ("VALUE", t)], Some(ty));
} )* } } }
every! { t1: 0; t2: 10; t3: 20; t4: 30; t5: 40; t6: 47; }
