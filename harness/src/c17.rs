//! No input makes the library panic: every lemma calls part of the interface with symbolic
//! arguments, and every panic the analysis finds on the way is the violation.
use crate::{util::*, v};
use chrono::{Duration, NaiveDate, TimeZone, Utc};
use icalendar::*;

const KEYS: [&str; 12] = ["DTSTAMP", "DTSTART", "DTEND", "PRIORITY", "SUMMARY", "DESCRIPTION", "UID", "SEQUENCE", "CLASS", "URL", "LAST-MODIFIED", "CREATED"];
fn done() { v::check("no panic", true); }
fn x(id: &'static str) -> String { v::text(id, "any{0,100000}") }
fn read_all<C: Component>(c: &C) {
    let _ = c.get_timestamp();
    let _ = c.get_start();
    let _ = c.get_end();
    let _ = c.get_priority();
    let _ = c.get_summary();
    let _ = c.get_description();
    let _ = c.get_uid();
    let _ = c.get_sequence();
    let _ = c.get_class();
    let _ = c.get_url();
    let _ = c.get_last_modified();
    let _ = c.get_created();
}
fn set_all<C: Component>(c: &mut C) {
    let (a, b) = (x("a"), x("b"));
    c.summary(&a).description(&a).uid(&a).url(&a);
    c.priority(v::u32("p", 0, 4294967295)).sequence(v::u32("q", 0, 4294967295));
    c.timestamp(v::utc("t")).last_modified(v::utc("t2")).created(v::utc("t3"));
    c.class(if v::any("c1") { Class::Public } else if v::any("c2") { Class::Private } else { Class::Confidential });
    c.add_property(&*a, &*b).add_multi_property(&a, &b).add_property_pre_alloc(a.clone(), b.clone());
    read_all(c);
}
macro_rules! kinds { ($($n:ident: $t:ty;)*) => { $( pub mod $n { use super::*;
    pub fn empty() { let mut c = <$t>::new(); read_all(&c); let _ = c.to_string(); read_all(&c.done()); let _ = c.to_string(); done(); }
    pub fn setters() { let mut c = <$t>::new(); set_all(&mut c); let _ = c.done(); done(); }
    pub fn serialized() { let mut c = <$t>::new(); c.uid("1").timestamp(v::utc("t")).summary(&v::text("a", "any{0,60}")); let _ = c.try_into_string(); let _ = c.to_string(); done(); }
    /// whatever text the properties hold
    pub fn any_values() { for k in KEYS { let mut c = <$t>::new(); c.add_property(k, x("v")); read_all(&c); break; } done(); }
} )* } }
kinds! { event: Event; todo: Todo; venue: Venue; }
macro_rules! getter { ($($n:ident: $k:expr, $t:ty, $g:ident;)*) => { pub mod getter { use super::*; $( pub mod $n { use super::*;
    pub fn any_text() { let mut c = <$t>::new(); c.add_property($k, x("v")); let _ = c.$g(); done(); }
    pub fn any_parameter() { let mut c = <$t>::new(); c.append_property(prop1($k, &x("v"), &x("k"), &x("w"))); let _ = c.$g(); done(); }
    pub fn as_date() { let mut c = <$t>::new(); c.append_property(prop1($k, &x("v"), "VALUE", "DATE")); let _ = c.$g(); done(); }
    pub fn with_zone() { let mut c = <$t>::new(); c.append_property(prop1($k, &x("v"), "TZID", &x("w"))); let _ = c.$g(); done(); }
    pub fn multi_byte() { for s in ["\u{e9}", "2\u{e9}", "20200101T00000\u{e9}", "\u{e9}0200101T000000Z", "20200101\u{1f600}", "-", "+", "", "Z", "T", "P", "-P", "99999999999999999999", "4294967296", "-1", "256", "00000000T000000", "20201301", "99999999T999999Z"] {
        let mut c = <$t>::new();
        c.add_property($k, s);
        let _ = c.$g();
    } done(); }
} )* } } }
getter! {
    timestamp: "DTSTAMP", Event, get_timestamp; start: "DTSTART", Event, get_start; end: "DTEND", Event, get_end; priority: "PRIORITY", Event, get_priority; sequence: "SEQUENCE", Event, get_sequence;
    class: "CLASS", Event, get_class; last_modified: "LAST-MODIFIED", Event, get_last_modified; created: "CREATED", Event, get_created; event_status: "STATUS", Event, get_status;
    todo_status: "STATUS", Todo, get_status; percent: "PERCENT-COMPLETE", Todo, get_percent_complete; due: "DUE", Todo, get_due; completed: "COMPLETED", Todo, get_completed;
    summary: "SUMMARY", Event, get_summary; location: "LOCATION", Event, get_location; url: "URL", Event, get_url;
    locality: "LOCALITY", Venue, get_locality; street: "STREET-ADDRESS", Venue, get_street_address; postal: "POSTAL-CODE", Venue, get_postal_code;
}
fn form() -> DatePerhapsTime {
    if v::any("f1") {
        if v::any("f2") { DatePerhapsTime::Date(v::date("d")) } else { DatePerhapsTime::DateTime(CalendarDateTime::Floating(v::ndt("n"))) }
    } else {
        if v::any("f2") { DatePerhapsTime::DateTime(CalendarDateTime::Utc(v::utc("u"))) } else { DatePerhapsTime::DateTime(CalendarDateTime::WithTimezone { date_time: v::ndt("n"), tzid: x("z") }) }
    }
}
each! {
    event_dates => { let mut e = Event::new(); e.starts(form()); let _ = e.get_start(); e.ends(form2()); let _ = e.get_end(); e.all_day(v::date("ad")); let _ = e.get_start(); done(); }
    event_rest => { let mut e = Event::new(); e.location(&x("l")).venue(&x("l2"), &x("v")); let _ = e.get_location(); e.status(EventStatus::Confirmed); let _ = e.get_status(); done(); }
    todo_rest => {
        let mut e = Todo::new();
        e.percent_complete(v::u8("p", 0, 255)).completed(v::utc("c")).status(TodoStatus::Completed).due(form());
        let (_, _, _, _) = (e.get_percent_complete(), e.get_completed(), e.get_status(), e.get_due());
        done();
    }
    venue_rest => {
        let mut e = Venue::new();
        e.street_address(&x("a")).extended_address(&x("b")).locality(&x("c")).region(&x("d")).country(&x("e")).postal_code(&x("f"));
        let (_, _, _, _, _, _) = (e.get_street_address(), e.get_extended_address(), e.get_locality(), e.get_region(), e.get_country(), e.get_postal_code());
        done();
    }
    calendar_rest => {
        let mut c = Calendar::new();
        c.name(&x("a")).description(&x("b")).timezone(&x("c"));
        let (_, _, _) = (c.get_name(), c.get_description(), c.get_timezone());
        let _ = c.property_value(&x("k"));
        let _ = c.done();
        done();
    }
    calendar_ttl => { let mut c = Calendar::new(); c.ttl(&v::dur("d", -9000000000000000, 9000000000000000)); let _ = c.get_ttl(); done(); }
    calendar_ttl_extremes => { for d in [Duration::MAX, Duration::MIN, Duration::zero(), Duration::milliseconds(1), Duration::milliseconds(-1), Duration::seconds(4294967296)] { let mut c = Calendar::new(); c.ttl(&d); let _ = c.get_ttl(); } done(); }
    calendar_ttl_text => { let mut c = Calendar::empty(); c.append_property(Property::new("REFRESH-INTERVAL", x("v"))); let _ = c.get_ttl(); done(); }
    calendar_ttl_text2 => { let mut c = Calendar::empty(); c.append_property(Property::new("X-PUBLISHED-TTL", x("v"))); let _ = c.get_ttl(); done(); }
    calendar_serialized => { let mut c = Calendar::new(); c.name(&v::text("a", "any{0,20}")); let _ = c.to_string(); let r: Result<String, _> = (&c).try_into(); let _ = r; done(); }
    calendar_append => { let (mut a, mut b) = (Calendar::new(), Calendar::empty()); a.append(&mut b); b.append(&mut a); b.extend(vec![Event::new()]); b.push(Todo::new()); let _ = (b.len(), b.first(), b[0].as_event(), b[0].as_todo()); done(); }
    // durations and triggers
    trigger => {
        let d = v::dur("d", -9000000000000000, 9000000000000000);
        for t in [Trigger::from(d), Trigger::after_start(d), Trigger::after_end(d), Trigger::before_start(d), Trigger::before_end(d)] {
            let (_, _, _) = (t.related(), t.as_duration(), t.as_date_time());
            let p = Property::from(t);
            let _ = Trigger::try_from(&p);
        }
        done();
    }
    trigger_extremes => {
        for d in [Duration::MAX, Duration::MIN, Duration::zero(), Duration::milliseconds(1), Duration::milliseconds(-1), Duration::seconds(4294967296), Duration::seconds(-4294967296)] {
            for t in [Trigger::from(d), Trigger::after_start(d), Trigger::before_start(d), Trigger::before_end(d)] { let p = Property::from(t); let _ = Trigger::try_from(&p); }
        }
        done();
    }
    trigger_of_date => { let t: Trigger = match form() { DatePerhapsTime::DateTime(d) => d.into(), _ => return }; let p = Property::from(t); let _ = Trigger::try_from(&p); done(); }
    trigger_of_text => { let _ = Trigger::try_from(&Property::new("TRIGGER", x("v"))); done(); }
    trigger_of_parameter => { let _ = Trigger::try_from(&prop1("TRIGGER", &x("v"), "RELATED", &x("w"))); done(); }
    trigger_of_parameter2 => { let _ = Trigger::try_from(&prop1("TRIGGER", &x("v"), "VALUE", &x("w"))); done(); }
    trigger_of_property => { let _ = Trigger::try_from(&Property::new(x("k"), x("v"))); done(); }
    trigger_of_odd_text => {
        for s in ["", "-", "+", "P", "-P", "+P", "PT", "--PT1S", "-+PT1S", "+-PT1S", "\u{e9}", "-\u{e9}", "P\u{e9}", "PT99999999999999999999S", "PT4294967295S", "PT4294967296S", "P99999999999W", "P4294967295Y", "P4294967295D", "PT4294967295H", "-P4294967295Y4294967295M4294967295DT4294967295H4294967295M4294967295S", "P1Y1W", "PT1.5S", "P-1D", "P1"] {
            let _ = Trigger::try_from(&Property::new("TRIGGER", s));
        }
        done();
    }
    duration_property => { let _ = Property::from(v::dur("d", -9000000000000000, 9000000000000000)); for d in [Duration::MAX, Duration::MIN] { let _ = Property::from(d); } done(); }
    alarms => {
        let d = v::dur("d", -9000000000000000, 9000000000000000);
        let a = Alarm::display(&x("t"), Trigger::before_start(d)).duration_and_repeat(d, v::u32("n", 0, 4294967295)).done();
        let b = Alarm::audio(form_time()).done();
        let mut e = Event::new();
        e.alarm(a).alarm(b);
        let _ = e.done();
        done();
    }
    // properties and parameters
    property => {
        let mut p = Property::new(x("k"), x("v"));
        p.add_parameter(&x("a"), &x("b")).append_parameter((&*x("c"), &*x("d")));
        let (_, _, _, _) = (p.key(), p.value(), p.params().len(), p.value_type());
        let _ = p.get_value_as(|s| Some(s.len()));
        let _ = p.get_param_as(&x("e"), |s| Some(s.len()));
        let _ = p.done();
        done();
    }
    property_serialized => { let _: Result<String, _> = Property::new(v::text("k", "any{0,20}"), v::text("v", "any{0,20}")).try_into(); done(); }
    property_serialized_text => { let _: Result<String, _> = Property::new("SUMMARY", v::text("v", "any{0,100}")).try_into(); done(); }
    property_serialized_parameter => { let _: Result<String, _> = prop1("X-A", "v", &v::text("k", "any{0,20}"), &v::text("w", "any{0,40}")).try_into(); done(); }
    property_serialized_long => { let _: Result<String, _> = Property::new("X-A", v::text("v", "word{0,900}")).try_into(); done(); }
    property_serialized_wide => { let _: Result<String, _> = Property::new("X-A", v::text("v", "wide{0,140}")).try_into(); done(); }
    property_of_text => { let _ = DatePerhapsTime::from_property(&Property::new(x("k"), x("v"))); done(); }
    property_of_text_date => { let _ = DatePerhapsTime::from_property(&prop1(&x("k"), &x("v"), "VALUE", "DATE")); done(); }
    property_of_text_zone => { let _ = DatePerhapsTime::from_property(&prop1(&x("k"), &x("v"), "TZID", &x("z"))); done(); }
    dates => { let d = form(); let _ = d.date_naive(); let _ = NaiveDate::from(d.clone()); let _ = d.to_property(&x("k")); done(); }
    dates_to_utc => { match form() { DatePerhapsTime::DateTime(d) => { let _ = d.try_into_utc(); } _ => () } done(); }
    dates_of_text => { let _ = x("s").parse::<CalendarDateTime>(); done(); }
    dates_of_fields => { let _ = ymd_hm_tzid(v::u32("y", 0, 2147483647) as i32, v::u32("m", 0, 4294967295), v::u32("d", 0, 4294967295), v::u32("h", 0, 4294967295), v::u32("mi", 0, 4294967295), v::tz("z")); done(); }
    dates_of_odd_text => { for s in ["", "Z", "T", "20200101T000000", "20200101T000000Z", "20201301T000000Z", "20200230T000000", "20200101T250000", "20200101T000060Z", "99999999T999999Z", "00000101T000000Z", "-0010101T000000Z", "+262143-01-01", "2020\u{e9}101T000000Z", "20200101t000000z", "20200101 000000"] { let _ = s.parse::<CalendarDateTime>(); } done(); }
    dates_named => { let _ = CalendarDateTime::try_from((v::ndt("n"), x("z").as_str())); let _ = DatePerhapsTime::try_from((v::ndt("n"), "Europe/\u{e9}")); done(); }
    enums => { let s = x("s"); let _ = s.parse::<ValueType>(); let _ = ValueType::try_from(Parameter::new(&x("k"), &s)); done(); }
    // parsing
    texts => { let p = parser::ParseString::from(x("s")); let _ = p.as_str(); let _ = p.to_owned(); let _ = p.clone().into_owned(); let _ = p.to_string(); done(); }
    text_unescaped => { let _ = parser::ParseString::from(v::text("s", "any{0,4}")).unescape_text(); done(); }
    text_unescaped_start => { let _ = parser::ParseString::from(format!("{}{}", v::text("a", "plain{0,1000}"), v::text("s", "any{0,3}"))).unescape_text(); done(); }
    text_unescaped_end => { let _ = parser::ParseString::from(format!("{}{}", v::text("s", "any{0,3}"), v::text("a", "plain{0,1000}"))).unescape_text(); done(); }
    text_unescaped_odd => { for s in ["\\", "\\\\", "\\\\\\", "\\n\\", "\\\u{e9}", "\u{e9}\\", "\\,\\", "a\\", "\\N", "\\;\u{1f600}\\"] { let _ = parser::ParseString::from(s).unescape_text(); } done(); }
    text_by_type => { let _ = parser::ParseString::from(v::text("s", "any{0,3}")).unescape_by_value_type(ValueType::Text); let _ = parser::ParseString::from("a\\").unescape_by_value_type(ValueType::Date); done(); }
    unfolding => { let _ = parser::unfold(&v::text("s", "any{0,4}")); done(); }
    unfolding_lines => { let _ = parser::unfold(&format!("{}\n{}\r\n{}", v::text("a", "line{0,1000}"), v::text("b", "line{0,1000}"), v::text("c", "line{0,1000}"))); done(); }
    unfolding_odd => { for s in ["", "\r", "\n", "\r\n", "\r\n ", "\n ", "\n\t", " ", "\u{e9}\r\n \u{e9}", "\r\n \r\n ", "\n\n ", "\r\r\n ", "\u{1f600}\n", "\n \u{1f600}", "\r\n\u{e9}"] { let _ = parser::unfold(s); } done(); }
}
fn form2() -> DatePerhapsTime { if v::any("g") { v::date("d2").into() } else { v::utc("u2").into() } }
fn form_time() -> CalendarDateTime { if v::any("ft") { v::utc("fu").into() } else { CalendarDateTime::WithTimezone { date_time: v::ndt("fn"), tzid: x("fz") } } }

/// every entry point
fn parse_all(s: &str) {
    let _ = parser::read_calendar(s);
    let _ = parser::read_calendar_simple(s);
    let _ = parser::read_components(s);
    let _ = parser::Component::try_from(s);
    let _ = parser::Property::try_from(s);
    let _ = parser::Parameter::try_from(s);
}
fn convert(s: &str) {
    if let Ok(c) = parser::read_calendar(s) { let _ = c.to_string(); let d = Calendar::from(c); let _ = d.to_string(); }
    if let Ok(c) = parser::read_components(s) { let _ = Calendar::from(c); }
    let _ = s.parse::<Calendar>();
    let _ = s.parse::<CalendarComponent>();
}
macro_rules! entries { ($e:expr; $($(#[$a:meta])* $f:ident)*) => { $( $(#[$a])* pub fn $f() { let s: String = $e; super::super::entry::$f(&s); done(); } )* } }
mod entry { use super::*;
    pub fn calendar(s: &str) { let _ = parser::read_calendar(s); }
    pub fn simple(s: &str) { let _ = parser::read_calendar_simple(s); }
    pub fn components(s: &str) { let _ = parser::read_components(s); }
    pub fn component(s: &str) { let _ = parser::Component::try_from(s); }
    pub fn property(s: &str) { let _ = parser::Property::try_from(s); }
    pub fn parameter(s: &str) { let _ = parser::Parameter::try_from(s); }
    pub fn from_str(s: &str) { let _ = s.parse::<Calendar>(); let _ = s.parse::<CalendarComponent>(); }
    pub fn converted(s: &str) { if let Ok(c) = parser::read_calendar(s) { let _ = c.to_string(); let _ = Calendar::from(c); } }
}
macro_rules! parsed { ($($n:ident: $e:expr;)*) => { pub mod parsed { use super::*; $( pub mod $n { use super::*;
    entries! { $e; calendar component property parameter converted #[cfg(feature = "deep")] simple #[cfg(feature = "deep")] components }
} )* } } }
macro_rules! parsed2 { ($($n:ident: $e:expr;)*) => { pub mod parsed2 { use super::*; $( pub mod $n { use super::*;
    entries! { $e; calendar component property parameter #[cfg(feature = "deep")] simple #[cfg(feature = "deep")] components #[cfg(feature = "deep")] from_str }
} )* } } }
macro_rules! parsed3 { ($($n:ident: $e:expr;)*) => { pub mod parsed3 { use super::*; $( pub mod $n { use super::*;
    entries! { $e; from_str components simple }
} )* } } }
parsed! {
    any: v::text("s", "any{0,4}");
    begin: format!("BEGIN:{}", v::text("s", "any{0,4}"));
    begin_name: format!("BEGIN:{}\n", v::text("s", "any{0,4}"));
    in_component: format!("BEGIN:A\n{}", v::text("s", "any{0,4}"));
    line_in_component: format!("BEGIN:A\n{}\nEND:A\n", v::text("s", "any{0,4}"));
    name: format!("BEGIN:A\n{}:b\nEND:A\n", v::text("s", "any{0,4}"));
    value: format!("BEGIN:A\nB:{}\nEND:A\n", v::text("s", "any{0,4}"));
    text_value: format!("BEGIN:A\nSUMMARY:{}\nEND:A\n", v::text("s", "any{0,3}"));
    parameter: format!("BEGIN:A\nB;{}:c\nEND:A\n", v::text("s", "any{0,4}"));
    parameter_value: format!("BEGIN:A\nB;C={}:c\nEND:A\n", v::text("s", "any{0,4}"));
    quoted: format!("BEGIN:A\nB;C=\"{}\":c\nEND:A\n", v::text("s", "any{0,4}"));
    value_type: format!("BEGIN:A\nB;VALUE={}:c\nEND:A\n", v::text("s", "word{0,12}"));
    end: format!("BEGIN:A\nEND:{}\n", v::text("s", "any{0,4}"));
    open: format!("BEGIN:A\nB:{}", v::text("s", "line{0,4}"));
    child: format!("BEGIN:A\nBEGIN:{}\nB:c\nEND:A\nEND:A\n", v::text("s", "any{0,4}"));
    after: format!("BEGIN:A\nEND:A\n{}", v::text("s", "any{0,4}"));
    calendar: format!("BEGIN:VCALENDAR\n{}\nEND:VCALENDAR\n", v::text("s", "any{0,4}"));
    date: format!("BEGIN:VEVENT\nDTSTART:{}\nEND:VEVENT\n", v::text("s", "line{0,4}"));
}
parsed3! {
    any: v::text("s", "any{0,2}");
    begin: format!("BEGIN:{}", v::text("s", "any{0,2}"));
    begin_name: format!("BEGIN:{}\n", v::text("s", "any{0,2}"));
    in_component: format!("BEGIN:A\n{}", v::text("s", "any{0,2}"));
    line_in_component: format!("BEGIN:A\n{}\nEND:A\n", v::text("s", "any{0,2}"));
    name: format!("BEGIN:A\n{}:b\nEND:A\n", v::text("s", "any{0,2}"));
    value: format!("BEGIN:A\nB:{}\nEND:A\n", v::text("s", "any{0,2}"));
    text_value: format!("BEGIN:A\nSUMMARY:{}\nEND:A\n", v::text("s", "any{0,2}"));
    parameter: format!("BEGIN:A\nB;{}:c\nEND:A\n", v::text("s", "any{0,2}"));
    parameter_value: format!("BEGIN:A\nB;C={}:c\nEND:A\n", v::text("s", "any{0,2}"));
    quoted: format!("BEGIN:A\nB;C=\"{}\":c\nEND:A\n", v::text("s", "any{0,2}"));
    value_type: format!("BEGIN:A\nB;VALUE={}:c\nEND:A\n", v::text("s", "word{0,12}"));
    end: format!("BEGIN:A\nEND:{}\n", v::text("s", "any{0,2}"));
    open: format!("BEGIN:A\nB:{}", v::text("s", "line{0,4}"));
    child: format!("BEGIN:A\nBEGIN:{}\nB:c\nEND:A\nEND:A\n", v::text("s", "any{0,2}"));
    after: format!("BEGIN:A\nEND:A\n{}", v::text("s", "any{0,2}"));
    calendar: format!("BEGIN:VCALENDAR\n{}\nEND:VCALENDAR\n", v::text("s", "any{0,2}"));
    date: format!("BEGIN:VEVENT\nDTSTART:{}\nEND:VEVENT\n", v::text("s", "line{0,4}"));
}
// longer texts of fewer characters
parsed2! {
    long_value: format!("BEGIN:A\nB:{}\nEND:A\n", v::text("s", "plain{0,1000}"));
    long_names: format!("BEGIN:{}\n{}:c\nEND:A\n", v::text("n", "name{0,1000}"), v::text("k", "name{0,1000}"));
    long_parameter: format!("BEGIN:A\nB;{}={}:c\nEND:A\n", v::text("n", "name{0,1000}"), v::text("k", "pplain{0,1000}"));
    long_end: format!("BEGIN:A\nB:c\nEND:{}", v::text("n", "plain{0,1000}"));
    two_lines: format!("BEGIN:{}\nB:c\n{}", v::text("a", "name{0,1000}"), v::text("b", "name{0,1000}"));
    wide: format!("BEGIN:A\nSUMMARY:{}\nEND:A\n", v::text("n", "wide{0,1000}"));
    wide_name: format!("BEGIN:A\n{}:b\nEND:A\n", v::text("n", "wide{0,1000}"));
    wide_parameter: format!("BEGIN:A\nB;C={}:b\nEND:A\n", v::text("n", "wide{0,1000}"));
    wide_start: v::text("n", "wide{0,1000}");
}
macro_rules! concrete { ($($n:ident: $e:expr;)*) => { pub mod concrete { use super::*; $( pub fn $n() { for s in $e { parse_all(s); convert(s); } done(); } )* } } }
concrete! {
    nothing: ["", " ", "\n", "\r\n", "\r", "\n\n\n", "\t"];
    framing: ["BEGIN", "BEGIN:", "BEGIN:\n", "BEGIN:\nEND:\n", "END:", "END:A\n", "BEGIN:A", "BEGIN:A\n", "BEGIN:A\nEND:A", "BEGIN:A\nEND:B\n", "BEGIN:A\nBEGIN:B\nEND:A\nEND:B\n"];
    multi_byte: ["\u{e9}", "BEGIN:\u{e9}\nEND:\u{e9}\n", "BEGIN:A\n\u{e9}:b\nEND:A\n", "BEGIN:A\nB:\u{1f600}\nEND:A\n", "BEGIN:A\nB;C=\u{e9}:d\nEND:A\n", "BEGIN:A\nB;\u{e9}=c:d\nEND:A\n", "BEGIN:A\nSUMMARY:\\\u{e9}\nEND:A\n", "\u{feff}BEGIN:A\nEND:A\n"];
    properties: ["A", "A:", ":", ";", "A;", "A;B", "A;B=", "A;B=:", "A;B=C:", "A;=C:d", "A;B=\":d", "A;B=\"\":d", "A;B=\"c\":d", "A;B=\"c\"d:e", "A;;B=c:d", "A=b:c", "A:b:c", "A;B=c;D=e:f;g:h"];
    calendars: ["BEGIN:VCALENDAR\nEND:VCALENDAR\n", "BEGIN:VCALENDAR\nVERSION:2.0\nEND:VCALENDAR\n", "BEGIN:VCALENDAR\nBEGIN:VEVENT\nEND:VEVENT\nBEGIN:VTODO\nEND:VTODO\nBEGIN:VVENUE\nEND:VVENUE\nBEGIN:X\nEND:X\nEND:VCALENDAR\nBEGIN:VEVENT\nEND:VEVENT\n"];
    nested: ["BEGIN:A\nBEGIN:B\nBEGIN:C\nX:1\nEND:C\nEND:B\nEND:A\n", "BEGIN:A\nBEGIN:A\nBEGIN:A\nEND:A\nEND:A\nEND:A\n", "BEGIN:A\nBEGIN:B\nEND:B\nBEGIN:B\n"];
    odd_texts: ["BEGIN:A\nSUMMARY:\\\nEND:A\n", "BEGIN:A\nSUMMARY:a\\nb\\\nEND:A\n", "BEGIN:A\nDTSTART;VALUE=DATE:x\nEND:A\n", "BEGIN:A\nDTSTART;TZID=:x\nEND:A\n", "BEGIN:A\nDTSTART;TZID:20200101T000000\nEND:A\n", "BEGIN:VALARM\nTRIGGER:\nEND:VALARM\n"];
}
/// a parsed property is read as a date
pub fn parsed_date() { let p = parser::Property { name: x("k").into(), val: x("v").into(), params: vec![] }; let _ = DatePerhapsTime::try_from(&p); done(); }
pub fn parsed_date_zone() {
    let mut p = parser::Property { name: x("k").into(), val: x("v").into(), params: vec![parser::Parameter { key: "TZID".to_string().into(), val: Some(x("z").into()) }] };
    let _ = DatePerhapsTime::try_from(&p);
    p.params[0].val = None;
    let _ = DatePerhapsTime::try_from(&p);
    done();
}
/// trees made by hand
pub fn tree_by_hand() {
    let p = || parser::Property { name: x2("k").into(), val: "v".to_string().into(), params: vec![parser::Parameter { key: "k".to_string().into(), val: None }] };
    let c = parser::Component { name: v::text("n", "any{0,40}").into(), properties: vec![p()], components: vec![] };
    let _ = c.find_prop(v::text("q", "any{0,40}"));
    let _ = CalendarComponent::from(c.clone());
    let k = parser::Calendar { properties: vec![], components: vec![c] };
    let _ = k.to_string();
    let _ = Calendar::from(k);
    let _ = Calendar::from(Vec::<parser::Component>::new());
    done();
}
fn x2(id: &'static str) -> String { v::text(id, "any{0,40}") }
