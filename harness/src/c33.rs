//! Every way of writing gives the same text.
use crate::{util::*, v};
use chrono::Duration;
use icalendar::*;
use std::convert::TryInto;
use std::fmt::Write;

fn stamp<C: Component>(c: &mut C) { c.append_property(Property::new("UID", "u")).append_property(Property::new("DTSTAMP", "20200101T000000Z")); }
fn new<C: Component + Default>() -> C { let mut c = C::default(); stamp(&mut c); c }
/// writes of a component
fn ways<C: Component + Clone + Into<CalendarComponent> + TryInto<String>>(c: &C) {
    let text = Component::to_string(c);
    inner(c, &text);
    v::check("conversion into a string", match c.clone().try_into() { Ok(s) => { let s: String = s; s == text } Err(_) => false });
    let mut k = Calendar::empty();
    k.push(c.clone());
    v::check("inside a calendar", k.to_string() == format!("BEGIN:VCALENDAR\r\n{text}END:VCALENDAR\r\n"));
}
fn inner<C: Component>(c: &C, text: &str) {
    v::check("try_into_string", c.try_into_string().as_deref() == Ok(text));
    let mut s = String::from("x");
    v::check("fmt_write", c.fmt_write(&mut s).is_ok() && s == format!("x{text}"));
    let before = v::printed();
    v::check("print", c.print().is_ok() && v::printed() == format!("{before}{text}\r\n"));
    v::check("printed again", c.print().is_ok() && v::printed() == format!("{before}{text}\r\n{text}\r\n"));
    let (mut n, mut m) = (String::new(), 0);
    for p in c.properties().values() { n += &ser(p); m += 1; }
    for ps in c.multi_properties().values() { for p in ps { n += &ser(p); m += 1; } }
    for k in c.components() { n += &k.to_string(); }
    v::check("it is made of its properties and children", *text == format!("BEGIN:{0}\r\n{n}END:{0}\r\n", c.component_kind()));
}
fn calendar(c: &Calendar) {
    let text = c.to_string();
    v::check("format", format!("{}", c) == text && format!("{c}") == text);
    v::check("conversion into a string", match c.try_into() { Ok(s) => { let s: String = s; s == text } Err(_) => false });
    let mut s = Sink::new(100000);
    v::check("write!", write!(s, "{}", c).is_ok() && s.text == text);
    let before = v::printed();
    v::check("print", c.print().is_ok() && v::printed() == format!("{before}{text}\r\n"));
    let mut n = String::new();
    for p in &c.properties { n += &ser(p); }
    for k in &c.components {
        n += &match k { CalendarComponent::Event(x) => x.to_string(), CalendarComponent::Todo(x) => x.to_string(), CalendarComponent::Venue(x) => x.to_string(), CalendarComponent::Other(x) => x.to_string(), _ => String::new() };
    }
    v::check("it is made of its properties and components", text == format!("BEGIN:VCALENDAR\r\n{n}END:VCALENDAR\r\n"));
}
#[cfg(feature = "full")] fn parsed(text: &str) {
    let whole = parser::unfold(text);
    match parser::read_calendar(&whole) {
        Ok(c) => {
            let again = c.to_string();
            v::check("the parsed calendar: format", format!("{}", c) == again);
            let mut s = Sink::new(100000);
            v::check("the parsed calendar: write!", write!(s, "{}", c).is_ok() && s.text == again);
            let before = v::printed();
            v::check("the parsed calendar: print", c.print().is_ok() && v::printed() == format!("{before}{again}\r\n"));
            let mut n = String::new();
            for p in &c.properties { n += &p.to_string(); }
            v::check("the parsed calendar begins with its properties", again.starts_with(&format!("BEGIN:VCALENDAR\r\n{n}")));
        }
        Err(_) => v::check("it is read", false),
    }
}

macro_rules! kinds { ($($m:ident: $t:ty;)*) => { $( pub mod $m { use super::*;
    pub fn empty() { ways(&new::<$t>()); }
    pub fn any_value() { let mut c: $t = new(); c.append_property(Property::new("SUMMARY", v::text("s", "plain{0,20}"))).append_property(prop1("X-A", &v::text("x", "word{0,10}"), "P", &v::text("p", "pval{1,10}"))); ways(&c); }
    pub fn any_name() { let mut c: $t = new(); c.append_property(Property::new(a_name(), v::text("w", "word{0,10}"))); ways(&c); }
    pub fn repeated() { let mut c: $t = new(); let w = v::text("w", "word{0,10}"); for n in ["COMMENT", "ATTENDEE", "CATEGORIES", "COMMENT", "X-Y"] { c.append_multi_property(prop1(n, &w, "K", n)); } ways(&c); }
    pub fn children() {
        let w = v::text("w", "word{0,10}");
        let (mut a, mut b, mut d): (Event, Todo, $t) = (new(), new(), new());
        a.summary(&w);
        b.append_component(a.clone()).description(&w);
        d.append_component(a).append_component(b);
        ways(&d);
    }
    pub fn long() { let mut c: $t = new(); c.append_property(Property::new("SUMMARY", v::text("w", "word{60,200}"))); ways(&c); }
} )* } }
kinds! { event: Event; todo: Todo; venue: Venue; }
pub fn alarms() {
    let s = v::text("s", "plain{0,12}");
    for mut a in [Alarm::display(&s, Duration::minutes(5)), Alarm::audio((Duration::minutes(-5), Related::End)).duration_and_repeat(Duration::minutes(1), 3).done()] {
        stamp(&mut a);
        let t = a.to_string();
        inner(&a, &t);
        let mut e: Event = new();
        e.alarm(a);
        ways(&e);
    }
}
#[cfg(feature = "full")] pub fn other_components() {
    let (k, s) = (a_kind(), v::text("s", "word{0,12}"));
    let text = format!("BEGIN:{k}\r\nDTSTAMP:20200101T000000Z\r\nSUMMARY:{s}\r\nUID:u\r\nEND:{k}\r\n");
    match text.parse::<CalendarComponent>() {
        Ok(CalendarComponent::Other(c)) => { v::check("it is written", c.to_string() == text); inner(&c, &text); }
        Ok(CalendarComponent::Event(c)) => ways(&c),
        Ok(CalendarComponent::Todo(c)) => ways(&c),
        Ok(CalendarComponent::Venue(c)) => ways(&c),
        _ => v::check("it is read", false),
    }
}
pub fn properties() {
    let (n, w, p) = (a_name(), v::text("w", "plain{0,12}"), v::text("p", "pval{1,10}"));
    let x = prop1(n, &w, "P", &p);
    let text = ser(&x);
    let mut e = Event::default();
    e.append_multi_property(x.clone());
    v::check("a property is written as in a component", e.to_string().contains(&text));
    let mut c = Calendar::empty();
    c.append_property(x);
    v::check("a property is written as in a calendar", c.to_string() == format!("BEGIN:VCALENDAR\r\n{text}END:VCALENDAR\r\n"));
}
pub fn calendars() {
    let s = v::text("s", "plain{0,12}");
    calendar(&Calendar::empty());
    calendar(&Calendar::new());
    let mut c = Calendar::new();
    c.name(&s).timezone("Europe/Berlin").ttl(&Duration::hours(1));
    calendar(&c);
    let (mut e, t, w): (Event, Todo, Venue) = (new(), new(), new());
    let mut a = Alarm::audio(Duration::minutes(5));
    stamp(&mut a);
    e.summary(&s).alarm(a);
    c.push(e.done()).push(t).push(w);
    calendar(&c);
}
#[cfg(feature = "full")] pub fn calendars_parsed() {
    let s = v::text("s", "plain{0,12}");
    parsed("BEGIN:VCALENDAR\r\nEND:VCALENDAR\r\n");
    parsed("BEGIN:VEVENT\r\nEND:VEVENT\r\n");
    let mut c = Calendar::new();
    c.name(&s);
    let (mut e, t, w): (Event, Todo, Venue) = (new(), new(), new());
    e.summary(&s).append_multi_property(prop1("ATTENDEE", "x", "CN", &"y".repeat(80)));
    c.push(e.done()).push(t).push(w);
    parsed(&c.to_string());
}
#[cfg(feature = "full")] pub fn properties_parsed() {
    let (n, w, p) = (a_name(), v::text("w", "word{0,12}"), v::text("p", "pval{1,10}"));
    let line = format!("{n};P=\"{p}\":{w}\r\n");
    match (parser::Property::try_from(line.as_str()), line.parse::<Property>()) {
        (Ok(a), Ok(b)) => v::check("the parsed property is written like the owned one", a.to_string() == ser(&b) && format!("{a}") == ser(&b)),
        _ => v::check("it is read", false),
    }
}
/// nothing but print prints
pub fn silent() {
    let mut c = Calendar::new();
    let e: Event = new();
    c.push(e.clone());
    let t = c.to_string();
    let _ = (e.try_into_string(), t.len());
    #[cfg(feature = "full")] let _ = (t.parse::<Calendar>(), parser::read_calendar(&t).is_ok(), "BEGIN:X".parse::<Calendar>());
    v::check("nothing is printed", v::printed().is_empty());
}
