//! A failing writer is never reported as success.
use crate::{util::*, v};
use chrono::{Duration, TimeZone, Utc};
use icalendar::*;
use std::fmt::Write;

fn judge(s: &Sink, r: std::fmt::Result, full: &str) {
    v::check("an error exactly when a write failed", r.is_err() == s.failed);
    v::check("nothing is written after the failure", !s.after);
    if s.failed { v::check("what was written is the start of the output", full.starts_with(&*s.text)); } else { v::check("everything is written", s.text == full); }
}
fn component<C: Component>(c: &C) {
    let full = c.to_string();
    let mut s = Sink::new(v::u32("fails at", 0, 400));
    let r = c.fmt_write(&mut s);
    judge(&s, r, &full);
}
fn calendar(c: &Calendar) {
    let full = c.to_string();
    let mut s = Sink::new(v::u32("fails at", 0, 400));
    let r = write!(s, "{}", c);
    judge(&s, r, &full);
}
fn stamped<C: Component>(c: &mut C) { c.append_property(Property::new("UID", "1")).append_property(Property::new("DTSTAMP", "20200101T000000Z")); }
fn sym(id: &'static str) -> String { v::text(id, "word{0,12}") }

fn fill<C: Component>(c: &mut C) {
    stamped(c);
    c.append_property(Property::new("SUMMARY", sym("s"))).append_property(prop1("X-B", "", "TYPE", &sym("p"))).append_property(prop1("X-A", &sym("v"), "A", "b:c"));
}
each! {
    event_empty => { let mut e = Event::new(); stamped(&mut e); component(&e); }
    event => { let mut e = Event::new(); fill(&mut e); component(&e); }
    todo => { let mut e = Todo::new(); fill(&mut e); component(&e); }
    venue => { let mut e = Venue::new(); fill(&mut e); component(&e); }
    alarm => { let mut a = Alarm::display(&sym("d"), Duration::minutes(5)); fill(&mut a); component(&a); }
    audio => { let mut a = Alarm::audio(Duration::minutes(5)).duration_and_repeat(Duration::minutes(1), 3).done(); stamped(&mut a); component(&a); }
    event_repeated => {
        let mut e = Event::new();
        stamped(&mut e);
        e.append_multi_property(Property::new("COMMENT", sym("c"))).append_multi_property(Property::new("COMMENT", "d")).append_multi_property(prop1("ATTENDEE", "mailto:a", "CN", &sym("n")));
        component(&e);
    }
    event_with_alarm => {
        let mut a = Alarm::audio(Duration::minutes(5));
        stamped(&mut a);
        let mut e = Event::new();
        stamped(&mut e);
        component(&e.alarm(a).done());
    }
    event_with_alarms => {
        let (mut a, mut b) = (Alarm::audio(Duration::minutes(5)), Alarm::display("x", Duration::minutes(5)));
        stamped(&mut a);
        stamped(&mut b);
        let mut e = Event::new();
        stamped(&mut e);
        component(&e.alarm(a).alarm(b).done());
    }
    nested => {
        let (mut a, mut b, mut c) = (Event::new(), Todo::new(), Venue::new());
        fill_stamp(&mut a, "1");
        fill_stamp(&mut b, "2");
        fill_stamp(&mut c, "3");
        b.append_component(c.done());
        a.append_component(b.done());
        component(&a.done());
    }
    // generated DTSTAMP and UID are written like everything else
    generated => {
        let mut e = Event::new();
        e.append_property(Property::new("X-A", sym("v")));
        let mut s = Sink::new(v::u32("fails at", 0, 400));
        let r = e.fmt_write(&mut s);
        v::check("an error exactly when a write failed", r.is_err() == s.failed);
        v::check("nothing is written after the failure", !s.after);
        v::check("everything is written", s.failed || s.text.ends_with("END:VEVENT\r\n"));
    }
    generated_child => {
        let mut e = Event::new();
        e.append_component(Todo::new().summary(&sym("v")).done());
        let mut s = Sink::new(v::u32("fails at", 0, 400));
        let r = e.fmt_write(&mut s);
        v::check("an error exactly when a write failed", r.is_err() == s.failed);
        v::check("nothing is written after the failure", !s.after);
        v::check("everything is written", s.failed || s.text.ends_with("END:VTODO\r\nEND:VEVENT\r\n"));
    }
    long_line => {
        let mut e = Event::new();
        stamped(&mut e);
        e.append_property(Property::new("SUMMARY", v::text("s", "word{100,300}")));
        component(&e);
    }
    escaped => {
        let mut e = Event::new();
        stamped(&mut e);
        e.append_property(Property::new("SUMMARY", format!("{};{}\n{}", sym("a"), sym("b"), sym("c"))));
        component(&e);
    }
    any_property => {
        let mut e = Event::new();
        stamped(&mut e);
        let k = format!("X-{}", v::text("k", "uname{0,10}"));
        e.append_property(Property::new(k, v::text("v", "line{0,20}")));
        component(&e);
    }
    read_component => {
        let t = format!("BEGIN:VTIMEZONE\r\nUID:1\r\nDTSTAMP:20200101T000000Z\r\nTZID:{}\r\nEND:VTIMEZONE\r\n", sym("z"));
        match parser::read_calendar(&t) {
            Ok(c) => calendar(&Calendar::from(c)),
            Err(_) => v::check("it is parsed", false),
        }
    }
    calendar_empty => { calendar(&Calendar::empty()); }
    calendar_new => { calendar(&Calendar::new()); }
    calendar_own => {
        let mut c = Calendar::new();
        c.name(&sym("n")).description(&sym("d")).append_property(prop1("X-A", &sym("v"), "A", "b;c"));
        calendar(&c);
    }
    calendar_event => { let mut e = Event::new(); fill(&mut e); calendar(&Calendar::from(e)); }
    calendar_todo => { let mut e = Todo::new(); fill(&mut e); calendar(&Calendar::from(e)); }
    calendar_venue => { let mut e = Venue::new(); fill(&mut e); calendar(&Calendar::from(e)); }
    calendar_several => {
        let (mut a, mut b, mut c) = (Event::new(), Todo::new(), Venue::new());
        fill_stamp(&mut a, "1");
        fill_stamp(&mut b, "2");
        fill_stamp(&mut c, "3");
        let mut cal = Calendar::empty();
        cal.push(a.done()).push(b.done()).push(c.done());
        calendar(&cal);
    }
    calendar_nested => {
        let mut a = Alarm::audio(Duration::minutes(5));
        stamped(&mut a);
        let mut e = Event::new();
        stamped(&mut e);
        calendar(&Calendar::from(e.alarm(a).done()));
    }
    calendar_to_string => {
        let mut e = Event::new();
        fill(&mut e);
        let c = Calendar::from(e);
        let r: Result<String, std::fmt::Error> = (&c).try_into();
        v::check("writing to a string succeeds", r.is_ok() && r.unwrap() == c.to_string());
    }
    component_to_string => {
        let mut e = Event::new();
        fill(&mut e);
        let r = e.try_into_string();
        v::check("writing to a string succeeds", r.is_ok() && r.unwrap() == e.to_string());
    }
    property_to_string => {
        let p = prop1(&v::text("k", "uname{1,10}"), &v::text("v", "any{0,10}"), "A", &sym("p"));
        let r: Result<String, std::fmt::Error> = p.try_into();
        v::check("writing to a string succeeds", r.is_ok());
    }
    printing => {
        let mut e = Event::new();
        fill(&mut e);
        v::check("printing succeeds", e.print().is_ok());
        v::check("printing succeeds", Calendar::from(e).print().is_ok());
    }
    parsed_property => {
        let t = format!("{};A={};B:{}\r\n", v::text("k", "uname{1,10}"), sym("p"), sym("v"));
        match parser::Property::try_from(t.as_str()) {
            Ok(p) => {
                let full = p.to_string();
                let mut s = Sink::new(v::u32("fails at", 0, 400));
                let r = write!(s, "{}", p);
                judge(&s, r, &full);
            }
            Err(_) => (),
        }
    }
    parsed_text => {
        let p = parser::ParseString::from(sym("v"));
        let mut s = Sink::new(v::u32("fails at", 0, 400));
        let r = write!(s, "{}", p);
        judge(&s, r, p.as_str());
    }
    parsed_calendar => {
        let t = format!("BEGIN:VCALENDAR\r\nX-A:{}\r\nBEGIN:VEVENT\r\nSUMMARY;A={}:{}\r\nEND:VEVENT\r\nEND:VCALENDAR\r\n", sym("a"), sym("p"), sym("v"));
        match parser::read_calendar(&t) {
            Ok(c) => {
                let full = c.to_string();
                let mut s = Sink::new(v::u32("fails at", 0, 400));
                let r = write!(s, "{}", c);
                judge(&s, r, &full);
            }
            Err(_) => v::check("it is parsed", false),
        }
    }
    parsed_nested => {
        let t = format!("BEGIN:VCALENDAR\r\nBEGIN:VEVENT\r\nBEGIN:VALARM\r\nX-A:{}\r\nEND:VALARM\r\nEND:VEVENT\r\nBEGIN:X-Y\r\nX-A:{}\r\nEND:X-Y\r\nEND:VCALENDAR\r\n", sym("a"), sym("v"));
        match parser::read_calendar(&t) {
            Ok(c) => {
                let full = c.to_string();
                let mut s = Sink::new(v::u32("fails at", 0, 400));
                let r = write!(s, "{}", c);
                judge(&s, r, &full);
            }
            Err(_) => v::check("it is parsed", false),
        }
    }
    parsed_empty => {
        match parser::read_calendar("BEGIN:VCALENDAR\r\nEND:VCALENDAR\r\n") {
            Ok(c) => {
                let mut s = Sink::new(v::u32("fails at", 0, 400));
                let r = write!(s, "{}", c);
                judge(&s, r, "BEGIN:VCALENDAR\r\nEND:VCALENDAR\r\n");
            }
            Err(_) => v::check("it is parsed", false),
        }
    }
}
fn fill_stamp<C: Component>(c: &mut C, uid: &str) { c.append_property(Property::new("UID", uid)).append_property(Property::new("DTSTAMP", "20200101T000000Z")); }
