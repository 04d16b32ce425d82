//! Serialized components and calendars are framed and complete.
use crate::{util::*, v};
use chrono::Duration;
use icalendar::*;

/// two single properties, three repeated ones and two children, one with a child of its own
fn fill<C: Component>(c: &mut C, s: &str, t: &str) {
    c.append_property(Property::new("DTSTAMP", "20200101T000000Z"));
    c.append_property(Property::new("UID", "1"));
    c.append_property(Property::new("X-A", s).add_parameter("P", "q").done());
    c.append_property(Property::new("X-B", t));
    c.append_multi_property(Property::new("ATTENDEE", s));
    c.append_multi_property(Property::new("ATTENDEE", t));
    c.append_multi_property(Property::new("COMMENT", s).add_parameter("Q", "r").done());
    let mut inner = Todo::new();
    inner.append_property(Property::new("DTSTAMP", "20200103T000000Z"));
    inner.append_property(Property::new("UID", "3"));
    let mut child = Venue::new();
    child.append_property(Property::new("DTSTAMP", "20200102T000000Z"));
    child.append_property(Property::new("UID", "2"));
    child.append_property(Property::new("X-C", t));
    child.append_component(inner.done());
    c.append_component(child.done());
    let mut second = Event::new();
    second.append_property(Property::new("DTSTAMP", "20200104T000000Z"));
    second.append_property(Property::new("UID", "4"));
    c.append_component(second.done());
}
fn whole(out: &str, kind: &str, s: &str, t: &str) {
    match lines(out) {
        None => v::check("every line ends with CRLF", false),
        Some(all) => {
            let n = all.len();
            v::check("every line ends with CRLF", true);
            v::check("first line is BEGIN", n > 0 && all[0] == format!("BEGIN:{}", kind));
            v::check("last line is END with the same kind", n > 0 && all[n - 1] == format!("END:{}", kind));
            v::check("nothing is added or left out", n == 9 + 5 + 4 + 4);
            // what is between BEGIN and END
            let all = all[1..n - 1].to_vec();
            let n = n - 2;
            let own = [
                "DTSTAMP:20200101T000000Z".to_string(), "UID:1".to_string(), format!("X-A;P=q:{}", s), format!("X-B:{}", t),
                format!("ATTENDEE:{}", s), format!("ATTENDEE:{}", t), format!("COMMENT;Q=r:{}", s.replace(',', "\\,")),
            ];
            let first_child = place(&all, "BEGIN:VVENUE");
            for l in own.iter() {
                v::check("own properties come once, before the children", count(&all, l) == 1 && place(&all, l) < first_child);
            }
            v::check("repeated properties come in order of insertion", place(&all, &own[4]) < place(&all, &own[5]));
            v::check("single properties come before repeated ones", place(&all, &own[2]) < place(&all, &own[4]) && place(&all, &own[3]) < place(&all, &own[4])
                && place(&all, &own[2]) < place(&all, &own[6]) && place(&all, &own[3]) < place(&all, &own[6]));
            let x = place(&all, "BEGIN:VVENUE");
            let x_end = place(&all, "END:VVENUE");
            let y = place(&all, "BEGIN:VTODO");
            let y_end = place(&all, "END:VTODO");
            v::check("the children are framed", x < y && y_end == y + 3 && y_end < x_end && x_end == x + 8);
            v::check("the properties of a child are inside it", place(&all, "UID:2") > x && place(&all, "UID:2") < y && place(&all, &format!("X-C:{}", t)) > x
                && place(&all, &format!("X-C:{}", t)) < y && place(&all, "DTSTAMP:20200102T000000Z") > x && place(&all, "DTSTAMP:20200102T000000Z") < y);
            v::check("the properties of the inner child are inside it", place(&all, "UID:3") > y && place(&all, "UID:3") < y_end && place(&all, "DTSTAMP:20200103T000000Z") > y && place(&all, "DTSTAMP:20200103T000000Z") < y_end);
            v::check("children come in order of insertion", x_end + 4 < n && all[x_end + 1] == "BEGIN:VEVENT" && all[x_end + 4] == "END:VEVENT"
                && place(&all, "UID:4") > x_end && place(&all, "DTSTAMP:20200104T000000Z") > x_end);
        }
    }
}
fn texts() -> (String, String) {
    let (s, t) = (v::text("s", "word{1,40}"), v::text("t", "word{1,40}"));
    v::assume(s != t);
    (s, t)
}
macro_rules! kinds { ($($m:ident: $t:ty, $kind:expr;)*) => { $( pub mod $m { use super::*;
    pub fn component() {
        let (s, t) = texts();
        let mut c = <$t>::new();
        fill(&mut c, &s, &t);
        match c.try_into_string() { Ok(out) => whole(&out, $kind, &s, &t), Err(_) => v::check("serializes", false) }
    }
    pub fn finished() {
        let (s, t) = texts();
        let mut c = <$t>::new();
        fill(&mut c, &s, &t);
        match c.done().try_into_string() { Ok(out) => whole(&out, $kind, &s, &t), Err(_) => v::check("serializes", false) }
    }
    pub fn in_a_calendar() {
        let (s, t) = texts();
        let mut c = <$t>::new();
        fill(&mut c, &s, &t);
        let mut cal = Calendar::empty();
        cal.push(c.done());
        let out = cal.to_string();
        match out.strip_prefix("BEGIN:VCALENDAR\r\n") {
            Some(x) => match x.strip_suffix("END:VCALENDAR\r\n") {
                Some(out) => whole(out, $kind, &s, &t),
                None => v::check("the calendar ends with END:VCALENDAR", false),
            },
            None => v::check("the calendar starts with BEGIN:VCALENDAR", false),
        }
    }
    pub fn empty() {
        let mut c = <$t>::new();
        c.append_property(Property::new("DTSTAMP", "20200101T000000Z"));
        c.append_property(Property::new("UID", "1"));
        match lines(&c.try_into_string().unwrap()) {
            Some(all) => v::check("a component without anything else", all.len() == 4 && all[0] == format!("BEGIN:{}", $kind) && all[3] == format!("END:{}", $kind)
                && count(&all, "UID:1") == 1 && count(&all, "DTSTAMP:20200101T000000Z") == 1),
            None => v::check("every line ends with CRLF", false),
        }
    }
    pub fn alarm() {
        let s = v::text("s", "word{1,40}");
        let c = <$t>::new().append_property(Property::new("DTSTAMP", "20200101T000000Z")).append_property(Property::new("UID", "1")).append_component(a(&s)).done();
        match lines(&c.try_into_string().unwrap()) {
            Some(all) => {
                let (x, y) = (place(&all, "BEGIN:VALARM"), place(&all, "END:VALARM"));
                v::check("an alarm is framed by VALARM", count(&all, "BEGIN:VALARM") == 1 && count(&all, "END:VALARM") == 1 && x < y && y == all.len() - 2);
                v::check("the alarm's properties are inside", place(&all, "ACTION:DISPLAY") > x && place(&all, "ACTION:DISPLAY") < y
                    && place(&all, &format!("DESCRIPTION:{}", s)) > x && place(&all, &format!("DESCRIPTION:{}", s)) < y);
            }
            None => v::check("every line ends with CRLF", false),
        }
    }
} )* } }
fn a(s: &str) -> Alarm { Alarm::display(s, Duration::minutes(-5)) }
kinds! { event: Event, "VEVENT"; todo: Todo, "VTODO"; venue: Venue, "VVENUE"; }

/// a component of any other kind
#[cfg(feature = "full")] pub fn other() {
    let k = v::text("k", "uname{1,30}");
    v::assume(k != "VEVENT" && k != "VTODO" && k != "VVENUE" && k != "VALARM");
    let s = v::text("s", "word{1,30}");
    let text = format!("BEGIN:{}\nDTSTAMP:1\nUID:2\nX-A:{}\nBEGIN:VALARM\nDTSTAMP:3\nUID:4\nEND:VALARM\nEND:{}\n", k, s, k);
    match text.parse::<CalendarComponent>() {
        Ok(c) => {
            let mut cal = Calendar::empty();
            cal.push(c);
            v::check("a component of another kind is written under its own name", cal.to_string()
                == format!("BEGIN:VCALENDAR\r\nBEGIN:{}\r\nDTSTAMP:1\r\nUID:2\r\nX-A:{}\r\nBEGIN:VALARM\r\nDTSTAMP:3\r\nUID:4\r\nEND:VALARM\r\nEND:{}\r\nEND:VCALENDAR\r\n", k, s, k));
        }
        Err(_) => v::check("a component of another kind parses", false),
    }
}
/// the calendar's own properties, then its components, each in order
pub fn calendar() {
    let (s, t) = texts();
    let mut c = Calendar::empty();
    c.append_property(Property::new("X-B", s.as_str()));
    c.append_property(Property::new("X-A", t.as_str()).add_parameter("P", "q").done());
    c.push(Event::new().uid("1").append_property(Property::new("DTSTAMP", "1")).done());
    c.append_property(Property::new("X-C", s.as_str()));
    c.push(Todo::new().uid("2").append_property(Property::new("DTSTAMP", "2")).done());
    c.push(Venue::new().uid("3").append_property(Property::new("DTSTAMP", "3")).done());
    c.push(Event::new().uid("4").append_property(Property::new("DTSTAMP", "4")).done());
    v::check("a calendar is framed and in order", c.to_string() == format!("BEGIN:VCALENDAR\r\nX-B:{}\r\nX-A;P=q:{}\r\nX-C:{}\r\nBEGIN:VEVENT\r\nDTSTAMP:1\r\nUID:1\r\nEND:VEVENT\r\nBEGIN:VTODO\r\nDTSTAMP:2\r\nUID:2\r\nEND:VTODO\r\nBEGIN:VVENUE\r\nDTSTAMP:3\r\nUID:3\r\nEND:VVENUE\r\nBEGIN:VEVENT\r\nDTSTAMP:4\r\nUID:4\r\nEND:VEVENT\r\nEND:VCALENDAR\r\n", s, t, s));
}
pub fn empty_calendar() {
    v::check("an empty calendar", Calendar::empty().to_string() == "BEGIN:VCALENDAR\r\nEND:VCALENDAR\r\n");
    v::check("a new calendar", Calendar::new().to_string() == "BEGIN:VCALENDAR\r\nVERSION:2.0\r\nPRODID:ICALENDAR-RS\r\nCALSCALE:GREGORIAN\r\nEND:VCALENDAR\r\n");
}
pub fn the_same_in_every_way() {
    let (s, t) = texts();
    let mut e = Event::new();
    fill(&mut e, &s, &t);
    let out = e.to_string();
    v::check("Display and try_into_string agree", e.try_into_string().ok().as_deref() == Some(out.as_str()));
    let cal = Calendar::from([e.done()]);
    let text = cal.to_string();
    let again: Result<String, _> = (&cal).try_into();
    v::check("Display and TryInto agree for calendars", match again { Ok(x) => x == text, Err(_) => false });
    v::check("the calendar holds the same lines", text == format!("BEGIN:VCALENDAR\r\nVERSION:2.0\r\nPRODID:ICALENDAR-RS\r\nCALSCALE:GREGORIAN\r\n{}END:VCALENDAR\r\n", out));
}
/// a property of every name, and repeated properties of every name that may be repeated
fn crowd<C: Component>(c: &mut C, s: &str) {
    c.append_property(Property::new("DTSTAMP", "20200101T000000Z"));
    c.append_property(Property::new("UID", "1"));
    for k in NAMES { if k != "UID" && k != "DTSTAMP" { c.append_property(Property::new(k, s)); } }
    for k in MULTI { for i in 0..3 { c.append_multi_property(Property::new(k, format!("{s}{i}").as_str())); } }
}
fn crowded(out: &str, kind: &str, s: &str) {
    match lines(out) {
        None => v::check("every line ends with CRLF", false),
        Some(all) => {
            v::check("every property comes exactly once", all.len() == NAMES.len() + 3 * MULTI.len() + 2);
            v::check("the frame", all[0] == format!("BEGIN:{kind}") && all[all.len() - 1] == format!("END:{kind}"));
            for k in NAMES { if k != "UID" && k != "DTSTAMP" { v::check("every single property is there", count(&all, &format!("{k}:{s}")) == 1); } }
            v::check("DTSTAMP and UID are there", count(&all, "UID:1") == 1 && count(&all, "DTSTAMP:20200101T000000Z") == 1);
            for k in MULTI {
                let at = place(&all, &format!("{k}:{s}0"));
                v::check("every repeated property is there, in order", at + 2 < all.len() && all[at + 1] == format!("{k}:{s}1") && all[at + 2] == format!("{k}:{s}2"));
            }
        }
    }
}
macro_rules! crowds { ($($n:ident: $t:ty, $kind:expr;)*) => { $( pub fn $n() {
    let s = v::text("s", "word{1,9}");
    let mut c = <$t>::new();
    crowd(&mut c, &s);
    crowded(&c.to_string(), $kind, &s);
    crowded(&c.done().try_into_string().unwrap(), $kind, &s);
} )* } }
crowds! { every_event_property: Event, "VEVENT"; every_todo_property: Todo, "VTODO"; every_venue_property: Venue, "VVENUE"; }
/// a single and a repeated property of any name, next to each other
pub fn single_and_repeated() {
    let k = a_name();
    let (s, t) = (v::text("s", "word{1,9}"), v::text("t", "word{1,9}"));
    v::assume(s != t);
    let mut e = Event::new();
    e.uid("1").append_property(Property::new("DTSTAMP", "2"));
    e.append_property(prop1(k, &s, "P", "q"));
    e.add_multi_property(k, &t);
    e.add_multi_property(k, &t);
    e.add_multi_property(k, "");
    match lines(&e.to_string()) {
        Some(all) => v::check("the single one and every repeated one is written", count(&all, &format!("{k};P=q:{s}")) == 1 && count(&all, &format!("{k}:{t}")) == 2 && count(&all, &format!("{k}:")) == 1),
        None => v::check("every line ends with CRLF", false),
    }
}
/// children equal to what they are in
#[cfg(feature = "full")] pub fn inside_its_equal() {
    let k = a_kind();
    let s = v::text("s", "word{1,9}");
    let own = format!("DTSTAMP:2\r\nUID:{s}\r\nX-A:{s}\r\n");
    let leaf = format!("BEGIN:{k}\r\n{own}END:{k}\r\n");
    let mid = format!("BEGIN:{k}\r\n{own}{leaf}{leaf}END:{k}\r\n");
    let text = format!("BEGIN:{k}\r\n{own}{leaf}{mid}END:{k}\r\n");
    match text.parse::<CalendarComponent>() {
        Ok(c) => {
            let mut cal = Calendar::empty();
            cal.push(c);
            v::check("every one of them is written", cal.to_string() == format!("BEGIN:VCALENDAR\r\n{text}END:VCALENDAR\r\n"));
        }
        Err(_) => v::check("the component is read", false),
    }
}
/// the same when built
macro_rules! nests { ($($n:ident: $t:ty, $k:expr;)*) => { pub mod nests { use super::*; $( pub fn $n() {
    let s = v::text("s", "word{1,9}");
    let make = || { let mut c = <$t>::new(); c.uid(&s).append_property(Property::new("DTSTAMP", "2")); c };
    let mut c = make();
    c.append_component(make().done()).append_component(make().append_component(make().done()).done());
    let (own, k) = (format!("DTSTAMP:2\r\nUID:{s}\r\n"), $k);
    let leaf = format!("BEGIN:{k}\r\n{own}END:{k}\r\n");
    v::check("every one of them is written", c.to_string() == format!("BEGIN:{k}\r\n{own}{leaf}BEGIN:{k}\r\n{own}{leaf}END:{k}\r\nEND:{k}\r\n"));
} )* } } }
nests! { event: Event, "VEVENT"; todo: Todo, "VTODO"; venue: Venue, "VVENUE"; }
/// many repeated properties and many children, some equal
pub fn many() {
    let s = v::text("s", "word{1,9}");
    let mut e = Event::new();
    e.uid("1").append_property(Property::new("DTSTAMP", "2"));
    for i in 0..90 { e.add_multi_property("COMMENT", if i % 3 == 0 { "same" } else { &s }); }
    for i in 0..130 { e.append_component(Todo::new().uid(if i % 2 == 0 { "same" } else { &s }).append_property(Property::new("DTSTAMP", "3")).done()); }
    let mut want = String::from("BEGIN:VEVENT\r\nDTSTAMP:2\r\nUID:1\r\n");
    for i in 0..90 { want.push_str(&format!("COMMENT:{}\r\n", if i % 3 == 0 { "same" } else { &s })); }
    for i in 0..130 { want.push_str(&format!("BEGIN:VTODO\r\nDTSTAMP:3\r\nUID:{}\r\nEND:VTODO\r\n", if i % 2 == 0 { "same" } else { &s })); }
    want.push_str("END:VEVENT\r\n");
    v::check("all of them are written, in order", e.to_string() == want);
}
/// children without properties, and calendars with equal properties and components
#[cfg(feature = "full")] pub fn children_without_properties() {
    let k = a_kind();
    let text = format!("BEGIN:{k}\nBEGIN:X-A\nEND:X-A\nX-P:1\nBEGIN:VALARM\nEND:VALARM\nBEGIN:X-A\nBEGIN:X-B\nEND:X-B\nEND:X-A\nUID:1\nDTSTAMP:2\nEND:{k}\n");
    match text.parse::<CalendarComponent>() {
        Ok(c) => {
            let mut cal = Calendar::empty();
            cal.push(c);
            let out = cal.to_string();
            match lines(&out) {
                Some(all) => v::check("every child is written", count(&all, "BEGIN:X-A") == 2 && count(&all, "END:X-A") == 2 && count(&all, "BEGIN:VALARM") == if k == "VALARM" { 2 } else { 1 }
                    && count(&all, "BEGIN:X-B") == 1 && count(&all, "END:X-B") == 1 && place(&all, "BEGIN:X-A") < place(&all, "BEGIN:X-B") && count_start(&all, &format!("BEGIN:{k}")) >= 1),
                None => v::check("every line ends with CRLF", false),
            }
        }
        Err(_) => v::check("the component parses", false),
    }
}
pub fn equal_things() {
    let s = v::text("s", "word{1,9}");
    let mut c = Calendar::empty();
    c.append_property(Property::new("X-A", s.as_str()));
    c.append_property(Property::new("X-A", s.as_str()));
    c.append_property(Property::new("X-B", ""));
    c.append_property(Property::new("X-A", s.as_str()));
    let e = Event::new().uid(&s).append_property(Property::new("DTSTAMP", "1")).done();
    c.push(e.clone());
    c.push(e.clone());
    c.push(Event::new().uid("").append_property(Property::new("DTSTAMP", "")).done());
    c.push(e.clone());
    let one = format!("BEGIN:VEVENT\r\nDTSTAMP:1\r\nUID:{s}\r\nEND:VEVENT\r\n");
    v::check("equal properties and components are all written", c.to_string()
        == format!("BEGIN:VCALENDAR\r\nX-A:{s}\r\nX-A:{s}\r\nX-B:\r\nX-A:{s}\r\n{one}{one}BEGIN:VEVENT\r\nDTSTAMP:\r\nUID:\r\nEND:VEVENT\r\n{one}END:VCALENDAR\r\n"));
}
pub fn calendar_properties() {
    let k = a_name();
    let (s, t) = (v::text("s", "word{0,9}"), v::text("t", "word{0,9}"));
    let mut c = Calendar::new();
    c.append_property(prop1(k, &s, "P", "q"));
    c.append_property(Property::new(k, t.as_str()));
    c.append_property(Property::new(k, ""));
    v::check("a calendar property of any name is written in order", c.to_string()
        == format!("BEGIN:VCALENDAR\r\nVERSION:2.0\r\nPRODID:ICALENDAR-RS\r\nCALSCALE:GREGORIAN\r\n{k};P=q:{s}\r\n{k}:{t}\r\n{k}:\r\nEND:VCALENDAR\r\n"));
}
/// the same property once as single and once as repeated one
pub fn single_equal_to_repeated() {
    let k = a_name();
    let s = v::text("s", "word{1,9}");
    let mut e = Todo::new();
    e.uid("1").append_property(Property::new("DTSTAMP", "2"));
    e.append_property(prop1(k, &s, "P", "q"));
    e.append_multi_property(prop1(k, &s, "P", "q"));
    let e = e.done();
    match lines(&e.to_string()) {
        Some(all) => v::check("both are written", count(&all, &format!("{k};P=q:{s}")) == 2),
        None => v::check("every line ends with CRLF", false),
    }
}
/// any two kinds of children next to each other
macro_rules! two { ($($n:ident: $a:expr;)*) => { pub mod two { use super::*; $( pub fn $n() {
    let (k, l) = (KINDS[$a + v::pick("kind", 4)], KINDS[v::pick("other", KINDS.len())]);
    let s = v::text("s", "word{0,9}");
    let text = format!("BEGIN:VTODO\nUID:1\nDTSTAMP:2\nBEGIN:{k}\nX-A:{s}\nEND:{k}\nBEGIN:{l}\nX-B:{s}\nEND:{l}\nBEGIN:{k}\nX-C:{s}\nEND:{k}\nEND:VTODO\n");
    match text.parse::<CalendarComponent>() {
        Ok(c) => {
            let mut cal = Calendar::empty();
            cal.push(c);
            match lines(&cal.to_string()) {
                Some(all) => {
                    let (a, b, c) = (place(&all, &format!("X-A:{s}")), place(&all, &format!("X-B:{s}")), place(&all, &format!("X-C:{s}")));
                    v::check("the children come in order", a < b && b < c && c < all.len());
                }
                None => v::check("every line ends with CRLF", false),
            }
        }
        Err(_) => v::check("the component parses", false),
    }
} )* } } }
#[cfg(feature = "full")] two! { a: 0; b: 4; c: 8; d: 12; e: 16; f: 18; }
/// a component made from a parsed one without a name, or with an odd one
#[cfg(feature = "full")] pub fn odd_kinds() {
    let s = v::text("s", "word{0,9}");
    for n in ["", " ", "a b", "\u{e4}", "VEVENT ", "x:y", ";", "BEGIN", "END", "VCALENDAR"] {
        let c = parser::Component { name: n.into(), properties: vec![
            parser::Property { name: "UID".into(), val: "1".into(), params: vec![] },
            parser::Property { name: "DTSTAMP".into(), val: "2".into(), params: vec![] },
            parser::Property { name: "X-A".into(), val: s.as_str().into(), params: vec![] }], components: vec![] };
        let mut cal = Calendar::empty();
        cal.push(CalendarComponent::from(c));
        v::check("a component of an odd kind is framed and written", cal.to_string() == format!("BEGIN:VCALENDAR\r\nBEGIN:{n}\r\nDTSTAMP:2\r\nUID:1\r\nX-A:{s}\r\nEND:{n}\r\nEND:VCALENDAR\r\n"));
    }
}
