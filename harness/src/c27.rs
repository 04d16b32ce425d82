//! Alarm triggers survive conversion to a property and back.
use crate::{util::*, v};
use chrono::Duration;
use icalendar::*;

const MAX: i64 = 4294967295;
fn dur() -> Duration { v::dur("d", -MAX, MAX) }
/// the trigger becomes a property that converts back
fn back(t: &Trigger) {
    let p: Property = t.clone().into();
    v::check("the property is a TRIGGER", p.key() == "TRIGGER");
    v::check("it converts back to an equal trigger", match Trigger::try_from(&p) { Ok(u) => u == *t, Err(_) => false });
}
/// written, read and converted back
#[cfg(feature = "full")] fn back_text(t: &Trigger) {
    let p: Property = t.clone().into();
    let line = parser::unfold(&ser(&p));
    match line.parse::<Property>() {
        Ok(q) => v::check("it is read back as an equal trigger", match Trigger::try_from(&q) { Ok(u) => u == *t, Err(_) => false }),
        Err(_) => v::check("it is read back", false),
    }
}
/// in an alarm of an event, written, read and converted back
fn back_alarm(t: &Trigger) {
    let mut e = Event::new();
    e.uid("1");
    e.append_property(Property::new("DTSTAMP", "20200101T000000Z"));
    e.alarm(Alarm::display("x", t.clone()));
    match e.components()[0].properties().get("TRIGGER") {
        Some(p) => v::check("an alarm holds an equal trigger", match Trigger::try_from(p) { Ok(u) => u == *t, Err(_) => false }),
        None => v::check("an alarm holds a trigger", false),
    }
}
fn accessors(t: &Trigger, d: Option<&Duration>, r: Option<Related>, dt: Option<&CalendarDateTime>) {
    v::check("offset, relation and time are those given", t.as_duration() == d && t.related() == r && t.as_date_time() == dt);
}
macro_rules! triggers { ($($(#[$m:meta])* $n:ident: $t:expr;)*) => { $( $(#[$m])* pub mod $n { use super::*;
    pub fn property() { let t: Trigger = $t; back(&t); }
    #[cfg(feature = "full")] pub fn text() { let t: Trigger = $t; back_text(&t); }
    pub fn alarm() { let t: Trigger = $t; back_alarm(&t); }
} )* } }
triggers! {
    relative: Trigger::from(dur());
    relative_variant: Trigger::Duration(dur(), None);
    start: Trigger::from((dur(), Related::Start));
    end: Trigger::from((dur(), Related::End));
    after_start: Trigger::after_start(dur());
    after_end: Trigger::after_end(dur());
    before_start: Trigger::before_start(dur());
    before_end: Trigger::before_end(dur());
    zero: Trigger::from(Duration::zero());
    utc: Trigger::from(v::utc("u"));
    floating: Trigger::from(v::ndt("n"));
    utc_variant: Trigger::DateTime(CalendarDateTime::Utc(v::utc("u")));
    zoned: Trigger::from(CalendarDateTime::WithTimezone { date_time: v::ndt("n"), tzid: v::text("z", "tzname{1,20}") });
}
/// a zone of the database
#[cfg(feature = "full")] pub fn known_zone() {
    let t = Trigger::from((v::ndt("n"), v::tz("z")));
    back(&t);
    back_alarm(&t);
}
/// any zone name
pub fn any_zone() { back(&Trigger::from(CalendarDateTime::WithTimezone { date_time: v::ndt("n"), tzid: v::text("z", "any{0,40}") })); }
/// the constructors
pub fn constructors() {
    let d = dur();
    accessors(&Trigger::after_start(d), Some(&d), Some(Related::Start), None);
    accessors(&Trigger::after_end(d), Some(&d), Some(Related::End), None);
    accessors(&Trigger::before_start(d), Some(&-d), Some(Related::Start), None);
    accessors(&Trigger::before_end(d), Some(&-d), Some(Related::End), None);
    accessors(&Trigger::from(d), Some(&d), None, None);
    accessors(&Trigger::from((d, Related::Start)), Some(&d), Some(Related::Start), None);
    accessors(&Trigger::from((d, Related::End)), Some(&d), Some(Related::End), None);
    let u = CalendarDateTime::from(v::utc("u"));
    accessors(&Trigger::DateTime(u.clone()), None, None, Some(&u));
}
pub fn constructors_absolute() {
    let (u, n) = (v::utc("u"), v::ndt("n"));
    accessors(&Trigger::from(u), None, None, Some(&CalendarDateTime::Utc(u)));
    accessors(&Trigger::from(n), None, None, Some(&CalendarDateTime::Floating(n)));
    let z = CalendarDateTime::WithTimezone { date_time: n, tzid: v::text("z", "any{0,40}") };
    accessors(&Trigger::from(z.clone()), None, None, Some(&z));
}
/// a relation is written as such, and there is none otherwise
pub fn parameters() {
    let (d, u, n, z) = (dur(), v::utc("u"), v::ndt("n"), v::text("z", "tzname{1,20}"));
    let p: Property = Trigger::from(d).into();
    v::check("no relation, no parameter", is_prop(&p, "TRIGGER", &d.to_string(), &[]));
    let p: Property = Trigger::from((d, Related::Start)).into();
    v::check("RELATED=START", is_prop(&p, "TRIGGER", &d.to_string(), &[("RELATED", "START")]));
    let p: Property = Trigger::from((d, Related::End)).into();
    v::check("RELATED=END", is_prop(&p, "TRIGGER", &d.to_string(), &[("RELATED", "END")]));
    let p: Property = Trigger::from(u).into();
    v::check("absolute UTC", is_prop(&p, "TRIGGER", &u.format("%Y%m%dT%H%M%SZ").to_string(), &[("VALUE", "DATE-TIME")]));
    let p: Property = Trigger::from(n).into();
    v::check("absolute floating", is_prop(&p, "TRIGGER", &n.format("%Y%m%dT%H%M%S").to_string(), &[("VALUE", "DATE-TIME")]));
    let p: Property = Trigger::from(CalendarDateTime::WithTimezone { date_time: n, tzid: z.clone() }).into();
    v::check("absolute zoned", is_prop(&p, "TRIGGER", &n.format("%Y%m%dT%H%M%S").to_string(), &[("VALUE", "DATE-TIME"), ("TZID", &z)]));
}
fn refused(p: &Property) -> bool { Trigger::try_from(p).is_err() }
/// another name
pub fn other_name() {
    let k = v::text("k", "any{0,20}");
    v::assume(k != "TRIGGER");
    let (d, u) = (dur().to_string(), v::utc("u").format("%Y%m%dT%H%M%SZ").to_string());
    v::check("a property of another name is refused", refused(&Property::new(&k, &d)) && refused(&prop1(&k, &d, "VALUE", "DURATION")) && refused(&prop1(&k, &d, "RELATED", "START")) && refused(&prop1(&k, &u, "VALUE", "DATE-TIME")));
}
/// another value type
pub fn other_type() {
    let t = v::text("t", "any{0,20}");
    v::assume(t != "DURATION" && t != "DATE-TIME");
    let (d, u) = (dur().to_string(), v::utc("u").format("%Y%m%dT%H%M%SZ").to_string());
    v::check("a property of another value type is refused", refused(&prop1("TRIGGER", &d, "VALUE", &t)) && refused(&prop1("TRIGGER", &u, "VALUE", &t)));
}
pub fn named_types() {
    let d = dur().to_string();
    for t in ["DATE", "TEXT", "PERIOD", "INTEGER", "URI", "duration", "date-time", ""] { v::check("a property of another value type is refused", refused(&prop1("TRIGGER", &d, "VALUE", t))); }
}
/// VALUE=DURATION is the default
pub fn explicit_duration() {
    let d = dur();
    v::check("an explicit duration", match Trigger::try_from(&prop1("TRIGGER", &d.to_string(), "VALUE", "DURATION")) { Ok(t) => t == Trigger::Duration(d, None), Err(_) => false });
    let p = Property::new("TRIGGER", d.to_string()).add_parameter("RELATED", "END").add_parameter("VALUE", "DURATION").done();
    v::check("an explicit duration with relation", match Trigger::try_from(&p) { Ok(t) => t == Trigger::Duration(d, Some(Related::End)), Err(_) => false });
}
/// the value does not fit the value type
pub fn mismatched_value() {
    let (d, u, n) = (dur().to_string(), v::utc("u").format("%Y%m%dT%H%M%SZ").to_string(), v::ndt("n").format("%Y%m%dT%H%M%S").to_string());
    v::check("a duration is no time", refused(&prop1("TRIGGER", &d, "VALUE", "DATE-TIME")));
    v::check("a time is no duration", refused(&Property::new("TRIGGER", &u)) && refused(&prop1("TRIGGER", &n, "VALUE", "DURATION")));
    let s = v::text("s", "nodigit{0,20}");
    v::assume(!s.starts_with('P') && !s.starts_with('-') && !s.starts_with('+'));
    v::check("text without digits is neither", refused(&Property::new("TRIGGER", &s)) && refused(&prop1("TRIGGER", &s, "VALUE", "DATE-TIME")) && refused(&prop1("TRIGGER", &s, "VALUE", "DURATION")));
}
/// RFC forms read as what they mean
pub fn forms() {
    for (s, n) in [("-PT15M", -900), ("PT15M", 900), ("+PT15M", 900), ("P1D", 86400), ("-P1D", -86400), ("P1W", 604800), ("PT0S", 0), ("P1DT2H3M4S", 93784), ("-PT1H30M", -5400)] {
        v::check("a duration is read as what it means", match Trigger::try_from(&Property::new("TRIGGER", s)) { Ok(t) => t == Trigger::Duration(Duration::seconds(n), None), Err(_) => false });
        v::check("and with its relation", match Trigger::try_from(&prop1("TRIGGER", s, "RELATED", "START")) { Ok(t) => t == Trigger::Duration(Duration::seconds(n), Some(Related::Start)), Err(_) => false }
            && match Trigger::try_from(&prop1("TRIGGER", s, "RELATED", "END")) { Ok(t) => t == Trigger::Duration(Duration::seconds(n), Some(Related::End)), Err(_) => false });
    }
}
/// other parameters make no difference
pub fn other_parameters() {
    let (k, t) = (a_param(), v::text("t", "word{0,10}"));
    v::assume(k != "RELATED" && k != "TZID");
    let (d, u, n) = (dur(), v::utc("u"), v::ndt("n"));
    for first in [true, false] {
        let with = |p: Property| { let mut q = Property::new(p.key(), p.value()); if first { q.add_parameter(k, &t); } for x in p.params().values() { q.append_parameter(x.clone()); } if !first { q.add_parameter(k, &t); } q.done() };
        for t in [Trigger::from(d), Trigger::from((d, Related::Start)), Trigger::from((d, Related::End)), Trigger::from(u), Trigger::from(n)] {
            v::check("it converts back to an equal trigger", match Trigger::try_from(&with(t.clone().into())) { Ok(x) => x == t, Err(_) => false });
        }
    }
}
/// text in another form is no offset and no time
pub fn other_text() {
    for t in ["", "+", "-", "++PT5M", "--PT5M", "+-PT5M", "-+PT5M", "- PT5M", "5M", "T5M", "-T5M", "M5PT", "5", "-5", "0", "20200101", "20200101T000000", "20200101T000000Z", "DURATION", "\"PT5M\"", "-\"PT5M\"", ",PT5M", ";PT5M"] {
        v::check("it is no offset", refused(&Property::new("TRIGGER", t)) && refused(&prop1("TRIGGER", t, "RELATED", "START")) && refused(&prop1("TRIGGER", t, "RELATED", "END")) && refused(&prop1("TRIGGER", t, "VALUE", "DURATION")));
    }
    for t in ["", "2020", "20200101", "20200101T", "20200101T00", "20200101T0000", "20200101T000000z", "20200101 000000", "2020-01-01T00:00:00Z", "20201301T000000", "20200132T000000", "20200101T240000", "20200101T006000", "20200101T000000ZZ", "20200101T000000+0100", "x20200101T000000", "20200101T000000x", "PT5M", "DATE-TIME", "now"] {
        v::check("it is no time", refused(&prop1("TRIGGER", t, "VALUE", "DATE-TIME")));
        let mut p = prop1("TRIGGER", t, "VALUE", "DATE-TIME");
        v::check("nor one with a zone", refused(&p.add_parameter("TZID", "Europe/Berlin").done()));
    }
}
/// every name but TRIGGER is refused
pub fn every_other_name() {
    let (n, d) = (a_name(), dur());
    v::assume(n != "TRIGGER");
    let rename = |t: Trigger| { let p: Property = t.into(); let mut q = Property::new(n, p.value()); for x in p.params().values() { q.append_parameter(x.clone()); } q.done() };
    for t in [Trigger::from(d), Trigger::from((d, Related::End)), Trigger::from(v::utc("u")), Trigger::from(v::ndt("n"))] { v::check("a property of another name is refused", refused(&rename(t))); }
}
/// in a whole calendar, written and read, with several alarms
#[cfg(feature = "full")] pub fn in_calendar() {
    let (d, u, s) = (Duration::seconds(-900), v::utc("u"), v::text("s", "word{0,10}"));
    let mut e = Event::new();
    e.uid("1");
    e.append_property(Property::new("DTSTAMP", "20200101T000000Z"));
    let all = [Trigger::from(d), Trigger::after_end(d), Trigger::before_start(Duration::hours(1)), Trigger::from(u), Trigger::from(Duration::weeks(3))];
    for t in &all { let mut a = Alarm::display(&s, t.clone()); a.uid("a").append_property(Property::new("DTSTAMP", "20200101T000000Z")); e.alarm(a); }
    let mut c = Calendar::empty();
    c.push(e.done());
    match c.to_string().parse::<Calendar>() {
        Ok(c) => match &c.components[0] {
            CalendarComponent::Event(e) => {
                v::check("all alarms are read", e.components().len() == all.len());
                for (a, t) in e.components().iter().zip(&all) {
                    v::check("each with an equal trigger", match a.properties().get("TRIGGER") { Some(p) => match Trigger::try_from(p) { Ok(u) => u == *t, Err(_) => false }, None => false });
                }
            }
            _ => v::check("the event is read", false),
        },
        Err(_) => v::check("it is read", false),
    }
}
/// of to-dos, audio alarms and alarms with a repetition
pub fn of_every_alarm() {
    let d = dur();
    for t in [Trigger::from(d), Trigger::from((d, Related::Start)), Trigger::from((d, Related::End))] {
        let mut o = Todo::new();
        o.alarm(Alarm::audio(t.clone())).alarm(Alarm::display("x", t.clone())).alarm(Alarm::audio(t.clone()).duration_and_repeat(Duration::minutes(1), 3).done()).alarm(Alarm::display("", t.clone()).duration_and_repeat(Duration::minutes(1), 0).done());
        for a in o.components() {
            v::check("an alarm holds an equal trigger", match a.properties().get("TRIGGER") { Some(p) => match Trigger::try_from(p) { Ok(u) => u == t, Err(_) => false }, None => false });
        }
    }
}
/// offsets of every magnitude
pub fn magnitudes() {
    for n in [1, 59, 60, 61, 3599, 3600, 3661, 86399, 86400, 86401, 90061, 604799, 604800, 604801, 2419200, 31536000, 4294967295i64] {
        for s in [n, -n] {
            let d = Duration::seconds(s);
            for t in [Trigger::from(d), Trigger::after_start(d), Trigger::before_end(d)] { back(&t); #[cfg(feature = "full")] back_text(&t); }
        }
    }
}
/// two triggers of the same kind are equal only when their values are
pub fn distinct() {
    let (a, b) = (v::dur("a", -MAX, MAX), v::dur("b", -MAX, MAX));
    v::assume(a != b);
    let (p, q): (Property, Property) = (Trigger::from(a).into(), Trigger::from(b).into());
    v::check("different offsets stay different", match (Trigger::try_from(&p), Trigger::try_from(&q)) { (Ok(t), Ok(u)) => t != u, _ => false });
    let (p, q): (Property, Property) = (Trigger::from((a, Related::Start)).into(), Trigger::from((a, Related::End)).into());
    v::check("different relations stay different", match (Trigger::try_from(&p), Trigger::try_from(&q)) { (Ok(t), Ok(u)) => t != u, _ => false });
}
