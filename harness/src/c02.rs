//! Typed setters write the standard's property names and parameters.
use crate::{util::*, v};
use icalendar::*;

macro_rules! text { ($($name:ident: $t:ty, $set:ident, $key:expr;)*) => { $(
    pub fn $name() {
        let s = v::text("s", "any");
        let mut c = <$t>::new();
        c.$set(&s);
        v::check(concat!("setter writes ", $key, " only"), only(&c, $key, &s, &[]));
    } )* } }
macro_rules! texts { ($($m:ident: $t:ty;)*) => { $(
    pub mod $m { use super::*;
        text! { summary: $t, summary, "SUMMARY"; description: $t, description, "DESCRIPTION"; uid: $t, uid, "UID"; url: $t, url, "URL"; }
        pub fn priority() {
            let n = v::u32("n", 0, 10);
            let mut c = <$t>::new();
            c.priority(n);
            v::check("setter writes PRIORITY only", only(&c, "PRIORITY", &n.to_string(), &[]));
        }
        pub fn sequence() {
            let n = v::u32("n", 0, 4294967295);
            let mut c = <$t>::new();
            c.sequence(n);
            v::check("setter writes SEQUENCE only", only(&c, "SEQUENCE", &n.to_string(), &[]));
        }
        pub fn stamps() {
            let t = v::utc("t");
            let s = t.format("%Y%m%dT%H%M%SZ").to_string();
            let mut c = <$t>::new();
            c.timestamp(t);
            v::check("setter writes DTSTAMP only", only(&c, "DTSTAMP", &s, &[]));
            let mut c = <$t>::new();
            c.created(t);
            v::check("setter writes CREATED only", only(&c, "CREATED", &s, &[]));
            let mut c = <$t>::new();
            c.last_modified(t);
            v::check("setter writes LAST-MODIFIED only", only(&c, "LAST-MODIFIED", &s, &[]));
        }
        pub fn class() {
            for (x, s) in [(Class::Public, "PUBLIC"), (Class::Private, "PRIVATE"), (Class::Confidential, "CONFIDENTIAL")] {
                let mut c = <$t>::new();
                c.class(x);
                v::check("setter writes CLASS only", only(&c, "CLASS", s, &[]));
            }
        }
    } )* } }
texts! { event: Event; todo: Todo; venue: Venue; }

macro_rules! likes { ($($m:ident: $t:ty;)*) => { $(
    pub mod $m { use super::*;
        text! { location: $t, location, "LOCATION"; }
        pub fn venue() {
            let (l, u) = (v::text("l", "any"), v::text("u", "any"));
            let mut c = <$t>::new();
            c.venue(&l, &u);
            v::check("setter writes LOCATION with VVENUE only", only(&c, "LOCATION", &l, &[("VVENUE", &u)]));
        }
        pub fn starts() { let mut c = <$t>::new(); forms!(c, starts, "DTSTART", <$t>::new()); }
        pub fn ends() { let mut c = <$t>::new(); forms!(c, ends, "DTEND", <$t>::new()); }
        pub fn all_day() {
            let d = v::date("d");
            let s = d.format("%Y%m%d").to_string();
            let mut c = <$t>::new();
            c.all_day(d);
            v::check("all_day sets two properties", c.properties().len() == 2 && c.multi_properties().is_empty() && c.components().is_empty());
            v::check("all_day start has VALUE=DATE", match c.properties().get("DTSTART") { Some(p) => is_prop(p, "DTSTART", &s, &[("VALUE", "DATE")]), None => false });
            v::check("all_day end has VALUE=DATE", match c.properties().get("DTEND") { Some(p) => is_prop(p, "DTEND", &s, &[("VALUE", "DATE")]), None => false });
        }
    } )* } }
macro_rules! forms { ($c:ident, $set:ident, $key:expr, $new:expr) => {
    let d = v::date("d");
    $c.$set(d);
    v::check(concat!("date ", $key, " has VALUE=DATE"), only(&$c, $key, &d.format("%Y%m%d").to_string(), &[("VALUE", "DATE")]));
    let mut c = $new;
    let n = v::ndt("n");
    c.$set(n);
    v::check(concat!("floating ", $key), only(&c, $key, &n.format("%Y%m%dT%H%M%S").to_string(), &[]));
    let mut c = $new;
    let u = v::utc("u");
    c.$set(u);
    v::check(concat!("UTC ", $key), only(&c, $key, &u.format("%Y%m%dT%H%M%SZ").to_string(), &[]));
    let mut c = $new;
    let (n, z) = (v::ndt("n"), v::text("z", "any"));
    c.$set(CalendarDateTime::WithTimezone { date_time: n, tzid: z.clone() });
    v::check(concat!("zoned ", $key, " has TZID"), only(&c, $key, &n.format("%Y%m%dT%H%M%S").to_string(), &[("TZID", &z)]));
} }
use forms;
likes! { event_like: Event; todo_like: Todo; }
pub fn todo_due() { let mut c = Todo::new(); forms!(c, due, "DUE", Todo::new()); }
pub fn todo_completed() {
    let t = v::utc("t");
    let mut c = Todo::new();
    c.completed(t);
    v::check("setter writes COMPLETED only", only(&c, "COMPLETED", &t.format("%Y%m%dT%H%M%SZ").to_string(), &[]));
}
pub fn todo_percent() {
    let n = v::u8("n", 0, 100);
    let mut c = Todo::new();
    c.percent_complete(n);
    v::check("setter writes PERCENT-COMPLETE only", only(&c, "PERCENT-COMPLETE", &n.to_string(), &[]));
}
pub fn event_status() {
    for (x, s) in [(EventStatus::Tentative, "TENTATIVE"), (EventStatus::Confirmed, "CONFIRMED"), (EventStatus::Cancelled, "CANCELLED")] {
        let mut c = Event::new();
        c.status(x);
        v::check("setter writes STATUS only", only(&c, "STATUS", s, &[]));
    }
}
pub fn todo_status() {
    for (x, s) in [(TodoStatus::NeedsAction, "NEEDS-ACTION"), (TodoStatus::Completed, "COMPLETED"), (TodoStatus::InProcess, "IN-PROCESS"), (TodoStatus::Cancelled, "CANCELLED")] {
        let mut c = Todo::new();
        c.status(x);
        v::check("setter writes STATUS only", only(&c, "STATUS", s, &[]));
    }
}
text! {
    street_address: Venue, street_address, "STREET-ADDRESS"; extended_address: Venue, extended_address, "EXTENDED-ADDRESS";
    locality: Venue, locality, "LOCALITY"; region: Venue, region, "REGION"; country: Venue, country, "COUNTRY";
    postal_code: Venue, postal_code, "POSTAL-CODE";
}

/// calendars write each field twice
fn pair(c: &Calendar, k1: &str, p1: &[(&str, &str)], k2: &str, s: &str) -> bool {
    c.properties.len() == 2 && c.components.is_empty() && is_prop(&c.properties[0], k1, s, p1) && is_prop(&c.properties[1], k2, s, &[])
}
pub fn calendar_fields() {
    let s = v::text("s", "any");
    let mut c = Calendar::empty();
    c.name(&s);
    v::check("name is NAME and X-WR-CALNAME", pair(&c, "NAME", &[], "X-WR-CALNAME", &s));
    let mut c = Calendar::empty();
    c.description(&s);
    v::check("description is DESCRIPTION and X-WR-CALDESC", pair(&c, "DESCRIPTION", &[], "X-WR-CALDESC", &s));
    let mut c = Calendar::empty();
    c.timezone(&s);
    v::check("time zone is TIMEZONE-ID and X-WR-TIMEZONE", pair(&c, "TIMEZONE-ID", &[], "X-WR-TIMEZONE", &s));
}
pub fn calendar_ttl() {
    let d = v::dur("d", 0, 4294967295);
    let mut c = Calendar::empty();
    c.ttl(&d);
    v::check("refresh interval is REFRESH-INTERVAL with VALUE=DURATION and X-PUBLISHED-TTL",
        pair(&c, "REFRESH-INTERVAL", &[("VALUE", "DURATION")], "X-PUBLISHED-TTL", &d.to_string()));
}

/// alarm triggers
pub fn trigger_relative() {
    let d = v::dur("d", -4294967295, 4294967295);
    let p = Property::from(Trigger::from(d));
    v::check("trigger without relation", is_prop(&p, "TRIGGER", &d.to_string(), &[]));
    for (r, s) in [(Related::Start, "START"), (Related::End, "END")] {
        let p = Property::from(Trigger::from((d, r)));
        v::check("trigger with RELATED", is_prop(&p, "TRIGGER", &d.to_string(), &[("RELATED", s)]));
    }
}
pub fn trigger_absolute() {
    let u = v::utc("u");
    let p = Property::from(Trigger::from(u));
    v::check("absolute trigger has VALUE=DATE-TIME", is_prop(&p, "TRIGGER", &u.format("%Y%m%dT%H%M%SZ").to_string(), &[("VALUE", "DATE-TIME")]));
    let n = v::ndt("n");
    let p = Property::from(Trigger::from(n));
    v::check("absolute floating trigger has VALUE=DATE-TIME", is_prop(&p, "TRIGGER", &n.format("%Y%m%dT%H%M%S").to_string(), &[("VALUE", "DATE-TIME")]));
    let z = v::text("z", "any");
    let p = Property::from(Trigger::from(CalendarDateTime::WithTimezone { date_time: n, tzid: z.clone() }));
    v::check("absolute zoned trigger has VALUE=DATE-TIME and TZID", is_prop(&p, "TRIGGER", &n.format("%Y%m%dT%H%M%S").to_string(), &[("VALUE", "DATE-TIME"), ("TZID", &z)]));
}
pub fn duration_property() {
    let d = v::dur("d", -4294967295, 4294967295);
    v::check("a duration becomes DURATION", is_prop(&Property::from(d), "DURATION", &d.to_string(), &[]));
}
pub fn class_and_status_properties() {
    v::check("class property", is_prop(&Property::from(Class::Private), "CLASS", "PRIVATE", &[]));
    v::check("event status property", is_prop(&Property::from(EventStatus::Confirmed), "STATUS", "CONFIRMED", &[]));
    v::check("to-do status property", is_prop(&Property::from(TodoStatus::InProcess), "STATUS", "IN-PROCESS", &[]));
    let p = Parameter::from(ValueType::Uri);
    v::check("value type parameter is VALUE", p.key() == "VALUE" && p.value() == "URI");
    let p = Parameter::from(Related::End);
    v::check("relation parameter is RELATED", p.key() == "RELATED" && p.value() == "END");
}
/// a property that is already there, with the same value and parameters of its own, makes no difference
macro_rules! again { ($($m:ident: $t:ty, $key:expr, $s:ident = $val:expr, $c:ident => $set:expr;)*) => { pub mod again { use super::*; $( pub fn $m() {
    let $s = $val;
    let mut want = <$t>::new();
    { let $c = &mut want; $set; }
    let mut c = <$t>::new();
    if let Some(old) = want.property_value($key) { c.append_property(prop1($key, old, "X-P", "q")); }
    { let $c = &mut c; $set; }
    v::check("the property is written as if it had not been there", c == want);
    { let $c = &mut c; $set; }
    v::check("setting it twice is setting it once", c == want);
} )* } } }
fn t() -> String { v::text("s", "any") }
again! {
    summary: Event, "SUMMARY", s = t(), c => c.summary(&s); description: Todo, "DESCRIPTION", s = t(), c => c.description(&s); uid: Venue, "UID", s = t(), c => c.uid(&s); url: Event, "URL", s = t(), c => c.url(&s);
    location: Event, "LOCATION", s = t(), c => c.location(&s); location_of_todo: Todo, "LOCATION", s = t(), c => c.location(&s);
    venue: Event, "LOCATION", s = (t(), v::text("u", "any")), c => c.venue(&s.0, &s.1);
    priority: Event, "PRIORITY", n = v::u32("n", 0, 10), c => c.priority(n); sequence: Todo, "SEQUENCE", n = v::u32("n", 0, 4294967295), c => c.sequence(n);
    class: Venue, "CLASS", s = Class::Private, c => c.class(s); event_status: Event, "STATUS", s = EventStatus::Cancelled, c => c.status(s); todo_status: Todo, "STATUS", s = TodoStatus::Cancelled, c => c.status(s);
    timestamp: Event, "DTSTAMP", d = v::utc("d"), c => c.timestamp(d); created: Todo, "CREATED", d = v::utc("d"), c => c.created(d); last_modified: Venue, "LAST-MODIFIED", d = v::utc("d"), c => c.last_modified(d);
    completed: Todo, "COMPLETED", d = v::utc("d"), c => c.completed(d); percent: Todo, "PERCENT-COMPLETE", n = v::u8("n", 0, 100), c => c.percent_complete(n);
    start_date: Event, "DTSTART", d = v::date("d"), c => c.starts(d); start_floating: Event, "DTSTART", d = v::ndt("d"), c => c.starts(d); start_utc: Todo, "DTSTART", d = v::utc("d"), c => c.starts(d);
    end_zoned: Event, "DTEND", d = CalendarDateTime::WithTimezone { date_time: v::ndt("d"), tzid: t() }, c => c.ends(d.clone()); end_date: Todo, "DTEND", d = v::date("d"), c => c.ends(d);
    due_date: Todo, "DUE", d = v::date("d"), c => c.due(d); due_floating: Todo, "DUE", d = v::ndt("d"), c => c.due(d); all_day: Event, "DTSTART", d = v::date("d"), c => c.all_day(d);
    street: Venue, "STREET-ADDRESS", s = t(), c => c.street_address(&s); locality: Venue, "LOCALITY", s = t(), c => c.locality(&s); country: Venue, "COUNTRY", s = t(), c => c.country(&s);
}
/// a component in use: only the property of the field changes
pub fn among_others() {
    let (k, s) = (a_name(), t());
    v::assume(k != "SUMMARY" && k != "URL" && k != "LOCATION");
    let mut c = Event::new();
    c.append_property(prop1(k, &s, "P", "q"));
    c.summary(&s).url(&s).location(&s);
    v::check("the other property stays and three are added", c.properties().len() == 4 && match c.properties().get(k) { Some(p) => is_prop(p, k, &s, &[("P", "q")]), None => false }
        && ["SUMMARY", "URL", "LOCATION"].iter().all(|k| match c.properties().get(*k) { Some(p) => is_prop(p, k, &s, &[]), None => false }));
}
