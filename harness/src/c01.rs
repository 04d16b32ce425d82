//! What a setter stores, the matching getter returns.
use crate::{util::*, v};
use chrono::{DateTime, NaiveDate, Utc};
use icalendar::*;

fn t0() -> DateTime<Utc> { v_utc0() }
fn v_utc0() -> DateTime<Utc> { NaiveDate::from_ymd_opt(2001, 2, 3).unwrap().and_hms_opt(4, 5, 6).unwrap().and_utc() }

/// sets every common field but one
fn common<C: Component>(c: &mut C, skip: u8) {
    if skip != 1 { c.timestamp(t0()); }
    if skip != 2 { c.priority(3); }
    if skip != 3 { c.summary("n,summary"); }
    if skip != 4 { c.description("n-description"); }
    if skip != 5 { c.uid("n-uid"); }
    if skip != 6 { c.sequence(7); }
    if skip != 7 { c.class(Class::Private); }
    if skip != 8 { c.url("n-url"); }
    if skip != 9 { c.last_modified(t0()); }
    if skip != 10 { c.created(t0()); }
    c.add_property("X-OTHER", "n-other");
    c.add_multi_property("SUMMARY", "n-multi");
    c.add_multi_property("X-OTHER", "n-multi");
}
fn like<C: EventLike>(c: &mut C, skip: u8) {
    if skip != 20 { c.starts(t0()); }
    if skip != 21 { c.ends(t0()); }
    if skip != 22 { c.location("n-location"); }
    common(c, skip);
}
fn event(c: &mut Event, skip: u8) {
    if skip != 30 { c.status(EventStatus::Cancelled); }
    like(c, skip);
}
fn todo(c: &mut Todo, skip: u8) {
    if skip != 40 { c.status(TodoStatus::Completed); }
    if skip != 41 { c.percent_complete(12); }
    if skip != 42 { c.due(t0()); }
    if skip != 43 { c.completed(t0()); }
    like(c, skip);
}
fn venue(c: &mut Venue, skip: u8) {
    if skip != 50 { c.street_address("n1"); }
    if skip != 51 { c.extended_address("n2"); }
    if skip != 52 { c.locality("n3"); }
    if skip != 53 { c.region("n4"); }
    if skip != 54 { c.country("n5"); }
    if skip != 55 { c.postal_code("n6"); }
    common(c, skip);
}

/// a text field: set last wins, other fields do not matter, unset gives nothing
macro_rules! text_field {
    ($name:ident, $t:ty, $noise:ident, $skip:expr, $set:ident, $get:ident) => {
        pub mod $name {
            use super::*;
            pub fn set() {
                let (old, s) = (v::text("old", "any"), v::text("s", "any"));
                let mut c = <$t>::new();
                $noise(&mut c, $skip);
                c.$set(&old);
                c.$set(&s);
                v::check("value last set is returned", c.$get() == Some(&*s));
                $noise(&mut c, $skip);
                v::check("other setters do not change it", c.$get() == Some(&*s));
                let d = c.done();
                v::check("finished component returns it", d.$get() == Some(&*s));
            }
            pub fn unset() {
                let mut c = <$t>::new();
                v::check("unset field gives nothing", c.$get() == None);
                $noise(&mut c, $skip);
                v::check("unset field gives nothing whatever else is set", c.$get() == None);
            }
        }
    };
}
/// a field with a copyable value
macro_rules! val_field {
    ($name:ident, $t:ty, $noise:ident, $skip:expr, $set:ident, $get:ident, $val:expr, $old:expr) => {
        pub mod $name {
            use super::*;
            pub fn set() {
                let x = $val;
                let mut c = <$t>::new();
                $noise(&mut c, $skip);
                c.$set($old);
                c.$set(x.clone());
                v::check("value last set is returned", c.$get() == Some(x.clone().into()));
                $noise(&mut c, $skip);
                v::check("other setters do not change it", c.$get() == Some(x.clone().into()));
                let d = c.done();
                v::check("finished component returns it", d.$get() == Some(x.into()));
            }
            pub fn unset() {
                let mut c = <$t>::new();
                v::check("unset field gives nothing", c.$get() == None);
                $noise(&mut c, $skip);
                v::check("unset field gives nothing whatever else is set", c.$get() == None);
            }
        }
    };
}
macro_rules! common_fields {
    ($m:ident, $t:ty, $noise:ident) => {
        pub mod $m {
            use super::*;
            text_field!(summary, $t, $noise, 3, summary, get_summary);
            text_field!(description, $t, $noise, 4, description, get_description);
            text_field!(uid, $t, $noise, 5, uid, get_uid);
            text_field!(url, $t, $noise, 8, url, get_url);
            val_field!(timestamp, $t, $noise, 1, timestamp, get_timestamp, v::utc("x"), v::utc("y"));
            val_field!(last_modified, $t, $noise, 9, last_modified, get_last_modified, v::utc("x"), v::utc("y"));
            val_field!(created, $t, $noise, 10, created, get_created, v::utc("x"), v::utc("y"));
            val_field!(priority, $t, $noise, 2, priority, get_priority, v::u32("x", 0, 10), v::u32("y", 0, 10));
            val_field!(sequence, $t, $noise, 6, sequence, get_sequence, v::u32("x", 0, 4294967295), 9);
            val_field!(class_public, $t, $noise, 7, class, get_class, Class::Public, Class::Private);
            val_field!(class_private, $t, $noise, 7, class, get_class, Class::Private, Class::Public);
            val_field!(class_confidential, $t, $noise, 7, class, get_class, Class::Confidential, Class::Public);
        }
    };
}
macro_rules! like_fields {
    ($m:ident, $t:ty, $noise:ident) => {
        pub mod $m {
            use super::*;
            text_field!(location, $t, $noise, 22, location, get_location);
            val_field!(start_utc, $t, $noise, 20, starts, get_start, DatePerhapsTime::from(v::utc("x")), DatePerhapsTime::from(v::date("y")));
            val_field!(start_floating, $t, $noise, 20, starts, get_start, DatePerhapsTime::from(v::ndt("x")), DatePerhapsTime::from(v::date("y")));
            val_field!(start_date, $t, $noise, 20, starts, get_start, DatePerhapsTime::from(v::date("x")), DatePerhapsTime::from(v::utc("y")));
            val_field!(start_zoned, $t, $noise, 20, starts, get_start,
                DatePerhapsTime::from(CalendarDateTime::WithTimezone { date_time: v::ndt("x"), tzid: v::text("z", "any") }), DatePerhapsTime::from(v::utc("y")));
            val_field!(end_utc, $t, $noise, 21, ends, get_end, DatePerhapsTime::from(v::utc("x")), DatePerhapsTime::from(v::date("y")));
            val_field!(end_floating, $t, $noise, 21, ends, get_end, DatePerhapsTime::from(v::ndt("x")), DatePerhapsTime::from(v::date("y")));
            val_field!(end_date, $t, $noise, 21, ends, get_end, DatePerhapsTime::from(v::date("x")), DatePerhapsTime::from(v::utc("y")));
            val_field!(end_zoned, $t, $noise, 21, ends, get_end,
                DatePerhapsTime::from(CalendarDateTime::WithTimezone { date_time: v::ndt("x"), tzid: v::text("z", "any") }), DatePerhapsTime::from(v::utc("y")));
            pub fn all_day() {
                let d = v::date("d");
                let mut c = <$t>::new();
                $noise(&mut c, 0);
                c.all_day(d);
                v::check("start of an all day entry", c.get_start() == Some(d.into()));
                v::check("end of an all day entry", c.get_end() == Some(d.into()));
            }
            pub fn venue_location() {
                let (l, u) = (v::text("l", "any"), v::text("u", "any"));
                let mut c = <$t>::new();
                $noise(&mut c, 0);
                c.venue(&l, &u);
                v::check("location of a venue", c.get_location() == Some(&*l));
            }
        }
    };
}
common_fields!(event_common, Event, event);
common_fields!(todo_common, Todo, todo);
common_fields!(venue_common, Venue, venue);
like_fields!(event_like, Event, event);
like_fields!(todo_like, Todo, todo);

val_field!(event_tentative, Event, event, 30, status, get_status, EventStatus::Tentative, EventStatus::Cancelled);
val_field!(event_confirmed, Event, event, 30, status, get_status, EventStatus::Confirmed, EventStatus::Cancelled);
val_field!(event_cancelled, Event, event, 30, status, get_status, EventStatus::Cancelled, EventStatus::Tentative);
val_field!(todo_needs_action, Todo, todo, 40, status, get_status, TodoStatus::NeedsAction, TodoStatus::Cancelled);
val_field!(todo_completed_status, Todo, todo, 40, status, get_status, TodoStatus::Completed, TodoStatus::Cancelled);
val_field!(todo_in_process, Todo, todo, 40, status, get_status, TodoStatus::InProcess, TodoStatus::Cancelled);
val_field!(todo_cancelled, Todo, todo, 40, status, get_status, TodoStatus::Cancelled, TodoStatus::NeedsAction);
val_field!(todo_percent, Todo, todo, 41, percent_complete, get_percent_complete, v::u8("x", 0, 100), 55);
val_field!(todo_due_utc, Todo, todo, 42, due, get_due, DatePerhapsTime::from(v::utc("x")), DatePerhapsTime::from(v::date("y")));
val_field!(todo_due_date, Todo, todo, 42, due, get_due, DatePerhapsTime::from(v::date("x")), DatePerhapsTime::from(v::utc("y")));
val_field!(todo_due_floating, Todo, todo, 42, due, get_due, DatePerhapsTime::from(v::ndt("x")), DatePerhapsTime::from(v::utc("y")));
val_field!(todo_due_zoned, Todo, todo, 42, due, get_due,
    DatePerhapsTime::from(CalendarDateTime::WithTimezone { date_time: v::ndt("x"), tzid: v::text("z", "any") }), DatePerhapsTime::from(v::utc("y")));
val_field!(todo_completed, Todo, todo, 43, completed, get_completed, v::utc("x"), v::utc("y"));

text_field!(venue_street_address, Venue, venue, 50, street_address, get_street_address);
text_field!(venue_extended_address, Venue, venue, 51, extended_address, get_extended_address);
text_field!(venue_locality, Venue, venue, 52, locality, get_locality);
text_field!(venue_region, Venue, venue, 53, region, get_region);
text_field!(venue_country, Venue, venue, 54, country, get_country);
text_field!(venue_postal_code, Venue, venue, 55, postal_code, get_postal_code);

/// calendars
fn cal(c: &mut Calendar, skip: u8) {
    if skip != 1 { c.name("n-name"); }
    if skip != 2 { c.description("n-desc"); }
    if skip != 3 { c.timezone("n-tz"); }
    if skip != 4 { c.ttl(&chrono::Duration::seconds(77)); }
    c.append_property(("X-OTHER", "n-other"));
    c.push(Event::new().summary("e").description("d").done());
}
macro_rules! cal_field {
    ($name:ident, $skip:expr, $set:ident, $get:ident) => {
        pub fn $name() {
            let s = v::text("s", "any");
            let mut c = Calendar::new();
            cal(&mut c, $skip);
            v::check("unset field gives nothing", c.$get() == None);
            let t = v::text("before", "any");
            c.$set(&t);
            c.$set(&s);
            v::check("value set last is returned", c.$get() == Some(&*s));
            cal(&mut c, $skip);
            v::check("other setters do not change it", c.$get() == Some(&*s));
            let d = c.done();
            v::check("finished calendar returns it", d.$get() == Some(&*s));
            v::check("empty calendar has none", Calendar::empty().$get() == None);
        }
    };
}
cal_field!(calendar_name, 1, name, get_name);
cal_field!(calendar_description, 2, description, get_description);
cal_field!(calendar_timezone, 3, timezone, get_timezone);
pub fn calendar_ttl() {
    let d = v::dur("d", 0, 4294967295);
    let mut c = Calendar::new();
    cal(&mut c, 4);
    v::check("unset field gives nothing", c.get_ttl() == None);
    c.ttl(&v::dur("before", 0, 4294967295));
    c.ttl(&d);
    v::check("value set last is returned", c.get_ttl() == Some(d));
    cal(&mut c, 4);
    v::check("other setters do not change it", c.get_ttl() == Some(d));
    v::check("finished calendar returns it", c.done().get_ttl() == Some(d));
}

/// the generic accessors
pub fn generic_property() {
    let (k, s, t) = (v::text("k", "any"), v::text("s", "any"), v::text("t", "any"));
    let mut c = Event::new();
    c.add_property(&*k, &*t);
    c.add_property(&*k, &*s);
    v::check("property set by name", c.property_value(&k) == Some(&*s));
    let p = Property::new(&*k, &*s);
    v::check("key of a property", p.key() == &*k);
    v::check("value of a property", p.value() == &*s);
    v::check("a new property has no parameters", p.params().is_empty());
}
pub fn generic_append() {
    let (k, s) = (v::text("k", "any"), v::text("s", "any"));
    let (pk, pv) = (v::text("pk", "any"), v::text("pv", "any"));
    let mut c = Todo::new();
    c.append_property(Property::new(&*k, &*s).add_parameter(&pk, &pv).done());
    let p = c.properties().get(&k).unwrap();
    v::check("appended property is kept whole", is_prop(p, &k, &s, &[(&pk, &pv)]));
    v::check("get_param_as", p.get_param_as(&pk, |x| Some(x.to_string())) == Some(pv.clone()));
    v::check("get_value_as", p.get_value_as(|x| Some(x.to_string())) == Some(s.clone()));
}

/// one field next to any other: set before, set after, and alone; every value of both
struct Val { s: String, t: String, e: usize, u: DateTime<Utc>, n: u32, b: u8, d: chrono::Duration, x: chrono::NaiveDateTime, y: NaiveDate }
impl Val {
    /// the values of the field, `many` when it has alternatives
    fn first(many: bool) -> Val {
        Val { s: v::text("s1", "any{0,20}"), t: v::text("t1", "any{0,20}"), e: if many { v::pick("e1", 4) } else { 0 }, u: v::utc("u1"), n: v::u32("n1", 0, 4294967295), b: v::u8("b1", 0, 100), d: v::dur("d1", 0, 4294967295), x: v::ndt("x1"), y: v::date("y1") }
    }
    fn second() -> Val {
        Val { s: v::text("s2", "any{0,20}"), t: v::text("t2", "any{0,20}"), e: v::pick("e2", 4), u: v::utc("u2"), n: v::u32("n2", 0, 4294967295), b: v::u8("b2", 0, 100), d: v::dur("d2", 0, 4294967295), x: v::ndt("x2"), y: v::date("y2") }
    }
    fn s(&self) -> String { self.s.clone() }
    fn t(&self) -> String { self.t.clone() }
    fn e(&self, n: usize) -> usize { if self.e < n { self.e } else { 0 } }
    fn utc(&self) -> DateTime<Utc> { self.u }
    fn n(&self) -> u32 { self.n }
    fn small(&self) -> u32 { self.b as u32 / 10 }
    fn b(&self) -> u8 { self.b }
    fn dur(&self) -> chrono::Duration { self.d }
    fn dt(&self) -> DatePerhapsTime {
        match self.e {
            0 => self.u.into(),
            1 => self.x.into(),
            2 => self.y.into(),
            _ => CalendarDateTime::WithTimezone { date_time: self.x, tzid: self.t() }.into(),
        }
    }
    fn class(&self) -> Class { [Class::Public, Class::Private, Class::Confidential][self.e(3)] }
    fn estatus(&self) -> EventStatus { [EventStatus::Tentative, EventStatus::Confirmed, EventStatus::Cancelled][self.e(3)] }
    fn tstatus(&self) -> TodoStatus { [TodoStatus::NeedsAction, TodoStatus::Completed, TodoStatus::InProcess, TodoStatus::Cancelled][self.e(4)] }
    fn trigger(&self) -> Trigger { if self.e(2) == 0 { Trigger::from(self.d) } else { Trigger::from(self.u) } }
}
macro_rules! pairs {
    ($m:ident, $t:ty, $new:expr, { $($f:ident: $set:expr, $has:expr, $none:expr;)* }, { $($o:ident: $other:expr;)* }) => {
        pub mod $m {
            use super::*;
            fn act(c: &mut $t, i: usize, x: &Val) -> &'static str {
                let names = [$(stringify!($f),)* $(stringify!($o),)*];
                let sets: [fn(&mut $t, &Val); COUNT] = [$($set,)* $($other,)*];
                sets[i](c, x);
                names[i]
            }
            const COUNT: usize = [$(stringify!($f),)* $(stringify!($o),)*].len();
            $( pub fn $f() {
                let alternatives = matches!(stringify!($f), "class" | "status" | "starts" | "ends" | "due");
                let (x, y) = (Val::first(alternatives), Val::second());
                let set: fn(&mut $t, &Val) = $set;
                let has: fn(&$t, &Val) -> bool = $has;
                let none: fn(&$t) -> bool = $none;
                let i = v::pick("other", COUNT);
                let mut c = $new;
                let name = act(&mut c, i, &y);
                if name != stringify!($f) { v::check("another field does not set it", none(&c)); }
                set(&mut c, &x);
                v::check("any field before it does not matter", has(&c, &x));
                if name == stringify!($f) { return; }
                act(&mut c, i, &y);
                v::check("any field after it does not matter", has(&c, &x));
                let mut d = $new;
                set(&mut d, &x);
                act(&mut d, i, &y);
                v::check("any field only after it does not matter", has(&d, &x));
                let d = d.done();
                v::check("nor in the finished value", has(&d, &x));
            } )*
        }
    };
}
pairs!(pairs_event, Event, Event::new(), {
    timestamp: |c, x| { c.timestamp(x.utc()); }, |c, x| c.get_timestamp() == Some(x.utc()), |c| c.get_timestamp() == None;
    priority: |c, x| { c.priority(x.small()); }, |c, x| c.get_priority() == Some(x.small()), |c| c.get_priority() == None;
    summary: |c, x| { c.summary(&x.s()); }, |c, x| c.get_summary() == Some(&*x.s()), |c| c.get_summary() == None;
    description: |c, x| { c.description(&x.s()); }, |c, x| c.get_description() == Some(&*x.s()), |c| c.get_description() == None;
    uid: |c, x| { c.uid(&x.s()); }, |c, x| c.get_uid() == Some(&*x.s()), |c| c.get_uid() == None;
    sequence: |c, x| { c.sequence(x.n()); }, |c, x| c.get_sequence() == Some(x.n()), |c| c.get_sequence() == None;
    class: |c, x| { c.class(x.class()); }, |c, x| c.get_class() == Some(x.class()), |c| c.get_class() == None;
    url: |c, x| { c.url(&x.s()); }, |c, x| c.get_url() == Some(&*x.s()), |c| c.get_url() == None;
    last_modified: |c, x| { c.last_modified(x.utc()); }, |c, x| c.get_last_modified() == Some(x.utc()), |c| c.get_last_modified() == None;
    created: |c, x| { c.created(x.utc()); }, |c, x| c.get_created() == Some(x.utc()), |c| c.get_created() == None;
    starts: |c, x| { c.starts(x.dt()); }, |c, x| c.get_start() == Some(x.dt()), |c| c.get_start() == None;
    ends: |c, x| { c.ends(x.dt()); }, |c, x| c.get_end() == Some(x.dt()), |c| c.get_end() == None;
    location: |c, x| { c.location(&x.s()); }, |c, x| c.get_location() == Some(&*x.s()), |c| c.get_location() == None;
    status: |c, x| { c.status(x.estatus()); }, |c, x| c.get_status() == Some(x.estatus()), |c| c.get_status() == None;
}, {
    alarm: |c, x| { c.alarm(Alarm::display(&x.s(), x.trigger())); };
    repeating: |c, x| { c.alarm(Alarm::audio(x.trigger()).duration_and_repeat(x.dur(), 3)); };
    child: |c, x| { c.append_component(Todo::new().summary(&x.s()).uid(&x.s()).location(&x.s()).status(TodoStatus::Completed).done()); };
    own: |c, x| { c.add_property(format!("X-{}", x.s()), x.t()); };
    many: |c, x| { c.add_multi_property("ATTENDEE", &x.s()).add_multi_property("CATEGORIES", &x.t()); };
    rule: |c, x| { c.add_property("RRULE", x.s()).add_property("DURATION", x.t()).add_property("TRANSP", x.t()).add_property("RECURRENCE-ID", x.s()); };
});
pairs!(pairs_todo, Todo, Todo::new(), {
    timestamp: |c, x| { c.timestamp(x.utc()); }, |c, x| c.get_timestamp() == Some(x.utc()), |c| c.get_timestamp() == None;
    priority: |c, x| { c.priority(x.small()); }, |c, x| c.get_priority() == Some(x.small()), |c| c.get_priority() == None;
    summary: |c, x| { c.summary(&x.s()); }, |c, x| c.get_summary() == Some(&*x.s()), |c| c.get_summary() == None;
    description: |c, x| { c.description(&x.s()); }, |c, x| c.get_description() == Some(&*x.s()), |c| c.get_description() == None;
    uid: |c, x| { c.uid(&x.s()); }, |c, x| c.get_uid() == Some(&*x.s()), |c| c.get_uid() == None;
    sequence: |c, x| { c.sequence(x.n()); }, |c, x| c.get_sequence() == Some(x.n()), |c| c.get_sequence() == None;
    class: |c, x| { c.class(x.class()); }, |c, x| c.get_class() == Some(x.class()), |c| c.get_class() == None;
    url: |c, x| { c.url(&x.s()); }, |c, x| c.get_url() == Some(&*x.s()), |c| c.get_url() == None;
    last_modified: |c, x| { c.last_modified(x.utc()); }, |c, x| c.get_last_modified() == Some(x.utc()), |c| c.get_last_modified() == None;
    created: |c, x| { c.created(x.utc()); }, |c, x| c.get_created() == Some(x.utc()), |c| c.get_created() == None;
    starts: |c, x| { c.starts(x.dt()); }, |c, x| c.get_start() == Some(x.dt()), |c| c.get_start() == None;
    ends: |c, x| { c.ends(x.dt()); }, |c, x| c.get_end() == Some(x.dt()), |c| c.get_end() == None;
    due: |c, x| { c.due(x.dt()); }, |c, x| c.get_due() == Some(x.dt()), |c| c.get_due() == None;
    location: |c, x| { c.location(&x.s()); }, |c, x| c.get_location() == Some(&*x.s()), |c| c.get_location() == None;
    status: |c, x| { c.status(x.tstatus()); }, |c, x| c.get_status() == Some(x.tstatus()), |c| c.get_status() == None;
    percent: |c, x| { c.percent_complete(x.b()); }, |c, x| c.get_percent_complete() == Some(x.b()), |c| c.get_percent_complete() == None;
    completed: |c, x| { c.completed(x.utc()); }, |c, x| c.get_completed() == Some(x.utc()), |c| c.get_completed() == None;
}, {
    alarm: |c, x| { c.alarm(Alarm::display(&x.s(), x.trigger())); };
    repeating: |c, x| { c.alarm(Alarm::audio(x.trigger()).duration_and_repeat(x.dur(), 3)); };
    child: |c, x| { c.append_component(Event::new().summary(&x.s()).uid(&x.s()).location(&x.s()).status(EventStatus::Cancelled).done()); };
    own: |c, x| { c.add_property(format!("X-{}", x.s()), x.t()); };
    many: |c, x| { c.add_multi_property("ATTENDEE", &x.s()).add_multi_property("CATEGORIES", &x.t()); };
    rule: |c, x| { c.add_property("RRULE", x.s()).add_property("DURATION", x.t()).add_property("RECURRENCE-ID", x.s()); };
});
pairs!(pairs_venue, Venue, Venue::new(), {
    timestamp: |c, x| { c.timestamp(x.utc()); }, |c, x| c.get_timestamp() == Some(x.utc()), |c| c.get_timestamp() == None;
    summary: |c, x| { c.summary(&x.s()); }, |c, x| c.get_summary() == Some(&*x.s()), |c| c.get_summary() == None;
    description: |c, x| { c.description(&x.s()); }, |c, x| c.get_description() == Some(&*x.s()), |c| c.get_description() == None;
    uid: |c, x| { c.uid(&x.s()); }, |c, x| c.get_uid() == Some(&*x.s()), |c| c.get_uid() == None;
    url: |c, x| { c.url(&x.s()); }, |c, x| c.get_url() == Some(&*x.s()), |c| c.get_url() == None;
    street_address: |c, x| { c.street_address(&x.s()); }, |c, x| c.get_street_address() == Some(&*x.s()), |c| c.get_street_address() == None;
    extended_address: |c, x| { c.extended_address(&x.s()); }, |c, x| c.get_extended_address() == Some(&*x.s()), |c| c.get_extended_address() == None;
    locality: |c, x| { c.locality(&x.s()); }, |c, x| c.get_locality() == Some(&*x.s()), |c| c.get_locality() == None;
    region: |c, x| { c.region(&x.s()); }, |c, x| c.get_region() == Some(&*x.s()), |c| c.get_region() == None;
    country: |c, x| { c.country(&x.s()); }, |c, x| c.get_country() == Some(&*x.s()), |c| c.get_country() == None;
    postal_code: |c, x| { c.postal_code(&x.s()); }, |c, x| c.get_postal_code() == Some(&*x.s()), |c| c.get_postal_code() == None;
}, {
    class: |c, x| { c.class(x.class()); };
    numbers: |c, x| { c.priority(x.small()).sequence(x.small()); };
    own: |c, x| { c.add_property(format!("X-{}", x.s()), x.t()); };
    many: |c, x| { c.add_multi_property("CATEGORIES", &x.s()).add_multi_property("COMMENT", &x.t()); };
    geo: |c, x| { c.add_property("GEO", x.s()).add_property("LOCATION", x.t()).add_property("NAME", x.t()); };
});
pairs!(pairs_calendar, Calendar, if v::any("empty") { Calendar::empty() } else { Calendar::new() }, {
    name: |c, x| { c.name(&x.s()); }, |c, x| c.get_name() == Some(&*x.s()), |c| c.get_name() == None;
    description: |c, x| { c.description(&x.s()); }, |c, x| c.get_description() == Some(&*x.s()), |c| c.get_description() == None;
    timezone: |c, x| { c.timezone(&x.s()); }, |c, x| c.get_timezone() == Some(&*x.s()), |c| c.get_timezone() == None;
    ttl: |c, x| { c.ttl(&x.dur()); }, |c, x| c.get_ttl() == Some(x.dur()), |c| c.get_ttl() == None;
}, {
    event: |c, x| { c.push(Event::new().summary(&x.s()).description(&x.t()).add_property("NAME", x.s()).done()); };
    others: |c, x| { c.extend(vec![Todo::new().description(&x.s()).done()]); c.append(&mut Calendar::from([Venue::new().description(&x.t()).done()])); };
    own: |c, x| { c.append_property(("METHOD", x.s().as_str())); c.append_property(("X-OTHER", x.t().as_str())); };
    source: |c, x| { c.append_property(("SOURCE", x.s().as_str())).append_property(("COLOR", x.t().as_str())); };
});
/// a calendar's second property of a pair, given another value, is another field
pub fn calendar_pairs() {
    let (s, t) = (v::text("s", "any{0,20}"), v::text("t", "any{0,20}"));
    let (d, o) = (v::dur("d", 0, 4294967295), v::dur("o", 0, 4294967295));
    let mut c = Calendar::new();
    c.name(&s).description(&s).timezone(&s).ttl(&d);
    c.append_property(("X-WR-CALNAME", t.as_str())).append_property(("X-WR-CALDESC", t.as_str())).append_property(("X-WR-TIMEZONE", t.as_str())).append_property(("X-PUBLISHED-TTL", o.to_string().as_str()));
    let good = |c: &Calendar| c.get_name() == Some(&*s) && c.get_description() == Some(&*s) && c.get_timezone() == Some(&*s) && c.get_ttl() == Some(d);
    v::check("the value set is returned", good(&c));
    c.properties.reverse();
    v::check("whatever the order of the properties", good(&c));
    let mut c = Calendar::new();
    c.append_property(("X-WR-CALNAME", t.as_str())).append_property(("X-WR-CALDESC", t.as_str())).append_property(("X-WR-TIMEZONE", t.as_str())).append_property(("X-PUBLISHED-TTL", o.to_string().as_str()));
    c.name(&s).description(&s).timezone(&s).ttl(&d);
    v::check("and if it was there before", good(&c));
}
