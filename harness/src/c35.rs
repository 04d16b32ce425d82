//! A short way of saying something does what its long form does.
use crate::{util::*, v};
use chrono::{DateTime, Duration, NaiveDate, NaiveDateTime, Utc};
use icalendar::*;

fn some<C: Component + Default>() -> C {
    let mut c = C::default();
    c.append_property(prop1("X-THERE", "before", "P", "q")).append_multi_property(Property::new("COMMENT", "before"));
    c
}
fn same_text(a: &Calendar, b: &Calendar) -> bool { a == b && a.to_string() == b.to_string() }

/// for one kind of component: the short and the long form give equal components
macro_rules! with { ({ $($p:tt)* } $($b:tt)*) => { $($p)* $($b)* } }
macro_rules! short { ($c:ty, $pre:tt $($name:ident: $a:ident => $short:expr, $long:expr;)*) => { $( pub fn $name() { with! { $pre
    let mut c: $c = some();
    { let $a = &mut c; let _ = $short; }
    let mut d: $c = some();
    { let $a = &mut d; let _ = $long; }
    v::check("the short form equals the long one", c == d);
    v::check("and holds what was there", c.properties().contains_key("X-THERE") && c.multi_properties().contains_key("COMMENT"));
} } )* } }
macro_rules! component { ($($m:ident: $c:ty;)*) => { $( pub mod $m { use super::*;
    short! { $c, { let (s, n) = (v::text("s", "any"), v::text("n", "any")); }
        add_property: c => c.add_property(n.clone(), s.clone()), c.append_property(Property::new(n.clone(), s.clone()));
        add_property_of_strs: c => c.add_property(n.as_str(), s.as_str()), c.append_property(Property::new(n.clone(), s.clone()));
        add_property_pre_alloc: c => c.add_property_pre_alloc(n.clone(), s.clone()), c.append_property(Property::new(n.clone(), s.clone()));
        add_multi_property: c => c.add_multi_property(&n, &s), c.append_multi_property(Property::new(n.clone(), s.clone()));
        append_pair: c => c.append_property((n.as_str(), s.as_str())), c.append_property(Property::new(n.clone(), s.clone()));
        append_multi_pair: c => c.append_multi_property((n.as_str(), s.as_str())), c.append_multi_property(Property::new(n.clone(), s.clone()));
        append_finished: c => c.append_property(Property::new(n.clone(), s.clone()).add_parameter("K", &s).done()), c.append_property(prop1(&n, &s, "K", &s));
        summary: c => c.summary(&s), c.add_property("SUMMARY", s.clone());
        description: c => c.description(&s), c.add_property("DESCRIPTION", s.clone());
        url: c => c.url(&s), c.add_property("URL", s.clone());
        uid: c => c.uid(&s), c.add_property("UID", s.clone());
        class: c => c.class(Class::Private), c.append_property(Class::Private);
        a_chain: c => c.summary(&s).add_property("X-B", n.clone()).description(&n), { c.summary(&s); c.add_property("X-B", n.clone()); c.description(&n); };
        a_child: c => c.append_component(Alarm::display(&s, Duration::minutes(5))), { let a: Alarm = Alarm::display(&s, Trigger::from(Duration::minutes(5))); c.append_component(a) };
    }
    short! { $c, { let q = v::u32("q", 0, 4294967295); }
        sequence: c => c.sequence(q), c.add_property("SEQUENCE", q.to_string());
    }
    pub fn new_is_default() {
        let (c, d) = (<$c>::new(), <$c>::default());
        v::check("new equals default", c == d);
        v::check("and is empty", c.properties().is_empty() && c.multi_properties().is_empty() && c.components().is_empty());
        v::check("finishing it too", <$c>::new().done() == d);
    }
    pub fn done_or_not() {
        let (s, n) = (v::text("s", "any"), v::text("n", "any"));
        let mut a: $c = some();
        a.add_property(n, s).append_component(Todo::new());
        let b = a.clone();
        v::check("a finished component equals the one that is not", a.done() == b);
        v::check("and a new one is left", a == <$c>::new());
    }
    pub fn value() {
        let (s, n) = (v::text("s", "any"), v::text("n", "any"));
        let mut c: $c = some();
        c.add_property(&*n, &*s);
        v::check("property_value is the value of the property", c.property_value(&n) == c.properties().get(&n).map(|p| p.value()) && c.property_value(&n) == Some(s.as_str()));
        let t = v::text("t", "any");
        v::check("and so for any name", c.property_value(&t) == c.properties().get(&t).map(|p| p.value()));
    }
} )* } }
component! { event: Event; todo: Todo; venue: Venue; }

macro_rules! dates { ($($m:ident: $c:ty;)*) => { $( pub mod $m { use super::*;
    short! { $c, { let (n, u, d, s, i, l) = (v::ndt("n"), v::utc("u"), v::date("d"), v::text("s", "any"), v::text("i", "any"), v::dur("l", -100000, 100000)); let z = CalendarDateTime::WithTimezone { date_time: n, tzid: v::text("z", "any") }; }
        starts_floating: c => c.starts(n), c.starts(DatePerhapsTime::DateTime(CalendarDateTime::Floating(n)));
        starts_utc: c => c.starts(u), c.starts(DatePerhapsTime::DateTime(CalendarDateTime::Utc(u)));
        starts_date: c => c.starts(d), c.starts(DatePerhapsTime::Date(d));
        starts_zone: c => c.starts(z.clone()), c.starts(DatePerhapsTime::DateTime(z.clone()));
        ends_floating: c => c.ends(n), c.ends(DatePerhapsTime::DateTime(CalendarDateTime::Floating(n)));
        ends_utc: c => c.ends(u), c.ends(DatePerhapsTime::DateTime(CalendarDateTime::Utc(u)));
        ends_date: c => c.ends(d), c.ends(DatePerhapsTime::Date(d));
        ends_zone: c => c.ends(z.clone()), c.ends(DatePerhapsTime::DateTime(z.clone()));
        starts_property: c => c.starts(z.clone()), c.append_property(DatePerhapsTime::from(z.clone()).to_property("DTSTART"));
        ends_property: c => c.ends(d), c.append_property(DatePerhapsTime::from(d).to_property("DTEND"));
        all_day: c => c.all_day(d), c.starts(d).ends(d);
        venue: c => c.venue(&s, &i), c.append_property(prop1("LOCATION", &s, "VVENUE", &i));
        location: c => c.location(&s), c.add_property("LOCATION", s.as_str());
        alarm: c => c.alarm(Alarm::audio(u)), c.append_component(Alarm::audio(Trigger::DateTime(CalendarDateTime::Utc(u))));
        alarm_of_text: c => c.alarm(Alarm::display(&s, (l, Related::End))), c.append_component(Alarm::display(&s, Trigger::Duration(l, Some(Related::End))));
    }
} )* } }
dates! { event_dates: Event; todo_dates: Todo; }
pub mod statuses { use super::*;
    short! { Event, {}
        tentative: c => c.status(EventStatus::Tentative), c.append_property(EventStatus::Tentative);
        confirmed: c => c.status(EventStatus::Confirmed), c.append_property(EventStatus::Confirmed);
        cancelled: c => c.status(EventStatus::Cancelled), c.append_property(EventStatus::Cancelled);
        public: c => c.class(Class::Public), c.append_property(Class::Public);
        confidential: c => c.class(Class::Confidential), c.append_property(Class::Confidential);
    }
    pub mod todo { use super::*; short! { Todo, { let (n, u, d) = (v::ndt("n"), v::utc("u"), v::date("d")); }
        needs_action: c => c.status(TodoStatus::NeedsAction), c.append_property(TodoStatus::NeedsAction);
        completed: c => c.status(TodoStatus::Completed), c.append_property(TodoStatus::Completed);
        in_process: c => c.status(TodoStatus::InProcess), c.append_property(TodoStatus::InProcess);
        cancelled: c => c.status(TodoStatus::Cancelled), c.append_property(TodoStatus::Cancelled);
        due_floating: c => c.due(n), c.due(DatePerhapsTime::DateTime(CalendarDateTime::Floating(n)));
        due_utc: c => c.due(u), c.due(DatePerhapsTime::DateTime(CalendarDateTime::Utc(u)));
        due_date: c => c.due(d), c.append_property(DatePerhapsTime::Date(d).to_property("DUE"));
    } }
    pub mod venue { use super::*; short! { Venue, { let s = v::text("s", "any"); }
        street_address: c => c.street_address(&s), c.add_property("STREET-ADDRESS", s.as_str());
        extended_address: c => c.extended_address(&s), c.add_property("EXTENDED-ADDRESS", s.as_str());
        locality: c => c.locality(&s), c.add_property("LOCALITY", s.as_str());
        region: c => c.region(&s), c.add_property("REGION", s.as_str());
        country: c => c.country(&s), c.add_property("COUNTRY", s.as_str());
        postal_code: c => c.postal_code(&s), c.add_property("POSTAL-CODE", s.as_str());
    } }
}
pub fn properties() {
    let (k, s) = (v::text("k", "any"), v::text("s", "any"));
    let p = Property::new(k.as_str(), s.as_str());
    v::check("from strings", Property::new(k.clone(), s.clone()) == p && Property::new_pre_alloc(k.clone(), s.clone()) == p);
    v::check("from a pair", Property::from((k.as_str(), s.as_str())) == p);
    v::check("an unfinished one equals the finished one", Property::new(&*k, &*s).done() == p);
    v::check("it has the parts it was made of", p.key() == k && p.value() == s && p.params().is_empty());
    v::check("get_value_as gives its text to the converter", p.get_value_as(|x| Some(x.to_string())) == Some(s.clone()) && p.get_value_as(|_| None::<u8>).is_none());
}
pub fn parameters() {
    let (k, s) = (v::text("k", "any"), v::text("s", "any"));
    let q = Parameter::new(&k, &s);
    v::check("from a pair", Parameter::from((k.as_str(), s.as_str())) == q);
    v::check("it has the parts it was made of", q.key() == k && q.value() == s);
    let (mut a, mut b, mut c) = (Property::new("X-A", "v"), Property::new("X-A", "v"), Property::new("X-A", "v"));
    a.add_parameter("P", "q").add_parameter(&k, &s);
    b.append_parameter(Parameter::new("P", "q")).append_parameter(q);
    c.append_parameter(("P", "q")).append_parameter((k.as_str(), s.as_str()));
    v::check("add_parameter equals append_parameter", a == b && b == c);
    v::check("get_param_as gives its text to the converter", a.get_param_as(&k, |x| Some(x.to_string())) == Some(s.clone()) && a.get_param_as(&k, |_| None::<u8>).is_none());
    let t = v::text("t", "any");
    v::check("and nothing when there is none", (t == "P" || t == k) || a.get_param_as(&t, |x| Some(x.to_string())).is_none());
    v::check("an unfinished one equals the finished one", a.done() == b);
}
pub fn value_types() {
    let all = [(ValueType::Binary, "BINARY"), (ValueType::Boolean, "BOOLEAN"), (ValueType::CalAddress, "CAL-ADDRESS"), (ValueType::Date, "DATE"), (ValueType::DateTime, "DATE-TIME"), (ValueType::Duration, "DURATION"), (ValueType::Float, "FLOAT"),
        (ValueType::Integer, "INTEGER"), (ValueType::Period, "PERIOD"), (ValueType::Recur, "RECUR"), (ValueType::Text, "TEXT"), (ValueType::Time, "TIME"), (ValueType::Uri, "URI"), (ValueType::UtcOffset, "UTC-OFFSET")];
    let s = v::text("s", "any");
    for (t, n) in all {
        let (mut a, mut b) = (Property::new("X-A", &*s), Property::new("X-A", &*s));
        a.append_parameter(t);
        b.add_parameter("VALUE", n);
        v::check("a value type as a parameter", a == b);
    }
}
pub fn arrays() {
    let (k, s) = (v::text("k", "any"), v::text("s", "any"));
    let all = Property::from_array([(k.as_str(), s.as_str()), ("X-B", ""), (s.as_str(), k.as_str())]);
    v::check("from_array equals one by one", all == vec![Property::new(&*k, &*s), Property::new("X-B", ""), Property::new(&*s, &*k)]);
    v::check("of classes", Property::from_array([Class::Public, Class::Private]) == vec![Property::from(Class::Public), Property::from(Class::Private)]);
    v::check("of nothing", Property::from_array([] as [Property; 0]).is_empty());
    let p = prop1(&k, &s, "K", &s);
    v::check("of properties", Property::from_array([p.clone(), p.clone()]) == vec![p.clone(), p]);
}
pub fn dates() {
    let (n, u, d) = (v::ndt("n"), v::utc("u"), v::date("d"));
    let z = v::text("z", "any");
    let w = CalendarDateTime::WithTimezone { date_time: n, tzid: z };
    v::check("a naive time is floating", CalendarDateTime::from(n) == CalendarDateTime::Floating(n) && DatePerhapsTime::from(n) == DatePerhapsTime::DateTime(CalendarDateTime::Floating(n)));
    v::check("a UTC time is UTC", CalendarDateTime::from(u) == CalendarDateTime::Utc(u) && DatePerhapsTime::from(u) == DatePerhapsTime::DateTime(CalendarDateTime::Utc(u)));
    v::check("a date is a date", DatePerhapsTime::from(d) == DatePerhapsTime::Date(d));
    v::check("a calendar time stays", DatePerhapsTime::from(w.clone()) == DatePerhapsTime::DateTime(w.clone()));
    let all = [DatePerhapsTime::from(n), DatePerhapsTime::from(u), DatePerhapsTime::from(d), DatePerhapsTime::from(w)];
    for x in all {
        v::check("date_naive equals the conversion", x.date_naive() == NaiveDate::from(x.clone()));
        let p = x.to_property("DTEND");
        let mut e = Event::new();
        e.ends(x.clone());
        v::check("to_property is what ends stores", e.properties().get("DTEND") == Some(&p));
        v::check("and get_end what from_property reads", e.get_end() == DatePerhapsTime::from_property(&p) && e.get_end() == Some(x));
    }
}
#[cfg(feature = "full")] pub fn zones() {
    let (n, z) = (v::ndt("n"), v::tz("z"));
    let w = CalendarDateTime::WithTimezone { date_time: n, tzid: z.name().to_string() };
    v::check("a time and a zone", CalendarDateTime::from((n, z)) == w && DatePerhapsTime::from((n, z)) == DatePerhapsTime::DateTime(w.clone()));
}
#[cfg(feature = "full")] pub fn zone_names() {
    let n = v::ndt("n");
    for name in ["UTC", "Europe/Berlin", "America/Argentina/Buenos_Aires", "Nowhere", ""] {
        match (CalendarDateTime::try_from((n, name)), DatePerhapsTime::try_from((n, name)), name.parse::<chrono_tz::Tz>()) {
            (Ok(a), Ok(b), Ok(t)) => v::check("a time and the name of a zone", a == CalendarDateTime::from((n, t)) && b == DatePerhapsTime::from((n, t))),
            (Err(_), Err(_), Err(_)) => v::check("and no time in an unknown zone", true),
            _ => v::check("both know the same zones", false),
        }
    }
}
#[cfg(feature = "full")] pub fn numbers() {
    let (m, d, h, i) = (v::u32("m", 0, 14), v::u32("d", 0, 33), v::u32("h", 0, 30), v::u32("i", 0, 70));
    let z = v::tz("z");
    v::check("the function equals the constructor", ymd_hm_tzid(2024, m, d, h, i, z) == CalendarDateTime::from_ymd_hm_tzid(2024, m, d, h, i, z));
    v::check("and both the time of chrono", ymd_hm_tzid(2024, m, d, h, i, z) == NaiveDate::from_ymd_opt(2024, m, d).and_then(|x| x.and_hms_opt(h, i, 0)).map(|x| CalendarDateTime::from((x, z))));
}
pub fn triggers() {
    let d = v::dur("d", -1000000000, 1000000000);
    v::check("after_start", Trigger::after_start(d) == Trigger::Duration(d, Some(Related::Start)) && Trigger::after_start(d) == Trigger::from((d, Related::Start)));
    v::check("after_end", Trigger::after_end(d) == Trigger::Duration(d, Some(Related::End)) && Trigger::after_end(d) == Trigger::from((d, Related::End)));
    v::check("before_start", Trigger::before_start(d) == Trigger::after_start(-d));
    v::check("before_end", Trigger::before_end(d) == Trigger::after_end(-d));
    v::check("a duration alone", Trigger::from(d) == Trigger::Duration(d, None));
    let (n, u) = (v::ndt("n"), v::utc("u"));
    v::check("times", Trigger::from(n) == Trigger::DateTime(CalendarDateTime::Floating(n)) && Trigger::from(u) == Trigger::DateTime(CalendarDateTime::Utc(u)));
    let z = CalendarDateTime::WithTimezone { date_time: n, tzid: v::text("z", "any") };
    v::check("calendar times", Trigger::from(z.clone()) == Trigger::DateTime(z));
    for t in [Trigger::after_start(d), Trigger::after_end(d), Trigger::before_start(d), Trigger::before_end(d), Trigger::from(d), Trigger::from(u)] {
        v::check("the parts of a trigger", match &t {
            Trigger::Duration(x, r) => t.as_duration() == Some(x) && t.related() == *r && t.as_date_time().is_none(),
            Trigger::DateTime(x) => t.as_date_time() == Some(x) && t.as_duration().is_none() && t.related().is_none(),
        });
        let (a, b) = (Alarm::audio(t.clone()), Alarm::audio(t.clone()).done());
        v::check("a finished alarm equals the one that is not", a == b);
        v::check("the alarm holds the property of the trigger", a.properties().get("TRIGGER") == Some(&Property::from(t)));
    }
}
pub fn alarms() {
    let (s, d, i, n) = (v::text("s", "any"), v::dur("d", -1000000, 1000000), v::dur("i", 0, 1000000), v::u32("n", 0, 4294967295));
    let a = Alarm::display(&s, d).duration_and_repeat(i, n);
    let mut b = Alarm::display(&s, Trigger::from(d));
    b.append_property(i).add_property("REPEAT", n.to_string());
    v::check("duration_and_repeat equals setting both", a == b);
    v::check("an interval as a property", Property::from(i).key() == "DURATION");
}
fn e(s: &str) -> Event { let mut e = Event::new(); e.summary(s).uid("1").add_property("DTSTAMP", "20200101T000000Z"); e }
pub fn calendar_of_one() {
    let s = v::text("s", "plain{0,10}");
    let mut long = Calendar::new();
    long.push(e(&s));
    v::check("from a component", same_text(&Calendar::from(e(&s)), &long) && same_text(&Calendar::from(CalendarComponent::from(e(&s))), &long) && same_text(&Calendar::from(CalendarComponent::Event(e(&s))), &long));
    v::check("from an array", same_text(&Calendar::from([e(&s)]), &long));
    v::check("collected", same_text(&vec![e(&s)].into_iter().collect::<Calendar>(), &long));
    v::check("unfinished or finished", same_text(&Calendar::from(e(&s).done()), &long));
    let mut x = Calendar::new();
    x.add(e(&s));
    v::check("added", same_text(&x, &long));
    let mut x = Calendar::default();
    x.extend(vec![e(&s)]);
    v::check("extended", same_text(&x, &long));
    let mut x = Calendar::new();
    x.extend(Some(e(&s)));
    v::check("extended by an option", same_text(&x, &long));
    let mut x = Calendar::new();
    let mut y = Calendar::from(e(&s));
    x.append(&mut y);
    v::check("moved from another", same_text(&x, &long) && y.components.is_empty());
    v::check("finished", same_text(&long.done(), &Calendar::from(e(&s))));
}
pub fn calendar_of_many() {
    let (s, t) = (v::text("s", "plain{0,10}"), v::text("t", "plain{0,10}"));
    let mut long = Calendar::new();
    long.push(e(&s)).push(e(&t)).push(e(&s));
    v::check("from an array", same_text(&Calendar::from([e(&s), e(&t), e(&s)]), &long));
    v::check("collected", same_text(&[&s, &t, &s].iter().map(|x| e(x)).collect::<Calendar>(), &long));
    let mut x = Calendar::new();
    x.extend([e(&s), e(&t)]);
    x.extend(vec![CalendarComponent::from(e(&s))]);
    v::check("extended", same_text(&x, &long));
    let mut x = Calendar::from(e(&s));
    let mut y = Calendar::from([e(&t), e(&s)]);
    x.append(&mut y);
    v::check("moved from another", same_text(&x, &long));
    let mut x = Calendar::new();
    x.push(e(&s)).add(e(&t)).push(CalendarComponent::Event(e(&s)));
    v::check("pushed", same_text(&x, &long));
    v::check("seen as a slice", long.len() == 3 && &long[..] == &long.components[..] && long.as_ref() == &long.components[..] && long.iter().eq(long.components.iter()));
}
pub fn calendar_of_nothing() {
    let none: Vec<Event> = vec![];
    v::check("new equals default", same_text(&Calendar::new(), &Calendar::default()));
    v::check("collected from nothing", same_text(&none.into_iter().collect::<Calendar>(), &Calendar::new()));
    v::check("from no elements", same_text(&Calendar::from([] as [Todo; 0]), &Calendar::new()));
    let mut x = Calendar::empty();
    v::check("empty has no properties", x.properties.is_empty() && x.components.is_empty());
    for p in Calendar::new().properties { x.append_property(p); }
    v::check("and new is empty with the default ones", same_text(&x, &Calendar::new()));
}
pub fn kinds() {
    let s = v::text("s", "any");
    let (mut a, mut b, mut c): (Event, Todo, Venue) = (some(), some(), some());
    a.summary(&s); b.summary(&s); c.summary(&s);
    let (x, y, z) = (CalendarComponent::from(a.clone()), CalendarComponent::from(b.clone()), CalendarComponent::from(c.clone()));
    v::check("conversion equals the variant", x == CalendarComponent::Event(a.clone()) && y == CalendarComponent::Todo(b.clone()) && z == CalendarComponent::Venue(c.clone()));
    v::check("as_event is the variant", x.as_event() == Some(&a) && y.as_event().is_none() && z.as_event().is_none());
    v::check("as_todo is the variant", y.as_todo() == Some(&b) && x.as_todo().is_none() && z.as_todo().is_none());
    let mut e = Event::new();
    e.append_component(a).append_component(b).append_component(c);
    for i in 0..3 { v::check("children are what was appended", e.components()[i].property_value("SUMMARY") == Some(s.as_str()) && e.components()[i].component_kind() == ["VEVENT", "VTODO", "VVENUE"][i]); }
}
/// a view of a component is what was converted, however little it holds
macro_rules! views { ($($n:ident: $t:ty, $e:expr, $y:expr;)*) => { pub mod views { use super::*; $( pub fn $n() {
    for i in 0..4 {
        let s = v::text(["s", "t", "u", "w"][i], "any{0,20}");
        let mut x: $t = if i == 0 { <$t>::new() } else { some() };
        if i == 1 { x.summary(&s); }
        if i == 2 { x.append_multi_property(Property::new("COMMENT", &*s)); }
        if i == 3 { x.append_component(Event::new().done()); }
        let c = CalendarComponent::from(x.clone());
        v::check("as_event", match c.as_event() { Some(y) => $e && y.properties() == x.properties() && y.multi_properties() == x.multi_properties() && y.components().len() == x.components().len(), None => !$e });
        v::check("as_todo", match c.as_todo() { Some(y) => $y && y.properties() == x.properties() && y.multi_properties() == x.multi_properties() && y.components().len() == x.components().len(), None => !$y });
    }
} )* } } }
views! { event: Event, true, false; todo: Todo, false, true; venue: Venue, false, false; }
pub fn calendar_values() {
    let (n, s) = (v::text("n", "any"), v::text("s", "any"));
    let mut c = Calendar::empty();
    v::check("nothing is found in an empty calendar", c.property_value(&n).is_none());
    c.append_property((n.as_str(), s.as_str()));
    let mut d = Calendar::empty();
    d.append_property(Property::new(&*n, &*s));
    v::check("a pair equals the property", c == d && c.properties == vec![Property::new(&*n, &*s)]);
    v::check("property_value is the value of the property", c.property_value(&n) == Some(s.as_str()));
}
