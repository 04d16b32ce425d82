//! Equality sees every difference, and nothing but differences.
use crate::{util::*, v};
use chrono::{DateTime, Duration, NaiveDate, NaiveDateTime, Utc};
use icalendar::*;

/// two values are equal exactly when this holds
fn eq<T: PartialEq>(a: &T, b: &T, same: bool) {
    v::check("equal exactly when there is no difference", (a == b) == same);
    v::check("in both directions", (b == a) == same);
    v::check("and unequal otherwise", (a != b) == !same);
}
fn itself<T: PartialEq + Clone>(a: &T) { v::check("a value equals itself", a == a); v::check("a copy equals the original", a.clone() == *a && *a == a.clone()); }

macro_rules! component { ($($m:ident: $c:ty;)*) => { $( pub mod $m { use super::*;
    fn some() -> $c { let mut c = <$c>::default(); c.append_property(prop1("X-A", "a", "P", "q")).append_multi_property(Property::new("COMMENT", "b")).append_component(Todo::new().summary("c").done()); c }
    pub fn values() {
        let (s, t) = (v::text("s", "any"), v::text("t", "any"));
        let (mut a, mut b) = (some(), some());
        a.summary(&s); b.summary(&t);
        itself(&a);
        eq(&a, &b, s == t);
    }
    pub fn names() {
        let (s, t) = (v::text("s", "any"), v::text("t", "any"));
        let (mut a, mut b) = (<$c>::default(), <$c>::default());
        a.add_property(s.as_str(), "x"); b.add_property(t.as_str(), "x");
        eq(&a, &b, s == t);
    }
    pub fn missing() {
        let s = v::text("s", "any");
        let (a, mut b) = (some(), some());
        b.add_property(s.as_str(), "x");
        eq(&a, &b, false);
        let mut d = some();
        d.append_multi_property(Property::new(s.as_str(), "x"));
        eq(&a, &d, false);
        eq(&b, &d, false);
        let mut e = some();
        e.append_component(Todo::new());
        eq(&a, &e, false);
    }
    pub fn parameters() {
        let (k, l, s, t) = (v::text("k", "any"), v::text("l", "any"), v::text("s", "any"), v::text("t", "any"));
        let (mut a, mut b) = (some(), some());
        a.append_property(prop1("X-B", "x", &k, &s)); b.append_property(prop1("X-B", "x", &l, &t));
        eq(&a, &b, k == l && s == t);
        let mut d = some();
        d.append_property(Property::new("X-B", "x"));
        eq(&a, &d, false);
    }
    pub fn repeated() {
        let (s, t, u) = (v::text("s", "any"), v::text("t", "any"), v::text("u", "any"));
        let (mut a, mut b) = (some(), some());
        a.add_multi_property("COMMENT", &s).add_multi_property("COMMENT", &t);
        b.add_multi_property("COMMENT", &s).add_multi_property("COMMENT", &u);
        itself(&a);
        eq(&a, &b, t == u);
        let mut d = some();
        d.add_multi_property("COMMENT", &s);
        eq(&a, &d, false);
    }
    pub fn order_of_repeated() {
        let (s, t) = (v::text("s", "any"), v::text("t", "any"));
        let (mut a, mut b) = (some(), some());
        a.add_multi_property("COMMENT", &s).add_multi_property("COMMENT", &t);
        b.add_multi_property("COMMENT", &t).add_multi_property("COMMENT", &s);
        eq(&a, &b, s == t);
    }
    pub fn children() {
        let (s, t) = (v::text("s", "any"), v::text("t", "any"));
        let (mut a, mut b, mut d) = (some(), some(), some());
        a.append_component(Event::new().summary(&s).done()); b.append_component(Event::new().summary(&t).done()); d.append_component(Todo::new().summary(&s).done());
        itself(&a);
        eq(&a, &b, s == t);
        eq(&a, &d, false);
        let (mut x, mut y) = (some(), some());
        x.append_component(a); y.append_component(b);
        eq(&x, &y, s == t);
    }
    pub fn order_of_children() {
        let (s, t) = (v::text("s", "any"), v::text("t", "any"));
        let (mut a, mut b) = (some(), some());
        a.append_component(Event::new().summary(&s).done()).append_component(Event::new().summary(&t).done());
        b.append_component(Event::new().summary(&t).done()).append_component(Event::new().summary(&s).done());
        eq(&a, &b, s == t);
    }
    pub fn order_of_single_ones() {
        let (k, l) = (v::text("k", "any"), v::text("l", "any"));
        let (mut a, mut b) = (some(), some());
        a.add_property(k.as_str(), "x").add_property(l.as_str(), "y"); b.add_property(l.as_str(), "y").add_property(k.as_str(), "x");
        v::check("the order in which single properties were set makes no difference", k == l || a == b);
    }
    pub fn single_is_not_repeated() {
        let s = v::text("s", "any");
        let (mut a, mut b) = (<$c>::default(), <$c>::default());
        a.add_property(s.as_str(), "x"); b.add_multi_property(&s, "x");
        eq(&a, &b, false);
    }
} )* } }
component! { event: Event; todo: Todo; venue: Venue; }
pub fn parameter() {
    let (k, l, s, t) = (v::text("k", "any"), v::text("l", "any"), v::text("s", "any"), v::text("t", "any"));
    let (a, b) = (Parameter::new(&k, &s), Parameter::new(&l, &t));
    itself(&a);
    eq(&a, &b, k == l && s == t);
}
pub fn property() {
    let (k, l, s, t) = (v::text("k", "any"), v::text("l", "any"), v::text("s", "any"), v::text("t", "any"));
    let (a, b) = (Property::new(k.as_str(), s.as_str()), Property::new(l.as_str(), t.as_str()));
    itself(&a);
    eq(&a, &b, k == l && s == t);
    eq(&a, &prop1(&k, &s, &l, &t), false);
}
pub fn property_parameters() {
    let (k, l, s, t) = (v::text("k", "any"), v::text("l", "any"), v::text("s", "any"), v::text("t", "any"));
    let (a, b) = (prop1("X-A", "x", &k, &s), prop1("X-A", "x", &l, &t));
    itself(&a);
    eq(&a, &b, k == l && s == t);
    let (mut c, mut d) = (a.clone(), a.clone());
    c.add_parameter("Z", "1").add_parameter("Y", "2"); d.add_parameter("Y", "2").add_parameter("Z", "1");
    eq(&c, &d, true);
    eq(&c, &a, false);
}
pub fn calendar() {
    let (k, l, s, t) = (v::text("k", "any"), v::text("l", "any"), v::text("s", "any"), v::text("t", "any"));
    let (mut a, mut b) = (Calendar::new(), Calendar::new());
    eq(&a, &b, true);
    a.append_property((k.as_str(), s.as_str())); b.append_property((l.as_str(), t.as_str()));
    v::check("a calendar equals itself", a == a);
    eq(&a, &b, k == l && s == t);
    eq(&a, &Calendar::new(), false);
    eq(&Calendar::new(), &Calendar::empty(), false);
}
pub fn calendar_components() {
    let (s, t) = (v::text("s", "any"), v::text("t", "any"));
    let e = |s: &str| Event::new().summary(s).done();
    let (a, b) = (Calendar::from([e(&s), e("x")]), Calendar::from([e(&t), e("x")]));
    eq(&a, &b, s == t);
    eq(&a, &Calendar::from(e(&s)), false);
    eq(&a, &Calendar::from([e("x"), e(&s)]), s == "x");
    eq(&Calendar::from(e(&s)), &Calendar::from(Todo::new().summary(&s).done()), false);
    let mut c = Calendar::from([e(&s), e("x")]);
    c.append_property(("X-A", "x"));
    eq(&a, &c, false);
}
pub fn calendar_component() {
    let (s, t) = (v::text("s", "any"), v::text("t", "any"));
    let (a, b) = (CalendarComponent::from(Event::new().summary(&s).done()), CalendarComponent::from(Event::new().summary(&t).done()));
    itself(&a);
    eq(&a, &b, s == t);
    let (c, d) = (CalendarComponent::from(Todo::new().summary(&s).done()), CalendarComponent::from(Venue::new().summary(&s).done()));
    itself(&c); itself(&d);
    eq(&a, &c, false); eq(&a, &d, false); eq(&c, &d, false);
    eq(&c, &CalendarComponent::from(Todo::new().summary(&t).done()), s == t);
    eq(&d, &CalendarComponent::from(Venue::new().summary(&t).done()), s == t);
}
#[cfg(feature = "full")] fn other(k: &str, s: &str) -> Option<CalendarComponent> { format!("BEGIN:{k}\r\nSUMMARY:{s}\r\nEND:{k}\r\n").parse::<CalendarComponent>().ok() }
#[cfg(feature = "full")] pub fn other_components() {
    let (s, t) = (v::text("s", "word{0,10}"), v::text("t", "word{0,10}"));
    match (other("VFREEBUSY", &s), other("VFREEBUSY", &t), other("VJOURNAL", &s)) {
        (Some(a), Some(b), Some(c)) => { itself(&a); eq(&a, &b, s == t); eq(&a, &c, false); }
        _ => v::check("they are read", false),
    }
}
#[cfg(feature = "full")] pub fn kinds_of_children() {
    let (k, l) = (v::text("k", "name{1,10}"), v::text("l", "name{1,10}"));
    v::assume(k != "VEVENT" && k != "VTODO" && k != "VVENUE" && l != "VEVENT" && l != "VTODO" && l != "VVENUE");
    match (other(&k, "x"), other(&l, "x")) { (Some(a), Some(b)) => eq(&a, &b, k == l), _ => v::check("they are read", false) }
}
pub fn alarms() {
    let (s, t, d, e) = (v::text("s", "any"), v::text("t", "any"), v::dur("d", 0, 100000), v::dur("e", 0, 100000));
    let (a, b) = (Alarm::display(&s, d), Alarm::display(&t, d));
    itself(&a);
    eq(&a, &b, s == t);
    eq(&a, &Alarm::audio(d), false);
    eq(&a, &Alarm::display(&s, (d, Related::Start)), false);
    eq(&a, &a.clone().duration_and_repeat(d, 1), false);
    let (n, m) = (v::ndt("n"), v::ndt("m"));
    eq(&Alarm::audio(CalendarDateTime::from(n)), &Alarm::audio(CalendarDateTime::from(m)), n == m);
}
pub fn forms_of_dates() {
    let (n, u, d) = (v::ndt("n"), v::utc("u"), v::date("d"));
    let all = [DatePerhapsTime::from(n), DatePerhapsTime::from(u), DatePerhapsTime::from(d), DatePerhapsTime::from(CalendarDateTime::WithTimezone { date_time: n, tzid: "UTC".to_string() })];
    for i in 0..4 { itself(&all[i]); for j in 0..4 { eq(&all[i], &all[j], i == j); } }
}
pub fn dates() {
    let (n, m, u, w, d, e) = (v::ndt("n"), v::ndt("m"), v::utc("u"), v::utc("w"), v::date("d"), v::date("e"));
    eq(&DatePerhapsTime::from(n), &DatePerhapsTime::from(m), n == m);
    eq(&DatePerhapsTime::from(u), &DatePerhapsTime::from(w), u == w);
    eq(&DatePerhapsTime::from(d), &DatePerhapsTime::from(e), d == e);
}
pub fn times() {
    let (n, m, u, w) = (v::ndt("n"), v::ndt("m"), v::utc("u"), v::utc("w"));
    eq(&CalendarDateTime::from(n), &CalendarDateTime::from(m), n == m);
    eq(&CalendarDateTime::from(u), &CalendarDateTime::from(w), u == w);
}
pub fn zoned() {
    let (n, m, s, t) = (v::ndt("n"), v::ndt("m"), v::text("s", "any"), v::text("t", "any"));
    let z = |n: &NaiveDateTime, s: &str| CalendarDateTime::WithTimezone { date_time: *n, tzid: s.to_string() };
    eq(&z(&n, &s), &z(&m, &s), n == m);
    eq(&z(&n, &s), &z(&n, &t), s == t);
    eq(&DatePerhapsTime::from(z(&n, &s)), &DatePerhapsTime::from(z(&n, &t)), s == t);
}
pub fn triggers() {
    let (d, e, u, w) = (v::dur("d", -100000, 100000), v::dur("e", -100000, 100000), v::utc("u"), v::utc("w"));
    let all = [Trigger::from(d), Trigger::after_start(d), Trigger::after_end(d), Trigger::from(u)];
    for i in 0..4 { itself(&all[i]); for j in 0..4 { eq(&all[i], &all[j], i == j); } }
    let others = [Trigger::from(e), Trigger::after_start(e), Trigger::after_end(e), Trigger::from(w)];
    for i in 0..3 { eq(&all[i], &others[i], d == e); }
    eq(&all[3], &others[3], u == w);
}
pub fn small_ones() {
    let classes = [Class::Public, Class::Private, Class::Confidential];
    for i in 0..3 { for j in 0..3 { v::check("classes", (classes[i] == classes[j]) == (i == j)); } }
    let e = [EventStatus::Tentative, EventStatus::Confirmed, EventStatus::Cancelled];
    for i in 0..3 { for j in 0..3 { v::check("states of events", (e[i] == e[j]) == (i == j)); } }
    let t = [TodoStatus::NeedsAction, TodoStatus::Completed, TodoStatus::InProcess, TodoStatus::Cancelled];
    for i in 0..4 { for j in 0..4 { v::check("states of to-dos", (t[i] == t[j]) == (i == j)); } }
    v::check("relations", Related::Start == Related::Start && Related::End == Related::End && Related::Start != Related::End);
}
pub fn value_types() {
    let all = [ValueType::Binary, ValueType::Boolean, ValueType::CalAddress, ValueType::Date, ValueType::DateTime, ValueType::Duration, ValueType::Float, ValueType::Integer, ValueType::Period, ValueType::Recur, ValueType::Text, ValueType::Time, ValueType::Uri, ValueType::UtcOffset];
    for i in 0..14 { for j in 0..14 { v::check("value types", (all[i] == all[j]) == (i == j)); } }
}
#[cfg(feature = "full")] pub fn parsed_components() {
    let (s, t) = (v::text("s", "word{0,10}"), v::text("t", "word{0,10}"));
    let (x, y) = (format!("BEGIN:VEVENT\r\nX-A:{s}\r\nEND:VEVENT\r\n"), format!("BEGIN:VEVENT\r\nX-A:{t}\r\nEND:VEVENT\r\n"));
    match (parser::Component::try_from(x.as_str()), parser::Component::try_from(y.as_str())) {
        (Ok(a), Ok(b)) => { itself(&a); eq(&a, &b, s == t); }
        _ => v::check("they are read", false),
    }
}
#[cfg(feature = "full")] pub fn parsed_properties() {
    let (s, t) = (v::text("s", "word{0,10}"), v::text("t", "word{0,10}"));
    for (f, g) in [(format!("X-A:{s}\r\n"), format!("X-A:{t}\r\n")), (format!("X-A;P={s}:x\r\n"), format!("X-A;P={t}:x\r\n"))] {
        match (parser::Property::try_from(f.as_str()), parser::Property::try_from(g.as_str())) {
            (Ok(a), Ok(b)) => { itself(&a); eq(&a, &b, s == t); }
            _ => v::check("they are read", false),
        }
    }
}
/// text parsed with and without an escape is compared by its content
#[cfg(feature = "full")] pub fn parse_strings() {
    let (s, t) = (v::text("s", "any"), v::text("t", "any"));
    eq(&parser::ParseString::from(s.as_str()), &parser::ParseString::from(t.as_str()), s == t);
    eq(&parser::ParseString::from(s.clone()), &parser::ParseString::from(s.as_str()), true);
    v::check("and so with text", (parser::ParseString::from(s.as_str()) == t.as_str()) == (s == t));
}
