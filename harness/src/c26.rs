//! Repeated properties accumulate, single ones replace.
use crate::{util::*, v};
use icalendar::*;

macro_rules! all { ($($m:ident: $t:ty;)*) => { $( pub mod $m { use super::*;
    pub fn repeated() {
        let (a, b, c) = (v::text("a", "any"), v::text("b", "any"), v::text("c", "any"));
        let k = v::text("k", "any");
        let mut e = <$t>::new();
        e.add_property("SUMMARY", "s");
        e.add_multi_property(&k, &a);
        e.append_multi_property(Property::new(&*k, &*b).add_parameter("P", "q").done());
        e.add_multi_property(&k, &c);
        v::check("adding a repeated property leaves the single ones", e.properties().len() == 1 && e.property_value("SUMMARY") == Some("s"));
        v::check("one name is one entry", e.multi_properties().len() == 1);
        match e.multi_properties().get(&k) {
            Some(l) => v::check("all repeated properties are kept in order",
                l.len() == 3 && is_prop(&l[0], &k, &a, &[]) && is_prop(&l[1], &k, &b, &[("P", "q")]) && is_prop(&l[2], &k, &c, &[])),
            None => v::check("all repeated properties are kept in order", false),
        }
    }
    pub fn repeated_names() {
        let (a, b, c) = (v::text("a", "any"), v::text("b", "any"), v::text("c", "any"));
        let (k, l) = (v::text("k", "any"), v::text("l", "any"));
        v::assume(k != l);
        let mut e = <$t>::new();
        e.add_multi_property(&k, &a);
        e.add_multi_property(&l, &b);
        e.add_multi_property(&k, &c);
        v::check("names are separate entries", e.multi_properties().len() == 2 && e.properties().is_empty());
        let m = e.multi_properties();
        v::check("first name keeps both in order", match m.get(&k) { Some(x) => x.len() == 2 && is_prop(&x[0], &k, &a, &[]) && is_prop(&x[1], &k, &c, &[]), None => false });
        v::check("second name keeps its own", match m.get(&l) { Some(x) => x.len() == 1 && is_prop(&x[0], &l, &b, &[]), None => false });
    }
    pub fn single() {
        let (a, b, c) = (v::text("a", "any"), v::text("b", "any"), v::text("c", "any"));
        let (k, l) = (v::text("k", "any"), v::text("l", "any"));
        v::assume(k != l);
        let mut e = <$t>::new();
        e.add_multi_property(&k, &c);
        e.append_property(Property::new(&*k, &*a).add_parameter("P", "q").done());
        e.add_property(&*l, &*c);
        e.add_property(&*k, &*b);
        v::check("single property replaces the earlier one", match e.properties().get(&k) { Some(p) => is_prop(p, &k, &b, &[]), None => false });
        v::check("other single properties are untouched", e.properties().len() == 2 && match e.properties().get(&l) { Some(p) => is_prop(p, &l, &c, &[]), None => false });
        v::check("repeated ones are untouched", e.multi_properties().len() == 1 && match e.multi_properties().get(&k) { Some(x) => x.len() == 1 && is_prop(&x[0], &k, &c, &[]), None => false });
    }
    pub fn children() {
        let mut e = <$t>::new();
        e.append_component(Event::new().uid("1").done());
        e.append_component(Todo::new().uid("2").done());
        e.append_component(Event::new().uid("1").done());
        let c = e.components();
        v::check("children accumulate in order", c.len() == 3 && c[0].get_uid() == Some("1") && c[1].get_uid() == Some("2") && c[2].get_uid() == Some("1"));
        v::check("children keep their kind", c[0].component_kind() == "VEVENT" && c[1].component_kind() == "VTODO");
    }
} )* } }
all! { event: Event; todo: Todo; venue: Venue; }
pub fn parameters() {
    let (a, b, c) = (v::text("a", "any"), v::text("b", "any"), v::text("c", "any"));
    let (k, l) = (v::text("k", "any"), v::text("l", "any"));
    v::assume(k != l);
    let mut p = Property::new("X", "y");
    p.add_parameter(&k, &a);
    p.add_parameter(&l, &b);
    p.append_parameter(Parameter::new(&k, &c));
    v::check("parameter replaces the one of the same name only", is_prop(&p, "X", "y", &[(&k, &c), (&l, &b)]));
    p.append_parameter((&*l, &*a));
    v::check("parameter from a pair", is_prop(&p, "X", "y", &[(&k, &c), (&l, &a)]));
    let q = p.done();
    v::check("finishing keeps parameters", is_prop(&q, "X", "y", &[(&k, &c), (&l, &a)]));
}
pub fn deprecated_adders() {
    let (k, a, b) = (v::text("k", "any"), v::text("a", "any"), v::text("b", "any"));
    let mut e = Event::new();
    e.add_property_pre_alloc(k.clone(), a.clone());
    v::check("pre-allocated property", only(&e, &k, &a, &[]));
    e.add_property_pre_alloc(k.clone(), b.clone());
    v::check("pre-allocated property replaces", only(&e, &k, &b, &[]));
    let p = Property::new_pre_alloc(k.clone(), a.clone());
    v::check("pre-allocated property is complete", is_prop(&p, &k, &a, &[]));
}
/// many repeated properties, equal, empty and with parameters
macro_rules! many { ($($m:ident: $t:ty;)*) => { pub mod many { use super::*; $( pub fn $m() {
    let s = v::text("s", "any{0,20}");
    let mut c = <$t>::new();
    for i in 0..40 { c.append_multi_property(prop1("ATTENDEE", if i % 3 == 0 { "" } else { &s }, "P", if i % 5 == 0 { "" } else { "q" })); c.add_multi_property("COMMENT", if i % 2 == 0 { &s } else { "x" }); }
    let m = c.multi_properties();
    v::check("all are kept in order", m.len() == 2 && m["ATTENDEE"].len() == 40 && m["COMMENT"].len() == 40
        && (0..40).all(|i| is_prop(&m["ATTENDEE"][i], "ATTENDEE", if i % 3 == 0 { "" } else { &s }, &[("P", if i % 5 == 0 { "" } else { "q" })]) && is_prop(&m["COMMENT"][i], "COMMENT", if i % 2 == 0 { &s } else { "x" }, &[])));
} )* } } }
many! { event: Event; todo: Todo; venue: Venue; }
/// any registered name: single ones replace, repeated ones accumulate, and neither touches the other
macro_rules! named { ($($m:ident: $t:ty;)*) => { pub mod named { use super::*; $( pub fn $m() {
    let k = a_name();
    let (s, t) = (v::text("s", "any{0,20}"), v::text("t", "any{0,20}"));
    let mut c = <$t>::new();
    for l in NAMES.iter().chain(ODD.iter()) { c.add_property(*l, "0"); c.add_multi_property(l, "1"); }
    c.append_property(prop1(k, &s, "P", &t));
    c.add_multi_property(k, &t);
    v::check("the single one is replaced", match c.properties().get(k) { Some(p) => is_prop(p, k, &s, &[("P", &t)]), None => false });
    v::check("the repeated one accumulates", match c.multi_properties().get(k) { Some(l) => l.len() == 2 && is_prop(&l[0], k, "1", &[]) && is_prop(&l[1], k, &t, &[]), None => false });
    v::check("all others are untouched", c.properties().len() == NAMES.len() + ODD.len() && c.multi_properties().len() == NAMES.len() + ODD.len()
        && NAMES.iter().chain(ODD.iter()).all(|l| *l == k || c.property_value(l) == Some("0") && c.multi_properties()[*l].len() == 1));
    c.add_property(k, &t);
    v::check("replacing again drops the parameters", match c.properties().get(k) { Some(p) => is_prop(p, k, &t, &[]), None => false });
} )* } } }
named! { event: Event; todo: Todo; venue: Venue; }
/// children of a component keep the rules
pub fn of_a_child() {
    let (s, t, k) = (v::text("s", "any{0,20}"), v::text("t", "any{0,20}"), v::text("k", "any{0,20}"));
    let mut e = Event::new();
    e.append_component(Todo::new().add_property(&*k, &s).add_multi_property(&k, &s).done());
    let mut c = e.components()[0].clone();
    c.add_property(&*k, &t);
    c.add_multi_property(&k, &t);
    v::check("the single one is replaced", c.properties().len() == 1 && match c.properties().get(&k) { Some(p) => is_prop(p, &k, &t, &[]), None => false });
    v::check("the repeated one accumulates", c.multi_properties().len() == 1 && match c.multi_properties().get(&k) { Some(l) => l.len() == 2 && is_prop(&l[0], &k, &s, &[]) && is_prop(&l[1], &k, &t, &[]), None => false });
    c.append_component(Event::new().uid(&s).done());
    c.append_component(Event::new().uid(&s).done());
    v::check("children accumulate", c.components().len() == 2 && c.components()[0].get_uid() == Some(&*s));
    v::check("the kind stays", c.component_kind() == "VTODO");
}
pub fn of_an_alarm() {
    let (s, t, k) = (v::text("s", "any{0,20}"), v::text("t", "any{0,20}"), v::text("k", "any{0,20}"));
    v::assume(k != "ACTION" && k != "TRIGGER");
    let mut a = Alarm::audio(chrono::Duration::minutes(1));
    a.add_property(&*k, &s).add_multi_property(&k, &s).add_property(&*k, &t).add_multi_property(&k, &t);
    v::check("the single one is replaced", a.properties().len() == 3 && match a.properties().get(&k) { Some(p) => is_prop(p, &k, &t, &[]), None => false });
    v::check("the repeated one accumulates", match a.multi_properties().get(&k) { Some(l) => l.len() == 2 && is_prop(&l[0], &k, &s, &[]) && is_prop(&l[1], &k, &t, &[]), None => false });
}
