//! A calendar keeps its components and properties in order.
use crate::{util::*, v};
use icalendar::*;
use std::iter::FromIterator;

fn defaults(c: &Calendar) -> bool {
    c.properties.len() == 3 && is_prop(&c.properties[0], "VERSION", "2.0", &[]) && is_prop(&c.properties[1], "PRODID", "ICALENDAR-RS", &[])
        && is_prop(&c.properties[2], "CALSCALE", "GREGORIAN", &[])
}
fn ev(s: &str) -> Event { Event::new().uid(s).summary("e").done() }
fn is_ev(c: &CalendarComponent, s: &str) -> bool { match c { CalendarComponent::Event(e) => *e == ev(s), _ => false } }
fn td(s: &str) -> Todo { Todo::new().uid(s).priority(3).done() }
fn is_td(c: &CalendarComponent, s: &str) -> bool { match c { CalendarComponent::Todo(e) => *e == td(s), _ => false } }
fn vn(s: &str) -> Venue { Venue::new().uid(s).locality("x").done() }
fn is_vn(c: &CalendarComponent, s: &str) -> bool { match c { CalendarComponent::Venue(e) => *e == vn(s), _ => false } }

pub fn fresh() {
    v::check("a new calendar has exactly the default properties", defaults(&Calendar::new()) && Calendar::new().components.is_empty());
    v::check("a default calendar has exactly the default properties", defaults(&Calendar::default()) && Calendar::default().components.is_empty());
    let e = Calendar::empty();
    v::check("an empty calendar has none", e.properties.is_empty() && e.components.is_empty());
}
pub fn pushed() {
    let (a, b, d) = (v::text("a", "any"), v::text("b", "any"), v::text("d", "any"));
    let mut c = Calendar::new();
    c.push(ev(&a));
    c.push(td(&b)).push(vn(&d));
    v::check("pushed components in order", c.components.len() == 3 && is_ev(&c.components[0], &a) && is_td(&c.components[1], &b) && is_vn(&c.components[2], &d));
    v::check("pushing leaves the properties", defaults(&c));
    v::check("deref is the components", c.len() == 3 && is_ev(&c[0], &a) && is_vn(&c[2], &d));
    let r: &[CalendarComponent] = c.as_ref();
    v::check("as_ref is the components", r.len() == 3 && is_ev(&r[0], &a) && is_td(&r[1], &b));
    let f = c.done();
    v::check("finished calendar keeps all", f.components.len() == 3 && is_ev(&f.components[0], &a) && is_td(&f.components[1], &b) && is_vn(&f.components[2], &d) && defaults(&f));
}
pub fn extended() {
    let (a, b, d) = (v::text("a", "any"), v::text("b", "any"), v::text("d", "any"));
    let mut c = Calendar::empty();
    c.push(td(&d));
    c.extend(vec![ev(&a), ev(&b), ev(&a)]);
    v::check("extended by the given components in order", c.components.len() == 4 && is_td(&c.components[0], &d) && is_ev(&c.components[1], &a) && is_ev(&c.components[2], &b) && is_ev(&c.components[3], &a));
    c.extend([CalendarComponent::Todo(td(&b)), CalendarComponent::Venue(vn(&a))]);
    v::check("extended twice", c.components.len() == 6 && is_td(&c.components[4], &b) && is_vn(&c.components[5], &a));
    v::check("extending leaves the properties", c.properties.is_empty());
}
pub fn appended() {
    let (a, b) = (v::text("a", "any"), v::text("b", "any"));
    let mut c = Calendar::empty();
    c.push(ev(&a));
    let mut o = Calendar::new();
    o.push(td(&b)).push(ev(&b));
    c.append(&mut o);
    v::check("appending moves all components", c.components.len() == 3 && is_ev(&c.components[0], &a) && is_td(&c.components[1], &b) && is_ev(&c.components[2], &b));
    v::check("the other calendar has no components left", o.components.is_empty());
}
pub fn appended_to_any() {
    let (a, k) = (v::text("a", "any"), v::text("k", "any"));
    let full = |with: bool| { let mut c = Calendar::new(); c.append_property((&*k, &*a)); if with { c.push(ev(&a)); } c };
    let is_full = |c: &Calendar| c.properties.len() == 4 && is_prop(&c.properties[3], &k, &a, &[]);
    for with in [false, true] {
        let n = with as usize;
        let (mut c, mut o) = (Calendar::empty(), full(with));
        c.append(&mut o);
        v::check("an empty one gets the components only", c.properties.is_empty() && c.components.len() == n && o.components.is_empty() && is_full(&o));
        let (mut c, mut o) = (full(with), Calendar::empty());
        c.append(&mut o);
        v::check("nothing comes from an empty one", is_full(&c) && c.components.len() == n && o.properties.is_empty() && o.components.is_empty());
        let (mut c, mut o) = (Calendar::new(), full(with));
        c.append(&mut o);
        v::check("the default properties stay", defaults(&c) && c.components.len() == n && is_full(&o));
        let (mut c, mut o) = (full(with), full(with));
        c.append(&mut o);
        v::check("the same properties stay", is_full(&c) && c.components.len() == 2 * n && is_full(&o) && o.components.is_empty());
    }
    let mut c = Calendar::empty();
    c.extend(Vec::<Event>::new());
    v::check("an empty one stays empty", c.properties.is_empty() && c.components.is_empty());
}
pub fn collected() {
    let (a, b, d) = (v::text("a", "any"), v::text("b", "any"), v::text("d", "any"));
    let c = Calendar::from([ev(&a), ev(&b), ev(&d)]);
    v::check("from an array", c.components.len() == 3 && is_ev(&c.components[0], &a) && is_ev(&c.components[1], &b) && is_ev(&c.components[2], &d) && defaults(&c));
    let c = Calendar::from_iter(vec![td(&a), td(&b)]);
    v::check("collected", c.components.len() == 2 && is_td(&c.components[0], &a) && is_td(&c.components[1], &b) && defaults(&c));
    let c: Calendar = vec![CalendarComponent::Venue(vn(&a)), CalendarComponent::Event(ev(&b))].into_iter().collect();
    v::check("collected entries", c.components.len() == 2 && is_vn(&c.components[0], &a) && is_ev(&c.components[1], &b) && defaults(&c));
    let c = Calendar::from(ev(&d));
    v::check("from one component", c.components.len() == 1 && is_ev(&c.components[0], &d) && defaults(&c));
}
pub fn properties() {
    let (a, b, k) = (v::text("a", "any"), v::text("b", "any"), v::text("k", "any"));
    let mut c = Calendar::new();
    c.append_property((&*k, &*a));
    c.append_property(Property::new(&*k, &*b).add_parameter("P", "q").done());
    v::check("properties are appended in order", c.properties.len() == 5 && is_prop(&c.properties[3], &k, &a, &[]) && is_prop(&c.properties[4], &k, &b, &[("P", "q")]));
    v::check("appending leaves the components", c.components.is_empty());
    let mut d = Calendar::empty();
    d.append_property((&*k, &*a));
    d.append_property((&*k, &*b));
    v::check("the first property of a name is found", d.property_value(&k) == Some(&*a));
    v::check("a finished calendar keeps its properties", { let e = d.done(); e.properties.len() == 2 && e.property_value(&k) == Some(&*a) });
}
macro_rules! pair { ($name:ident, $set:ident, $get:ident, $k1:expr, $k2:expr) => {
    pub fn $name() {
        let (a, b) = (v::text("a", "any"), v::text("b", "any"));
        let mut c = Calendar::empty();
        c.$set(&a);
        v::check("both properties are written", c.properties.len() == 2 && is_prop(&c.properties[0], $k1, &a, &[]) && is_prop(&c.properties[1], $k2, &a, &[]));
        let mut c = Calendar::new();
        c.append_property(($k2, &*a));
        v::check("read from the second property alone", c.$get() == Some(&*a));
        c.append_property(($k1, &*b));
        v::check("the first property has precedence", c.$get() == Some(&*b));
        let mut c = Calendar::new();
        c.append_property(($k1, &*a));
        v::check("read from the first property alone", c.$get() == Some(&*a));
    } } }
pair!(name, name, get_name, "NAME", "X-WR-CALNAME");
pair!(description, description, get_description, "DESCRIPTION", "X-WR-CALDESC");
pair!(timezone, timezone, get_timezone, "TIMEZONE-ID", "X-WR-TIMEZONE");
pub fn ttl() {
    let (d, e) = (v::dur("d", 0, 4294967295), v::dur("e", 0, 4294967295));
    let mut c = Calendar::empty();
    c.append_property(("X-PUBLISHED-TTL", &*d.to_string()));
    v::check("read from X-PUBLISHED-TTL alone", c.get_ttl() == Some(d));
    c.append_property(("REFRESH-INTERVAL", &*e.to_string()));
    v::check("REFRESH-INTERVAL has precedence", c.get_ttl() == Some(e));
}
/// any source of components: counted or not, empty, filtered, joined
macro_rules! sources { ($($n:ident: $e:expr, $want:expr;)*) => { pub mod sources { use super::*; $( pub fn $n() {
    let (a, b) = (v::text("a", "any"), v::text("b", "any"));
    let make = |i: usize| if i % 3 == 0 { ev(&a) } else { ev(&b) };
    let ok = |c: &Calendar, from: usize| { let w: Vec<usize> = $want; c.components.len() == from + w.len() && (0..w.len()).all(|i| is_ev(&c.components[from + i], if w[i] % 3 == 0 { &a } else { &b })) };
    let mut c = Calendar::new();
    c.extend($e(&make));
    v::check("extended by all of them in order", ok(&c, 0) && defaults(&c));
    c.extend($e(&make));
    v::check("extended again by all of them", ok(&c, $want.len()));
    v::check("the first ones stay", { let w: Vec<usize> = $want; (0..w.len()).all(|i| is_ev(&c.components[i], if w[i] % 3 == 0 { &a } else { &b })) });
    let c = Calendar::from_iter($e(&make));
    v::check("collected all of them in order", ok(&c, 0) && defaults(&c));
    let c: Calendar = $e(&make).collect();
    v::check("collected by the iterator", ok(&c, 0) && defaults(&c));
} )* } } }
fn upto<'a>(n: usize, make: &'a dyn Fn(usize) -> Event) -> impl Iterator<Item = Event> + 'a { let mut i = 0; std::iter::from_fn(move || { if i < n { i += 1; Some(make(i - 1)) } else { None } }) }
sources! {
    none: |f: &dyn Fn(usize) -> Event| (0..0).map(|i| f(i)).collect::<Vec<_>>().into_iter(), Vec::<usize>::new();
    one: |f: &dyn Fn(usize) -> Event| vec![f(0)].into_iter(), vec![0];
    filtered: |f: &dyn Fn(usize) -> Event| (0..7).filter(|i| i % 2 == 1).map(|i| f(i)).collect::<Vec<_>>().into_iter().filter(|_| true), vec![1usize, 3, 5];
    joined: |f: &dyn Fn(usize) -> Event| vec![f(0), f(1)].into_iter().chain(vec![f(3), f(4), f(6)]), vec![0usize, 1, 3, 4, 6];
    uncounted: |f| upto(7, f), vec![0usize, 1, 2, 3, 4, 5, 6];
    uncounted_one: |f| upto(1, f), vec![0usize];
    uncounted_none: |f| upto(0, f), Vec::<usize>::new();
    reversed: |f: &dyn Fn(usize) -> Event| vec![f(0), f(1), f(2), f(3)].into_iter().rev(), vec![3usize, 2, 1, 0];
    skipped: |f: &dyn Fn(usize) -> Event| vec![f(0), f(1), f(2), f(3)].into_iter().skip(1).take(2), vec![1usize, 2];
    many: |f: &dyn Fn(usize) -> Event| (0..70).map(|i| f(i)).collect::<Vec<_>>().into_iter(), (0..70).collect::<Vec<usize>>();
}
/// components of mixed kinds, some equal, moved from one calendar to another
pub fn mixed() {
    let (a, b) = (v::text("a", "any"), v::text("b", "any"));
    let mut o = Calendar::new();
    o.append_property(("X-A", &*a));
    o.extend(vec![ev(&a), ev(&a), ev(&a)]);
    o.extend(vec![td(&a), td(&a)]);
    o.push(vn(&b)).push(ev(&a)).push(td(&a));
    let mut c = Calendar::empty();
    c.append_property(("X-B", &*b));
    c.append(&mut o);
    c.append(&mut o);
    c.append(&mut Calendar::new());
    let kinds = "EEETTVET";
    v::check("all components come in order", c.components.len() == 8 && (0..8).all(|i| match &kinds[i..i + 1] { "E" => is_ev(&c.components[i], &a), "T" => is_td(&c.components[i], &a), _ => is_vn(&c.components[i], &b) }));
    v::check("the other one has no components", o.components.is_empty());
    v::check("its properties stay as they were", c.properties.len() == 1 && is_prop(&c.properties[0], "X-B", &b, &[]));
    let mut d = Calendar::new();
    d.extend(c.components.clone());
    v::check("entries of all kinds can be added", d.components == c.components);
    let d: Calendar = c.components.clone().into_iter().filter(|x| !matches!(x, CalendarComponent::Todo(_))).collect();
    v::check("and filtered", d.components.len() == 5 && is_vn(&d.components[3], &b) && is_ev(&d.components[4], &a));
}
/// other kinds of components, and events without anything
#[cfg(feature = "full")] pub fn other_kinds() {
    let k = a_kind();
    let mut c = Calendar::new();
    c.push(Event::new()).push(Todo::new()).push(Venue::new());
    let o: CalendarComponent = CalendarComponent::from(parser::Component { name: k.into(), properties: vec![], components: vec![] });
    c.push(o.clone());
    c.push(o.clone());
    c.extend(vec![o.clone(), o.clone()]);
    v::check("components of any kind are kept", c.components.len() == 7 && (3..7).all(|i| c.components[i] == o) && c.components[0] == CalendarComponent::Event(Event::new()) && c.components[2] == CalendarComponent::Venue(Venue::new()));
    let d = c.done();
    v::check("also when finished", d.components.len() == 7 && (3..7).all(|i| d.components[i] == o));
}
/// a property of any name, any number of times
pub fn named() {
    let k = a_name();
    let (s, t) = (v::text("s", "any{0,20}"), v::text("t", "any{0,20}"));
    let mut c = Calendar::new();
    c.append_property(prop1(k, &s, "P", &t)).append_property(prop1(k, &s, "P", &t)).append_property((k, &*t)).append_property((k, ""));
    v::check("every property is appended", c.properties.len() == 7 && is_prop(&c.properties[3], k, &s, &[("P", &t)]) && is_prop(&c.properties[4], k, &s, &[("P", &t)]) && is_prop(&c.properties[5], k, &t, &[]) && is_prop(&c.properties[6], k, "", &[]));
    v::check("the defaults stay", is_prop(&c.properties[0], "VERSION", "2.0", &[]) && is_prop(&c.properties[2], "CALSCALE", "GREGORIAN", &[]));
    let first = match k { "VERSION" => "2.0", "PRODID" => "ICALENDAR-RS", "CALSCALE" => "GREGORIAN", _ => &s };
    v::check("the first of a name is found", c.property_value(k) == Some(first));
    v::check("a finished calendar keeps them", { let d = c.done(); d.properties.len() == 7 && is_prop(&d.properties[6], k, "", &[]) && is_prop(&d.properties[3], k, &s, &[("P", &t)]) });
}
