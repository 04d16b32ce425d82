//! Finishing a builder or copying it loses nothing.
use crate::{util::*, v};
use chrono::Duration;
use icalendar::*;

fn p1(k: &str, s: &str, t: &str) -> Property { Property::new(k, s).add_parameter("P", t).add_parameter("Q", "r").done() }
fn fill<C: Component>(c: &mut C, k: &str, s: &str, t: &str) {
    c.append_property(p1(k, s, t));
    c.add_property("SUMMARY", s);
    c.append_multi_property(p1("ATTENDEE", t, s));
    c.append_multi_property(p1("ATTENDEE", s, s));
    c.append_multi_property(p1("COMMENT", s, t));
    c.append_component(Event::new().uid("child").append_property(p1(k, t, s)).done());
    c.append_component(Todo::new().uid("child2").add_multi_property("ATTENDEE", s).done());
}
/// the component holds what fill put in
fn filled<C: Component>(c: &C, k: &str, s: &str, t: &str) -> bool {
    c.properties().len() == 2 && c.properties().get(k) == Some(&p1(k, s, t)) && c.property_value("SUMMARY") == Some(s)
        && c.multi_properties().len() == 2
        && match c.multi_properties().get("ATTENDEE") { Some(l) => l.len() == 2 && l[0] == p1("ATTENDEE", t, s) && l[1] == p1("ATTENDEE", s, s), None => false }
        && match c.multi_properties().get("COMMENT") { Some(l) => l.len() == 1 && l[0] == p1("COMMENT", s, t), None => false }
        && c.components().len() == 2
        && c.components()[0].component_kind() == "VEVENT" && c.components()[0].properties().len() == 2 && c.components()[0].get_uid() == Some("child")
        && c.components()[0].properties().get(k) == Some(&p1(k, t, s))
        && c.components()[1].component_kind() == "VTODO" && c.components()[1].get_uid() == Some("child2")
        && match c.components()[1].multi_properties().get("ATTENDEE") { Some(l) => l.len() == 1 && is_prop(&l[0], "ATTENDEE", s, &[]), None => false }
}
fn texts() -> (String, String, String) {
    let k = v::text("k", "any");
    v::assume(k != "SUMMARY");
    v::assume(k != "UID");
    (k, v::text("s", "any"), v::text("t", "any"))
}
macro_rules! all { ($($m:ident: $t:ty, $kind:expr;)*) => { $( pub mod $m { use super::*;
    pub fn done() {
        let (k, s, t) = texts();
        let mut c = <$t>::new();
        fill(&mut c, &k, &s, &t);
        v::check("builder holds everything", filled(&c, &k, &s, &t));
        let d = c.done();
        v::check("finished component holds everything", filled(&d, &k, &s, &t));
        v::check("the kind stays", d.component_kind() == $kind);
        let e = d.clone();
        v::check("a copy holds everything", filled(&e, &k, &s, &t) && e == d);
    }
    pub fn as_child() {
        let (k, s, t) = texts();
        let mut c = <$t>::new();
        fill(&mut c, &k, &s, &t);
        let mut parent = Event::new();
        parent.append_component(c.done());
        v::check("exactly one child", parent.components().len() == 1);
        v::check("a child component holds everything", filled(&parent.components()[0], &k, &s, &t));
        v::check("a child component keeps its kind", parent.components()[0].component_kind() == $kind);
        let finished = parent.done();
        v::check("a finished parent keeps its child", finished.components().len() == 1 && filled(&finished.components()[0], &k, &s, &t)
            && finished.components()[0].component_kind() == $kind);
        let again = finished.clone();
        v::check("a copied parent keeps its child", again.components().len() == 1 && filled(&again.components()[0], &k, &s, &t));
    }
} )* } }
all! { event: Event, "VEVENT"; todo: Todo, "VTODO"; venue: Venue, "VVENUE"; }
pub fn entries() {
    let (k, s, t) = texts();
    let mut e = Event::new();
    fill(&mut e, &k, &s, &t);
    let mut d = Todo::new();
    fill(&mut d, &k, &s, &t);
    let mut n = Venue::new();
    fill(&mut n, &k, &s, &t);
    let ce = CalendarComponent::from(e.done());
    let cd = CalendarComponent::from(d.done());
    let cn = CalendarComponent::from(n.done());
    v::check("an event becomes an event entry", match &ce { CalendarComponent::Event(x) => filled(x, &k, &s, &t), _ => false });
    v::check("a to-do becomes a to-do entry", match &cd { CalendarComponent::Todo(x) => filled(x, &k, &s, &t), _ => false });
    v::check("a venue becomes a venue entry", match &cn { CalendarComponent::Venue(x) => filled(x, &k, &s, &t), _ => false });
    v::check("as_event gives the event", match ce.as_event() { Some(x) => filled(x, &k, &s, &t), None => false });
    v::check("as_todo gives the to-do", match cd.as_todo() { Some(x) => filled(x, &k, &s, &t), None => false });
    v::check("as_event of others", cd.as_event().is_none() && cn.as_event().is_none());
    v::check("as_todo of others", ce.as_todo().is_none() && cn.as_todo().is_none());
}
fn alarm_ok<C: Component>(a: &C, s: &str, d: Duration, e: Duration, n: u32) -> bool {
    a.component_kind() == "VALARM" && a.properties().len() == 6 && a.property_value("DESCRIPTION") == Some(s)
        && a.property_value("ACTION") == Some("DISPLAY") && a.property_value("X-A") == Some(s)
        && a.properties().get("TRIGGER").map_or(false, |p| is_prop(p, "TRIGGER", &d.to_string(), &[("RELATED", "END")]))
        && a.property_value("DURATION") == Some(&*e.to_string()) && a.property_value("REPEAT") == Some(&*n.to_string())
        && a.multi_properties().len() == 1 && a.multi_properties().get("ATTENDEE").map_or(false, |l| l.len() == 1 && l[0] == p1("ATTENDEE", s, s))
}
pub fn alarm() {
    let s = v::text("s", "any");
    let (d, e) = (v::dur("d", -4294967295, 4294967295), v::dur("e", 0, 4294967295));
    let n = v::u32("n", 0, 4294967295);
    let a = Alarm::display(&s, (d, Related::End)).duration_and_repeat(e, n).add_property("X-A", &*s).append_multi_property(p1("ATTENDEE", &s, &s)).done();
    let mut ev = Event::new();
    ev.alarm(a.clone());
    v::check("an alarm becomes a child with everything", ev.components().len() == 1 && alarm_ok(&ev.components()[0], &s, d, e, n));
    let fin = ev.done();
    v::check("a finished event keeps its alarm", fin.components().len() == 1 && alarm_ok(&fin.components()[0], &s, d, e, n));
    let mut td = Todo::new();
    td.append_component(a);
    v::check("an appended alarm is the same", td.components().len() == 1 && alarm_ok(&td.components()[0], &s, d, e, n));
}
pub fn property() {
    let (k, s) = (v::text("k", "any"), v::text("s", "any"));
    let (pk, pv, qk, qv) = (v::text("pk", "any"), v::text("pv", "any"), v::text("qk", "any"), v::text("qv", "any"));
    v::assume(pk != qk);
    let mut b = Property::new(&*k, &*s);
    b.add_parameter(&pk, &pv).add_parameter(&qk, &qv);
    let d = b.done();
    v::check("a finished property holds everything", is_prop(&d, &k, &s, &[(&pk, &pv), (&qk, &qv)]));
    v::check("a copied property holds everything", is_prop(&d.clone(), &k, &s, &[(&pk, &pv), (&qk, &qv)]) && d.clone() == d);
    let p = Property::from((&*k, &*s));
    v::check("a property from a pair", is_prop(&p, &k, &s, &[]));
    let a = Property::from_array([(&*k, &*s), (&*s, &*k)]);
    v::check("properties from an array", a.len() == 2 && is_prop(&a[0], &k, &s, &[]) && is_prop(&a[1], &s, &k, &[]));
    let q = Parameter::new(&pk, &pv);
    v::check("a parameter holds its key and value", q.key() == pk && q.value() == pv);
}
pub fn calendar() {
    let (k, s) = (v::text("k", "any"), v::text("s", "any"));
    let mut c = Calendar::new();
    c.append_property(prop1(&k, &s, "P", "q"));
    c.push(Event::new().uid(&s).done());
    c.push(Todo::new().uid(&k).done());
    let d = c.done();
    v::check("a finished calendar holds everything", d.properties.len() == 4 && is_prop(&d.properties[3], &k, &s, &[("P", "q")])
        && d.components.len() == 2 && d.components[0].as_event().map_or(false, |e| e.get_uid() == Some(&*s)) && d.components[1].as_todo().map_or(false, |e| e.get_uid() == Some(&*k)));
}
/// a property of every name, and a component with all of them
macro_rules! crowds { ($($m:ident: $t:ty, $kind:expr;)*) => { pub mod crowds { use super::*; $( pub fn $m() {
    let s = v::text("s", "any{0,20}");
    let mut c = <$t>::new();
    for k in NAMES { c.append_property(p1(k, &s, "")); }
    for k in MULTI { for i in 0..12 { c.append_multi_property(p1(k, if i % 3 == 0 { "" } else { &s }, &s)); } }
    for i in 0..12 { c.append_component(Event::new().uid(if i % 4 == 0 { "" } else { "same" }).done()); c.append_component(Todo::new().done()); }
    fn ok<C: Component>(c: &C, s: &str) -> bool {
        c.properties().len() == NAMES.len() && NAMES.iter().all(|k| c.properties().get(*k) == Some(&p1(k, s, "")))
            && c.multi_properties().len() == MULTI.len() && MULTI.iter().all(|k| match c.multi_properties().get(*k) { Some(l) => l.len() == 12 && (0..12).all(|i| l[i] == p1(k, if i % 3 == 0 { "" } else { s }, s)), None => false })
            && c.components().len() == 24 && (0..12).all(|i| c.components()[2 * i].get_uid() == Some(if i % 4 == 0 { "" } else { "same" }) && c.components()[2 * i].component_kind() == "VEVENT"
                && c.components()[2 * i + 1].component_kind() == "VTODO" && c.components()[2 * i + 1].properties().is_empty())
    }
    let d = c.done();
    v::check("a finished component holds everything", ok(&d, &s) && ok(&d.clone(), &s));
    let mut parent = Todo::new();
    parent.append_component(d.clone());
    parent.append_component(<$t>::new().done());
    parent.append_component(d.clone());
    let fin = parent.done();
    v::check("every child holds everything", fin.components().len() == 3 && ok(&fin.components()[0], &s) && ok(&fin.components()[2], &s) && fin.components()[1].properties().is_empty()
        && fin.components().iter().all(|x| x.component_kind() == $kind));
} )* } } }
crowds! { event: Event, "VEVENT"; todo: Todo, "VTODO"; venue: Venue, "VVENUE"; }
/// children of children
pub fn grandchildren() {
    let (k, s, t) = texts();
    let mut c = Venue::new();
    fill(&mut c, &k, &s, &t);
    let mut b = Todo::new();
    b.append_component(c.done());
    let mut a = Event::new();
    a.append_component(b.done());
    let d = a.done();
    v::check("a grandchild holds everything", d.components().len() == 1 && d.components()[0].components().len() == 1 && filled(&d.components()[0].components()[0], &k, &s, &t));
    v::check("kinds stay", d.components()[0].component_kind() == "VTODO" && d.components()[0].components()[0].component_kind() == "VVENUE");
    let mut cal = Calendar::new();
    cal.push(d);
    let cal = cal.done();
    v::check("in a finished calendar too", match cal.components[0].as_event() { Some(e) => filled(&e.components()[0].components()[0], &k, &s, &t), None => false });
}
/// many parameters, some empty
pub fn many_parameters() {
    let s = v::text("s", "any{0,20}");
    let mut b = Property::new(&*s, &*s);
    for k in PARAMS { b.add_parameter(k, &s); }
    b.add_parameter("", &s).add_parameter("VALUE", "").add_parameter(" ", " ");
    let d = b.done();
    v::check("all parameters are kept", d.params().len() == PARAMS.len() + 3 && PARAMS.iter().all(|k| match d.params().get(*k) { Some(p) => p.key() == *k && p.value() == s, None => false })
        && d.params()[""].value() == s && d.params()["VALUE"].value() == "" && d.params()[" "].value() == " ");
    v::check("a copy keeps them", d.clone() == d && d.clone().params().len() == PARAMS.len() + 3);
    let mut e = Event::new();
    e.append_property(d.clone());
    e.append_multi_property(d.clone());
    let e = e.done();
    v::check("in a component too", e.properties().get(&s) == Some(&d) && match e.multi_properties().get(&s) { Some(l) => l.len() == 1 && l[0] == d, None => false });
}
/// many entries in a calendar
pub fn many_entries() {
    let s = v::text("s", "any{0,20}");
    let mut c = Calendar::empty();
    for i in 0..130 { c.append_property(p1("X-A", if i % 3 == 0 { "" } else { &s }, &s)); c.push(Event::new().uid(if i % 3 == 0 { "" } else { &s }).done()); c.push(Venue::new().done()); }
    let d = c.done();
    v::check("all calendar properties are kept", d.properties.len() == 130 && (0..130).all(|i| d.properties[i] == p1("X-A", if i % 3 == 0 { "" } else { &s }, &s)));
    v::check("all entries are kept", d.components.len() == 260 && (0..130).all(|i| match d.components[2 * i].as_event() { Some(e) => e.get_uid() == Some(if i % 3 == 0 { "" } else { &*s }), None => false }));
}
/// many children and occurrences in a component
macro_rules! crowd { ($($m:ident: $t:ty;)*) => { pub mod crowd { use super::*; $( pub fn $m() {
    let s = v::text("s", "any{0,20}");
    let mut c = <$t>::new();
    for i in 0..130 {
        let u = if i % 3 == 0 { "" } else { &*s };
        c.append_component(Todo::new().uid(u).done()).append_multi_property(p1("COMMENT", u, &s));
    }
    fn ok<C: Component>(d: &C, s: &str) -> bool {
        d.components().len() == 130 && (0..130).all(|i| d.components()[i].get_uid() == Some(if i % 3 == 0 { "" } else { s })) && d.multi_properties()["COMMENT"].len() == 130
            && (0..130).all(|i| d.multi_properties()["COMMENT"][i] == p1("COMMENT", if i % 3 == 0 { "" } else { s }, s))
    }
    let d = c.done();
    v::check("all of them are kept", ok(&d, &s));
    let e = Event::new().append_component(d).done();
    v::check("in a child too", ok(&e.components()[0], &s));
} )* } } }
crowd! { event: Event; todo: Todo; venue: Venue; }
/// what is appended to a component may be its equal
#[cfg(feature = "full")] pub fn equal_child() {
    let k = a_kind();
    let s = v::text("s", "any{0,20}");
    let tree = || parser::Component { name: k.into(), properties: vec![parser::Property { name: "X-A".into(), val: s.as_str().into(), params: vec![] }], components: vec![] };
    fn ok<C: Component>(c: &C, k: &str, s: &str) -> bool { c.component_kind() == k && c.properties().len() == 1 && c.property_value("X-A") == Some(s) && c.components().len() == 2
        && c.components().iter().all(|x| x.component_kind() == k && x.property_value("X-A") == Some(s) && x.components().is_empty()) }
    macro_rules! put { ($x:expr, $v:ident) => { { let mut x = $x;
        for _ in 0..2 { match CalendarComponent::from(tree()) { CalendarComponent::$v(y) => { x.append_component(y); } _ => v::check("the same variant", false) } }
        x.into() } } }
    let d: CalendarComponent = match CalendarComponent::from(tree()) {
        CalendarComponent::Event(mut x) => put!(x.done(), Event),
        CalendarComponent::Todo(mut x) => put!(x.done(), Todo),
        CalendarComponent::Venue(mut x) => put!(x.done(), Venue),
        CalendarComponent::Other(x) => put!(x, Other),
        _ => { v::check("a component of a known variant", false); return; }
    };
    v::check("children equal to what they were put in are kept", match &d { CalendarComponent::Event(x) => ok(x, k, &s), CalendarComponent::Todo(x) => ok(x, k, &s), CalendarComponent::Venue(x) => ok(x, k, &s), CalendarComponent::Other(x) => ok(x, k, &s), _ => false });
}

/// equal neighbours are both kept
macro_rules! twins { ($($m:ident: $t:ty;)*) => { pub mod twins { use super::*; $( pub fn $m() {
    let s = v::text("s", "any{0,20}");
    let child = || { let mut e = Event::new(); e.append_property(p1("X-A", &s, &s)); e.done() };
    let mut c = <$t>::new();
    c.append_component(child()).append_component(child()).append_component(child()).append_component(Todo::new().done()).append_component(Todo::new().done());
    for _ in 0..3 { c.append_multi_property(p1("ATTENDEE", &s, &s)); }
    let d = c.done();
    fn ok<C: Component>(d: &C, s: &str) -> bool {
        d.components().len() == 5 && (0..3).all(|i| d.components()[i].component_kind() == "VEVENT" && d.components()[i].properties().get("X-A") == Some(&p1("X-A", s, s)))
            && (3..5).all(|i| d.components()[i].component_kind() == "VTODO") && d.multi_properties()["ATTENDEE"].len() == 3
    }
    v::check("equal children and properties are all kept", ok(&d, &s));
    let mut parent = Event::new();
    parent.append_component(d.clone()).append_component(d.clone());
    let p = parent.done();
    v::check("in children too", p.components().len() == 2 && ok(&p.components()[0], &s) && ok(&p.components()[1], &s));
    let mut cal = Calendar::empty();
    cal.push(d.clone()).push(d.clone()).push(d);
    cal.append_property(p1("X-A", &s, &s)).append_property(p1("X-A", &s, &s));
    let cal = cal.done();
    v::check("and in calendars", cal.components.len() == 3 && cal.properties.len() == 2 && cal.components[0] == cal.components[1] && cal.components[1] == cal.components[2]);
} )* } } }
twins! { event: Event; todo: Todo; venue: Venue; }
/// a builder can be finished and used again
macro_rules! reuse { ($($m:ident: $t:ty;)*) => { pub mod reuse { use super::*; $( pub fn $m() {
    let (k, s, t) = texts();
    v::assume(k != "X-LATER");
    let mut c = <$t>::new();
    fill(&mut c, &k, &s, &t);
    let d = c.done();
    v::check("the finished component holds everything", filled(&d, &k, &s, &t));
    // what is put in afterwards is held by what is finished afterwards
    let mut c = d;
    c.add_property("X-LATER", &*s);
    let e = c.done();
    v::check("finishing again keeps everything", e.properties().len() == 3 && e.property_value("X-LATER") == Some(&*s) && e.properties().get(&k) == Some(&p1(&k, &s, &t)) && e.components().len() == 2 && e.multi_properties().len() == 2);
} )* } } }
reuse! { event: Event; todo: Todo; venue: Venue; }
/// a single and a repeated property of the same name
macro_rules! both { ($($m:ident: $t:ty;)*) => { pub mod both { use super::*; $( pub fn $m() {
    let k = a_name();
    let (s, t) = (v::text("s", "any{0,20}"), v::text("t", "any{0,20}"));
    let mut c = <$t>::new();
    c.append_property(p1(k, &s, &t)).append_multi_property(p1(k, &t, &s)).append_multi_property(p1(k, &s, &t));
    fn ok<C: Component>(c: &C, k: &str, s: &str, t: &str) -> bool {
        c.properties().len() == 1 && c.properties().get(k) == Some(&p1(k, s, t)) && c.multi_properties().len() == 1
            && match c.multi_properties().get(k) { Some(l) => l.len() == 2 && l[0] == p1(k, t, s) && l[1] == p1(k, s, t), None => false }
    }
    let d = c.done();
    v::check("both are kept", ok(&d, k, &s, &t) && ok(&d.clone(), k, &s, &t));
    let mut p = Event::new();
    p.append_component(d);
    let p = p.done();
    v::check("in a child too", ok(&p.components()[0], k, &s, &t));
} )* } } }
both! { event: Event; todo: Todo; venue: Venue; }
/// children of a component of any kind, and of an alarm
#[cfg(feature = "full")] pub fn any_child() {
    let (k, l) = (a_kind(), KINDS[v::pick("other", KINDS.len())]);
    let s = v::text("s", "any{0,20}");
    fn leaf<'a>(s: &'a str) -> parser::Property<'a> { parser::Property { name: "X-A".into(), val: s.into(), params: vec![parser::Parameter::new_ref("P", Some(s))] } }
    let tree = parser::Component { name: "VEVENT".into(), properties: vec![], components: vec![
        parser::Component { name: k.into(), properties: vec![leaf(&s)], components: vec![parser::Component { name: l.into(), properties: vec![leaf(&s)], components: vec![] }] },
        parser::Component { name: l.into(), properties: vec![leaf(&s)], components: vec![] }] };
    let mut e = match CalendarComponent::from(tree) { CalendarComponent::Event(e) => e, _ => { v::check("an event", false); return; } };
    fn ok<C: Component>(c: &C, k: &str, s: &str) -> bool { c.component_kind() == k && c.properties().len() == 1 && match c.properties().get("X-A") { Some(p) => is_prop(p, "X-A", s, &[("P", s)]), None => false } }
    fn all<C: Component>(c: &C, k: &str, l: &str, s: &str) -> bool {
        c.components().len() == 2 && ok(&c.components()[0], k, s) && ok(&c.components()[1], l, s) && c.components()[0].components().len() == 1 && ok(&c.components()[0].components()[0], l, s)
            && c.components()[1].components().is_empty()
    }
    v::check("children of any kind are kept", all(&e, k, l, &s));
    let d = e.done();
    v::check("when finished and copied", all(&d, k, l, &s) && all(&d.clone(), k, l, &s));
    let mut t = Todo::new();
    t.append_component(d).append_component(Venue::new().done());
    let t = t.done();
    v::check("when appended to another", t.components().len() == 2 && all(&t.components()[0], k, l, &s));
}
pub fn children_of_an_alarm() {
    let s = v::text("s", "any{0,20}");
    let mut a = Alarm::audio(Duration::minutes(5));
    a.append_component(Event::new().uid(&s).done()).append_component(Alarm::display(&s, Duration::minutes(-5)));
    let mut e = Event::new();
    e.append_component(a.done());
    let e = e.done();
    v::check("an alarm keeps its children", e.components().len() == 1 && e.components()[0].components().len() == 2 && e.components()[0].components()[0].get_uid() == Some(&*s)
        && e.components()[0].components()[1].property_value("DESCRIPTION") == Some(&*s) && e.components()[0].components()[1].component_kind() == "VALARM");
}
