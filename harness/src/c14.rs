//! Converting a parsed tree into a calendar loses nothing it can hold.
use crate::{util::*, v};
use icalendar::*;
use parser::Component as Node;
use parser::Parameter as Par;
use parser::Property as Leaf;

fn node<'a>(name: &'a str, properties: Vec<Leaf<'a>>, components: Vec<Node<'a>>) -> Node<'a> { Node { name: name.into(), properties, components } }
fn leaf<'a>(name: &'a str, val: &'a str, params: Vec<Par<'a>>) -> Leaf<'a> { Leaf { name: name.into(), val: val.into(), params } }
/// how many properties, repeated properties and children
fn sizes<C: Component>(c: &C, p: usize, m: usize, k: usize) -> bool { c.properties().len() == p && c.multi_properties().len() == m && c.components().len() == k }
fn has<C: Component>(c: &C, k: &str, val: &str, params: &[(&str, &str)]) -> bool {
    match c.properties().get(k) { Some(p) => is_prop(p, k, val, params), None => false }
}
/// the component in a calendar entry, whatever its kind
macro_rules! with { ($c:expr, $x:ident => $e:expr) => { match $c {
    CalendarComponent::Event($x) => $e,
    CalendarComponent::Todo($x) => $e,
    CalendarComponent::Venue($x) => $e,
    CalendarComponent::Other($x) => $e,
    _ => false,
} } }
fn kind_of(c: &CalendarComponent) -> &'static str {
    match c {
        CalendarComponent::Event(_) => "VEVENT",
        CalendarComponent::Todo(_) => "VTODO",
        CalendarComponent::Venue(_) => "VVENUE",
        CalendarComponent::Other(_) => "other",
        _ => "",
    }
}
fn begins(c: &CalendarComponent, name: &str) -> bool {
    with!(c, x => {
        let out = x.clone().try_into_string().unwrap();
        x.component_kind() == name && out.starts_with(&format!("BEGIN:{}\r\n", name)) && out.ends_with(&format!("END:{}\r\n", name))
    })
}

macro_rules! kinds { ($($n:ident: $name:expr, $kind:expr;)*) => { $(
    /// a node of this kind, with everything in it
    pub mod $n { use super::*;
        fn tree<'a>(s: &'a str, t: &'a str, a: &'a str) -> Node<'a> {
            node($name, vec![
                leaf("X-A", s, vec![Par::new_ref("P", Some(a)), Par::new_ref("Q", None)]),
                leaf("ATTENDEE", s, vec![Par::new_ref("CN", Some(a))]),
                leaf("UID", t, vec![]),
                leaf("COMMENT", t, vec![]),
                leaf("ATTENDEE", t, vec![]),
            ], vec![node("VALARM", vec![leaf("X-B", t, vec![Par::new_ref("R", Some(a))])], vec![node("X-C", vec![leaf("COMMENT", s, vec![])], vec![])]), node("X-D", vec![], vec![])])
        }
        fn complete<C: Component>(c: &C, s: &str, t: &str, a: &str) -> bool {
            let m = c.multi_properties();
            sizes(c, 2, 2, 2) && has(c, "X-A", s, &[("P", a), ("Q", "")]) && has(c, "UID", t, &[])
                && match m.get("ATTENDEE") { Some(l) => l.len() == 2 && is_prop(&l[0], "ATTENDEE", s, &[("CN", a)]) && is_prop(&l[1], "ATTENDEE", t, &[]), None => false }
                && match m.get("COMMENT") { Some(l) => l.len() == 1 && is_prop(&l[0], "COMMENT", t, &[]), None => false }
        }
        fn family<C: Component>(c: &C, s: &str, t: &str, a: &str) -> bool {
            let k = c.components();
            k[0].component_kind() == "VALARM" && sizes(&k[0], 1, 0, 1) && has(&k[0], "X-B", t, &[("R", a)])
                && k[0].components()[0].component_kind() == "X-C" && sizes(&k[0].components()[0], 0, 1, 0)
                && match k[0].components()[0].multi_properties().get("COMMENT") { Some(l) => l.len() == 1 && is_prop(&l[0], "COMMENT", s, &[]), None => false }
                && k[1].component_kind() == "X-D" && sizes(&k[1], 0, 0, 0)
        }
        fn names() -> (String, String, String) { (v::text("s", "any{0,40}"), v::text("t", "any{0,40}"), v::text("a", "any{0,40}")) }
        pub fn single() {
            let (s, t, a) = names();
            let c = CalendarComponent::from(tree(&s, &t, &a));
            v::check("the kind", kind_of(&c) == $kind);
            v::check("the name is kept", with!(&c, x => x.component_kind() == $name));
            v::check("properties, parameters and repeated properties are kept", with!(&c, x => complete(x, &s, &t, &a)));
            v::check("the children are kept in order", with!(&c, x => family(x, &s, &t, &a)));
        }
        /// in a calendar, before and after components of other kinds
        pub fn in_calendar() {
            let (s, t, a) = names();
            let first = node("VTODO", vec![leaf("X-1", &t, vec![])], vec![]);
            let last = node("X-LAST", vec![leaf("X-2", &s, vec![])], vec![]);
            let tree = parser::Calendar { properties: vec![leaf("X-P", &s, vec![Par::new_ref("P", Some(&a))]), leaf("VERSION", &t, vec![]), leaf("X-P", &t, vec![])], components: vec![first, tree(&s, &t, &a), last] };
            let cal = if v::any("entry") { Calendar::from(tree) } else {
                Calendar::from(vec![node("VCALENDAR", tree.properties, tree.components)])
            };
            v::check("the calendar's own properties are kept in order", cal.properties.len() == 3 && is_prop(&cal.properties[0], "X-P", &s, &[("P", &a)])
                && is_prop(&cal.properties[1], "VERSION", &t, &[]) && is_prop(&cal.properties[2], "X-P", &t, &[]));
            v::check("all components are kept", cal.components.len() == 3);
            v::check("the kinds are in order", kind_of(&cal.components[0]) == "VTODO" && kind_of(&cal.components[1]) == $kind && kind_of(&cal.components[2]) == "other");
            v::check("the names are in order", with!(&cal.components[1], x => x.component_kind() == $name) && with!(&cal.components[2], x => x.component_kind() == "X-LAST"));
            v::check("the contents are kept", with!(&cal.components[0], x => sizes(x, 1, 0, 0) && has(x, "X-1", &t, &[])) && with!(&cal.components[1], x => complete(x, &s, &t, &a) && family(x, &s, &t, &a))
                && with!(&cal.components[2], x => sizes(x, 1, 0, 0) && has(x, "X-2", &s, &[])));
        }
        /// without a calendar around it
        pub fn roots() {
            let (s, t, a) = names();
            let cal = Calendar::from(vec![tree(&s, &t, &a), node("X-LAST", vec![leaf("X-2", &s, vec![])], vec![])]);
            v::check("all roots are kept", cal.components.len() == 2);
            v::check("the kinds are in order", kind_of(&cal.components[0]) == $kind && kind_of(&cal.components[1]) == "other");
            v::check("the contents are kept", with!(&cal.components[0], x => complete(x, &s, &t, &a) && family(x, &s, &t, &a)) && with!(&cal.components[1], x => sizes(x, 1, 0, 0) && has(x, "X-2", &s, &[])));
        }
        /// from text
        pub fn from_text() {
            let (s, t, a) = (v::text("s", "word{0,20}"), v::text("t", "word{0,20}"), v::text("a", "word{1,20}"));
            let part = format!("BEGIN:{}\r\nX-A;P={};Q=:{}\r\nATTENDEE;CN={}:{}\r\nUID:{}\r\nCOMMENT:{}\r\nBEGIN:VALARM\r\nX-B;R={}:{}\r\nBEGIN:X-C\r\nCOMMENT:{}\r\nEND:X-C\r\nEND:VALARM\r\nATTENDEE:{}\r\nBEGIN:X-D\r\nEND:X-D\r\nEND:{}\r\n", $name, a, s, a, s, t, t, a, t, s, t, $name);
            match part.parse::<CalendarComponent>() {
                Ok(c) => {
                    v::check("the kind", kind_of(&c) == $kind);
                    v::check("the name is kept", with!(&c, x => x.component_kind() == $name));
                    v::check("everything is kept", with!(&c, x => complete(x, &s, &t, &a) && family(x, &s, &t, &a)));
                }
                Err(_) => v::check("the component parses", false),
            }
            let whole = format!("BEGIN:VCALENDAR\r\nVERSION:2.0\r\nX-P;P={}:{}\r\n{}BEGIN:X-LAST\r\nX-2:{}\r\nEND:X-LAST\r\nEND:VCALENDAR\r\n", a, s, part, s);
            match whole.parse::<Calendar>() {
                Ok(cal) => {
                    v::check("the calendar's own properties are kept in order", cal.properties.len() == 2 && is_prop(&cal.properties[0], "VERSION", "2.0", &[]) && is_prop(&cal.properties[1], "X-P", &s, &[("P", &a)]));
                    v::check("all components are kept", cal.components.len() == 2 && kind_of(&cal.components[0]) == $kind && kind_of(&cal.components[1]) == "other");
                    v::check("the contents are kept", with!(&cal.components[0], x => complete(x, &s, &t, &a) && family(x, &s, &t, &a)) && with!(&cal.components[1], x => sizes(x, 1, 0, 0) && has(x, "X-2", &s, &[])));
                }
                Err(_) => v::check("the calendar parses", false),
            }
        }
    }
)* } }
kinds! { event: "VEVENT", "VEVENT"; todo: "VTODO", "VTODO"; venue: "VVENUE", "VVENUE"; journal: "VJOURNAL", "other"; timezone: "VTIMEZONE", "other"; freebusy: "VFREEBUSY", "other"; alarm: "VALARM", "other"; foreign: "X-FOREIGN", "other"; lower: "vevent", "other"; longer: "VEVENTS", "other"; }
/// any other name is kept as it is
pub fn any_name() {
    let (n, s) = (format!("X-{}", v::text("n", "name{0,30}")), v::text("s", "word{0,20}"));
    let c = CalendarComponent::from(node(&n, vec![leaf("X-A", &s, vec![])], vec![]));
    v::check("the name is kept", kind_of(&c) == "other" && with!(&c, x => x.component_kind() == n));
    v::check("the contents are kept", with!(&c, x => sizes(x, 1, 0, 0) && has(x, "X-A", &s, &[])));
    v::check("it is written under its name", begins(&c, &n));
}
/// an inner component keeps any name
pub fn any_inner_name() {
    let (n, s) = (v::text("n", "any{0,40}"), v::text("s", "any{0,40}"));
    let c = CalendarComponent::from(node("VEVENT", vec![], vec![node(&n, vec![leaf("X-A", &s, vec![])], vec![])]));
    v::check("an event", kind_of(&c) == "VEVENT");
    v::check("the inner component is kept", with!(&c, x => sizes(x, 0, 0, 1) && x.components()[0].component_kind() == n && sizes(&x.components()[0], 1, 0, 0) && has(&x.components()[0], "X-A", &s, &[])));
}
/// the names of the properties that may be repeated
macro_rules! multis { ($($n:ident: $k:expr;)*) => { $( pub fn $n() {
    let (s, t, u, a) = (v::text("s", "any{0,40}"), v::text("t", "any{0,40}"), v::text("u", "any{0,40}"), v::text("a", "any{0,40}"));
    let props = || vec![leaf($k, &s, vec![Par::new_ref("P", Some(&a))]), leaf("X-A", &t, vec![]), leaf($k, &t, vec![]), leaf($k, &u, vec![Par::new_ref("Q", Some(&a)), Par::new_ref("R", Some(&s))])];
    let good = |l: Option<&Vec<Property>>| match l {
        Some(l) => l.len() == 3 && is_prop(&l[0], $k, &s, &[("P", &a)]) && is_prop(&l[1], $k, &t, &[]) && is_prop(&l[2], $k, &u, &[("Q", &a), ("R", &s)]),
        None => false,
    };
    let c = CalendarComponent::from(node("VEVENT", props(), vec![node("VALARM", props(), vec![])]));
    v::check("all occurrences are kept in order", with!(&c, x => sizes(x, 1, 1, 1) && good(x.multi_properties().get($k))));
    v::check("and in a child", with!(&c, x => sizes(&x.components()[0], 1, 1, 0) && good(x.components()[0].multi_properties().get($k))));
    let o = CalendarComponent::from(node("VJOURNAL", props(), vec![]));
    v::check("and in any other component", with!(&o, x => sizes(x, 1, 1, 0) && good(x.multi_properties().get($k))));
} )* } }
multis! { attach: "ATTACH"; attendee: "ATTENDEE"; categories: "CATEGORIES"; comment: "COMMENT"; contact: "CONTACT"; exdate: "EXDATE"; rdate: "RDATE"; related: "RELATED-TO"; resources: "RESOURCES"; status: "REQUEST-STATUS"; freebusy_prop: "FREEBUSY"; }
/// properties that are not repeated
macro_rules! singles { ($($n:ident: $($k:expr),*;)*) => { $( pub fn $n() {
    let (s, a, b) = (v::text("s", "any{0,40}"), v::text("a", "any{0,40}"), v::text("b", "any{0,40}"));
    let names = [$($k),*];
    let mut props = Vec::new();
    for k in names { props.push(leaf(k, &s, vec![Par::new_ref("P", Some(&a)), Par::new_ref("Q", Some(&b)), Par::new_ref("X-R", None)])); }
    let c = CalendarComponent::from(node("VTODO", props, vec![]));
    v::check("nothing is added", with!(&c, x => sizes(x, names.len(), 0, 0)));
    for k in names { v::check("every property is kept with its parameters", with!(&c, x => has(x, k, &s, &[("P", &a), ("Q", &b), ("X-R", "")]))); }
} )* } }
singles! {
    s1: "SUMMARY", "DESCRIPTION", "LOCATION", "UID", "DTSTAMP", "DTSTART";
    s2: "DTEND", "DUE", "COMPLETED", "PRIORITY", "STATUS", "CLASS";
    s3: "URL", "SEQUENCE", "CREATED", "LAST-MODIFIED", "GEO", "RRULE";
    s4: "RECURRENCE-ID", "ORGANIZER", "TRANSP", "DURATION", "PERCENT-COMPLETE", "X-OWN";
    s5: "TRIGGER", "ACTION", "REPEAT", "TZID", "NAME", "STREET-ADDRESS";
}
/// any name that is not one of the repeated ones
pub fn any_single() {
    let (k, s) = (format!("X-{}", v::text("k", "name{0,20}")), v::text("s", "any{0,40}"));
    v::assume(k != "X-PROP");
    let c = CalendarComponent::from(node("VEVENT", vec![leaf(&k, &s, vec![])], vec![]));
    v::check("the property is kept", with!(&c, x => sizes(x, 1, 0, 0) && has(x, &k, &s, &[])));
}
/// the calendar's own properties may be repeated
pub fn calendar_properties() {
    let (s, t, u) = (v::text("s", "any{0,40}"), v::text("t", "any{0,40}"), v::text("u", "any{0,40}"));
    let (k, l) = (v::text("k", "any{0,20}"), v::text("l", "any{0,20}"));
    let cal = Calendar::from(parser::Calendar { properties: vec![leaf(&k, &s, vec![]), leaf(&l, &t, vec![Par::new_ref("P", Some(&s))]), leaf(&k, &u, vec![]), leaf("COMMENT", &s, vec![]), leaf("COMMENT", &s, vec![])], components: vec![] });
    v::check("all properties in order", cal.properties.len() == 5 && is_prop(&cal.properties[0], &k, &s, &[]) && is_prop(&cal.properties[1], &l, &t, &[("P", &s)]) && is_prop(&cal.properties[2], &k, &u, &[])
        && is_prop(&cal.properties[3], "COMMENT", &s, &[]) && is_prop(&cal.properties[4], "COMMENT", &s, &[]));
    v::check("nothing else", cal.components.is_empty());
}
/// nothing in, nothing out
pub fn empty() {
    let cal = Calendar::from(parser::Calendar { properties: vec![], components: vec![] });
    v::check("no defaults are added", cal.properties.is_empty() && cal.components.is_empty());
    let c = CalendarComponent::from(node("VEVENT", vec![], vec![]));
    v::check("an empty event", kind_of(&c) == "VEVENT" && with!(&c, x => sizes(x, 0, 0, 0)));
}
/// a property on its own
pub fn property() {
    let (k, s, a, b) = (v::text("k", "any{0,40}"), v::text("s", "any{0,40}"), v::text("a", "any{0,40}"), v::text("b", "any{0,40}"));
    let (p, q) = (v::text("p", "any{0,40}"), v::text("q", "any{0,40}"));
    v::assume(p != q);
    let x = Property::from(leaf(&k, &s, vec![Par::new_ref(&p, Some(&a)), Par::new_ref(&q, Some(&b))]));
    v::check("name, value and parameters are kept", is_prop(&x, &k, &s, &[(&p, &a), (&q, &b)]));
}
/// a parsed child can be appended to a component
pub fn many_components() {
    let (s, t) = (v::text("s", "any{0,40}"), v::text("t", "any{0,40}"));
    let names = ["VEVENT", "VTODO", "VVENUE", "VJOURNAL", "VEVENT", "VTIMEZONE", "VTODO", "VEVENT"];
    let mut list = Vec::new();
    for n in names { list.push(node(n, vec![leaf("UID", &s, vec![]), leaf(n, &t, vec![])], vec![])); }
    let cal = Calendar::from(parser::Calendar { properties: vec![], components: list });
    v::check("as many as there were", cal.components.len() == names.len() && cal.properties.is_empty());
    let mut i = 0;
    for n in names {
        v::check("each in its place", with!(&cal.components[i], x => x.component_kind() == n && sizes(x, 2, 0, 0) && has(x, "UID", &s, &[]) && has(x, n, &t, &[])));
        i += 1;
    }
}
/// every registered name: single ones keep value and parameters, the repeatable ones all occurrences
macro_rules! every { ($($n:ident: $kind:expr;)*) => { pub mod every { use super::*; $( pub fn $n() {
    let s = v::text("s", "any{0,12}");
    let mut all: Vec<Leaf> = NAMES.iter().filter(|k| !MULTI.contains(k)).map(|k| leaf(k, &s, vec![Par::new_ref("X-P", Some(&s)), Par::new_ref("TZID", None)])).collect();
    for k in MULTI {
        all.push(leaf(k, &s, vec![]));
        all.push(leaf(k, "", vec![Par::new_ref("X-P", Some(&s))]));
        all.push(leaf(k, &s, vec![]));
        all.push(leaf(k, "1", vec![Par::new_ref("VALUE", Some("DATE")), Par::new_ref("X-P", Some("")), Par::new_ref("CN", Some(&s)), Par::new_ref("ROLE", Some("x"))]));
    }
    let singles = all.len() - 4 * MULTI.len();
    let c = CalendarComponent::from(node($kind, all, vec![]));
    v::check("nothing is added or left out", with!(&c, x => sizes(x, singles, MULTI.len(), 0)));
    v::check("single ones keep value and parameters", with!(&c, x => NAMES.iter().filter(|k| !MULTI.contains(k)).all(|k| has(x, k, &s, &[("X-P", &s), ("TZID", "")]))));
    v::check("repeatable ones keep all occurrences in order", with!(&c, x => MULTI.iter().all(|k| match x.multi_properties().get(*k) {
        Some(l) => l.len() == 4 && is_prop(&l[0], k, &s, &[]) && is_prop(&l[1], k, "", &[("X-P", &s)]) && is_prop(&l[2], k, &s, &[])
            && is_prop(&l[3], k, "1", &[("VALUE", "DATE"), ("X-P", ""), ("CN", &s), ("ROLE", "x")]),
        None => false,
    })));
} )* } } }
every! { event: "VEVENT"; todo: "VTODO"; venue: "VVENUE"; alarm: "VALARM"; journal: "VJOURNAL"; timezone: "VTIMEZONE"; calendar: "VCALENDAR"; other: "X-COMP"; }
/// one property of any name
pub fn one_property() {
    let (s, k) = (v::text("s", "any{0,12}"), v::text("k", "any{0,20}"));
    let multi = MULTI.contains(&k.as_str());
    let c = CalendarComponent::from(node("VEVENT", vec![leaf(&k, &s, vec![Par::new_ref("X-P", Some(&s))])], vec![]));
    if multi {
        v::check("a repeatable property is kept", with!(&c, x => sizes(x, 0, 1, 0) && match x.multi_properties().get(&k) { Some(l) => l.len() == 1 && is_prop(&l[0], &k, &s, &[("X-P", &s)]), None => false }));
    } else {
        v::check("a single property is kept", with!(&c, x => sizes(x, 1, 0, 0) && has(x, &k, &s, &[("X-P", &s)])));
    }
}
/// every kind in every place: in a calendar, without one, and as a child; empty and not
pub fn every_kind() {
    let (k, l) = (a_kind(), KINDS[v::pick("inner", KINDS.len())]);
    let s = v::text("s", "any{0,12}");
    let tree = |_: u8| vec![node(k, vec![], vec![node(l, vec![], vec![]), node(l, vec![leaf("X-A", &s, vec![])], vec![node(k, vec![], vec![])])]), node(l, vec![], vec![]), node(k, vec![], vec![]), node(k, vec![leaf("X-B", "", vec![])], vec![])];
    for cal in [Calendar::from(parser::Calendar { properties: vec![], components: tree(0) }), Calendar::from(tree(1)), Calendar::from(vec![node("VCALENDAR", vec![], tree(2))])] {
        v::check("all components are kept", cal.components.len() == 4);
        v::check("under their names", with!(&cal.components[0], x => x.component_kind() == k) && with!(&cal.components[1], x => x.component_kind() == l)
            && with!(&cal.components[2], x => x.component_kind() == k) && with!(&cal.components[3], x => x.component_kind() == k));
        v::check("with what is in them", with!(&cal.components[0], x => sizes(x, 0, 0, 2) && x.components()[0].component_kind() == l && sizes(&x.components()[0], 0, 0, 0)
            && x.components()[1].component_kind() == l && sizes(&x.components()[1], 1, 0, 1) && has(&x.components()[1], "X-A", &s, &[]) && x.components()[1].components()[0].component_kind() == k)
            && with!(&cal.components[1], x => sizes(x, 0, 0, 0)) && with!(&cal.components[2], x => sizes(x, 0, 0, 0)) && with!(&cal.components[3], x => sizes(x, 1, 0, 0) && has(x, "X-B", "", &[])));
    }
}
/// a calendar inside a calendar is a component like any other
pub fn calendar_inside() {
    let s = v::text("s", "any{0,12}");
    let cal = Calendar::from(parser::Calendar { properties: vec![], components: vec![node("VCALENDAR", vec![leaf("X-A", &s, vec![])], vec![node("VEVENT", vec![], vec![])]), node("VEVENT", vec![], vec![])] });
    v::check("all components are kept", cal.components.len() == 2);
    v::check("the inner calendar keeps its name and contents", with!(&cal.components[0], x => x.component_kind() == "VCALENDAR" && sizes(x, 1, 0, 1) && has(x, "X-A", &s, &[]) && x.components()[0].component_kind() == "VEVENT"));
}
/// many of everything
pub fn many() {
    let s = v::text("s", "any{0,12}");
    let mut kids = Vec::new();
    for i in 0..130 { kids.push(node(if i % 3 == 0 { "VALARM" } else { "VEVENT" }, vec![leaf("X-A", if i % 2 == 0 { &s } else { "1" }, vec![])], vec![])); }
    let cal = Calendar::from(vec![node("VCALENDAR", (0..130).map(|i| leaf(if i % 2 == 0 { "X-A" } else { "X-B" }, &s, vec![])).collect(), vec![node("VTODO", (0..140).map(|i| leaf("COMMENT", if i % 4 == 0 { &s } else { "1" }, vec![])).collect(), kids.clone()), node("VEVENT", vec![], vec![])].into_iter().chain(kids).collect())]);
    v::check("all of them are kept", cal.properties.len() == 130 && cal.components.len() == 132);
    for i in 0..130 {
        v::check("every calendar property is in its place", is_prop(&cal.properties[i], if i % 2 == 0 { "X-A" } else { "X-B" }, &s, &[]));
        v::check("every component is in its place", with!(&cal.components[i + 2], x => x.component_kind() == if i % 3 == 0 { "VALARM" } else { "VEVENT" } && has(x, "X-A", if i % 2 == 0 { &s } else { "1" }, &[])));
        v::check("every child is in its place", with!(&cal.components[0], x => x.components()[i].component_kind() == if i % 3 == 0 { "VALARM" } else { "VEVENT" } && has(&x.components()[i], "X-A", if i % 2 == 0 { &s } else { "1" }, &[])));
    }
    v::check("every repeated property is in its place", with!(&cal.components[0], x => match x.multi_properties().get("COMMENT") { Some(l) => l.len() == 140 && (0..140).all(|i| is_prop(&l[i], "COMMENT", if i % 4 == 0 { &s } else { "1" }, &[])), None => false }));
}
/// a component inside one that says the same
pub fn inside_its_equal() {
    let k = a_kind();
    let s = v::text("s", "any{0,12}");
    let leafs = || vec![leaf("UID", &s, vec![]), leaf("COMMENT", &s, vec![])];
    let one = || node(k, leafs(), vec![]);
    let tree = || node(k, leafs(), vec![one(), node(k, leafs(), vec![one(), one()])]);
    fn ok<C: Component>(c: &C, k: &str, s: &str, n: usize) -> bool { c.component_kind() == k && sizes(c, 1, 1, n) && has(c, "UID", s, &[]) && c.multi_properties()["COMMENT"].len() == 1 }
    fn all<C: Component>(c: &C, k: &str, s: &str) -> bool { ok(c, k, s, 2) && ok(&c.components()[0], k, s, 0) && ok(&c.components()[1], k, s, 2) && ok(&c.components()[1].components()[0], k, s, 0) && ok(&c.components()[1].components()[1], k, s, 0) }
    v::check("every one of them is kept", with!(&CalendarComponent::from(tree()), x => all(x, k, &s)));
    let cal = Calendar::from(parser::Calendar { properties: vec![], components: vec![tree(), tree()] });
    v::check("in a calendar too", cal.components.len() == 2 && with!(&cal.components[0], x => all(x, k, &s)) && with!(&cal.components[1], x => all(x, k, &s)));
}
/// converted to a single component from text
pub fn from_text() {
    let k = a_kind();
    let s = v::text("s", "word{0,9}");
    let text = format!("BEGIN:{k}\nX-A;P={s}x:{s}\nCOMMENT:{s}\nBEGIN:VALARM\nEND:VALARM\nCOMMENT:1\nEND:{k}\n");
    match text.parse::<CalendarComponent>() {
        Ok(c) => v::check("everything is kept", with!(&c, x => x.component_kind() == k && sizes(x, 1, 1, 1) && has(x, "X-A", &s, &[("P", &format!("{s}x"))]) && x.components()[0].component_kind() == "VALARM" && x.multi_properties()["COMMENT"].len() == 2)),
        Err(_) => v::check("the component parses", false),
    }
}

/// the typed kinds are typed, whatever they hold
pub fn typed() {
    let (k, s) = (a_kind(), v::text("s", "any{0,12}"));
    let want = match k { "VEVENT" => "VEVENT", "VTODO" => "VTODO", "VVENUE" => "VVENUE", _ => "other" };
    for c in [node(k, vec![], vec![]), node(k, vec![leaf("X-A", &s, vec![])], vec![]), node(k, vec![leaf("COMMENT", &s, vec![])], vec![]), node(k, vec![], vec![node(k, vec![], vec![])]),
              node(k, vec![leaf("UID", &s, vec![]), leaf("DTSTAMP", &s, vec![])], vec![node("VALARM", vec![], vec![])])] {
        let x = CalendarComponent::from(c);
        v::check("the variant is that of the name", match &x { CalendarComponent::Event(_) => "VEVENT", CalendarComponent::Todo(_) => "VTODO", CalendarComponent::Venue(_) => "VVENUE", _ => "other" } == want);
        v::check("the name is kept", with!(&x, x => x.component_kind() == k));
        v::check("it is written under its name", begins(&x, k));
    }
}
/// roots that are no calendar
pub fn mixed_roots() {
    let (k, s) = (a_kind(), v::text("s", "any{0,12}"));
    let cal = Calendar::from(vec![node(k, vec![leaf("X-A", &s, vec![])], vec![]), node("VCALENDAR", vec![leaf("X-B", &s, vec![])], vec![node("VEVENT", vec![], vec![])]), node(k, vec![], vec![]), node("VCALENDAR", vec![], vec![])]);
    v::check("all roots are kept in order", cal.components.len() == 4 && with!(&cal.components[0], x => x.component_kind() == k && has(x, "X-A", &s, &[])) && with!(&cal.components[1], x => x.component_kind() == "VCALENDAR" && sizes(x, 1, 0, 1) && has(x, "X-B", &s, &[]))
        && with!(&cal.components[2], x => x.component_kind() == k) && with!(&cal.components[3], x => x.component_kind() == "VCALENDAR"));
    let cal = Calendar::from(vec![node("VCALENDAR", vec![leaf("X-B", &s, vec![])], vec![node(k, vec![], vec![]), node("VCALENDAR", vec![], vec![]), node(k, vec![], vec![])])]);
    v::check("the contents of the calendar are kept in order", cal.properties.len() == 1 && cal.components.len() == 3 && with!(&cal.components[0], x => x.component_kind() == k) && with!(&cal.components[1], x => x.component_kind() == "VCALENDAR") && with!(&cal.components[2], x => x.component_kind() == k));
}
/// neighbours that are equal are both kept
pub fn equal_neighbours() {
    let (k, s) = (a_kind(), v::text("s", "any{0,12}"));
    let one = || node(k, vec![leaf("X-A", &s, vec![Par::new_ref("P", Some(&s))]), leaf("COMMENT", &s, vec![]), leaf("COMMENT", &s, vec![])], vec![node(k, vec![], vec![]), node(k, vec![], vec![])]);
    let cal = Calendar::from(parser::Calendar { properties: vec![leaf("X-A", &s, vec![]), leaf("X-A", &s, vec![])], components: vec![one(), one(), one()] });
    v::check("equal properties are kept", cal.properties.len() == 2);
    v::check("equal components are kept", cal.components.len() == 3 && cal.components.iter().all(|c| with!(c, x => sizes(x, 1, 1, 2) && has(x, "X-A", &s, &[("P", &s)]) && x.multi_properties()["COMMENT"].len() == 2)));
}
