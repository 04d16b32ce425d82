//! What is built, written and read again is equal to what was built.
use crate::{util::*, v};
use chrono::Duration;
use icalendar::*;

/// UID and DTSTAMP, which would be generated otherwise
fn stamp<C: Component>(c: &mut C) { c.append_property(Property::new("UID", "u")).append_property(Property::new("DTSTAMP", "20200101T000000Z")); }
fn new<C: Component + Default>() -> C { let mut c = C::default(); stamp(&mut c); c }
fn single(c: &CalendarComponent) -> String {
    match c {
        CalendarComponent::Event(x) => x.to_string(),
        CalendarComponent::Todo(x) => x.to_string(),
        CalendarComponent::Venue(x) => x.to_string(),
        CalendarComponent::Other(x) => x.to_string(),
        _ => String::new(),
    }
}
/// the component on its own, and in a calendar
fn same(c: impl Into<CalendarComponent>) {
    let c = c.into();
    match single(&c).parse::<CalendarComponent>() {
        Ok(d) => v::check("the component read is equal", d == c),
        Err(_) => v::check("it is read", false),
    }
    let mut k = Calendar::empty();
    k.push(c);
    same_calendar(&k);
}
fn same_calendar(c: &Calendar) {
    match c.to_string().parse::<Calendar>() {
        Ok(d) => v::check("the calendar read is equal", d == *c),
        Err(_) => v::check("the calendar is read", false),
    }
}
fn same_property(p: &Property) {
    match parser::unfold(&ser(p)).parse::<Property>() {
        Ok(q) => v::check("the property read is equal", q == *p),
        Err(_) => v::check("the property is read", false),
    }
}
fn is_multi(n: &str) -> bool { MULTI.contains(&n) }
fn put<C: Component>(c: &mut C, p: Property) { if is_multi(p.key()) { c.append_multi_property(p); } else { c.append_property(p); } }
/// text that the value of any property can hold
fn val(n: &str) -> String { if TEXTS.contains(&n) { v::text("v", "nocr{0,8}") } else { v::text("v", "line{0,25}") } }

/// every property of every kind of component
pub fn event_of_every_property() { let n = a_name(); let mut c: Event = new(); put(&mut c, Property::new(n, v::text("w", "word{0,10}"))); same(c); }
pub fn event_of_any_value() {
    let n = a_name();
    let mut c: Event = new();
    put(&mut c, Property::new(n, val(n)));
    match c.to_string().parse::<CalendarComponent>() { Ok(d) => v::check("the component read is equal", d == c.into()), Err(_) => v::check("it is read", false) }
}
pub fn todo_of_every_property() { let n = a_name(); let mut c: Todo = new(); put(&mut c, prop1(n, &v::text("w", "word{0,10}"), "P", "q")); same(c); }
pub fn venue_of_every_property() { let n = a_name(); let mut c: Venue = new(); put(&mut c, Property::new(n, v::text("w", "word{0,10}"))); same(c); }
pub fn property_of_every_name() { let n = a_name(); same_property(&Property::new(n, val(n))); }
pub fn property_of_any_name() {
    let n = v::text("n", "uname{1,20}");
    v::assume(n != "BEGIN" && n != "END");
    same_property(&prop1(&n, &v::text("w", "word{0,10}"), "P", &v::text("p", "pval{1,20}")));
}
pub fn calendar_of_every_property() {
    let n = a_name();
    let mut c = Calendar::empty();
    c.append_property(Property::new(n, val(n))).append_property(Property::new("X-LAST", "x"));
    same_calendar(&c);
}
/// every parameter
pub fn every_parameter() {
    let (k, w) = (a_param(), v::text("p", "pval{1,20}"));
    let mut e: Event = new();
    e.append_property(prop1("SUMMARY", "s", k, &w)).append_multi_property(prop1("ATTENDEE", "mailto:x", k, &w));
    same(e);
    same_property(&prop1("URL", "s", k, &w));
}
pub fn any_parameter() {
    let (k, w) = (v::text("k", "uname{1,20}"), v::text("p", "pval{1,20}"));
    v::assume(k != "VALUE");
    same_property(&prop1("SUMMARY", "a,b;c", &k, &w));
}
pub fn every_value_type() {
    let w = v::text("w", "plain{0,12}");
    for t in ["BINARY", "BOOLEAN", "CAL-ADDRESS", "DATE", "DATE-TIME", "DURATION", "FLOAT", "INTEGER", "PERIOD", "RECUR", "TEXT", "TIME", "URI", "UTC-OFFSET", "X-OTHER"] {
        for n in ["SUMMARY", "URL", "X-FOO", "DTSTART"] { same_property(&prop1(n, &format!("{w}\\,;\"x"), "VALUE", t)); }
    }
    same_property(&prop1("URL", "a\nb", "VALUE", "TEXT"));
}
pub fn many_parameters() {
    let t = v::text("t", "word{1,3}");
    let mut p = Property::new("ATTENDEE", format!("mailto:{t}"));
    for i in 0..5 { p.add_parameter(&format!("X-{i}"), &format!("{t}{}", ["", ":", ";", ",", " "][i % 5])); }
    let p = p.done();
    same_property(&p);
}
pub fn many_parameters_in_an_event() {
    let mut p = Property::new("ATTENDEE", "mailto:t");
    for i in 0..12 { p.add_parameter(&format!("X-{i}"), &format!("t{}", ["", ":", ";", ",", " "][i % 5])); }
    let p = p.done();
    let mut e: Event = new();
    e.append_multi_property(p.clone());
    e.append_multi_property(p);
    same(e);
}
/// text of every sort
pub fn texts() {
    for x in TRICKY {
        let mut e: Event = new();
        e.summary(x).description(&format!("{x}a{x}{x}")).location(&format!("x{x}"));
        e.append_property(Property::new("X-RAW", x.replace('\n', "")));
        same(e);
    }
}
pub fn texts_after() {
    let t = v::text("t", "word{0,8}");
    for x in TRICKY { let mut e: Event = new(); e.append_property(Property::new("SUMMARY", format!("{t}{x}"))); same(e); }
}
pub fn texts_before() {
    let t = v::text("t", "word{0,8}");
    for x in TRICKY { let mut e: Event = new(); e.append_property(Property::new("SUMMARY", format!("{x}{t}"))); same(e); }
}
const TRICKY: [&str; 34] = ["\r", "a\r", "\rb", "\r\r", "\u{b}", "\u{c}", "\u{0}", "\u{2028}", "", " ", "  ", "\t", "\n", "\n\n", " \n ", "\\", "\\\\", "\\n", "\\N", "\\\n", ",", ";", ":", "\"", "\"a:b\"", "=", "\\,", "\\;", ",;\\\n", "BEGIN:VEVENT", "END:VEVENT\nEND:VCALENDAR", "é\u{1f600}", "\u{feff}\u{a0}\u{85}", "%0A&#10;"];
pub fn any_text() { let mut e: Event = new(); e.description(&v::text("d", "nocr{0,12}")); same(e); }
pub fn any_text_of_todo() { let mut e: Todo = new(); e.append_property(prop1("COMMENT-X", &v::text("d", "line{0,12}"), "P", &v::text("p", "pval{1,8}"))); same(e); }
pub fn long_texts() { let w = v::text("w", "word{60,300}"); same_property(&Property::new("SUMMARY", &w)); same_property(&Property::new("URL", format!("http://{w}/"))); }
pub fn long_parameters() { let w = v::text("w", "word{60,200}"); same_property(&prop1("ATTENDEE", "x", "CN", &format!("{w}: x"))); }
pub fn long_any_text() { let mut e: Event = new(); e.append_property(Property::new("X-A", v::text("d", "line{0,120}"))); match e.to_string().parse::<CalendarComponent>() { Ok(d) => v::check("the component read is equal", d == e.into()), Err(_) => v::check("it is read", false) } }
pub fn long_names() { let n = format!("X-{}", v::text("n", "upper{70,160}")); same_property(&Property::new(&n, "v")); }
pub fn todo_of_long_names() { let n = format!("X-{}", v::text("n", "upper{70,120}")); let mut e: Todo = new(); e.add_property(&n, "v"); same(e); }
pub fn long_parameter_names() { let n = format!("X-{}", v::text("n", "upper{70,160}")); same_property(&prop1("URL", "v", &n, "w")); }

/// all setters
pub fn events() {
    let (s, u, d) = (v::text("s", "plain{0,12}"), v::utc("u"), v::date("d"));
    let mut e: Event = new();
    e.summary(&s).description("d").location("l,m").uid("1").class(Class::Private).url("http://x/;,").priority(v::u32("p", 0, 20)).sequence(7).timestamp(u).last_modified(u).created(u).starts(u).ends(d).status(EventStatus::Tentative);
    same(e);
}
pub fn all_day() { let mut e: Event = new(); e.all_day(v::date("d")).venue("a:b", "c;d"); same(e); }
pub fn floating() { let n = v::ndt("n"); let mut e: Event = new(); e.starts(n).ends(n); same(e); }
pub fn zoned() { let (n, z) = (v::ndt("n"), v::text("z", "tzname{1,20}")); let mut e: Event = new(); e.starts(CalendarDateTime::WithTimezone { date_time: n, tzid: z.clone() }).ends(CalendarDateTime::WithTimezone { date_time: n, tzid: z }); same(e); }
pub fn todos() {
    let (s, u, d) = (v::text("s", "plain{0,12}"), v::utc("u"), v::date("d"));
    let mut e: Todo = new();
    e.summary(&s).percent_complete(v::u8("p", 0, 255)).due(d).completed(u).status(TodoStatus::NeedsAction).starts(u).priority(1);
    same(e);
}
pub fn venues() {
    let s = v::text("s", "plain{0,12}");
    let mut e: Venue = new();
    e.street_address(s.as_str()).extended_address("1;2").locality("a,b").region("c\\d").country("e\nf").postal_code("g");
    same(e);
}
/// repeated properties
macro_rules! repeated { ($($n:ident: $t:ty;)*) => { $( pub fn $n() {
    let (i, s) = (v::pick("multi", MULTI.len()), v::text("s", "word{0,10}"));
    let n = MULTI[i];
    let mut c: $t = new();
    c.append_multi_property(Property::new(n, &s)).append_multi_property(prop1(n, "b", "P", &format!("{s}:"))).append_multi_property(Property::new(n, &s)).append_multi_property(Property::new(MULTI[(i + 1) % MULTI.len()], "c"));
    c.append_property(Property::new("SUMMARY", &s));
    same(c);
} )* } }
repeated! { event_repeated: Event; todo_repeated: Todo; venue_repeated: Venue; }
pub fn many_properties() {
    let s = v::text("s", "word{0,10}");
    let mut e: Event = new();
    for i in 0..30 { e.append_property(Property::new(format!("X-{i}"), &s)).append_multi_property(Property::new("COMMENT", format!("{s}{i}"))); }
    same(e);
}
/// alarms
fn alarm(mut a: Alarm) -> Alarm { stamp(&mut a); a }
pub fn alarms() {
    let (s, d) = (v::text("s", "plain{0,12}"), v::dur("d", -4294967295, 4294967295));
    let mut e: Event = new();
    e.alarm(alarm(Alarm::display(&s, d))).alarm(alarm(Alarm::audio((d, Related::End)))).alarm(alarm(Alarm::display(&s, d)));
    same(e);
}
pub fn absolute_alarms() {
    let mut e: Todo = new();
    e.alarm(alarm(Alarm::audio(v::utc("u")))).alarm(alarm(Alarm::display("x", v::ndt("n")).duration_and_repeat(Duration::minutes(5), 2).done()));
    same(e);
}
/// children of children, equal ones among them
pub fn nested() {
    let s = v::text("s", "plain{0,12}");
    let (mut a, mut b, mut c, mut d): (Event, Todo, Venue, Event) = (new(), new(), new(), new());
    c.add_property("X-C", &s);
    let e = c.clone();
    b.append_component(c.done()).append_component(e).append_multi_property(Property::new("COMMENT", &s));
    a.append_component(b.done()).append_component(alarm(Alarm::audio(Duration::zero()))).summary(&s);
    d.append_component(a.clone()).append_component(a.done());
    same(d);
}
/// a child of any kind in each of them
macro_rules! with_child { ($($n:ident: $t:ty;)*) => { $( pub fn $n() {
    let k = v::pick("child", 6);
    let (mut c, s): ($t, _) = (new(), v::text("s", "plain{0,8}"));
    let (mut e, mut t, mut w): (Event, Todo, Venue) = (new(), new(), new());
    e.summary(&s); t.summary(&s); w.locality(s.as_str());
    match k {
        0 => c.append_component(e),
        1 => c.append_component(t),
        2 => c.append_component(w),
        3 => c.append_component(alarm(Alarm::display(&s, Duration::minutes(5)))),
        4 => c.append_component(e).append_component(t).append_component(w).append_component(alarm(Alarm::audio(Duration::zero()))),
        _ => c.add_property("X-A", &s).append_multi_property(Property::new("COMMENT", &s)).append_component(t).append_component(alarm(Alarm::audio(Duration::zero()))),
    };
    same(c);
} )* } }
with_child! { event_with_child: Event; todo_with_child: Todo; venue_with_child: Venue; }
pub fn deep() {
    let s = v::text("s", "word{0,10}");
    let mut e: Event = new();
    e.summary(&s);
    for i in 0..8 { let mut f: Event = new(); f.append_component(e.done()).add_property("X-N", format!("{s}{i}")); e = f; }
    same(e);
}
/// components of every kind
pub fn every_kind() {
    let (k, s) = (a_kind(), v::text("s", "plain{0,12}"));
    let leaf = |n: &'static str, v: &str| parser::Property { name: n.into(), val: v.to_string().into(), params: vec![] };
    let c = parser::Component { name: k.into(), properties: vec![leaf("UID", "u"), leaf("DTSTAMP", "20200101T000000Z"), leaf("SUMMARY", &s), leaf("ATTENDEE", "a"), leaf("ATTENDEE", "a")],
        components: vec![parser::Component { name: k.into(), properties: vec![leaf("UID", "u"), leaf("DTSTAMP", "20200101T000000Z")], components: vec![] }] };
    same(CalendarComponent::from(c));
}
pub fn any_kind() {
    let (k, s) = (v::text("k", "uname{1,20}"), v::text("s", "word{0,12}"));
    let leaf = |n: &'static str, v: &str| parser::Property { name: n.into(), val: v.to_string().into(), params: vec![] };
    same(CalendarComponent::from(parser::Component { name: k.into(), properties: vec![leaf("UID", "u"), leaf("DTSTAMP", "20200101T000000Z"), leaf("SUMMARY", &s)], components: vec![] }));
}
/// calendars
pub fn calendars() {
    let (s, d) = (v::text("s", "plain{0,12}"), Duration::hours(12));
    let mut c = Calendar::new();
    c.name(&s).description("a,b;c\\d\ne").timezone("Europe/Berlin").ttl(&d).append_property(("X-A", "b")).append_property(("X-A", "b"));
    same_calendar(&c);
    let mut e: Event = new();
    e.summary(&s);
    let mut t: Todo = new();
    t.summary("x");
    let w: Venue = new();
    c.push(t.clone()).push(e.clone()).push(w).push(t).push(e.done());
    same_calendar(&c);
}
pub fn calendar_empty() { same_calendar(&Calendar::empty()); same_calendar(&Calendar::new()); same_calendar(&Calendar::default()); }
pub fn calendar_of_many() {
    let s = v::text("s", "word{0,12}");
    let mut c = Calendar::new();
    for i in 0..15 {
        let mut e: Event = new();
        e.uid(&format!("{i}")).summary(&s);
        if i % 3 == 0 { e.alarm(alarm(Alarm::audio(Duration::minutes(i)))); }
        if i % 2 == 0 { c.push(e.done()); } else { let mut t: Todo = new(); t.description(&s); c.push(t.done()); }
    }
    same_calendar(&c);
}
pub fn calendar_collected() {
    let s = v::text("s", "plain{0,12}");
    let (mut a, mut b): (Event, Event) = (new(), new());
    a.summary(&s);
    b.description(&s);
    same_calendar(&[a.clone(), b.clone()].into_iter().collect::<Calendar>());
    same_calendar(&Calendar::from([b, a]));
}
/// written twice: nothing changes any more
pub fn again() {
    let s = v::text("s", "plain{0,12}");
    let mut e: Event = new();
    e.summary(&s).append_multi_property(prop1("ATTENDEE", &s, "CN", "a:b")).append_property(Property::new("X-A", "\\,"));
    e.alarm(alarm(Alarm::display(&s, Duration::minutes(-5))));
    let mut c = Calendar::new();
    c.push(e.done());
    let one = c.to_string();
    match one.parse::<Calendar>() {
        Ok(d) => v::check("the same text is written again", d.to_string() == one),
        Err(_) => v::check("the calendar is read", false),
    }
}

/// what differs stays different
fn differ(a: impl Into<CalendarComponent>, b: impl Into<CalendarComponent>) {
    let (a, b) = (a.into(), b.into());
    v::check("they differ", a != b && b != a);
    if let (Ok(x), Ok(y)) = (single(&a).parse::<CalendarComponent>(), single(&b).parse::<CalendarComponent>()) { v::check("they differ when read", x != y && x != b && y != a); }
    let (mut j, mut k) = (Calendar::empty(), Calendar::empty());
    j.push(a);
    k.push(b);
    v::check("the calendars differ", j != k);
    if let (Ok(x), Ok(y)) = (j.to_string().parse::<Calendar>(), k.to_string().parse::<Calendar>()) { v::check("the calendars differ when read", x != y); }
}
fn event(f: impl Fn(&mut Event)) -> Event { let mut e: Event = new(); f(&mut e); e }
pub fn another_value() {
    let (n, a, b) = (a_name(), v::text("a", "word{0,6}"), v::text("b", "word{0,6}"));
    v::assume(a != b);
    differ(event(|e| put(e, Property::new(n, &a))), event(|e| put(e, Property::new(n, &b))));
}
pub fn another_property() {
    let (i, j) = (v::pick("i", NAMES.len()), 7);
    v::assume(i != j);
    differ(event(|e| put(e, Property::new(NAMES[i], "a"))), event(|e| put(e, Property::new(NAMES[j], "a"))));
}
pub fn one_property_less() { let n = a_name(); v::assume(n != "UID" && n != "DTSTAMP"); differ(event(|e| put(e, Property::new(n, "a"))), event(|_| ())); }
pub fn one_parameter_less() { let k = a_param(); differ(event(|e| { e.append_property(prop1("X-A", "a", k, "b")); }), event(|e| { e.append_property(Property::new("X-A", "a")); })); }
pub fn another_parameter() {
    let (k, a, b) = (a_param(), v::text("a", "word{1,6}"), v::text("b", "word{1,6}"));
    v::assume(a != b);
    differ(event(|e| { e.append_property(prop1("X-A", "a", k, &a)); }), event(|e| { e.append_property(prop1("X-A", "a", k, &b)); }));
    differ(event(|e| { e.append_multi_property(prop1("ATTENDEE", "a", k, &a)); }), event(|e| { e.append_multi_property(prop1("ATTENDEE", "a", k, &b)); }));
}
pub fn another_order() {
    let (a, b) = (v::text("a", "word{0,6}"), v::text("b", "word{0,6}"));
    v::assume(a != b);
    let n = MULTI[v::pick("m", MULTI.len())];
    let two = |x: &str, y: &str| event(|e| { e.append_multi_property(Property::new(n, x)).append_multi_property(Property::new(n, y)); });
    differ(two(&a, &b), two(&b, &a));
    differ(two(&a, &b), two(&a, &a));
    differ(two(&a, &b), event(|e| { e.append_multi_property(Property::new(n, &a)); }));
    let kids = |x: &str, y: &str| event(|e| { e.append_component(event(|f| { f.summary(x); })).append_component(event(|f| { f.summary(y); })); });
    differ(kids(&a, &b), kids(&b, &a));
    differ(kids(&a, &b), kids(&b, &b));
    differ(kids(&a, &b), event(|e| { e.append_component(event(|f| { f.summary(&a); })); }));
}
pub fn another_kind() {
    let (e, t, w): (Event, Todo, Venue) = (new(), new(), new());
    differ(e.clone(), t.clone());
    differ(e.clone(), w.clone());
    differ(t.clone(), w);
    let kid = |c: CalendarComponent| { let mut e: Event = new(); match c { CalendarComponent::Event(x) => e.append_component(x), CalendarComponent::Todo(x) => e.append_component(x), _ => &mut e }; e };
    differ(kid(e.clone().into()), kid(t.into()));
    differ(kid(e.clone().into()), e);
}
pub fn another_arrangement() {
    // a child of the first child, and a second child
    let s = v::text("s", "word{0,6}");
    let leaf = event(|e| { e.summary(&s); });
    differ(event(|e| { e.append_component(event(|f| { f.append_component(leaf.clone()); })); }), event(|e| { e.append_component(event(|_| ())).append_component(leaf.clone()); }));
}
pub fn another_calendar() {
    let (a, b) = (v::text("a", "word{0,6}"), v::text("b", "word{0,6}"));
    v::assume(a != b);
    let cal = |n: &str, s: &str| { let mut c = Calendar::new(); c.name(n).push(event(|e| { e.summary(s); })); c };
    v::check("another name", cal(&a, &a) != cal(&b, &a));
    v::check("another event", cal(&a, &a) != cal(&a, &b));
    v::check("the same", cal(&a, &b) == cal(&a, &b));
    let (mut x, y) = (cal(&a, &b), cal(&a, &b));
    x.push(event(|_| ()));
    v::check("one more", x != y);
    match (x.to_string().parse::<Calendar>(), y.to_string().parse::<Calendar>()) { (Ok(p), Ok(q)) => v::check("one more when read", p != q && p == x && q == y), _ => v::check("they are read", false) }
}
