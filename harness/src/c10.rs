//! Dates and times keep their form and value through write and read.
use crate::{util::*, v};
use icalendar::*;

/// every form of a date with an optional time
fn form(zone: &'static str) -> DatePerhapsTime {
    if v::any("f1") {
        if v::any("f2") { DatePerhapsTime::Date(v::date("d")) } else { DatePerhapsTime::DateTime(CalendarDateTime::Floating(v::ndt("n"))) }
    } else {
        if v::any("f2") { DatePerhapsTime::DateTime(CalendarDateTime::Utc(v::utc("u"))) }
        else { DatePerhapsTime::DateTime(CalendarDateTime::WithTimezone { date_time: v::ndt("n"), tzid: v::text("z", zone) }) }
    }
}
macro_rules! field { ($m:ident: $t:ty, $set:ident, $get:ident, $key:expr) => { pub mod $m { use super::*;
    pub fn set_and_get() {
        let x = form("any");
        let mut c = <$t>::new();
        c.$set(x.clone());
        v::check("the component gives the same form and value back", c.$get() == Some(x.clone()));
        v::check("finishing changes nothing", c.done().$get() == Some(x));
    }
    pub fn property() {
        let x = form("any");
        let mut c = <$t>::new();
        c.$set(x.clone());
        match c.properties().get($key) {
            Some(p) => v::check("the property gives the same form and value back", DatePerhapsTime::from_property(p) == Some(x)),
            None => v::check("the property is there", false),
        }
    }
    #[cfg(feature = "full")] pub fn written_and_parsed() {
        let x = form("pval{1,30}");
        let mut c = <$t>::new();
        c.uid("1").timestamp(v::utc("s"));
        c.$set(x.clone());
        let text = parser::unfold(&c.to_string());
        match parser::Component::try_from(text.as_str()) {
            Ok(k) => {
                match k.find_prop($key) {
                    Some(p) => v::check("the parsed property gives the same form and value back", DatePerhapsTime::try_from(p).ok() == Some(x.clone())),
                    None => v::check("the property is parsed", false),
                }
                match CalendarComponent::from(k) {
                    c2 => match read(&c2) {
                        Some(d) => v::check("the converted component gives the same form and value back", d == x),
                        None => v::check("the converted component has the value", false),
                    }
                }
            }
            Err(_) => v::check("the component parses", false),
        }
    }
    #[cfg(feature = "full")] fn read(c: &CalendarComponent) -> Option<DatePerhapsTime> {
        match c {
            CalendarComponent::Event(e) => DatePerhapsTime::from_property(e.properties().get($key)?),
            CalendarComponent::Todo(e) => DatePerhapsTime::from_property(e.properties().get($key)?),
            _ => None,
        }
    }
    pub fn set_again() {
        // the last value counts, whatever its form was before
        let (x, d, n) = (form("tzname{0,20}"), v::date("d0"), v::ndt("n0"));
        let mut c = <$t>::new();
        if v::any("g1") { c.$set(d); } else if v::any("g2") { c.$set(n); } else { c.$set(CalendarDateTime::WithTimezone { date_time: n, tzid: "Europe/Berlin".to_string() }); }
        c.$set(x.clone());
        v::check("the last value counts", c.$get() == Some(x));
    }
    /// parsed from text in any of the forms
    #[cfg(feature = "full")] pub fn from_text() {
        let x = form("tzname{1,20}");
        let line = match &x {
            DatePerhapsTime::Date(d) => format!("{};VALUE=DATE:{}", $key, d.format("%Y%m%d")),
            DatePerhapsTime::DateTime(CalendarDateTime::Floating(n)) => format!("{}:{}", $key, n.format("%Y%m%dT%H%M%S")),
            DatePerhapsTime::DateTime(CalendarDateTime::Utc(n)) => format!("{}:{}", $key, n.format("%Y%m%dT%H%M%SZ")),
            DatePerhapsTime::DateTime(CalendarDateTime::WithTimezone { date_time, tzid }) => format!("{};TZID={}:{}", $key, tzid, date_time.format("%Y%m%dT%H%M%S")),
        };
        match line.parse::<Property>() {
            Ok(p) => v::check("a line of the standard is read as its form and value", DatePerhapsTime::from_property(&p) == Some(x.clone())),
            Err(_) => v::check("the line parses", false),
        }
        match parser::Property::try_from(line.as_str()) {
            Ok(p) => v::check("the parser reads a line of the standard as its form and value", DatePerhapsTime::try_from(&p).ok() == Some(x.clone())),
            Err(_) => v::check("the parser reads the line", false),
        }
    }
} } }
field! { event_start: Event, starts, get_start, "DTSTART" }
field! { event_end: Event, ends, get_end, "DTEND" }
field! { todo_start: Todo, starts, get_start, "DTSTART" }
field! { todo_end: Todo, ends, get_end, "DTEND" }
field! { todo_due: Todo, due, get_due, "DUE" }

/// a fraction of a second is left out, the second stays
pub fn fractions() {
    let n = v::ndt_ns("n");
    let (u, text) = (chrono::TimeZone::from_utc_datetime(&chrono::Utc, &n), n.format("%Y%m%dT%H%M%S").to_string());
    let mut e = Event::new();
    e.starts(n).ends(u).timestamp(u).created(u).last_modified(u);
    let mut t = Todo::new();
    t.due(CalendarDateTime::WithTimezone { date_time: n, tzid: "Europe/Berlin".to_string() }).completed(u);
    v::check("a floating time keeps its second", e.property_value("DTSTART") == Some(text.as_str()));
    v::check("a time with zone too", t.property_value("DUE") == Some(text.as_str()));
    let utc = format!("{text}Z");
    for k in ["DTEND", "DTSTAMP", "CREATED", "LAST-MODIFIED"] { v::check("a UTC time too", e.property_value(k) == Some(utc.as_str())); }
    v::check("a completion too", t.property_value("COMPLETED") == Some(utc.as_str()));
    let p = Property::from(Trigger::from(u));
    v::check("a trigger too", p.value() == utc.as_str());
}
macro_rules! stamps { ($($m:ident: $t:ty, $set:ident, $get:ident, $key:expr;)*) => { $( pub mod $m { use super::*;
    pub fn stamp() {
        let t = v::utc("t");
        let mut c = <$t>::new();
        c.$set(t);
        v::check("a stamp is read back", c.$get() == Some(t));
        v::check("a stamp is in the UTC form", match c.property_value($key) { Some(x) => x == t.format("%Y%m%dT%H%M%SZ").to_string(), None => false });
        match c.properties().get($key) {
            Some(p) => v::check("a stamp is read as a UTC time", DatePerhapsTime::from_property(p) == Some(t.into())),
            None => v::check("the stamp is there", false),
        }
    }
    #[cfg(feature = "full")] pub fn written_and_parsed() {
        let t = v::utc("t");
        let mut c = <$t>::new();
        c.uid("1").timestamp(v::utc("s"));
        c.$set(t);
        let text = c.try_into_string().unwrap();
        match parser::Component::try_from(text.as_str()) {
            Ok(k) => match k.find_prop($key) {
                Some(p) => v::check("a parsed stamp gives the same time back", DatePerhapsTime::try_from(p).ok() == Some(t.into())),
                None => v::check("the stamp is parsed", false),
            },
            Err(_) => v::check("the component parses", false),
        }
        match text.parse::<Calendar>() { _ => () }
    }
} )* } }
stamps! {
    event_timestamp: Event, timestamp, get_timestamp, "DTSTAMP"; todo_timestamp: Todo, timestamp, get_timestamp, "DTSTAMP"; venue_timestamp: Venue, timestamp, get_timestamp, "DTSTAMP";
    event_created: Event, created, get_created, "CREATED"; todo_created: Todo, created, get_created, "CREATED"; venue_created: Venue, created, get_created, "CREATED";
    event_modified: Event, last_modified, get_last_modified, "LAST-MODIFIED"; todo_modified: Todo, last_modified, get_last_modified, "LAST-MODIFIED"; venue_modified: Venue, last_modified, get_last_modified, "LAST-MODIFIED";
    todo_completed: Todo, completed, get_completed, "COMPLETED";
}
macro_rules! days { ($($m:ident: $t:ty;)*) => { $( pub fn $m() {
    let d = v::date("d");
    let mut c = <$t>::new();
    c.all_day(d);
    v::check("all_day starts on the date", c.get_start() == Some(DatePerhapsTime::Date(d)));
    v::check("all_day ends on the date", c.get_end() == Some(DatePerhapsTime::Date(d)));
} )* } }
days! { event_all_day: Event; todo_all_day: Todo; }
/// conversions from the types of chrono choose the form
pub fn conversions() {
    let (d, n, u) = (v::date("d"), v::ndt("n"), v::utc("u"));
    v::check("a date is a date", DatePerhapsTime::from(d) == DatePerhapsTime::Date(d));
    v::check("a naive time is floating", DatePerhapsTime::from(n) == DatePerhapsTime::DateTime(CalendarDateTime::Floating(n)));
    v::check("a UTC time is UTC", DatePerhapsTime::from(u) == DatePerhapsTime::DateTime(CalendarDateTime::Utc(u)));
    v::check("a naive time is a floating time", CalendarDateTime::from(n) == CalendarDateTime::Floating(n));
    v::check("a UTC time is a UTC time", CalendarDateTime::from(u) == CalendarDateTime::Utc(u));
    v::check("a calendar time is itself", DatePerhapsTime::from(CalendarDateTime::Utc(u)) == DatePerhapsTime::DateTime(CalendarDateTime::Utc(u)));
}
/// the date of any form is its own date
pub fn date_of() {
    let (d, n, u, z) = (v::date("d"), v::ndt("n"), v::utc("u"), v::text("z", "any"));
    let zoned = CalendarDateTime::WithTimezone { date_time: n, tzid: z };
    v::check("the date of a date", DatePerhapsTime::from(d).date_naive() == d && chrono::NaiveDate::from(DatePerhapsTime::from(d)) == d);
    v::check("the date of a floating time", DatePerhapsTime::from(n).date_naive() == n.date() && chrono::NaiveDate::from(DatePerhapsTime::from(n)) == n.date());
    v::check("the date of a UTC time", DatePerhapsTime::from(u).date_naive() == u.date_naive() && chrono::NaiveDate::from(DatePerhapsTime::from(u)) == u.date_naive());
    v::check("the date of a zoned time", DatePerhapsTime::from(zoned.clone()).date_naive() == n.date() && chrono::NaiveDate::from(DatePerhapsTime::from(zoned)) == n.date());
}
/// values that are no date are no date
pub fn no_date() {
    let s = v::text("s", "nodigit");
    v::check("no date", DatePerhapsTime::from_property(&prop1("DTSTART", &s, "VALUE", "DATE")).is_none());
    v::check("no time", DatePerhapsTime::from_property(&Property::new("DTSTART", &s)).is_none());
    v::check("no zoned time", DatePerhapsTime::from_property(&prop1("DTSTART", &s, "TZID", "UTC")).is_none());
}

/// a date stays a date whatever else is said about it
#[cfg(feature = "full")] pub fn date_in_company() {
    let d = v::date("d");
    for (a, b) in [("", ";TZID=Europe/Berlin"), (";TZID=Europe/Berlin", ""), ("", ";TZID="), (";X-A=b", ";TZID=UTC"), (";tzid=b", "")] {
        let line = format!("DTSTART{a};VALUE=DATE{b}:{}", d.format("%Y%m%d"));
        match line.parse::<Property>() {
            Ok(p) => {
                v::check("it is a date", DatePerhapsTime::from_property(&p) == Some(d.into()));
                let mut e = Event::new();
                e.append_property(p);
                v::check("it is the start", e.get_start() == Some(d.into()));
            }
            Err(_) => v::check("the line parses", false),
        }
        match parser::Property::try_from(line.as_str()) {
            Ok(p) => v::check("in the parser too", DatePerhapsTime::try_from(&p).ok() == Some(d.into())),
            Err(_) => v::check("the parser reads the line", false),
        }
    }
}
/// other parameters around the ones that count
#[cfg(feature = "full")] pub fn in_company() {
    let x = form("tzname{1,20}");
    let k = "DTSTART";
    let (val, own) = match &x {
        DatePerhapsTime::Date(d) => (d.format("%Y%m%d").to_string(), vec![("VALUE", "DATE".to_string())]),
        DatePerhapsTime::DateTime(CalendarDateTime::Floating(n)) => (n.format("%Y%m%dT%H%M%S").to_string(), vec![]),
        DatePerhapsTime::DateTime(CalendarDateTime::Utc(n)) => (n.format("%Y%m%dT%H%M%SZ").to_string(), vec![]),
        DatePerhapsTime::DateTime(CalendarDateTime::WithTimezone { date_time, tzid }) => (date_time.format("%Y%m%dT%H%M%S").to_string(), vec![("TZID", tzid.clone())]),
    };
    let a = PARAMS[v::pick("a", PARAMS.len())];
    if a == "TZID" { return; }
    // before and after
    let mut line = String::from(k);
    let first = v::any("first");
    if first { line = format!("{line};{a}=a"); }
    for (p, w) in &own { line = format!("{line};{p}={w}"); }
    if !first { line = format!("{line};{a}=a;X-BAR=b"); }
    line = format!("{line}:{val}");
    match line.parse::<Property>() {
        Ok(p) => v::check("other parameters change nothing", DatePerhapsTime::from_property(&p) == Some(x.clone())),
        Err(_) => v::check("the line parses", false),
    }
    match parser::Property::try_from(line.as_str()) {
        Ok(p) => v::check("in the parser too", DatePerhapsTime::try_from(&p).ok() == Some(x.clone())),
        Err(_) => v::check("the parser reads the line", false),
    }
    // an explicit value type
    if own.is_empty() || own[0].0 == "TZID" {
        let line = match own.first() { Some((p, w)) => format!("{k};VALUE=DATE-TIME;{p}={w}:{val}"), None => format!("{k};VALUE=DATE-TIME:{val}") };
        match line.parse::<Property>() {
            Ok(p) => v::check("an explicit value type changes nothing", DatePerhapsTime::from_property(&p) == Some(x.clone())),
            Err(_) => v::check("the line parses", false),
        }
        match parser::Property::try_from(line.as_str()) {
            Ok(p) => v::check("an explicit value type changes nothing in the parser", DatePerhapsTime::try_from(&p).ok() == Some(x.clone())),
            Err(_) => v::check("the parser reads the line", false),
        }
    }
}
/// all fields of one component at once
pub fn together() {
    let (s, e) = (form("tzname{1,20}"), DatePerhapsTime::from(v::utc("x")));
    let (t, c, m, k) = (v::utc("t"), v::utc("c"), v::utc("m"), v::utc("k"));
    let d = v::date("dd");
    let mut todo = Todo::new();
    todo.due(d).completed(k).last_modified(m).created(c).timestamp(t).ends(e.clone()).starts(s.clone());
    v::check("every field keeps its own", todo.get_start() == Some(s.clone()) && todo.get_end() == Some(e.clone()) && todo.get_due() == Some(d.into()) && todo.get_completed() == Some(k)
        && todo.get_last_modified() == Some(m) && todo.get_created() == Some(c) && todo.get_timestamp() == Some(t));
    todo.uid("1");
    #[cfg(feature = "full")] match todo.to_string().parse::<CalendarComponent>() {
        Ok(CalendarComponent::Todo(u)) => v::check("also when written and read", u.get_start() == Some(s) && u.get_end() == Some(e) && u.get_due() == Some(d.into()) && u.get_completed() == Some(k)
            && u.get_last_modified() == Some(m) && u.get_created() == Some(c) && u.get_timestamp() == Some(t)),
        _ => v::check("it parses", false),
    }
}
/// times at the ends of the day, the year and the calendar
pub fn edges() {
    for (y, m, d) in [(1, 1, 1), (999, 12, 31), (1000, 1, 1), (1900, 2, 28), (1969, 12, 31), (1970, 1, 1), (2000, 2, 29), (2024, 2, 29), (2038, 1, 19), (9999, 12, 31)] {
        for (h, i, s) in [(0, 0, 0), (0, 0, 1), (9, 5, 7), (12, 0, 0), (23, 59, 59)] {
            let n = chrono::NaiveDate::from_ymd_opt(y, m, d).unwrap().and_hms_opt(h, i, s).unwrap();
            for x in [DatePerhapsTime::from(n.date()), n.into(), n.and_utc().into(), CalendarDateTime::WithTimezone { date_time: n, tzid: "Europe/Berlin".to_string() }.into()] {
                let mut c = Event::new();
                c.starts(x.clone());
                v::check("read back", c.get_start() == Some(x.clone()));
                #[cfg(feature = "full")] v::check("read back from the line", match ser(c.properties().get("DTSTART").unwrap()).parse::<Property>() { Ok(p) => DatePerhapsTime::from_property(&p) == Some(x), Err(_) => false });
            }
        }
    }
}
/// the text of a time on its own
pub fn text_alone() {
    let (n, u) = (v::ndt("n"), v::utc("u"));
    v::check("a floating time", n.format("%Y%m%dT%H%M%S").to_string().parse() == Ok(CalendarDateTime::Floating(n)));
    v::check("a UTC time", u.format("%Y%m%dT%H%M%SZ").to_string().parse() == Ok(CalendarDateTime::Utc(u)));
    let mut e = Event::new();
    e.starts(n).ends(u);
    v::check("as it is written", e.property_value("DTSTART").map(|s| s.parse::<CalendarDateTime>()) == Some(Ok(CalendarDateTime::Floating(n))) && e.property_value("DTEND").map(|s| s.parse::<CalendarDateTime>()) == Some(Ok(CalendarDateTime::Utc(u))));
}
/// a value in the form of another type
pub fn another_form() {
    let (d, n, u) = (v::date("d"), v::ndt("n"), v::utc("u"));
    let (ds, ns, us) = (d.format("%Y%m%d").to_string(), n.format("%Y%m%dT%H%M%S").to_string(), u.format("%Y%m%dT%H%M%SZ").to_string());
    v::check("a date is no time", ds.parse::<CalendarDateTime>().is_err());
    for k in ["DTSTART", "DTEND", "DUE"] {
        v::check("a time is no date", DatePerhapsTime::from_property(&prop1(k, &ns, "VALUE", "DATE")).is_none() && DatePerhapsTime::from_property(&prop1(k, &us, "VALUE", "DATE")).is_none());
        v::check("a date with a zone is no time", DatePerhapsTime::from_property(&prop1(k, &ds, "TZID", "Europe/Berlin")).is_none());
    }
    for s in ["", "T", "Z", "2020010", "20200101T", "20200101T0000", "20200101T000000ZZ", "20200101T000000+0100", "2020-01-01T00:00:00Z", "20201301T000000Z", "20200230T000000", "20200101T240000Z", "20200101T006000Z", " 20200101T000000Z x"] {
        v::check("no time", s.parse::<CalendarDateTime>().is_err() && DatePerhapsTime::from_property(&Property::new("DTSTART", s)).is_none());
        v::check("no date", DatePerhapsTime::from_property(&prop1("DTSTART", s, "VALUE", "DATE")).is_none());
    }
}
