//! Time zone conversion never guesses.
use crate::{util::*, v};
use chrono::{DateTime, Datelike, NaiveDate, NaiveDateTime, TimeZone, Timelike, Utc};
use chrono_tz::Tz;
use icalendar::*;

/// the only instant a local time in a zone stands for
fn instant(dt: &NaiveDateTime, zone: &str) -> Option<DateTime<Utc>> {
    let tz: Tz = match zone.parse() { Ok(tz) => tz, Err(_) => return None };
    match tz.from_local_datetime(dt) {
        chrono::LocalResult::Single(x) => Some(x.with_timezone(&Utc)),
        _ => None,
    }
}
fn zoned(dt: NaiveDateTime, tzid: &str) -> CalendarDateTime { CalendarDateTime::WithTimezone { date_time: dt, tzid: tzid.to_string() } }
fn is_zoned(x: &CalendarDateTime, dt: NaiveDateTime, zone: &str) -> bool {
    match x { CalendarDateTime::WithTimezone { date_time, tzid } => *date_time == dt && tzid == zone, _ => false }
}
each! {
    floating_is_none => { v::check("a floating time gives no instant", CalendarDateTime::Floating(v::ndt("n")).try_into_utc() == None); }
    utc_is_itself => { let u = v::utc("u"); v::check("a UTC time gives itself", CalendarDateTime::Utc(u).try_into_utc() == Some(u)); }
    any_zone => {
        let (n, z) = (v::ndt("n"), v::text("z", "any{0,40}"));
        v::check("a zoned time gives its only instant or none", zoned(n, &z).try_into_utc() == instant(&n, &z));
    }
    known_zone => {
        let (n, z) = (v::ndt("n"), v::tz("z"));
        let x = zoned(n, z.name());
        v::check("a zoned time gives its only instant or none", x.try_into_utc() == instant(&n, z.name()));
        match z.from_local_datetime(&n) {
            chrono::LocalResult::Single(t) => v::check("an unambiguous time is converted", x.try_into_utc() == Some(t.with_timezone(&Utc))),
            chrono::LocalResult::Ambiguous(_, _) => v::check("an ambiguous time gives none", x.try_into_utc() == None),
            chrono::LocalResult::None => v::check("a skipped time gives none", x.try_into_utc() == None),
        }
    }
    unknown_zone => {
        let z = v::text("z", "any{0,40}");
        v::assume(z.parse::<Tz>().is_err());
        v::check("an unknown zone gives none", zoned(v::ndt("n"), &z).try_into_utc() == None);
    }
    empty_zone => { v::assume("".parse::<Tz>().is_err()); v::check("an unknown zone gives none", zoned(v::ndt("n"), "").try_into_utc() == None); }
    padded_zone => {
        // the zone's name is taken as it is
        let z = v::tz("z");
        for t in [format!(" {}", z.name()), format!("{} ", z.name()), format!("/{}", z.name())] {
            v::assume(t.parse::<Tz>().is_err());
            v::check("an unknown zone gives none", zoned(v::ndt("n"), &t).try_into_utc() == None);
            break;
        }
    }
    zone_in_lower_case => {
        let z = v::text("z", "any{0,40}");
        v::assume(z.parse::<Tz>().is_err() && z.to_ascii_lowercase().parse::<Tz>().is_ok());
        v::check("an unknown zone gives none", zoned(v::ndt("n"), &z).try_into_utc() == None);
    }
    through_property => {
        let (n, z) = (v::ndt("n"), v::text("z", "any{0,40}"));
        let p = DatePerhapsTime::from(zoned(n, &z)).to_property("DTSTART");
        match DatePerhapsTime::from_property(&p) {
            Some(DatePerhapsTime::DateTime(d)) => v::check("a zoned time gives its only instant or none", d.try_into_utc() == instant(&n, &z)),
            _ => v::check("the property is read", false),
        }
    }
    floating_through_property => {
        let p = DatePerhapsTime::from(v::ndt("n")).to_property("DTSTART");
        match DatePerhapsTime::from_property(&p) {
            Some(DatePerhapsTime::DateTime(d)) => v::check("a floating time gives no instant", d.try_into_utc() == None),
            _ => v::check("the property is read", false),
        }
    }
    utc_through_property => {
        let u = v::utc("u");
        let p = DatePerhapsTime::from(u).to_property("DTSTART");
        match DatePerhapsTime::from_property(&p) {
            Some(DatePerhapsTime::DateTime(d)) => v::check("a UTC time gives itself", d.try_into_utc() == Some(u)),
            _ => v::check("the property is read", false),
        }
    }
    zone_of_event => {
        let (n, z) = (v::ndt("n"), v::tz("z"));
        let mut e = Event::new();
        e.starts((n, z));
        match e.get_start() {
            Some(DatePerhapsTime::DateTime(d)) => v::check("a zoned time gives its only instant or none", d.try_into_utc() == instant(&n, z.name())),
            _ => v::check("the start is read", false),
        }
    }
    zone_parsed => {
        let (n, z) = (v::ndt("n"), v::text("z", "tzname{1,30}"));
        let t = format!("DTSTART;TZID={}:{}\r\n", z, n.format("%Y%m%dT%H%M%S"));
        match parser::Property::try_from(t.as_str()) {
            Ok(p) => match DatePerhapsTime::try_from(&p) {
                Ok(DatePerhapsTime::DateTime(d)) => v::check("a zoned time gives its only instant or none", d.try_into_utc() == instant(&n, &z)),
                _ => v::check("the time is read", false),
            },
            Err(_) => v::check("it is parsed", false),
        }
    }
    floating_parsed => {
        let t = format!("DTSTART:{}\r\n", v::ndt("n").format("%Y%m%dT%H%M%S"));
        match parser::Property::try_from(t.as_str()) {
            Ok(p) => match DatePerhapsTime::try_from(&p) {
                Ok(DatePerhapsTime::DateTime(d)) => v::check("a floating time gives no instant", d.try_into_utc() == None),
                _ => v::check("the time is read", false),
            },
            Err(_) => v::check("it is parsed", false),
        }
    }
    // attaching a zone
    from_pair => {
        let (n, z) = (v::ndt("n"), v::tz("z"));
        v::check("the local time and the zone's name are kept", is_zoned(&CalendarDateTime::from((n, z)), n, z.name()));
        match DatePerhapsTime::from((n, z)) {
            DatePerhapsTime::DateTime(d) => v::check("the local time and the zone's name are kept", is_zoned(&d, n, z.name())),
            _ => v::check("it is a time", false),
        }
    }
    from_named => {
        let (n, z) = (v::ndt("n"), v::text("z", "any{0,40}"));
        match (z.parse::<Tz>(), CalendarDateTime::try_from((n, z.as_str()))) {
            (Ok(t), Ok(x)) => v::check("the local time and the zone's name are kept", is_zoned(&x, n, t.name())),
            (Err(_), Err(_)) => (),
            _ => v::check("exactly the known zones are accepted", false),
        }
    }
    from_named_perhaps => {
        let (n, z) = (v::ndt("n"), v::text("z", "any{0,40}"));
        match (z.parse::<Tz>(), DatePerhapsTime::try_from((n, z.as_str()))) {
            (Ok(t), Ok(DatePerhapsTime::DateTime(x))) => v::check("the local time and the zone's name are kept", is_zoned(&x, n, t.name())),
            (Err(_), Err(_)) => (),
            _ => v::check("exactly the known zones are accepted", false),
        }
    }
    from_date_time => {
        let (u, z) = (v::utc("u"), v::tz("z"));
        let dt = u.with_timezone(&z);
        let local = dt.naive_local();
        v::check("the local time and the zone's name are kept", is_zoned(&CalendarDateTime::from_date_time(dt), local, z.name()));
    }
    from_local_date_time => {
        let (n, z) = (v::ndt("n"), v::tz("z"));
        match z.from_local_datetime(&n) {
            chrono::LocalResult::Single(dt) => v::check("the local time and the zone's name are kept", is_zoned(&CalendarDateTime::from_date_time(dt), n, z.name())),
            chrono::LocalResult::Ambiguous(a, b) => v::check("the local time and the zone's name are kept", is_zoned(&CalendarDateTime::from_date_time(a), n, z.name()) && is_zoned(&CalendarDateTime::from_date_time(b), n, z.name())),
            chrono::LocalResult::None => (),
        }
    }
    from_date_time_and_back => {
        let (n, z) = (v::ndt("n"), v::tz("z"));
        match z.from_local_datetime(&n) {
            chrono::LocalResult::Single(dt) => v::check("the same instant again", CalendarDateTime::from_date_time(dt.clone()).try_into_utc() == Some(dt.with_timezone(&Utc))),
            chrono::LocalResult::Ambiguous(a, b) => v::check("none when ambiguous", CalendarDateTime::from_date_time(a).try_into_utc() == None && CalendarDateTime::from_date_time(b).try_into_utc() == None),
            chrono::LocalResult::None => (),
        }
    }
    from_fields => {
        let (d, z) = (v::date("d"), v::tz("z"));
        let (h, m) = (v::u32("h", 0, 23), v::u32("m", 0, 59));
        let want = d.and_hms_opt(h, m, 0);
        match (want, CalendarDateTime::from_ymd_hm_tzid(d.year(), d.month(), d.day(), h, m, z), ymd_hm_tzid(d.year(), d.month(), d.day(), h, m, z)) {
            (Some(n), Some(x), Some(y)) => v::check("the local time and the zone's name are kept", is_zoned(&x, n, z.name()) && is_zoned(&y, n, z.name())),
            _ => v::check("a date and time is given", false),
        }
    }
    from_wrong_time => {
        let (d, z) = (v::date("d"), v::tz("z"));
        let (h, m) = (v::u32("h", 0, 99), v::u32("m", 0, 99));
        v::assume(h > 23 || m > 59);
        v::check("no such time", CalendarDateTime::from_ymd_hm_tzid(d.year(), d.month(), d.day(), h, m, z) == None && ymd_hm_tzid(d.year(), d.month(), d.day(), h, m, z) == None);
    }
    from_any_fields => {
        let z = v::tz("z");
        let (y, mo, d, h, m) = (v::u32("y", 1, 9999) as i32, v::u32("mo", 0, 4000), v::u32("d", 0, 4000), v::u32("h", 0, 4000), v::u32("m", 0, 4000));
        match NaiveDate::from_ymd_opt(y, mo, d) {
            None => v::check("no such date", CalendarDateTime::from_ymd_hm_tzid(y, mo, d, h, m, z) == None),
            Some(date) => match (date.and_hms_opt(h, m, 0), CalendarDateTime::from_ymd_hm_tzid(y, mo, d, h, m, z)) {
                (Some(n), Some(x)) => v::check("the local time and the zone's name are kept", is_zoned(&x, n, z.name())),
                (None, None) => (),
                _ => v::check("a time exactly when there is one", false),
            },
        }
    }
    constants => {
        for (y, mo, d, h, m, ok) in [(2024, 2, 29, 12, 30, true), (2023, 2, 29, 12, 30, false), (2023, 4, 31, 0, 0, false), (2023, 12, 31, 23, 59, true), (2023, 12, 31, 24, 0, false), (2023, 13, 1, 0, 0, false), (2023, 0, 1, 0, 0, false), (2023, 1, 0, 0, 0, false)] {
            v::check("a time exactly when there is one", CalendarDateTime::from_ymd_hm_tzid(y, mo, d, h, m, Tz::Europe__Berlin).is_some() == ok);
        }
    }
}
