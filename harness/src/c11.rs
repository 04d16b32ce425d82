//! Alarms are always complete.
use crate::{util::*, v};
use chrono::Duration;
use icalendar::*;

/// every trigger
fn trigger() -> Trigger {
    if v::any("t1") {
        let d = v::dur("d", -4294967295, 4294967295);
        if v::any("t2") { Trigger::from(d) } else if v::any("t3") { Trigger::before_start(d) } else { Trigger::after_end(d) }
    } else if v::any("t2") {
        Trigger::from(v::utc("u"))
    } else {
        Trigger::from(CalendarDateTime::WithTimezone { date_time: v::ndt("n"), tzid: v::text("z", "any") })
    }
}
/// the properties every alarm has, and no other of these names
fn complete<C: Component>(a: &C, action: &str, t: &Trigger) -> bool {
    let want: Property = t.clone().into();
    a.component_kind() == "VALARM"
        && match a.properties().get("ACTION") { Some(p) => is_prop(p, "ACTION", action, &[]), None => false }
        && match a.properties().get("TRIGGER") { Some(p) => *p == want && p.key() == "TRIGGER", None => false }
        && !a.multi_properties().contains_key("ACTION") && !a.multi_properties().contains_key("TRIGGER")
}
fn no_repeat<C: Component>(a: &C) -> bool { !a.properties().contains_key("DURATION") && !a.properties().contains_key("REPEAT") }
fn repeats<C: Component>(a: &C, d: Duration, n: u32) -> bool {
    (match a.property_value("DURATION") { Some(x) => x == d.to_string(), None => false })
        && (match a.property_value("REPEAT") { Some(x) => x == n.to_string(), None => false })
}
macro_rules! holders { ($($m:ident: $t:ty;)*) => { $( pub mod $m { use super::*;
    pub fn audio() {
        let t = trigger();
        let mut e = <$t>::new();
        e.alarm(Alarm::audio(t.clone()));
        v::check("one alarm is attached", e.components().len() == 1 && e.properties().is_empty() && e.multi_properties().is_empty());
        v::check("an audio alarm is complete", complete(&e.components()[0], "AUDIO", &t));
        v::check("an audio alarm does not repeat by itself", no_repeat(&e.components()[0]));
        v::check("an audio alarm has nothing else", e.components()[0].properties().len() == 2 && e.components()[0].components().is_empty());
    }
    pub fn display() {
        let (s, t) = (v::text("s", "any"), trigger());
        let mut e = <$t>::new();
        e.alarm(Alarm::display(&s, t.clone()));
        let e = e.done();
        v::check("one alarm is attached", e.components().len() == 1);
        v::check("a display alarm is complete", complete(&e.components()[0], "DISPLAY", &t));
        v::check("a display alarm has its description", match e.components()[0].properties().get("DESCRIPTION") { Some(p) => is_prop(p, "DESCRIPTION", &s, &[]), None => false });
        v::check("a display alarm does not repeat by itself", no_repeat(&e.components()[0]));
        v::check("a display alarm has nothing else", e.components()[0].properties().len() == 3 && e.components()[0].components().is_empty());
    }
    pub fn repeated() {
        let (s, t) = (v::text("s", "any"), trigger());
        let (d, n) = (v::dur("r", 0, 4294967295), v::u32("n", 0, 4294967295));
        let mut e = <$t>::new();
        e.alarm(Alarm::display(&s, t.clone()).duration_and_repeat(d, n).done());
        e.alarm(Alarm::audio(t.clone()).duration_and_repeat(d, n).done());
        v::check("two alarms are attached in order", e.components().len() == 2);
        v::check("a repeating display alarm is complete", complete(&e.components()[0], "DISPLAY", &t));
        v::check("a repeating audio alarm is complete", complete(&e.components()[1], "AUDIO", &t));
        v::check("a repeating display alarm keeps its description", e.components()[0].property_value("DESCRIPTION") == Some(s.as_str()));
        v::check("duration and repeat are both set", repeats(&e.components()[0], d, n) && repeats(&e.components()[1], d, n));
        v::check("a repeating alarm has nothing else", e.components()[0].properties().len() == 5 && e.components()[1].properties().len() == 4);
    }
    pub fn repeated_twice() {
        let t = trigger();
        let (d, n) = (v::dur("r", 0, 4294967295), v::u32("n", 0, 4294967295));
        let (d2, n2) = (v::dur("r2", 0, 4294967295), v::u32("n2", 0, 4294967295));
        let mut e = <$t>::new();
        e.alarm(Alarm::audio(t.clone()).duration_and_repeat(d, n).duration_and_repeat(d2, n2).done());
        v::check("the last repetition counts", repeats(&e.components()[0], d2, n2) && complete(&e.components()[0], "AUDIO", &t));
    }
    pub fn twins() {
        let (s, t) = (v::text("s", "any{0,20}"), trigger());
        let mut e = <$t>::new();
        e.alarm(Alarm::display(&s, t.clone()));
        e.alarm(Alarm::display(&s, t.clone()));
        e.alarm(Alarm::audio(t.clone()));
        e.alarm(Alarm::display(&s, t.clone()));
        e.alarm(Alarm::audio(t.clone()));
        e.alarm(Alarm::audio(t.clone()));
        let e = e.done();
        v::check("equal alarms are all attached, in order", e.components().len() == 6
            && complete(&e.components()[0], "DISPLAY", &t) && complete(&e.components()[1], "DISPLAY", &t) && complete(&e.components()[2], "AUDIO", &t)
            && complete(&e.components()[3], "DISPLAY", &t) && complete(&e.components()[4], "AUDIO", &t) && complete(&e.components()[5], "AUDIO", &t));
    }
    pub fn many() {
        let t = trigger();
        let mut e = <$t>::new();
        for i in 0..40u32 { e.alarm(Alarm::audio(t.clone()).duration_and_repeat(Duration::minutes(i as i64), i).done()); }
        v::check("many alarms are all attached", e.components().len() == 40);
        for i in 0..40u32 { v::check("each of them is complete", complete(&e.components()[i as usize], "AUDIO", &t) && repeats(&e.components()[i as usize], Duration::minutes(i as i64), i)); }
    }
    pub fn any_duration() {
        let t = trigger();
        let (d, n) = (v::dur("r", -4294967295, 4294967295), v::u32("n", 0, 4294967295));
        let mut e = <$t>::new();
        e.alarm(Alarm::display("x", t.clone()).duration_and_repeat(d, n));
        v::check("duration and repeat are both set as given", repeats(&e.components()[0], d, n) && complete(&e.components()[0], "DISPLAY", &t));
    }
    pub fn builder() {
        let (s, t) = (v::text("s", "any"), trigger());
        let a = Alarm::display(&s, t.clone()).append_property(Property::new("X-A", &s)).uid("7").done();
        let mut e = <$t>::new();
        e.alarm(a.clone());
        e.summary("x");
        e.alarm(Alarm::audio(Duration::minutes(5)));
        let e = e.done();
        v::check("alarms stay in order", e.components().len() == 2 && complete(&e.components()[0], "DISPLAY", &t) && complete(&e.components()[1], "AUDIO", &Trigger::from(Duration::minutes(5))));
        v::check("an alarm keeps what was added", e.components()[0].property_value("X-A") == Some(s.as_str()) && e.components()[0].get_uid() == Some("7")
            && e.components()[0].property_value("DESCRIPTION") == Some(s.as_str()) && e.components()[0].properties().len() == 5);
        v::check("the holder keeps its own", e.properties().len() == 1 && e.get_summary() == Some("x"));
    }
    /// what the holder says does not change its alarms
    pub fn of_a_full_holder() {
        let (s, t) = (v::text("s", "any{0,20}"), trigger());
        let mut e = <$t>::new();
        e.summary(&s).description(&s).uid(&s).starts(v::utc("u")).ends(v::date("e")).timestamp(v::utc("u")).add_property("DURATION", &s).add_property("ACTION", &s).add_property("TRIGGER", &s)
            .add_multi_property("ATTENDEE", &s).add_multi_property("ATTACH", &s);
        let n = e.properties().len();
        e.alarm(Alarm::audio(t.clone())).alarm(Alarm::display("x", t.clone()));
        let e = e.done();
        v::check("the holder stays as it was", e.properties().len() == n && e.multi_properties().len() == 2 && e.components().len() == 2);
        let (a, b) = (&e.components()[0], &e.components()[1]);
        v::check("an alarm has its own things only", complete(a, "AUDIO", &t) && no_repeat(a) && a.properties().len() == 2 && a.multi_properties().is_empty() && a.components().is_empty());
        v::check("a display alarm too", complete(b, "DISPLAY", &t) && no_repeat(b) && b.properties().len() == 3 && b.multi_properties().is_empty() && b.property_value("DESCRIPTION") == Some("x"));
    }
    /// in the text: the lines of the alarm are inside its frame, which is inside the holder's
    pub fn written() {
        let s = v::text("s", "word{1,30}");
        let (d, n) = (v::dur("r", 1, 4294967295), v::u32("n", 0, 4294967295));
        let mut e = <$t>::new();
        e.uid("1").append_property(Property::new("DTSTAMP", "2"));
        e.alarm(Alarm::display(&s, v::utc("u")).duration_and_repeat(d, n).done());
        match lines(&e.try_into_string().unwrap()) {
            Some(all) => {
                let (x, y) = (place(&all, "BEGIN:VALARM"), place(&all, "END:VALARM"));
                v::check("the alarm is nested", x < y && y == all.len() - 2 && count(&all, "BEGIN:VALARM") == 1 && count(&all, "END:VALARM") == 1);
                v::check("one action", count_start(&all, "ACTION") == 1 && place(&all, "ACTION:DISPLAY") > x && place(&all, "ACTION:DISPLAY") < y);
                v::check("one trigger", count_start(&all, "TRIGGER") == 1);
                v::check("one description", count_start(&all, "DESCRIPTION") == 1 && place(&all, &format!("DESCRIPTION:{}", s)) > x && place(&all, &format!("DESCRIPTION:{}", s)) < y);
                v::check("one repeat", count_start(&all, "REPEAT") == 1 && place(&all, &format!("REPEAT:{}", n)) > x && place(&all, &format!("REPEAT:{}", n)) < y);
                v::check("one duration", count_start(&all, "DURATION") == 1 && place(&all, &format!("DURATION:{}", d)) > x && place(&all, &format!("DURATION:{}", d)) < y);
            }
            None => v::check("every line ends with CRLF", false),
        }
    }
} )* } }
holders! { event: Event; todo: Todo; }
/// an alarm on its own
pub fn alone() {
    let (s, t) = (v::text("s", "any"), trigger());
    let a = Alarm::audio(t.clone());
    v::check("an audio alarm is complete", complete(&a, "AUDIO", &t) && no_repeat(&a));
    let a = Alarm::display(&s, t.clone());
    v::check("a display alarm is complete", complete(&a, "DISPLAY", &t) && no_repeat(&a) && a.property_value("DESCRIPTION") == Some(s.as_str()));
}
/// the count may be written in several ways
pub fn counts() {
    let n = v::u32("n", 0, 4294967295);
    let d = v::dur("r", 0, 4294967295);
    let a = Alarm::audio(Duration::minutes(1)).duration_and_repeat(d, n).done();
    v::check("the count and the duration are written", repeats(&a, d, n));
}
