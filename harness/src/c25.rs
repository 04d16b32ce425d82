//! Documented numeric ranges are enforced on write and read.
use crate::{util::*, v};
use icalendar::*;

macro_rules! priority { ($($m:ident: $t:ty;)*) => { $( pub mod $m { use super::*;
    pub fn small() {
        let n = v::u32("n", 0, 10);
        let mut c = <$t>::new();
        c.priority(n);
        v::check("a priority up to 10 is stored as given", only(&c, "PRIORITY", &n.to_string(), &[]) && c.get_priority() == Some(n));
    }
    pub fn large() {
        let n = v::u32("n", 11, 4294967295);
        let mut c = <$t>::new();
        c.priority(n);
        v::check("a priority above 10 is stored as 10", only(&c, "PRIORITY", "10", &[]) && c.get_priority() == Some(10));
    }
    pub fn read_small() {
        let n = v::u32("n", 0, 10);
        let mut c = <$t>::new();
        c.add_property("PRIORITY", n.to_string());
        v::check("a stored priority up to 10 is read", c.get_priority() == Some(n));
    }
    pub fn read_large() {
        let n = v::u32("n", 11, 4294967295);
        let mut c = <$t>::new();
        c.add_property("PRIORITY", n.to_string());
        v::check("a stored priority above 10 is absent", c.get_priority() == None);
    }
    pub fn read_text() {
        let s = v::text("s", "nodigit");
        let mut c = <$t>::new();
        c.add_property("PRIORITY", &*s);
        v::check("a priority that is not a number is absent", c.get_priority() == None);
        c.add_property("PRIORITY", "-1");
        v::check("a negative priority is absent", c.get_priority() == None);
        c.add_property("PRIORITY", "5 ");
        v::check("a priority with trailing text is absent", c.get_priority() == None);
        c.add_property("PRIORITY", "4294967301");
        v::check("a priority beyond the type's range is absent", c.get_priority() == None);
        c.add_property("PRIORITY", "");
        v::check("an empty priority is absent", c.get_priority() == None);
    }
    /// each number that may be stored, and its neighbours
    pub fn each() {
        let mut c = <$t>::new();
        for n in 0u32..=12 {
            c.priority(n);
            v::check("each priority is stored", c.get_priority() == Some(if n > 10 { 10 } else { n }));
            c.add_property("PRIORITY", n.to_string());
            v::check("each stored priority is read in its range", c.get_priority() == if n > 10 { None } else { Some(n) });
            c.add_property("PRIORITY", format!("-{n}x"));
            v::check("others are not", c.get_priority() == None);
            c.sequence(n);
            v::check("each sequence is stored", c.get_sequence() == Some(n));
        }
        for (t, n) in [("100", None), ("110", None), ("010", Some(10)), ("0010", Some(10)), ("00", Some(0)), ("011", None), ("1e1", None), ("0x5", None), ("5.", None), (".5", None), ("4294967296", None), ("4294967306", None), ("18446744073709551617", None), ("٣", None), ("５", None), ("½", None), ("V", None), ("five", None), ("5-6", None), ("1 0", None), ("1_0", None), ("1,0", None)] {
            c.add_property("PRIORITY", t);
            v::check("a priority in another form", c.get_priority() == n);
        }
    }
    /// white space and other forms of numbers do not make a number
    pub fn read_odd() {
        let n = v::u32("n", 0, 10);
        let mut c = <$t>::new();
        for (a, b) in [(" ", ""), ("", " "), ("\t", ""), ("", "\t"), ("", "\n"), ("\n", ""), ("", "\r\n"), ("\u{a0}", ""), ("", ".0"), ("0x", ""), ("", "e0"), ("", ";"), ("\"", "\""), ("", "u"), ("", ",5"), ("--", ""), ("-0", ""), ("\\", "")] {
            c.add_property("PRIORITY", format!("{a}{n}{b}"));
            v::check("a priority with anything else is absent", c.get_priority() == None);
            c.add_property("SEQUENCE", format!("{a}{n}{b}"));
            v::check("a sequence with anything else is absent", c.get_sequence() == None);
        }
    }
    /// whatever stands behind or in front of it
    pub fn read_mixed() {
        let (n, s) = (v::u32("n", 0, 10), v::text("s", "nodigit{1,20}"));
        v::assume(s != "+");
        let mut c = <$t>::new();
        c.add_property("PRIORITY", if v::any("front") { format!("{s}{n}") } else { format!("{n}{s}") });
        v::check("a priority with other text is absent", c.get_priority() == None);
    }
    /// the last one counts
    pub fn again() {
        let (m, n) = (v::u32("m", 0, 4294967295), v::u32("n", 0, 4294967295));
        let mut c = <$t>::new();
        c.priority(m).sequence(m).priority(n).sequence(n);
        v::check("the last priority counts", c.get_priority() == Some(if n > 10 { 10 } else { n }) && c.properties().len() == 2);
        v::check("the last sequence counts", c.get_sequence() == Some(n));
        let d = c.done();
        v::check("finished and copied the same", d.get_priority() == c_get(n) && d.clone().get_priority() == c_get(n) && d.get_sequence() == Some(n));
    }
    fn c_get(n: u32) -> Option<u32> { Some(if n > 10 { 10 } else { n }) }
    /// with other properties around it, and parameters
    pub fn in_company() {
        let n = v::u32("n", 0, 4294967295);
        let mut c = <$t>::new();
        for k in NAMES { c.add_property(k, "7"); }
        c.append_property(Property::new("PRIORITY", n.to_string()).add_parameter("X-P", "3").add_parameter("VALUE", "TEXT").done());
        c.append_multi_property(Property::new("PRIORITY", "9").done());
        v::check("its own value is read", c.get_priority() == if n > 10 { None } else { Some(n) });
    }
    pub fn sequence() {
        let n = v::u32("n", 0, 4294967295);
        let mut c = <$t>::new();
        c.sequence(n);
        v::check("a sequence number is stored as given", only(&c, "SEQUENCE", &n.to_string(), &[]) && c.get_sequence() == Some(n));
    }
    pub fn sequence_text() {
        let s = v::text("s", "nodigit");
        let mut c = <$t>::new();
        c.add_property("SEQUENCE", &*s);
        v::check("a sequence that is not a number is absent", c.get_sequence() == None);
        c.add_property("SEQUENCE", "-1");
        v::check("a negative sequence is absent", c.get_sequence() == None);
    }
} )* } }
priority! { event: Event; todo: Todo; venue: Venue; }
pub mod percent { use super::*;
    pub fn each() {
        let mut c = Todo::new();
        for n in 0u8..=255 {
            c.percent_complete(n);
            v::check("each percentage is stored", c.get_percent_complete() == Some(n.min(100)));
            c.add_property("PERCENT-COMPLETE", n.to_string());
            v::check("each stored percentage is read in its range", c.get_percent_complete() == if n > 100 { None } else { Some(n) });
        }
        for (t, n) in [("100", Some(100)), ("0100", Some(100)), ("00", Some(0)), ("0101", None), ("256", None), ("300", None), ("356", None), ("1e1", None), ("50%", None), ("0.5", None), ("50.", None), ("½", None), ("٣", None), ("half", None), ("1 0", None), ("", None), ("-0", None), ("-1", None)] {
            c.add_property("PERCENT-COMPLETE", t);
            v::check("a percentage in another form", c.get_percent_complete() == n);
        }
    }
    pub fn small() {
        let n = v::u8("n", 0, 100);
        let mut c = Todo::new();
        c.percent_complete(n);
        v::check("a percentage up to 100 is stored as given", only(&c, "PERCENT-COMPLETE", &n.to_string(), &[]) && c.get_percent_complete() == Some(n));
    }
    pub fn large() {
        let n = v::u8("n", 101, 255);
        let mut c = Todo::new();
        c.percent_complete(n);
        v::check("a percentage above 100 is stored as 100", only(&c, "PERCENT-COMPLETE", "100", &[]) && c.get_percent_complete() == Some(100));
    }
    pub fn read_small() {
        let n = v::u8("n", 0, 100);
        let mut c = Todo::new();
        c.add_property("PERCENT-COMPLETE", n.to_string());
        v::check("a stored percentage up to 100 is read", c.get_percent_complete() == Some(n));
    }
    pub fn read_large() {
        let n = v::u8("n", 101, 255);
        let mut c = Todo::new();
        c.add_property("PERCENT-COMPLETE", n.to_string());
        v::check("a stored percentage above 100 is absent", c.get_percent_complete() == None);
        let n = v::u32("m", 256, 4294967295);
        c.add_property("PERCENT-COMPLETE", n.to_string());
        v::check("a stored percentage beyond the type's range is absent", c.get_percent_complete() == None);
    }
    pub fn read_odd() {
        let n = v::u8("n", 0, 100);
        let mut c = Todo::new();
        for (a, b) in [(" ", ""), ("", " "), ("\t", ""), ("", "\t"), ("", "\n"), ("\n", ""), ("", "\r\n"), ("\u{a0}", ""), ("", ".0"), ("0x", ""), ("", "e0"), ("", ";"), ("\"", "\""), ("", "u"), ("", ",5"), ("--", ""), ("-0", ""), ("\\", ""), ("", "%"), ("", " %")] {
            c.add_property("PERCENT-COMPLETE", format!("{a}{n}{b}"));
            v::check("a percentage with anything else is absent", c.get_percent_complete() == None);
        }
    }
    pub fn read_mixed() {
        let (n, s) = (v::u8("n", 0, 100), v::text("s", "nodigit{1,20}"));
        v::assume(s != "+");
        let mut c = Todo::new();
        c.add_property("PERCENT-COMPLETE", if v::any("front") { format!("{s}{n}") } else { format!("{n}{s}") });
        v::check("a percentage with other text is absent", c.get_percent_complete() == None);
    }
    pub fn again() {
        let (m, n) = (v::u8("m", 0, 255), v::u8("n", 0, 255));
        let mut c = Todo::new();
        c.percent_complete(m).percent_complete(n);
        v::check("the last percentage counts", c.get_percent_complete() == Some(if n > 100 { 100 } else { n }) && c.properties().len() == 1);
        let d = c.done();
        v::check("finished and copied the same", d.get_percent_complete() == Some(if n > 100 { 100 } else { n }) && d.clone() == d);
    }
    pub fn whatever_the_status() {
        let n = v::u8("n", 0, 255);
        for x in [TodoStatus::NeedsAction, TodoStatus::Completed, TodoStatus::InProcess, TodoStatus::Cancelled] {
            let mut c = Todo::new();
            c.status(x).percent_complete(n);
            v::check("the percentage stored", c.property_value("PERCENT-COMPLETE") == Some(n.min(100).to_string().as_str()) && c.get_percent_complete() == Some(n.min(100)) && c.get_status() == Some(x));
            c.add_property("PERCENT-COMPLETE", n.to_string());
            v::check("the percentage read", c.get_percent_complete() == if n > 100 { None } else { Some(n) });
            let mut c = Todo::new();
            c.percent_complete(n).status(x);
            v::check("the other way round", c.get_percent_complete() == Some(n.min(100)) && c.get_status() == Some(x));
        }
    }
    pub fn in_company() {
        let n = v::u32("n", 0, 4294967295);
        let mut c = Todo::new();
        for k in NAMES { c.add_property(k, "7"); }
        c.append_property(Property::new("PERCENT-COMPLETE", n.to_string()).add_parameter("X-P", "3").done());
        c.append_multi_property(Property::new("PERCENT-COMPLETE", "9").done());
        v::check("its own value is read", c.get_percent_complete() == if n > 100 { None } else { Some(n as u8) });
    }
    pub fn read_text() {
        let s = v::text("s", "nodigit");
        let mut c = Todo::new();
        c.add_property("PERCENT-COMPLETE", &*s);
        v::check("a percentage that is not a number is absent", c.get_percent_complete() == None);
        c.add_property("PERCENT-COMPLETE", "-1");
        v::check("a negative percentage is absent", c.get_percent_complete() == None);
    }
}

/// from a parsed document
#[cfg(feature = "full")] pub fn parsed() {
    let (n, m) = (v::u32("n", 0, 4294967295), v::u32("m", 0, 4294967295));
    let text = format!("BEGIN:VCALENDAR\r\nBEGIN:VTODO\r\nPRIORITY:{n}\r\nPERCENT-COMPLETE:{m}\r\nEND:VTODO\r\nBEGIN:VEVENT\r\nPRIORITY:{m}\r\nSEQUENCE:{n}\r\nEND:VEVENT\r\nEND:VCALENDAR\r\n");
    match text.parse::<Calendar>() {
        Ok(c) => {
            match c.components[0].as_todo() {
                Some(t) => v::check("a to-do read from text", t.get_priority() == if n > 10 { None } else { Some(n) } && t.get_percent_complete() == if m > 100 { None } else { Some(m as u8) }),
                None => v::check("it is a to-do", false),
            }
            match c.components[1].as_event() {
                Some(t) => v::check("an event read from text", t.get_priority() == if m > 10 { None } else { Some(m) } && t.get_sequence() == Some(n)),
                None => v::check("it is an event", false),
            }
        }
        Err(_) => v::check("it parses", false),
    }
}
/// written and read again
#[cfg(feature = "full")] pub fn written() {
    let (n, m) = (v::u32("n", 0, 4294967295), v::u8("m", 0, 255));
    let mut c = Todo::new();
    c.uid("1").timestamp(v::utc("s")).priority(n).percent_complete(m).sequence(n);
    match c.to_string().parse::<CalendarComponent>() {
        Ok(CalendarComponent::Todo(t)) => v::check("the stored value is read again", t.get_priority() == Some(if n > 10 { 10 } else { n }) && t.get_percent_complete() == Some(if m > 100 { 100 } else { m }) && t.get_sequence() == Some(n)),
        _ => v::check("it parses", false),
    }
}
