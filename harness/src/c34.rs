//! Every way of reading gives the same result.
use crate::{util::*, v};
use icalendar::parser::{self, read_calendar, read_calendar_simple, read_components, unfold};
use icalendar::*;

/// all ways of reading a document
fn document(text: &str) {
    let whole = unfold(text);
    let tree = read_components(&whole);
    let simple = read_calendar_simple(&whole);
    let calendar = read_calendar(&whole);
    let owned = text.parse::<Calendar>();
    v::check("all of them read it or none", tree.is_ok() == simple.is_ok() && tree.is_ok() == calendar.is_ok() && tree.is_ok() == owned.is_ok());
    if let (Ok(tree), Ok(simple), Ok(calendar), Ok(owned)) = (tree, simple, calendar, owned) {
        v::check("the simple tree is the same", tree == simple);
        let root = tree.first().map_or(false, |c| c.name == "VCALENDAR");
        if root {
            v::check("the calendar is the first component of the tree", calendar.properties == tree[0].properties && calendar.components == tree[0].components);
            v::check("the calendar is that of the tree", owned == Calendar::from(tree));
        } else {
            v::check("the components are those of the tree", calendar.properties.is_empty() && calendar.components == tree);
            v::check("the components are the same", owned.components == Calendar::from(tree).components);
        }
        v::check("the calendar is that of the parsed one", owned == Calendar::from(calendar));
        v::check("it is read unfolded as well", match whole.parse::<Calendar>() { Ok(k) => k == owned, Err(_) => false });
    }
}
/// all ways of reading one component
fn component(text: &str) {
    document(text);
    let whole = unfold(text);
    let one = parser::Component::try_from(whole.as_str());
    let owned = text.parse::<CalendarComponent>();
    v::check("both read it or none", one.is_ok() == owned.is_ok());
    let inside = format!("BEGIN:VCALENDAR\r\nVERSION:2.0\r\n{text}END:VCALENDAR\r\n");
    let inside_whole = unfold(&inside);
    match (one, owned) {
        (Ok(one), Ok(owned)) => {
            match read_components(&whole) { Ok(t) => v::check("it is the component of the document", t.len() == 1 && t[0] == one), Err(_) => v::check("the document is read", false) }
            match read_calendar(&inside_whole) { Ok(t) => v::check("it is the same inside a calendar", t.components.len() == 1 && t.components[0] == one), Err(_) => v::check("the calendar is read", false) }
            match inside.parse::<Calendar>() { Ok(k) => v::check("and converted", k.components.len() == 1 && k.components[0] == owned), Err(_) => v::check("the calendar is read", false) }
            v::check("the converted one is that of the tree", owned == CalendarComponent::from(one));
        }
        (Err(_), Err(_)) => v::check("it is refused inside a calendar", read_calendar(&inside_whole).is_err() && inside.parse::<Calendar>().is_err()),
        _ => {}
    }
}
/// all ways of reading one property
fn property(line: &str) {
    let one = parser::Property::try_from(line);
    let owned = line.parse::<Property>();
    let inside = format!("BEGIN:VEVENT\r\n{line}\r\nEND:VEVENT\r\n");
    // a property on its own may be followed by other text, which is left
    if parser::Component::try_from(inside.as_str()).is_err() {
        v::check("both read it or none", one.is_ok() == owned.is_ok());
        v::check("it is refused in any component", inside.parse::<CalendarComponent>().is_err() && read_calendar(&inside).is_err() && inside.parse::<Calendar>().is_err());
        let calendar = format!("BEGIN:VCALENDAR\r\n{line}\r\nEND:VCALENDAR\r\n");
        v::check("it is refused in a calendar", read_calendar(&calendar).is_err() && calendar.parse::<Calendar>().is_err());
        return;
    }
    match (one, owned) {
        (Ok(one), Ok(owned)) => {
            v::check("the owned property is that of the parser", owned == Property::from(one.clone()));
            match parser::Component::try_from(inside.as_str()) { Ok(c) => v::check("it is the same inside a component", c.properties.len() == 1 && c.properties[0] == one && c.find_prop(one.name.as_str()) == Some(&one)), Err(_) => v::check("the component is read", false) }
            match inside.parse::<CalendarComponent>() {
                Ok(CalendarComponent::Event(e)) => {
                    let found = match e.properties().get(owned.key()) { Some(p) => Some(p), None => e.multi_properties().get(owned.key()).and_then(|p| p.first()) };
                    v::check("and inside an owned component", found == Some(&owned) && e.properties().len() + e.multi_properties().len() == 1);
                }
                _ => v::check("the component is read", false),
            }
            let calendar = format!("BEGIN:VCALENDAR\r\n{line}\r\nEND:VCALENDAR\r\n");
            match read_calendar(&calendar) { Ok(c) => v::check("and inside a calendar", c.properties.len() == 1 && c.properties[0] == one), Err(_) => v::check("the calendar is read", false) }
            match calendar.parse::<Calendar>() { Ok(c) => v::check("and inside an owned calendar", c.properties.len() == 1 && c.properties[0] == owned), Err(_) => v::check("the calendar is read", false) }
        }
        _ => v::check("what is read inside a component is read on its own", false),
    }
}
fn name() -> String { let n = v::text("n", "uname{1,15}"); v::assume(n != "BEGIN" && n != "END"); n }
fn end() -> &'static str { if v::any("ending") { "\n" } else { "\r\n" } }

/// properties
pub fn property_of_every_name() { property(&format!("{}:{}", a_name(), v::text("w", "word{0,10}"))); }
pub fn property_of_any_name() { property(&format!("{}:{}", name(), v::text("w", "word{0,10}"))); }
pub fn property_of_every_parameter() { property(&format!("ATTENDEE;{}={}:{}", a_param(), v::text("p", "word{1,10}"), v::text("w", "word{0,10}"))); }
pub fn property_of_quoted_parameters() { property(&format!("X-A;P=\"{}\";Q=a,b;R:{}", v::text("p", "pval{1,10}"), v::text("w", "word{0,10}"))); }
pub fn property_of_text() { let w = v::text("w", "word{0,10}"); for x in ["\\,", "\\n", "\\\\n", ":;=\"", "\\", " ", "\té"] { property(&format!("SUMMARY:{x}{w}{x}")); } }
pub fn property_of_plain_value() { property(&format!("X-A:{}", v::text("w", "line{0,8}"))); }
pub fn property_without_value() { property(a_name()); property(&format!("{};A=b", a_name())); }
pub fn property_of_every_type() {
    let w = v::text("w", "word{0,8}");
    for t in ["TEXT", "DATE", "URI", "text", "X-A"] { for n in ["SUMMARY", "URL", "X-A"] { property(&format!("{n};VALUE={t}:{w}\\,{w}\\n")); } }
}
pub fn malformed_properties() {
    let w = ["", "x", "AB"][v::pick("w", 3)];
    for l in [":", ";A=b:", ":x", "A;:x", "A;=b:x", "A;B=\"c:x", "A;B=\"c\"d:x", "A;B=c", "A;B", "é:x", "A,B:x", "A=B:x", "\"A\":x"] { property(&format!("{l}{w}")); }
}
/// components
pub fn every_kind() { let e = end(); component(&format!("BEGIN:{k}{e}X-A:{}{e}END:{k}{e}", v::text("w", "word{0,10}"), k = a_kind())); }
pub fn any_kind() { let n = v::text("k", "uname{1,15}"); v::assume(n != "VCALENDAR"); component(&format!("BEGIN:{n}\r\nSUMMARY:x\r\nEND:{n}\r\n")); }
pub fn every_property_in_a_component() { component(&format!("BEGIN:VEVENT\r\n{n}:{w}\r\n{n};P=q:{w}\r\nEND:VEVENT\r\n", n = a_name(), w = v::text("w", "word{0,10}"))); }
pub fn nested() {
    let (w, e) = (v::text("w", "word{0,10}"), end());
    component(&format!("BEGIN:VEVENT{e}SUMMARY:{w}{e}BEGIN:VALARM{e}ACTION:AUDIO{e}END:VALARM{e}BEGIN:VTODO{e}BEGIN:X-{w}A{e}END:X-{w}A{e}END:VTODO{e}X-B:c{e}END:VEVENT{e}"));
}
pub fn folded() { let w = v::text("w", "word{1,10}"); component(&format!("BEGIN:VEVENT\r\nSUMM\r\n ARY:{w}\r\n  {w}\r\n\t{w}\r\nX-A;P=\"a\r\n b\":c\r\nEND:VE\r\n VENT\r\n")); }
/// one fold of each kind at each place, no other
pub fn folded_once() {
    let (w, f) = (v::text("w", "word{1,10}"), ["\r\n ", "\r\n\t", "\n ", "\n\t"][v::pick("fold", 4)]);
    component(&format!("BEGIN:VEVENT\r\nSUMMARY:{w}{f}{w}\r\nEND:VEVENT\r\n"));
    component(&format!("BEGIN:VEVENT\r\nSUM{f}MARY:{w}\r\nEND:VEVENT\r\n"));
    component(&format!("BEGIN:VEVENT\r\nX-A;P={w}{f};Q=r:{w}\r\nEND:VEVENT\r\n"));
    component(&format!("BEGIN{f}:VEVENT\r\nX-A:{w}\r\nEND:VEVENT\r\n"));
    component(&format!("BEGIN:VEVENT\nX-A:{w}\nEND:VEV{f}ENT\n"));
    component(&format!("BEGIN:VEVENT\nX-A:{f}\nX-B:c{f}\nEND:VEVENT{f}\n"));
    document(&format!("BEGIN:VCALENDAR{f}\r\nX-A:{w}{f}{w}\r\nBEGIN:VEVENT\r\nEND:VEVENT\r\nEND:VCAL{f}ENDAR\r\n"));
    document(&format!("BEGIN:VCALENDAR\r\nBEGIN:VEVENT\r\nX-A:{w}\r\nEND:VEVENT\r\nEND:VCALENDAR{f}\r\n"));
}
pub fn unbalanced() {
    let (n, m) = (v::text("n", "uname{1,10}"), v::text("m", "uname{1,10}"));
    v::assume(n != m);
    component(&format!("BEGIN:{n}\r\nEND:{m}\r\n"));
}
pub fn malformed() {
    let w = v::text("w", "word{0,8}");
    for t in ["", "\r\n", "BEGIN:VEVENT\r\n", "BEGIN:VEVENT\r\nEND:VEVENT", "END:VEVENT\r\n", "BEGIN:VEVENT\r\nX\r\nEND:VEVENT\r\n", "BEGIN:VEVENT\r\n:\r\nEND:VEVENT\r\n", "BEGIN:VEVENT\r\n\r\nEND:VEVENT\r\n", "begin:VEVENT\r\nend:VEVENT\r\n", "BEGIN:VEVENT\r\nEND:VTODO\r\n", "BEGIN:VEVENT\r\nBEGIN:VALARM\r\nEND:VEVENT\r\n", "BEGIN:\r\nEND:\r\n", " BEGIN:VEVENT\r\nEND:VEVENT\r\n", "BEGIN:VEVENT;A=b\r\nEND:VEVENT\r\n", "X-A:b\r\n"] {
        document(t);
        document(&format!("BEGIN:VCALENDAR\r\nX-A:{w}\r\n{t}END:VCALENDAR\r\n"));
    }
}
/// something before or after
pub fn something_before() {
    let w = v::text("w", "word{0,8}");
    for x in ["\u{feff}", "\u{a0}", "\u{0}", " ", "\t", "\n", "\r\n", "\r", "\r\n\r\n", " \r\n", "  ", "x", "\\", ";", "\"", "#\r\n"] {
        document(&format!("{x}BEGIN:VEVENT\r\nX-A:{w}\r\nEND:VEVENT\r\n"));
        document(&format!("{x}BEGIN:VCALENDAR\r\nX-A:{w}\r\nEND:VCALENDAR\r\n"));
        document(&format!("BEGIN:VCALENDAR\r\n{x}BEGIN:VEVENT\r\nX-A:{w}\r\nEND:VEVENT\r\nEND:VCALENDAR\r\n"));
        document(&format!("BEGIN:VCALENDAR\r\n{x}X-A:{w}\r\nBEGIN:VEVENT\r\nEND:VEVENT\r\nEND:VCALENDAR\r\n"));
        document(&format!("BEGIN:VEVENT\r\n{x}X-A:{w}\r\nEND:VEVENT\r\n"));
    }
}
pub fn something_before_a_component() {
    let w = v::text("w", "word{0,8}");
    for x in ["\u{feff}", "\u{a0}", " ", "\t", "  ", "x", ";", "\""] {
        let text = format!("{x}BEGIN:VEVENT\r\nX-A:{w}\r\nEND:VEVENT\r\n");
        v::check("the owned one is read as the parser does", text.parse::<CalendarComponent>().is_ok() == parser::Component::try_from(text.as_str()).is_ok());
        v::check("and as unfolded", text.parse::<CalendarComponent>().is_ok() == parser::Component::try_from(unfold(&text).as_str()).is_ok());
        let line = format!("{x}X-A:{w}");
        v::check("so is the owned property", match (line.parse::<Property>(), parser::Property::try_from(line.as_str())) { (Ok(a), Ok(b)) => a == Property::from(b), (Err(_), Err(_)) => true, _ => false });
        let param = format!("{x};A=b");
        v::check("a parameter has nothing before it", parser::Parameter::try_from(param.as_str()).is_err() || x == ";");
    }
}
pub fn something_after() {
    let w = v::text("w", "word{0,8}");
    for x in ["\u{feff}", "\u{a0}", "\u{0}", " ", "\t", "\n", "\r\n", "\r", "\r\n\r\n", " \r\n", "x", "\"", "#\r\n"] {
        document(&format!("BEGIN:VEVENT\r\nX-A:{w}\r\nEND:VEVENT\r\n{x}"));
        document(&format!("BEGIN:VEVENT\r\nX-A:{w}\r\nEND:VEVENT{x}"));
        document(&format!("BEGIN:VCALENDAR\r\nX-A:{w}\r\nEND:VCALENDAR\r\n{x}"));
        document(&format!("BEGIN:VCALENDAR\r\nBEGIN:VEVENT\r\nX-A:{w}\r\n{x}END:VEVENT\r\nEND:VCALENDAR\r\n"));
        document(&format!("BEGIN:VCALENDAR\r\nBEGIN:VEVENT{x}\r\nX-A:{w}\r\nEND:VEVENT{x}\r\nEND:VCALENDAR\r\n"));
    }
}
/// documents
pub fn documents() {
    let (w, e) = (v::text("w", "word{0,10}"), end());
    let event = format!("BEGIN:VEVENT{e}SUMMARY:{w}{e}END:VEVENT{e}");
    let todo = format!("BEGIN:VTODO{e}X-A;B=c:{w}{e}X-A:d{e}END:VTODO{e}");
    document(&format!("BEGIN:VCALENDAR{e}END:VCALENDAR{e}"));
    document(&format!("BEGIN:VCALENDAR{e}VERSION:2.0{e}{event}{todo}X-C:d{e}{event}END:VCALENDAR{e}"));
    document(&event);
    document(&format!("{event}{todo}"));
    document(&format!("{todo}{event}{todo}"));
    document(&format!("{e}{event}"));
    document(&format!("BEGIN:VCALENDAR{e}{todo}BEGIN:VCALENDAR{e}END:VCALENDAR{e}END:VCALENDAR{e}"));
}
pub fn documents_of_any_text() { document(&v::text("t", "any{0,2}")); }
pub fn documents_of_text_after() { document(&format!("BEGIN:VEVENT\r\nEND:VEVENT\r\n{}", v::text("t", "word{1,12}"))); }
pub fn documents_of_text_between() { document(&format!("BEGIN:VEVENT\r\n{}\r\nEND:VEVENT\r\n", v::text("t", "word{1,12}"))); }
pub fn several_calendars() {
    let w = v::text("w", "word{0,10}");
    let c = |n: &str| format!("BEGIN:VCALENDAR\r\nX-A:{n}{w}\r\nEND:VCALENDAR\r\n");
    document(&format!("{}{}", c("a"), c("b")));
    document(&format!("BEGIN:VEVENT\r\nEND:VEVENT\r\n{}", c("a")));
    document(&format!("{}BEGIN:VEVENT\r\nEND:VEVENT\r\n", c("a")));
}
/// written by the library
pub fn written() {
    let s = v::text("s", "plain{0,12}");
    let mut c = Calendar::new();
    c.name(&s);
    let mut e = Event::new();
    e.uid("u").summary(&s).append_multi_property(prop1("ATTENDEE", "x", "CN", "a:b"));
    e.append_property(Property::new("DTSTAMP", "20200101T000000Z"));
    c.push(e.done());
    document(&c.to_string());
}
pub fn written_event() {
    let mut e = Event::new();
    e.uid("u").summary(&v::text("s", "plain{0,12}")).append_property(Property::new("DTSTAMP", "20200101T000000Z"));
    component(&e.to_string());
}
/// parameters
pub fn parameters() {
    let (k, w) = (v::text("k", "uname{1,12}"), v::text("w", "word{1,10}"));
    for (raw, val) in [(w.clone(), w.clone()), (format!("\"{w}\""), w.clone()), (format!("\"{w}:{w};\""), format!("{w}:{w};"))] {
        match (parser::Parameter::try_from(format!(";{k}={raw}").as_str()), format!("X-A;{k}={raw}:v").parse::<Property>()) {
            (Ok(a), Ok(p)) => {
                v::check("the parameter is that of the property", a.key == k.as_str() && match p.params().get(&k) { Some(b) => b.key() == k && b.value() == val && *b == Parameter::from(a.clone()), None => false });
                v::check("its value", match &a.val { Some(x) => *x == val.as_str(), None => false });
            }
            _ => v::check("it is read", false),
        }
    }
}
