//! Public values can be shared and sent between threads: bounds the compiler decides.
use crate::v;
use icalendar::*;

fn shared<T: Send + Sync + 'static>(_: &'static str) {}
fn sent<'a, T: Send + Sync + 'a>(_: &'static str, _: &'a str) {}
/// an owned copy outlives what it was read from
fn owned<T: 'static>(_: &T) {}

macro_rules! all { ($($n:ident: $t:ty;)*) => { $( pub fn $n() { shared::<$t>(stringify!($t)); shared::<Vec<$t>>(""); v::check("Send, Sync and 'static", true); } )* } }
all! {
    calendar: Calendar; calendar_component: CalendarComponent; event: Event; todo: Todo; venue: Venue; alarm: Alarm; property: Property; parameter: Parameter;
    trigger: Trigger; related: Related; date_time: CalendarDateTime; date_perhaps_time: DatePerhapsTime; class: Class; event_status: EventStatus; todo_status: TodoStatus; value_type: ValueType;
    parsed_calendar: parser::Calendar<'static>; parsed_component: parser::Component<'static>; parsed_property: parser::Property<'static>; parsed_parameter: parser::Parameter<'static>; parsed_text: parser::ParseString<'static>;
}
/// the parsed tree of any text
pub fn borrowed() {
    fn of<'a>(s: &'a str) {
        sent::<parser::Calendar<'a>>("", s);
        sent::<parser::Component<'a>>("", s);
        sent::<parser::Property<'a>>("", s);
        sent::<parser::Parameter<'a>>("", s);
        sent::<parser::ParseString<'a>>("", s);
    }
    of("");
    v::check("Send and Sync", true);
}
/// errors too
pub fn errors() {
    fn of<A, B: TryFrom<A>>() where B::Error: Send + Sync + 'static {}
    of::<(chrono::NaiveDateTime, &'static str), CalendarDateTime>();
    of::<&'static Property, Trigger>();
    of::<Parameter, ValueType>();
    v::check("Send, Sync and 'static", true);
}
/// what is made from a text does not borrow it
pub fn made_from_text() {
    fn of(s: String) {
        if let Ok(c) = s.parse::<Calendar>() { owned(&c); drop(s); std::thread::spawn(move || c); return; }
        owned(&parser::ParseString::from(s.as_str()).into_owned());
        owned(&parser::ParseString::from(s.as_str()).to_owned());
        owned(&Event::new().summary(&s).done());
        owned(&Property::new(&s, &s));
        owned(&Parameter::new(&s, &s));
        if let Ok(p) = parser::Property::try_from(s.as_str()) { owned(&Property::from(p)); }
        if let Ok(p) = parser::read_calendar(&s) { owned(&Calendar::from(p)); }
        if let Ok(p) = parser::Component::try_from(s.as_str()) { owned(&CalendarComponent::from(p)); }
    }
    v::check("owned values borrow nothing", true);
}
