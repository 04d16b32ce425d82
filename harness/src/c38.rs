//! Without its optional features the library does the same: the lemmas that need none of them,
//! on the library built without any.
use crate::{util::*, v};
use chrono::Duration;
use icalendar::*;

#[path = "c01.rs"] pub mod setters;
#[path = "c02.rs"] pub mod names;
#[path = "c03.rs"] pub mod tokens;
#[path = "c06.rs"] pub mod folding;
#[path = "c08.rs"] pub mod framing;
#[path = "c11.rs"] pub mod alarms;
#[path = "c12.rs"] pub mod order;
#[path = "c19.rs"] pub mod calendars;
#[path = "c20.rs"] pub mod finishing;
#[path = "c26.rs"] pub mod repeated;
#[path = "c35.rs"] pub mod short_forms;
#[path = "c36.rs"] pub mod independence;
#[path = "c37.rs"] pub mod equality;
#[path = "c09.rs"] pub mod identity;
#[path = "c23.rs"] pub mod value_types;
#[path = "c25.rs"] pub mod numbers;
#[path = "c27.rs"] pub mod triggers;
#[path = "c33.rs"] pub mod writing;
#[path = "c10.rs"] pub mod dates;
